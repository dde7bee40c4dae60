//! C12 to C14: match checking.

mod lang;

use lang::{Ask, Con, Cx, Def, FAULT, L, LIMIT, Style, Ty, flatten, matches, values};
use pattern_match::{CheckError, ConPat, Pat, RawPat, check};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

/// A pattern to be read at some type.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum P {
  Any,
  /// A wildcard without identifier.
  Anon,
  Con(u32, Vec<P>),
  Or(Vec<P>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Types {
  defs: Vec<Def>,
  style: Style,
  prune: bool,
  lit_any: bool,
  /// Types refer to later types only.
  acyclic: bool,
}

impl Types {
  fn cx(&self) -> Cx {
    let n = self.defs.len();
    let mut defs = self.defs.clone();
    if self.acyclic {
      for (i, d) in defs.iter_mut().enumerate() {
        let mut fix = |v: &mut Vec<usize>| {
          if i + 1 == n {
            v.clear();
          }
          for t in v {
            *t = i + 1 + *t % (n - i - 1);
          }
        };
        match d {
          Def::Data(cs) => cs.iter_mut().for_each(&mut fix),
          Def::Rec(fs) => fix(fs),
          Def::Lit => {}
        }
      }
    }
    Cx::new(&defs, self.style, self.prune, self.lit_any)
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  types: Types,
  /// Refinements of a single wildcard into all constructors, at the hole of this number.
  grow: Vec<u16>,
  /// What then happens to the rows.
  edits: Vec<Edit>,
  rows: Vec<P>,
  /// Whether the free rows come first.
  first: bool,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
  Drop(u16),
  Dup(u16),
  Swap(u16, u16),
  /// Make alternatives of the row and the one after it.
  Or(u16),
  Widen(u16),
}

fn holes(p: &mut P, n: &mut usize, f: &mut dyn FnMut(&mut P) -> bool) -> bool {
  match p {
    P::Any | P::Anon => {
      if *n == 0 {
        return f(p);
      }
      *n -= 1;
      false
    }
    P::Con(_, a) | P::Or(a) => a.iter_mut().any(|q| holes(q, n, f)),
  }
}

/// The type of the n-th hole.
fn hole_ty(cx: &Cx, p: &P, ty: Ty, n: &mut usize) -> Option<Ty> {
  match p {
    P::Any | P::Anon => {
      if *n == 0 {
        return Some(ty);
      }
      *n -= 1;
      None
    }
    P::Con(c, a) => {
      let tys = cx.args(ty, &con_at(cx, ty, *c)?)?;
      a.iter().zip(tys).find_map(|(q, t)| hole_ty(cx, q, t, n))
    }
    P::Or(a) => a.iter().find_map(|q| hole_ty(cx, q, ty, n)),
  }
}

fn count_holes(p: &P) -> usize {
  match p {
    P::Any | P::Anon => 1,
    P::Con(_, a) | P::Or(a) => a.iter().map(count_holes).sum(),
  }
}

fn grow(cx: &Cx, steps: &[u16]) -> Vec<P> {
  let mut rows = vec![P::Any];
  for &s in steps {
    if rows.len() > 14 {
      break;
    }
    let total: usize = rows.iter().map(count_holes).sum();
    if total == 0 {
      break;
    }
    let mut n = usize::from(s) % total;
    let i = rows
      .iter()
      .position(|r| {
        let c = count_holes(r);
        if n < c {
          true
        } else {
          n -= c;
          false
        }
      })
      .unwrap();
    let ty = hole_ty(cx, &rows[i], 0, &mut n.clone());
    let Some(ty) = ty else { continue };
    let new: Vec<P> = match &cx.defs[ty] {
      Def::Data(cs) if cs.len() <= 8 => (0..cs.len()).map(|c| P::Con(c as u32, vec![P::Any; cs[c].len()])).collect(),
      Def::Data(_) => continue,
      Def::Rec(fs) => vec![P::Con(0, vec![P::Any; fs.len()])],
      Def::Lit => vec![P::Con(0, vec![]), P::Any],
    };
    let row = rows.remove(i);
    for (k, p) in new.into_iter().enumerate() {
      let mut r = row.clone();
      holes(&mut r, &mut n.clone(), &mut |h| {
        *h = p.clone();
        true
      });
      rows.insert(i + k, r);
    }
  }
  rows
}

fn con_at(cx: &Cx, ty: Ty, c: u32) -> Option<Con> {
  match &cx.defs[ty] {
    Def::Data(cs) if cs.is_empty() => None,
    Def::Data(cs) => Some(Con::Variant(c as usize % cs.len())),
    Def::Rec(_) => Some(Con::Record),
    Def::Lit => Some(Con::Lit(if c < 12 { c % 5 } else { c })),
  }
}

/// Reads the pattern at a type, numbering the identifiers in preorder.
fn read(cx: &Cx, ty: Ty, p: &P, next: &mut u32) -> Pat<L> {
  let id = *next;
  *next += 1;
  match p {
    P::Any => made(Pat::zero(Con::Any, id), Some(&Con::Any), 0, Some(id)),
    P::Anon => made(Pat::any_no_idx(), Some(&Con::Any), 0, None),
    P::Or(ps) => {
      let ps: Vec<_> = ps.iter().map(|p| read(cx, ty, p, next)).collect();
      let n = ps.len();
      made(Pat::or(ps, id), None, n, Some(id))
    }
    P::Con(c, args) => match con_at(cx, ty, *c) {
      None => made(Pat::zero(Con::Any, id), Some(&Con::Any), 0, Some(id)),
      Some(con) => {
        let tys = cx.args(ty, &con).unwrap();
        let args: Vec<_> = args.iter().zip(tys).map(|(p, t)| read(cx, t, p, next)).collect();
        let n = args.len();
        made(Pat::con(con.clone(), args, id), Some(&con), n, Some(id))
      }
    },
  }
}

/// The pattern, which must be what was asked for.
fn made(p: Pat<L>, con: Option<&Con>, len: usize, id: Option<u32>) -> Pat<L> {
  let got = match &p.raw {
    RawPat::Con(c) => (Some(&c.con), c.args.len(), p.idx),
    RawPat::Or(ps) => (None, ps.len(), p.idx),
  };
  assert_eq!(got, (con, len, id), "constructor, number of arguments and identifier of a pattern just made");
  p
}

fn rows(cx: &Cx, c: &Case) -> Vec<P> {
  let mut rs = if c.grow.is_empty() && c.edits.is_empty() { vec![] } else { grow(cx, &c.grow) };
  for e in &c.edits {
    if rs.is_empty() {
      break;
    }
    let at = |i: &u16| usize::from(*i) % rs.len();
    match e {
      Edit::Drop(i) => {
        let i = at(i);
        rs.remove(i);
      }
      Edit::Dup(i) => {
        let r = rs[at(i)].clone();
        rs.push(r);
      }
      Edit::Swap(i, j) => {
        let (i, j) = (at(i), at(j));
        rs.swap(i, j);
      }
      Edit::Or(i) => {
        let i = at(i);
        if i + 1 < rs.len() {
          let b = rs.remove(i + 1);
          let a = rs.remove(i);
          // share the head if they have the same constructor
          let joined = match (a, b) {
            (P::Con(x, xs), P::Con(y, ys)) if x == y && xs.len() == ys.len() => {
              P::Con(x, xs.into_iter().zip(ys).map(|(p, q)| P::Or(vec![p, q])).collect())
            }
            (a, b) => P::Or(vec![a, b]),
          };
          rs.insert(i, joined);
        }
      }
      Edit::Widen(i) => {
        let i = at(i);
        if let P::Con(_, args) = &mut rs[i]
          && let Some(a) = args.first_mut()
        {
          *a = P::Any;
        }
      }
    }
  }
  if c.first { [c.rows.clone(), rs].concat() } else { [rs, c.rows.clone()].concat() }
}

fn pats(cx: &Cx, c: &Case) -> Vec<Pat<L>> {
  let mut next = 0;
  rows(cx, c).iter().map(|p| read(cx, 0, p, &mut next)).collect()
}

fn ids(p: &Pat<L>, out: &mut BTreeSet<u32>) {
  out.extend(p.idx);
  let (RawPat::Con(ConPat { args: ps, .. }) | RawPat::Or(ps)) = &p.raw;
  for p in ps {
    ids(p, out);
  }
}

fn has_or(p: &Pat<L>) -> bool {
  match &p.raw {
    RawPat::Or(_) => true,
    RawPat::Con(c) => c.args.iter().any(has_or),
  }
}

fn labels(c: &Case, cx: &Cx, ps: &[Pat<L>], cov: &mut Cov) {
  cov.label_if(ps.iter().any(has_or), "alternatives");
  cov.label_if(!cx.inhabited(0), "empty type");
  cov.label_if((0..cx.defs.len()).any(|t| cx.is_recursive(t)), "recursive types");
  cov.label_if(cx.defs.iter().any(|d| matches!(d, Def::Lit)), "literal types");
  cov.label_if((0..cx.defs.len()).any(|t| !cx.inhabited(t)), "some empty type");
  cov.label(match c.types.style {
    Style::Lazy => "lazy splitting",
    Style::Eager => "eager splitting",
    Style::Depth => "splitting by depth",
    Style::Rest => "splitting with a rest constructor",
  });
}

const MAX: usize = 4000;

/// `None` if the case is too large to decide by enumeration.
fn run(c: &Case, cov: &mut Cov) -> Result<Option<(Cx, Vec<Pat<L>>, pattern_match::Check<L>)>, String> {
  let mut cx = c.types.cx();
  let ps = pats(&cx, c);
  labels(c, &cx, &ps, cov);
  match check::<L>(&mut cx, ps.clone(), 0) {
    Ok(r) => Ok(Some((cx, ps, r))),
    Err(CheckError(LIMIT)) => {
      cov.label("too large (skipped)");
      Ok(None)
    }
    Err(CheckError(e)) => Err(format!("well-formed patterns rejected: {e}")),
  }
}

fn check_missing(c: &Case, cov: &mut Cov) -> Outcome {
  let Some((cx, ps, res)) = run(c, cov)? else { return Ok(()) };
  let all: Vec<&Pat<L>> = ps.iter().chain(&res.missing).collect();
  let Some(vals) = values(&cx, 0, &all, MAX) else {
    cov.label("too large (skipped)");
    return Ok(());
  };
  let unmatched: Vec<_> = vals.iter().filter(|v| !ps.iter().any(|p| matches(p, v, &mut vec![]))).collect();
  ensure_eq!(res.missing.is_empty(), unmatched.is_empty(), "no missing patterns ({} values unmatched)", unmatched.len());
  for w in &res.missing {
    ensure!(!has_or(w), "missing pattern with alternatives: {w:?}");
    ensure!(vals.iter().any(|v| matches(w, v, &mut vec![])), "missing pattern {w:?} describes no value");
    if !c.types.lit_any {
      for v in &vals {
        ensure!(
          !matches(w, v, &mut vec![]) || !ps.iter().any(|p| matches(p, v, &mut vec![])),
          "missing pattern {w:?} describes {v:?}, which is matched"
        );
      }
    }
  }
  cov.label_if(unmatched.is_empty() && !vals.is_empty(), "exhaustive");
  cov.label_if(res.missing.len() > 1, "several missing patterns");
  if ps.len() >= 2 && vals.len() >= 3 {
    cov.nontrivial();
  }
  Ok(())
}

fn check_unreachable(c: &Case, cov: &mut Cov) -> Outcome {
  let Some((cx, ps, res)) = run(c, cov)? else { return Ok(()) };
  let all: Vec<&Pat<L>> = ps.iter().collect();
  let Some(vals) = values(&cx, 0, &all, MAX) else {
    cov.label("too large (skipped)");
    return Ok(());
  };
  let mut want = BTreeSet::new();
  for p in &ps {
    ids(p, &mut want);
  }
  let total = want.len();
  for v in &vals {
    let mut used = Vec::new();
    ps.iter().any(|p| matches(p, v, &mut used));
    for u in used {
      want.remove(&u);
    }
  }
  let got: BTreeSet<u32> = res.unreachable.iter().copied().collect();
  ensure_eq!(got, want, "unreachable identifiers of {ps:?}");
  cov.label_if(!want.is_empty() && want.len() < total, "some unreachable, some not");
  if total >= 4 && !want.is_empty() && want.len() < total {
    cov.nontrivial();
  }
  Ok(())
}

// C14

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Bad {
  /// A wildcard with arguments.
  AnyArgs(Vec<P>),
  /// A constructor with this many arguments too many.
  Over(u32, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Malformed {
  base: Case,
  bad: Bad,
  at: u16,
  /// Inside top-level alternatives.
  or: Option<P>,
}

fn check_malformed(c: &Malformed, cov: &mut Cov) -> Outcome {
  let mut cx = c.base.types.cx();
  let mut ps = pats(&cx, &c.base);
  let mut next = 100_000;
  let (mut bad, rejected) = match &c.bad {
    Bad::AnyArgs(args) => {
      cov.label("wildcard with arguments");
      let mut args: Vec<Pat<L>> = args.iter().map(|p| read(&cx, 0, p, &mut next)).collect();
      if args.is_empty() {
        args.push(Pat::any_no_idx());
      }
      (Pat::con(Con::Any, args, 99_999), cx.inhabited(0))
    }
    Bad::Over(con, n) => match con_at(&cx, 0, *con) {
      None => (Pat::any_no_idx(), false),
      Some(con) => {
        cov.label("constructor with too many arguments");
        let tys = cx.args(0, &con).unwrap();
        let k = tys.len() + 1 + usize::from(*n);
        (Pat::con(con, (0..k).map(|_| Pat::any_no_idx()).collect(), 99_999), cx.inhabited(0))
      }
    },
  };
  if let Some(p) = &c.or {
    cov.label("inside alternatives");
    let p = read(&cx, 0, p, &mut next);
    bad = Pat::or(vec![p, bad], 99_998);
  }
  let i = usize::from(c.at) % (ps.len() + 1);
  cov.label_if(i > 0, "after other patterns");
  ps.insert(i, bad);
  if rejected && ps.len() > 1 {
    cov.nontrivial();
  }
  let res = check::<L>(&mut cx, ps, 0);
  ensure!(!rejected || res.is_err(), "malformed pattern accepted: {res:?}");
  Ok(())
}

fn check_faults(c: &Case, cov: &mut Cov) -> Outcome {
  let mut cx = c.types.cx();
  let ps = pats(&cx, c);
  labels(c, &cx, &ps, cov);
  cx.limit = 3000;
  let _ = check::<L>(&mut cx, ps.clone(), 0);
  let n = cx.calls;
  if n > 20 {
    cov.nontrivial();
  }
  // a fault at every call (every so many of them, if they are many)
  for k in (1..=n.min(3000)).step_by(1 + (n / 120) as usize) {
    let mut cx = c.types.cx();
    cx.limit = 3000;
    cx.fault = Some(k);
    match check::<L>(&mut cx, ps.clone(), 0) {
      Err(CheckError(FAULT)) => {}
      r => return Err(format!("language error at call {k} of {n}: the check returns {r:?}")),
    }
  }
  Ok(())
}

/// Patterns of any shape, typed or not.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Wild {
  /// A wildcard without identifier.
  Anon,
  Any(Vec<Wild>),
  Variant(u8, Vec<Wild>),
  Record(Vec<Wild>),
  Lit(u8),
  Or(Vec<Wild>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wilds {
  types: Types,
  pats: Vec<Wild>,
}

fn wild(w: &Wild, next: &mut u32) -> Pat<L> {
  *next += 1;
  let id = *next;
  let mut go = |ws: &[Wild]| ws.iter().map(|w| wild(w, next)).collect();
  match w {
    Wild::Anon => Pat::any_no_idx(),
    Wild::Any(a) => Pat::con(Con::Any, go(a), id),
    Wild::Variant(i, a) => Pat::con(Con::Variant(usize::from(*i)), go(a), id),
    Wild::Record(a) => Pat::con(Con::Record, go(a), id),
    Wild::Lit(n) => Pat::zero(Con::Lit(u32::from(*n)), id),
    Wild::Or(a) => Pat::or(go(a), id),
  }
}

fn check_total(c: &Wilds, cov: &mut Cov) -> Outcome {
  let mut cx = c.types.cx();
  let mut next = 0;
  let ps: Vec<_> = c.pats.iter().map(|w| wild(w, &mut next)).collect();
  let mut all = BTreeSet::new();
  for p in &ps {
    ids(p, &mut all);
  }
  match check::<L>(&mut cx, ps, 0) {
    Ok(r) => {
      cov.label("accepted");
      ensure!(r.unreachable.iter().all(|i| all.contains(i)), "an identifier that does not occur is reported");
      if next > 3 {
        cov.nontrivial();
      }
    }
    Err(_) => {
      cov.label("rejected");
      if next > 3 {
        cov.nontrivial();
      }
    }
  }
  Ok(())
}

// C34

fn all_cons(p: &Pat<L>, out: &mut BTreeSet<Con>) {
  match &p.raw {
    RawPat::Con(c) => {
      out.insert(c.con.clone());
      c.args.iter().for_each(|p| all_cons(p, out));
    }
    RawPat::Or(ps) => ps.iter().for_each(|p| all_cons(p, out)),
  }
}

fn check_questions(c: &Case, cov: &mut Cov) -> Outcome {
  let mut cx = c.types.cx();
  cx.log = Some(vec![]);
  let ps = pats(&cx, c);
  labels(c, &cx, &ps, cov);
  match check::<L>(&mut cx, ps.clone(), 0) {
    Ok(_) => {}
    Err(CheckError(LIMIT)) => {
      cov.label("too large (skipped)");
      return Ok(());
    }
    Err(CheckError(e)) => return Err(format!("well-formed patterns rejected: {e}")),
  }
  let log = cx.log.take().unwrap();
  let mut occurring = BTreeSet::from([Con::Any]);
  ps.iter().for_each(|p| all_cons(p, &mut occurring));
  let mut at_top = Vec::new();
  let mut deeper = 0;
  for a in &log {
    match a {
      Ask::Split { ty, con, cons, depth } => {
        for k in std::iter::once(con).chain(cons) {
          ensure!(cx.args(*ty, k).is_some(), "{a:?}: {k:?} is no constructor of that type");
          ensure!(occurring.contains(k), "{a:?}: {k:?} is in none of the patterns");
        }
        if *depth == 0 {
          ensure_eq!(*ty, 0, "type in a question at depth 0, {a:?}");
          at_top.push((con.clone(), cons.iter().cloned().collect::<BTreeSet<_>>()));
        } else {
          deeper += 1;
        }
      }
      Ask::ArgTys { ty, con } => {
        ensure!(cx.args(*ty, con).is_some(), "{a:?}: no constructor of that type");
      }
    }
  }
  // each pattern against the ones before it, and at last a wildcard against all of them
  let mut rows: Vec<Pat<L>> = Vec::new();
  let mut want: Vec<(Con, usize)> = Vec::new();
  for p in &ps {
    if let RawPat::Con(k) = &p.raw {
      want.push((k.con.clone(), rows.len()));
    }
    let mut heads = Vec::new();
    flatten(p, &mut heads);
    rows.extend(heads.into_iter().map(|k| Pat { raw: RawPat::Con(k.clone()), idx: None }));
  }
  want.push((Con::Any, rows.len()));
  let got: Vec<_> = at_top.iter().map(|(k, _)| k).collect();
  ensure_eq!(got, want.iter().map(|(k, _)| k).collect::<Vec<_>>(), "constructors split at depth 0");
  // a pattern that no value reaches covers nothing, and may be left out
  let all: Vec<&Pat<L>> = ps.iter().collect();
  let mut reached = vec![false; rows.len()];
  match values(&cx, 0, &all, MAX) {
    Some(vals) => {
      for v in &vals {
        if let Some(i) = rows.iter().position(|r| matches(r, v, &mut vec![])) {
          reached[i] = true;
        }
      }
    }
    None => cov.label("too many values: constructors that must be named not known"),
  }
  let head = |i: usize| match &rows[i].raw {
    RawPat::Con(k) => &k.con,
    RawPat::Or(_) => unreachable!("flat"),
  };
  for ((k, named), (_, n)) in at_top.iter().zip(&want) {
    let may: BTreeSet<&Con> = (0..*n).map(head).collect();
    let must: BTreeSet<&Con> = (0..*n).filter(|&i| reached[i]).map(head).collect();
    let named: BTreeSet<&Con> = named.iter().collect();
    ensure!(named.is_subset(&may), "split of {k:?} after {n} rows names {named:?}, but before it there are only {may:?}");
    ensure!(must.is_subset(&named), "split of {k:?} after {n} rows names only {named:?}, but values reach all of {must:?} before it");
  }
  cov.label_if(deeper > 20, "over 20 questions below the top");
  if ps.len() >= 3 && deeper > 0 {
    cov.nontrivial();
  }
  Ok(())
}

// C35

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Print {
  pat: Wild,
  /// Room for so many bytes, modulo the length.
  room: u16,
}

fn printed(p: &Pat<L>, out: &mut String) {
  let list = |ps: &[Pat<L>], sep: &str, out: &mut String| {
    for (i, p) in ps.iter().enumerate() {
      if i > 0 {
        out.push_str(sep);
      }
      printed(p, out);
    }
  };
  match &p.raw {
    RawPat::Con(c) => {
      out.push_str(&c.con.to_string());
      if !c.args.is_empty() {
        out.push('(');
        list(&c.args, ", ", out);
        out.push(')');
      }
    }
    RawPat::Or(ps) if ps.is_empty() => out.push_str("<NEVER>"),
    RawPat::Or(ps) => list(ps, " | ", out),
  }
}

fn same(a: &Pat<L>, b: &Pat<L>) -> bool {
  let all = |a: &[Pat<L>], b: &[Pat<L>]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b));
  a.idx == b.idx
    && match (&a.raw, &b.raw) {
      (RawPat::Con(a), RawPat::Con(b)) => a.con == b.con && all(&a.args, &b.args),
      (RawPat::Or(a), RawPat::Or(b)) => all(a, b),
      _ => false,
    }
}

struct Short {
  room: usize,
  got: String,
}

impl std::fmt::Write for Short {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    if self.got.len() + s.len() > self.room {
      return Err(std::fmt::Error);
    }
    self.got.push_str(s);
    Ok(())
  }
}

fn check_print(c: &Print, cov: &mut Cov) -> Outcome {
  let p = wild(&c.pat, &mut 0);
  let mut want = String::new();
  printed(&p, &mut want);
  ensure_eq!(p.to_string(), want, "printed");
  ensure_eq!(p.raw.to_string(), want, "printed without the identifier");
  if let RawPat::Con(k) = &p.raw {
    ensure_eq!(k.to_string(), want, "constructor pattern printed");
  }
  let q = p.clone();
  ensure!(same(&p, &q), "clone of {p:?} is {q:?}");
  ensure_eq!(format!("{p:?}"), format!("{q:?}"), "clone for debugging");
  // a writer which fails
  if !want.is_empty() {
    let mut w = Short { room: usize::from(c.room) % want.len(), got: String::new() };
    ensure!(write!(w, "{p}").is_err(), "a failed write is not passed on, {:?} of {want:?} written", w.got);
    ensure!(want.starts_with(&w.got), "written before the failure: {:?} of {want:?}", w.got);
  }
  cov.label_if(has_or(&p), "alternatives");
  cov.label_if(want.contains("<NEVER>"), "no alternatives");
  if has_or(&p) && want.contains('(') && want.len() > 12 {
    cov.nontrivial();
  }
  Ok(())
}

// generators

fn types() -> BoxedStrategy<Types> {
  let args = |n: usize| prop::collection::vec(0usize..6, 0..=n);
  let def = prop_oneof![
    1 => Just(Def::Data(vec![])),
    10 => prop::collection::vec(args(2), 1..=4).prop_map(Def::Data),
    3 => prop::collection::vec(args(3), 2..=3).prop_map(Def::Data),
    3 => prop::collection::vec(Just(vec![]), 1..=3).prop_map(Def::Data),
    1 => prop::collection::vec(args(1), 5..=12).prop_map(Def::Data),
    4 => args(3).prop_map(Def::Rec),
    3 => Just(Def::Lit),
  ];
  let style = prop::sample::select(vec![Style::Lazy, Style::Eager, Style::Depth, Style::Rest]);
  (prop::collection::vec(def, 1..=5), style, any::<bool>(), prop::bool::weighted(0.15), prop::bool::weighted(0.7))
    .prop_map(|(defs, style, prune, lit_any, acyclic)| Types { defs, style, prune, lit_any, acyclic })
    .boxed()
}

fn p() -> BoxedStrategy<P> {
  let leaf = prop_oneof![5 => Just(P::Any), 1 => Just(P::Anon), 4 => (0u32..12).prop_map(|c| P::Con(c, vec![]))];
  leaf
    .prop_recursive(4, 14, 3, |inner| {
      prop_oneof![
        6 => (0u32..12, prop::collection::vec(inner.clone(), 1..4)).prop_map(|(c, a)| P::Con(c, a)),
        2 => prop::collection::vec(inner, 0..4).prop_map(P::Or),
      ]
    })
    .boxed()
}

fn edit() -> BoxedStrategy<Edit> {
  let i = any::<u16>;
  prop_oneof![
    1 => i().prop_map(Edit::Drop),
    1 => i().prop_map(Edit::Dup),
    1 => (i(), i()).prop_map(|(a, b)| Edit::Swap(a, b)),
    2 => i().prop_map(Edit::Or),
    1 => i().prop_map(Edit::Widen),
  ]
  .boxed()
}

fn cases() -> BoxedStrategy<Case> {
  let grown = (prop::collection::vec(any::<u16>(), 1..7), prop::collection::vec(edit(), 0..4));
  let shape = prop_oneof![
    4 => (grown, prop::collection::vec(p(), 0..3)),
    4 => (Just((vec![], vec![])), prop::collection::vec(p(), 0..7)),
  ];
  (types(), shape, any::<bool>())
    .prop_map(|(types, ((grow, edits), rows), first)| Case { types, grow, edits, rows, first })
    .boxed()
}

/// Many constructors, much nesting or many fields.
fn large() -> BoxedStrategy<Case> {
  let style = || prop::sample::select(vec![Style::Lazy, Style::Eager, Style::Depth, Style::Rest]);
  let types = |defs, style, prune, lit_any| Types { defs, style, prune, lit_any, acyclic: false };
  // nearly all of many constructors or literals, alone and as alternatives
  let wide = (
    (150usize..420, style(), any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.25)),
    (any::<u16>(), 0u16..40, prop_oneof![3 => Just(1usize), 2 => 2usize..8, 3 => 8usize..400]),
    prop::collection::vec(any::<u16>(), 0..4),
    prop::collection::vec((any::<u16>(), prop::option::of(p())), 0..4),
    prop::option::weighted(0.5, any::<u16>()),
  )
    .prop_map(move |((n, style, prune, lit_any, lits), (turn, fancy, group), drop, extra, any)| {
      let main = if lits {
        Def::Lit
      } else {
        Def::Data((0..n).map(|i| if fancy > 0 && i as u16 % 40 == fancy { vec![1] } else { vec![] }).collect())
      };
      let at = |i: u16| usize::from(i) * n / 65_536;
      let mut all: Vec<P> = (0..n)
        .map(|i| (i + usize::from(turn)) % n)
        .filter(|i| drop.iter().all(|&d| at(d) != *i))
        .map(|i| P::Con(20 + i as u32, if fancy > 0 && i as u16 % 40 == fancy { vec![P::Any] } else { vec![] }))
        .collect();
      for (i, q) in extra {
        let j = at(i).min(all.len());
        all.insert(j, P::Con(20 + at(i) as u32, q.into_iter().collect()));
      }
      if let Some(i) = any {
        let j = all.len() - usize::from(i) % 4;
        all.insert(j, P::Any);
      }
      let rows = all.chunks(group).map(|c| if c.len() == 1 { c[0].clone() } else { P::Or(c.to_vec()) }).collect();
      let defs = vec![main, Def::Data(vec![vec![], vec![2], vec![]]), Def::Data(vec![vec![]; 2])];
      Case { types: types(defs, style, prune, lit_any), grow: vec![], edits: vec![], rows, first: false }
    });
  // lists and numbers nested deeply
  let deep = (style(), any::<bool>(), prop::collection::vec((0u16..330, 0u8..4), 1..6)).prop_map(move |(style, list, ends)| {
    let defs = if list {
      vec![Def::Data(vec![vec![], vec![1, 0]]), Def::Data(vec![vec![]; 2])]
    } else {
      vec![Def::Data(vec![vec![], vec![0]])]
    };
    let rows = ends
      .into_iter()
      .map(|(k, end)| {
        let last = match end {
          0 => P::Any,
          1 => P::Con(0, vec![]),
          2 => P::Con(1, vec![]),
          _ => P::Or(vec![P::Con(0, vec![]), P::Anon]),
        };
        (0..k).fold(last, |p, _| P::Con(1, if list { vec![P::Any, p] } else { vec![p] }))
      })
      .collect();
    Case { types: types(defs, style, false, false), grow: vec![], edits: vec![], rows, first: false }
  });
  // records and constructors of many fields
  let fields = (
    (prop::sample::select(vec![Style::Lazy, Style::Rest]), any::<bool>(), 10usize..300),
    prop::collection::vec(any::<u16>(), 1..6),
    prop::collection::vec((prop::collection::vec((0usize..6, 0u32..4), 0..4), any::<u16>()), 1..6),
  )
    .prop_map(move |((style, rec, n), at, rows)| {
      let fs: Vec<usize> = (0..n).map(|i| 1 + i % 2).collect();
      let main = if rec { Def::Rec(fs) } else { Def::Data(vec![vec![2], fs]) };
      let defs = vec![main, Def::Data(vec![vec![]; 2]), Def::Data(vec![vec![]; 3])];
      let rows = rows
        .into_iter()
        .map(|(cs, len)| {
          // trailing arguments may be left out
          let len = if len % 3 == 0 { usize::from(len) % (n + 1) } else { n };
          let mut args = vec![P::Any; len];
          for (i, c) in cs {
            if let Some(a) = args.get_mut(usize::from(at[i % at.len()]) % n) {
              *a = P::Con(c, vec![]);
            }
          }
          P::Con(1, args)
        })
        .collect();
      Case { types: types(defs, style, false, false), grow: vec![], edits: vec![], rows, first: false }
    });
  prop_oneof![wide, deep, fields].boxed()
}

fn malformed() -> BoxedStrategy<Malformed> {
  let bad = prop_oneof![
    prop::collection::vec(p(), 1..3).prop_map(Bad::AnyArgs),
    (0u32..12, 0u8..3).prop_map(|(a, b)| Bad::Over(a, b)),
  ];
  (cases(), bad, any::<u16>(), prop::option::weighted(0.2, p()))
    .prop_map(|(base, bad, at, or)| Malformed { base, bad, at, or })
    .boxed()
}

fn one_wild() -> BoxedStrategy<Wild> {
  let leaf = prop_oneof![
    2 => Just(Wild::Any(vec![])),
    2 => Just(Wild::Anon),
    2 => (0u8..4).prop_map(Wild::Lit),
    3 => (0u8..5).prop_map(|i| Wild::Variant(i, vec![])),
    1 => Just(Wild::Record(vec![])),
  ];
  let w = leaf.prop_recursive(4, 16, 3, |inner| {
    let args = prop::collection::vec(inner, 0..4);
    prop_oneof![
      1 => args.clone().prop_map(Wild::Any),
      5 => (0u8..5, args.clone()).prop_map(|(i, a)| Wild::Variant(i, a)),
      2 => args.clone().prop_map(Wild::Record),
      2 => args.prop_map(Wild::Or),
    ]
  });
  w.boxed()
}

fn prints() -> BoxedStrategy<Print> {
  (one_wild(), any::<u16>()).prop_map(|(pat, room)| Print { pat, room }).boxed()
}

/// Dozens to hundreds of arguments or alternatives, or as many levels.
fn wide_prints() -> BoxedStrategy<Print> {
  let few = || prop::collection::vec(one_wild(), 1..4);
  let n = || prop_oneof![3 => 5usize..80, 1 => 80usize..700];
  let cycle = |(ws, n): (Vec<Wild>, usize)| ws.into_iter().cycle().take(n).collect::<Vec<_>>();
  fn make((k, i): (u8, u8), ws: Vec<Wild>) -> Wild {
    match k {
      0 => Wild::Variant(i, ws),
      1 => Wild::Record(ws),
      2 => Wild::Any(ws),
      _ => Wild::Or(ws),
    }
  }
  let node = || (0u8..4, any::<u8>());
  let wide = (node(), few(), n()).prop_map(move |(f, ws, n)| make(f, cycle((ws, n)))).boxed();
  let deep = (node(), node(), few(), 5usize..200).prop_map(|(f, g, ws, n)| {
    let next = |w, i| if i % 2 == 0 { make(f, vec![w]) } else { make(g, [vec![w], ws[1..].to_vec()].concat()) };
    (0..n).fold(ws[0].clone(), next)
  });
  let pat = prop_oneof![3 => wide.clone(), 1 => deep, 1 => (node(), wide, few()).prop_map(|(f, w, ws)| make(f, [vec![w], ws].concat()))];
  (pat, any::<u16>()).prop_map(|(pat, room)| Print { pat, room }).boxed()
}

fn wilds() -> BoxedStrategy<Wilds> {
  (types(), prop::collection::vec(one_wild(), 0..6)).prop_map(|(types, pats)| Wilds { types, pats }).boxed()
}

fn main() {
  vcore::main(vec![
    Prop {
      id: "C12",
      parts: vec![part(
        "missing",
        "tables of types (data, records, literals, empty and recursive ones; four splitting styles) with pattern lists, random or \
         grown from a wildcard by splitting and edited; non-trivial: two patterns and three distinguishable values",
        500_000,
        8_000_000,
        cases,
        check_missing,
      ),
      part(
        "large",
        "hundreds of constructors or literals (alone or as alternatives), patterns nested hundreds deep, hundreds of fields; non-trivial: as above",
        800,
        12_000,
        large,
        check_missing,
      )],
    },
    Prop {
      id: "C13",
      parts: vec![part(
        "unreachable",
        "types and pattern lists as for C12, with identifiers on patterns and sub-patterns; non-trivial: four identifiers, some \
         unreachable and some not",
        500_000,
        8_000_000,
        cases,
        check_unreachable,
      ),
      part(
        "large",
        "hundreds of constructors or literals (alone or as alternatives), patterns nested hundreds deep, hundreds of fields; non-trivial: as above",
        800,
        12_000,
        large,
        check_unreachable,
      )],
    },
    Prop {
      id: "C14",
      parts: vec![
        part(
          "malformed",
          "pattern lists with one malformed top-level pattern; non-trivial: inhabited type, other patterns too",
          200_000,
          4_000_000,
          malformed,
          check_malformed,
        ),
        part(
          "faults",
          "pattern lists with a language error at every call in turn; non-trivial: more than 20 calls",
          25_000,
          500_000,
          cases,
          check_faults,
        ),
        part(
          "large-faults",
          "hundreds of constructors or literals (alone or as alternatives), patterns nested hundreds deep, hundreds of fields; non-trivial: as above",
          80,
          1_500,
          large,
          check_faults,
        ),
        part(
          "total",
          "patterns of any shape, most of them ill-formed; non-trivial: more than three pattern nodes",
          400_000,
          8_000_000,
          wilds,
          check_total,
        ),
      ],
    },
    Prop {
      id: "C34",
      parts: vec![part(
        "questions",
        "types and pattern lists as for C12, every question to the language recorded; non-trivial: three patterns and questions \
         below the top",
        300_000,
        6_000_000,
        cases,
        check_questions,
      ),
      part(
        "large",
        "hundreds of constructors or literals (alone or as alternatives), patterns nested hundreds deep, hundreds of fields; non-trivial: as above",
        600,
        10_000,
        large,
        check_questions,
      )],
    },
    Prop {
      id: "C35",
      parts: vec![part(
        "printing",
        "patterns of any shape (constructor texts with the punctuation of patterns, no alternatives, empty texts) and writers \
         that fail after any number of bytes; non-trivial: alternatives and arguments",
        2_400_000,
        24_000_000,
        prints,
        check_print,
      ),
      part(
        "wide-printing",
        "hundreds of arguments, alternatives or levels; non-trivial: as above",
        24_000,
        800_000,
        wide_prints,
        check_print,
      )],
    },
  ]);
}
