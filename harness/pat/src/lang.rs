//! A family of coherent languages of types and constructors, and brute-force matching of values.

use pattern_match::{CheckError, ConPat, Lang, Pat, RawPat, Result};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt;

pub type Ty = usize;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Def {
  /// Constructors with their argument types (taken modulo the number of types).
  Data(Vec<Vec<usize>>),
  Rec(Vec<usize>),
  /// Infinitely many literals.
  Lit,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Con {
  Any,
  Variant(usize),
  Record,
  Lit(u32),
  /// All variants (or literals) but these; only ever made by `split`.
  Rest(BTreeSet<u32>),
}

/// How `split` treats wildcards.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
  /// A wildcard, unless the column has a real constructor.
  Lazy,
  /// Every constructor, for types that do not contain themselves.
  Eager,
  /// Every constructor at the top only.
  Depth,
  /// The constructors of the column, and one for all others.
  Rest,
}

#[derive(Debug)]
pub struct Cx {
  pub defs: Vec<Def>,
  pub style: Style,
  /// Leave out constructors which no value can have.
  pub prune: bool,
  /// Literals besides those of the column are covered by a plain wildcard.
  pub lit_any: bool,
  inhabited: Vec<bool>,
  recursive: Vec<bool>,
  pub calls: u64,
  /// Report an error at this call.
  pub fault: Option<u64>,
  pub limit: u64,
  /// The questions asked, if they are to be recorded.
  pub log: Option<Vec<Ask>>,
}

/// A question to the language.
#[derive(Debug, Clone)]
pub enum Ask {
  Split { ty: Ty, con: Con, cons: Vec<Con>, depth: usize },
  ArgTys { ty: Ty, con: Con },
}

pub const FAULT: &str = "injected fault";
pub const LIMIT: &str = "call limit of the harness";

impl Cx {
  pub fn new(defs: &[Def], style: Style, prune: bool, lit_any: bool) -> Self {
    let n = defs.len();
    let norm = |v: &Vec<usize>| v.iter().map(|t| t % n).collect::<Vec<_>>();
    let defs: Vec<Def> = defs
      .iter()
      .map(|d| match d {
        Def::Data(cs) => Def::Data(cs.iter().map(norm).collect()),
        Def::Rec(fs) => Def::Rec(norm(fs)),
        Def::Lit => Def::Lit,
      })
      .collect();
    let mut inhabited = vec![false; n];
    for _ in 0..=n {
      for i in 0..n {
        inhabited[i] = match &defs[i] {
          Def::Data(cs) => cs.iter().any(|c| c.iter().all(|&t| inhabited[t])),
          Def::Rec(fs) => fs.iter().all(|&t| inhabited[t]),
          Def::Lit => true,
        };
      }
    }
    let succ = |i: usize| -> Vec<usize> {
      match &defs[i] {
        Def::Data(cs) => cs.concat(),
        Def::Rec(fs) => fs.clone(),
        Def::Lit => vec![],
      }
    };
    let recursive = (0..n)
      .map(|i| {
        let mut seen = vec![false; n];
        let mut todo = succ(i);
        while let Some(t) = todo.pop() {
          if !std::mem::replace(&mut seen[t], true) {
            todo.extend(succ(t));
          }
        }
        seen[i]
      })
      .collect();
    Cx { defs, style, prune, lit_any, inhabited, recursive, calls: 0, fault: None, limit: 30_000, log: None }
  }

  pub fn inhabited(&self, ty: Ty) -> bool {
    self.inhabited[ty]
  }

  pub fn is_recursive(&self, ty: Ty) -> bool {
    self.recursive[ty]
  }

  fn call(&mut self) -> Result<()> {
    self.calls += 1;
    if self.fault == Some(self.calls) {
      return Err(CheckError(FAULT));
    }
    if self.calls > self.limit {
      return Err(CheckError(LIMIT));
    }
    Ok(())
  }

  /// All real constructors of a type with finitely many.
  fn all(&self, ty: Ty) -> Vec<Con> {
    match &self.defs[ty] {
      Def::Data(cs) => (0..cs.len())
        .filter(|&i| !self.prune || cs[i].iter().all(|&t| self.inhabited[t]))
        .map(Con::Variant)
        .collect(),
      Def::Rec(_) => vec![Con::Record],
      Def::Lit => unreachable!("literals"),
    }
  }

  pub fn args(&self, ty: Ty, con: &Con) -> Option<Vec<Ty>> {
    match (&self.defs[ty], con) {
      (_, Con::Any) => Some(vec![]),
      (Def::Data(cs), Con::Variant(i)) => cs.get(*i).cloned(),
      (Def::Data(_) | Def::Lit, Con::Rest(_)) | (Def::Lit, Con::Lit(_)) => Some(vec![]),
      (Def::Rec(fs), Con::Record) => Some(fs.clone()),
      _ => None,
    }
  }
}

impl fmt::Display for Con {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Con::Any => f.write_str("_"),
      Con::Variant(i) => write!(f, "V{i}"),
      Con::Record => Ok(()),
      // a text with the punctuation of patterns
      Con::Lit(n) if n % 3 == 2 => write!(f, "\"{n} | (é, \u{1f600})\""),
      Con::Lit(n) => write!(f, "{n}"),
      Con::Rest(_) => Ok(()),
    }
  }
}

pub struct L;

impl Lang for L {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;

  fn any() -> Con {
    Con::Any
  }

  fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>>
  where
    I: Iterator<Item = &'a Con>,
  {
    cx.call()?;
    let cons: Vec<&Con> = cons.collect();
    if let Some(log) = &mut cx.log {
      let cons = cons.iter().copied().cloned().collect();
      log.push(Ask::Split { ty: *ty, con: con.clone(), cons, depth });
    }
    if cx.args(*ty, con).is_none() {
      return Err(CheckError("constructor of another type"));
    }
    if *con != Con::Any {
      return Ok(vec![con.clone()]);
    }
    if !cx.inhabited[*ty] && cx.prune {
      return Ok(vec![]);
    }
    let mut col: Vec<Con> = cons.into_iter().filter(|c| **c != Con::Any).cloned().collect();
    col.sort();
    col.dedup();
    let lazy = |cx: &Cx| -> Vec<Con> {
      if !col.is_empty() {
        cx.all(*ty)
      } else if cx.inhabited[*ty] {
        vec![Con::Any]
      } else {
        vec![]
      }
    };
    if matches!(cx.defs[*ty], Def::Lit) {
      let mut ret = col.clone();
      if cx.lit_any || col.is_empty() {
        ret.push(Con::Any);
      } else {
        let set = col.iter().filter_map(|c| if let Con::Lit(n) = c { Some(*n) } else { None }).collect();
        ret.push(Con::Rest(set));
      }
      return Ok(ret);
    }
    Ok(match cx.style {
      Style::Lazy => lazy(cx),
      Style::Eager => {
        if cx.recursive[*ty] {
          lazy(cx)
        } else {
          cx.all(*ty)
        }
      }
      Style::Depth => {
        if depth == 0 {
          cx.all(*ty)
        } else {
          lazy(cx)
        }
      }
      Style::Rest => match &cx.defs[*ty] {
        Def::Data(cs) if !col.is_empty() => {
          let set: BTreeSet<u32> =
            col.iter().filter_map(|c| if let Con::Variant(i) = c { Some(*i as u32) } else { None }).collect();
          let other = (0..cs.len())
            .any(|i| !set.contains(&(i as u32)) && cs[i].iter().all(|&t| cx.inhabited[t]));
          let mut ret = col.clone();
          if other {
            ret.push(Con::Rest(set));
          }
          ret
        }
        _ => lazy(cx),
      },
    })
  }

  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    cx.call()?;
    if let Some(log) = &mut cx.log {
      log.push(Ask::ArgTys { ty: *ty, con: con.clone() });
    }
    cx.args(*ty, con).ok_or(CheckError("constructor of another type"))
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    *lhs == Con::Any || lhs == rhs
  }
}

/// A value, as far as any pattern looks at it.
#[derive(Debug, Clone)]
pub enum Val {
  /// Some value no pattern looks at.
  Opaque,
  Variant(usize, Vec<Val>),
  Record(Vec<Val>),
  Lit(u32),
  /// A literal no pattern mentions.
  OtherLit,
}

pub fn flatten<'a>(p: &'a Pat<L>, out: &mut Vec<&'a ConPat<L>>) {
  match &p.raw {
    RawPat::Con(c) => out.push(c),
    RawPat::Or(ps) => {
      for p in ps {
        flatten(p, out);
      }
    }
  }
}

/// All values of the type, up to what the patterns look at. `None` if they are too many.
pub fn values(cx: &Cx, ty: Ty, pats: &[&Pat<L>], max: usize) -> Option<Vec<Val>> {
  let mut cons = Vec::new();
  for p in pats {
    flatten(p, &mut cons);
  }
  if cons.iter().all(|c| c.con == Con::Any) {
    return Some(if cx.inhabited(ty) { vec![Val::Opaque] } else { vec![] });
  }
  let product = |con: &Con, tys: &[Ty]| -> Option<Vec<Vec<Val>>> {
    let mut rows = vec![Vec::new()];
    for (j, &t) in tys.iter().enumerate() {
      let sub: Vec<&Pat<L>> = cons.iter().filter(|c| c.con == *con).filter_map(|c| c.args.get(j)).collect();
      let vals = values(cx, t, &sub, max)?;
      if rows.len() * vals.len() > max {
        return None;
      }
      rows = rows
        .iter()
        .flat_map(|r: &Vec<Val>| {
          vals.iter().map(move |v| {
            let mut r = r.clone();
            r.push(v.clone());
            r
          })
        })
        .collect();
    }
    Some(rows)
  };
  let mut ret = Vec::new();
  match &cx.defs[ty] {
    Def::Data(cs) => {
      for (i, tys) in cs.iter().enumerate() {
        ret.extend(product(&Con::Variant(i), tys)?.into_iter().map(|a| Val::Variant(i, a)));
        if ret.len() > max {
          return None;
        }
      }
    }
    Def::Rec(fs) => ret.extend(product(&Con::Record, fs)?.into_iter().map(Val::Record)),
    Def::Lit => {
      let mut ns = BTreeSet::new();
      for c in &cons {
        match &c.con {
          Con::Lit(n) => {
            ns.insert(*n);
          }
          Con::Rest(s) => ns.extend(s.iter().copied()),
          _ => {}
        }
      }
      ret.extend(ns.into_iter().map(Val::Lit));
      ret.push(Val::OtherLit);
    }
  }
  Some(ret)
}

/// Whether the pattern matches; the identifiers that take part are added to `used`.
pub fn matches(p: &Pat<L>, v: &Val, used: &mut Vec<u32>) -> bool {
  let len = used.len();
  used.extend(p.idx);
  let ok = match &p.raw {
    RawPat::Or(ps) => ps.iter().any(|p| matches(p, v, used)),
    RawPat::Con(c) => {
      let args = |vs: &[Val], used: &mut Vec<u32>| c.args.iter().zip(vs).all(|(p, v)| matches(p, v, used));
      match (&c.con, v) {
        (Con::Any, _) => true,
        (Con::Variant(i), Val::Variant(j, vs)) => i == j && args(vs, used),
        (Con::Record, Val::Record(vs)) => args(vs, used),
        (Con::Lit(a), Val::Lit(b)) => a == b,
        (Con::Rest(s), Val::Variant(j, _)) => !s.contains(&(*j as u32)),
        (Con::Rest(s), Val::Lit(n)) => !s.contains(n),
        (Con::Rest(_), Val::OtherLit) => true,
        (_, Val::Opaque) => panic!("oracle: a pattern looks at an opaque value"),
        _ => false,
      }
    }
  };
  if !ok {
    used.truncate(len);
  }
  ok
}
