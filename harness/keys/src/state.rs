//! C40: answers depend on the arguments alone, not on what was asked before or is asked alongside.

use crate::nest::{ChainOp, PURPOSE, chain, chain_ops, poke, poke_only};
use apply_changes::Change;
use diagnostic::{Code, Diagnostic, Severity};
use event_parse::rowan_sink::Error as TreeError;
use event_parse::{Parser, Sink};
use paths::{CleanPath, CleanPathBuf, FileSystem, MemoryFileSystem, PathId, RealFileSystem, Store, WithPath};
use pattern_match::{Lang, Pat};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::Path;
use str_process::St;
use str_util::Name;
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize, WithRange};
use token::{Token, Triviable};
use vcore::{Cov, OrGiveUp, Outcome, Prop, catch, ensure, ensure_eq, part};

/// Whether the type may be moved to other threads, and shared with them: found out without insisting on it.
macro_rules! may {
  ($t:ty) => {{
    struct Ask<T: ?Sized>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: Send + Sync + ?Sized> Ask<T> {
      fn may(&self) -> bool {
        true
      }
    }
    impl<T: ?Sized> std::ops::Deref for Ask<T> {
      type Target = Not;
      fn deref(&self) -> &Not {
        &Not
      }
    }
    struct Not;
    #[allow(dead_code)]
    impl Not {
      fn may(&self) -> bool {
        false
      }
    }
    ensure!(Ask::<$t>(std::marker::PhantomData).may(), "{} cannot be moved to and shared with other threads", stringify!($t));
  }};
}

/// For other threads, whatever the compiler thinks of it (`check_types` asks it).
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
  pub texts: Vec<String>,
  pub paths: Vec<String>,
  pub ops: Vec<Op>,
  /// In which order they are asked again, in each thread.
  pub orders: Vec<Vec<u16>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
  /// Of the database of a text.
  Offset(u8, u32),
  At(u8, u32, u32),
  Range(u8, u32, u32),
  RangeAt(u8, (u32, u32), (u32, u32)),
  Lines(u8, u32, u32),
  End(u8),
  Change(u8, Vec<(Option<(u32, u32, u32, u32)>, u8)>),
  Graph(Vec<(u8, Vec<u8>)>),
  Clean(u8),
  Join(u8, u8),
  Parent(u8),
  Path(u8),
  Read(u8),
  List(u8),
  Pascal(u8),
  Snake(u8),
  Headings(u8),
  Name(u8),
  Parse(String),
  Report(u8, (u32, u32), (u32, u32)),
  Char(char),
  Join3(Vec<u8>, u8),
  Scan(u8),
  Tree(u8),
  Match(Vec<P>, u8),
  /// Pushes for each; from which to start.
  Walk(Vec<Vec<u8>>, Vec<u8>, bool),
  Chain(Vec<ChainOp>),
  Combine(Vec<u8>, Vec<u8>),
  Time(u8),
}

/// What is shared between the threads.
pub struct Shared {
  dbs: Vec<PositionDb>,
  store: Store,
  ids: Vec<PathId>,
  fs: MemoryFileSystem,
}

pub fn shared(c: &Case) -> Shared {
  let mut store = Store::new();
  let mut ids = Vec::new();
  let mut inner = BTreeMap::new();
  for (i, p) in c.paths.iter().enumerate() {
    let p = CleanPathBuf::new(p).expect("absolute");
    ids.push(store.get_id(p.as_clean_path()));
    inner.insert(p, c.texts[i % c.texts.len()].clone());
  }
  Shared { dbs: c.texts.iter().map(|s| PositionDb::new(s)).collect(), store, ids, fs: MemoryFileSystem::new(inner) }
}

impl Shared {
  pub fn empty() -> Self {
    Shared { dbs: vec![], store: Store::new(), ids: vec![], fs: MemoryFileSystem::new(BTreeMap::new()) }
  }
}

fn pos((line, col): (u32, u32)) -> PositionUtf16 {
  PositionUtf16 { line, col }
}

// a language of patterns: type n has constructors 0 to 3; 2 and 3 have one and two arguments of type n - 1

struct Deep;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Con {
  Any,
  Of(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum P {
  Any,
  Of(u8, Vec<P>),
  Or(Vec<P>),
}

impl Lang for Deep {
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = u8;

  fn any() -> Con {
    poke_only();
    Con::Any
  }

  fn split<'a, I>(_: &mut (), ty: &u8, con: &Con, cons: I, depth: usize) -> pattern_match::Result<Vec<Con>>
  where
    I: Iterator<Item = &'a Con>,
  {
    if poke() {
      return Err(pattern_match::CheckError(PURPOSE));
    }
    let named = cons.filter(|c| **c != Con::Any).count();
    Ok(match con {
      Con::Of(_) => vec![*con],
      Con::Any if named == 0 && depth > 0 => vec![Con::Any],
      Con::Any => (0..if *ty == 0 { 2 } else { 4 }).map(Con::Of).collect(),
    })
  }

  fn get_arg_tys(_: &mut (), ty: &u8, con: &Con) -> pattern_match::Result<Vec<u8>> {
    if poke() {
      return Err(pattern_match::CheckError(PURPOSE));
    }
    Ok(match con {
      Con::Of(2) => vec![ty - 1],
      Con::Of(3) => vec![ty - 1; 2],
      _ => vec![],
    })
  }

  fn covers(lhs: &Con, rhs: &Con) -> bool {
    poke_only();
    lhs == rhs
  }
}

/// As a pattern of the type.
fn pat(p: &P, ty: u8, next: &mut u32) -> Pat<Deep> {
  let idx = *next;
  *next += 1;
  match p {
    P::Any => Pat::zero(Con::Any, idx),
    P::Of(con, args) => {
      let con = con % if ty == 0 { 2 } else { 4 };
      let args = (0..usize::from(con.saturating_sub(1))).map(|i| pat(args.get(i).unwrap_or(&P::Any), ty - 1, next)).collect();
      Pat::con(Con::Of(con), args, idx)
    }
    P::Or(ps) => Pat::or(ps.iter().map(|p| pat(p, ty, next)).collect(), idx),
  }
}

fn show(p: &Pat<Deep>, out: &mut String) {
  match &p.raw {
    pattern_match::RawPat::Con(c) => {
      let _ = write!(out, "{:?}(", c.con);
      c.args.iter().for_each(|p| show(p, out));
      out.push(')');
    }
    pattern_match::RawPat::Or(ps) => {
      out.push('[');
      ps.iter().for_each(|p| show(p, out));
      out.push(']');
    }
  }
}

// a language of brackets

#[derive(Debug, Clone, Copy)]
enum K {
  Space,
  Word,
  Open,
  Close,
  Root,
  Group,
}

impl PartialEq for K {
  fn eq(&self, other: &Self) -> bool {
    poke_only();
    *self as u8 == *other as u8
  }
}

impl Eq for K {}

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    poke_only();
    *self == K::Space
  }
}

fn tokens(s: &str) -> Vec<Token<'_, K>> {
  let kind = |c: char| match c {
    '(' | '`' | '{' => K::Open,
    ')' | '\n' | '}' => K::Close,
    c if c.is_whitespace() || c == 'z' => K::Space,
    _ => K::Word,
  };
  s.char_indices().map(|(i, c)| Token { kind: kind(c), text: &s[i..i + c.len_utf8()] }).collect()
}

#[derive(Default)]
struct Log(String);

impl Sink<K, String> for Log {
  fn enter(&mut self, kind: K) {
    poke_only();
    let _ = write!(self.0, "{kind:?}<");
  }
  fn token(&mut self, token: Token<'_, K>) {
    poke_only();
    let _ = write!(self.0, "{:?}", token.text);
  }
  fn exit(&mut self) {
    poke_only();
    self.0.push('>');
  }
  fn error(&mut self, error: String) {
    poke_only();
    let _ = write!(self.0, "!{error}");
  }
}

fn group(p: &mut Parser<'_, K, String>, depth: usize) {
  while let Some(t) = p.peek() {
    match t.kind {
      K::Open if depth < 20 => {
        let en = p.enter();
        p.bump();
        group(p, depth + 1);
        if p.peek().is_some() {
          p.bump();
        } else {
          p.error(format!("open at depth {depth}"));
        }
        let ex = p.exit(en, K::Group);
        if depth % 2 == 1 {
          let en = p.precede(ex);
          p.exit(en, K::Group);
        }
      }
      K::Close if depth > 0 => return,
      _ => {
        let save = p.save();
        let en = p.enter();
        p.bump();
        if p.peek().is_none() {
          p.error("end".to_owned());
        }
        p.abandon(en);
        if !p.ok_since(save) {
          p.bump();
        }
      }
    }
  }
}

fn tree(s: &str) -> String {
  let toks = tokens(s);
  let mut p = Parser::new(&toks);
  let en = p.enter();
  group(&mut p, 0);
  p.exit(en, K::Root);
  let mut log = Log::default();
  p.finish(&mut log);
  log.0
}

fn scan(s: &str) -> String {
  let mut st = St::new(s);
  let mut out = String::new();
  while let Some(b) = st.cur() {
    let at = st.cur_idx();
    let m = st.mark();
    if st.eat_prefix(b"a") || st.eat_prefix("é".as_bytes()) {
      out.push('e');
    } else if b.is_ascii_lowercase() {
      st.bump_while(|b| {
        poke_only();
        b.is_ascii_lowercase()
      });
      out.push('w');
    } else {
      st.next_str();
      out.push('n');
    }
    let _ = write!(out, "{at}:{:?}-{} ", st.since(m), st.cur_idx());
  }
  out
}

/// Items between separators.
struct Items(Vec<String>, String);

impl std::fmt::Display for Items {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    fmt_util::sep_seq(f, &self.1, self.0.iter().map(Poking))?;
    f.write_str(";")?;
    fmt_util::comma_seq(f, self.0.iter().inspect(|_| poke_only()))
  }
}

struct Poking<'a>(&'a String);

impl std::fmt::Display for Poking<'_> {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if poke() {
      return Err(std::fmt::Error);
    }
    self.0.fmt(f)
  }
}

/// An element: comparing and hashing it calls back.
#[derive(Debug, Clone, Copy)]
struct N(u8);

impl PartialEq for N {
  fn eq(&self, other: &Self) -> bool {
    poke_only();
    self.0 == other.0
  }
}

impl Eq for N {}

impl Ord for N {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    poke_only();
    self.0.cmp(&other.0)
  }
}

impl PartialOrd for N {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}

impl std::hash::Hash for N {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    poke_only();
    self.0.hash(state);
  }
}

impl std::fmt::Display for N {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    if poke() {
      return Err(std::fmt::Error);
    }
    self.0.fmt(f)
  }
}

/// Walks over numbers, each of which brings more.
struct Walker<'a, S> {
  pushes: &'a [Vec<u8>],
  log: std::cell::RefCell<String>,
  fuel: std::cell::Cell<u32>,
  set: std::marker::PhantomData<S>,
}

impl<S> topo_sort::Visitor for Walker<'_, S> {
  type Elem = N;
  type Data = u8;
  type Set = S;
  fn enter(&self, v: N) -> Option<u8> {
    poke_only();
    self.fuel.set(self.fuel.get().checked_sub(1)?);
    let _ = write!(self.log.borrow_mut(), "+{}", v.0);
    (v.0 % 7 != 6).then_some(v.0)
  }
  fn process(&mut self, v: N, data: u8, work: &mut topo_sort::Work<N>) {
    poke_only();
    let _ = write!(self.log.borrow_mut(), "={}", data);
    if let Some(ps) = self.pushes.get(usize::from(v.0)) {
      work.extend(vcore::iters::odd(ps.clone(), None, v.0).map(|n| {
        poke_only();
        N(n)
      }));
    }
  }
  fn exit(&mut self, v: N, level: usize) {
    poke_only();
    let _ = write!(self.log.borrow_mut(), "-{}@{level}", v.0);
  }
}

fn walk<S: topo_sort::Set<Elem = N>>(pushes: &[Vec<u8>], start: &[u8]) -> String {
  let mut v = Walker { pushes, log: Default::default(), fuel: std::cell::Cell::new(200), set: std::marker::PhantomData::<S> };
  let work: topo_sort::Work<N> = start.iter().map(|n| N(*n)).collect();
  let ret = work.run(&mut v);
  let done: Vec<u8> = (0..9).filter(|n| ret.done.contains(&N(*n))).collect();
  format!("{} {done:?} {:?}", v.log.into_inner(), ret.cycle.map(|n| n.0))
}

/// Converting it to a path calls back.
struct Rel(String);

impl AsRef<Path> for Rel {
  fn as_ref(&self) -> &Path {
    poke_only();
    self.0.as_ref()
  }
}

pub fn answer(op: &Op, c: &Case, sh: &Shared) -> String {
  // a copy of its own, so that texts come to lie where others were
  let text = |i: u8| c.texts[usize::from(i) % c.texts.len()].clone();
  let path = |i: u8| c.paths[usize::from(i) % c.paths.len()].clone();
  let db = |i: u8| &sh.dbs[usize::from(i) % c.texts.len()];
  let id = |i: u8| sh.ids[usize::from(i) % sh.ids.len()];
  let size = |n: u32| TextSize::from(n);
  let range = |a: u32, b: u32| TextRange::new(size(a.min(b)), size(a.max(b)));
  let got = catch(|| match op {
    Op::Offset(t, n) => format!("{:?}", db(*t).position_utf16(size(*n))),
    Op::At(t, l, k) => format!("{:?}", db(*t).text_size_utf16(pos((*l, *k)))),
    Op::Range(t, a, b) => format!("{:?}", db(*t).range_utf16(range(*a, *b))),
    Op::RangeAt(t, a, b) => format!("{:?}", db(*t).text_range_utf16(RangeUtf16 { start: pos(*a), end: pos(*b) })),
    Op::Lines(t, a, b) => {
      let len = u32::from(db(*t).len());
      format!("{:?}", db(*t).lines(range((*a).min(len), (*b).min(len))).collect::<Vec<_>>())
    }
    Op::End(t) => format!("{:?} {:?}", db(*t).end_position_utf16(), db(*t).len()),
    Op::Change(t, cs) => {
      let mut s = text(*t);
      let change = |&(range, i): &(Option<(u32, u32, u32, u32)>, u8)| Change {
        range: range.map(|(a, b, c, d)| RangeUtf16 { start: pos((a, b)), end: pos((c, d)) }),
        text: text(i),
      };
      apply_changes::get(&mut s, cs.iter().map(change).collect());
      s
    }
    Op::Graph(g) => {
      let g: BTreeMap<N, BTreeSet<N>> = g.iter().map(|(n, ns)| (N(*n), ns.iter().copied().map(N).collect())).collect();
      match topo_sort::graph::get(&g) {
        Ok(order) => format!("{order:?}"),
        Err(e) => {
          let text = e.to_string();
          format!("{text} {}", e.witness().0)
        }
      }
    }
    Op::Clean(p) => format!("{:?}", CleanPathBuf::new(Rel(path(*p)))),
    Op::Join(p, q) => {
      let rel = || Rel(path(*q).trim_start_matches('/').to_owned());
      let mut other = sh.store.get_path(id(*p)).to_owned();
      other.push(rel());
      format!("{:?} {other:?}", sh.store.get_path(id(*p)).join(rel()))
    }
    Op::Parent(p) => format!("{:?}", sh.store.get_path(id(*p)).parent()),
    Op::Path(p) => format!("{:?} {:?}", id(*p), sh.store.get_path(id(*p))),
    Op::Read(p) => {
      let p = path(*p);
      let p = Path::new(&p);
      let fs: &dyn FileSystem = &sh.fs;
      format!("{:?} {:?} {}", fs.read_to_string(p).ok(), fs.read_to_bytes(p).ok(), fs.is_file(p))
    }
    Op::List(p) => {
      let got = sh.fs.read_dir(Path::new(&path(*p))).map(|mut xs| {
        xs.sort();
        xs
      });
      format!("{:?}", got.ok())
    }
    Op::Pascal(t) => identifier_case::snake_to_pascal(&text(*t)),
    Op::Snake(t) => identifier_case::pascal_to_snake(&text(*t)),
    Op::Headings(t) => {
      let md: Vec<_> = text(*t).chars().map(|c| if c == '(' { "## `a`".to_owned() } else { c.to_string() }).collect();
      let md = md.join("\n").replacen("## `a`", "## `b`", 1);
      let got: BTreeMap<_, _> = code_h2_md_map::get(&md, |k| {
        poke_only();
        format!("<{k}>")
      }).into_iter().map(|(k, v)| (k.to_owned(), v)).collect();
      format!("{got:?}")
    }
    Op::Name(t) => match Name::try_new(text(*t)) {
      None => "none".to_owned(),
      Some(n) => format!("{n} {:?} {}", n.as_str(), n.clone() == n),
    },
    Op::Parse(s) => format!("{:?}", s.clone().parse::<Code>().map(|c| (c.to_string(), c.as_i32())).map_err(|e| e.to_string())),
    Op::Report(t, a, b) => {
      let severity = if a < b { Severity::Error } else { Severity::Warning };
      Diagnostic { range: RangeUtf16 { start: pos(*a), end: pos(*b) }, message: text(*t), severity }.to_string()
    }
    Op::Char(c) => char_name::get(*c).to_owned(),
    Op::Join3(is, sep) => {
      let mut s = String::new();
      match write!(s, "{:>3.2}", Items(is.iter().map(|i| text(*i)).collect(), text(*sep))) {
        Ok(()) => s,
        Err(_) => format!("{PURPOSE} {s}"),
      }
    }
    Op::Scan(t) => scan(&text(*t)),
    Op::Tree(t) => tree(&text(*t)),
    Op::Match(ps, ty) => {
      let mut next = 0;
      let pats = ps.iter().map(|p| pat(p, *ty, &mut next)).collect();
      match pattern_match::check::<Deep>(&mut (), pats, *ty) {
        Err(e) => e.to_string(),
        Ok(got) => {
          let mut missing: Vec<_> = (got.missing.iter())
            .map(|p| {
              let mut s = String::new();
              show(p, &mut s);
              s
            })
            .collect();
          missing.sort();
          let mut un: Vec<_> = got.unreachable.into_iter().collect();
          un.sort_unstable();
          format!("{un:?} {missing:?}")
        }
      }
    }
    Op::Walk(pushes, start, true) => walk::<BTreeSet<N>>(pushes, start),
    Op::Walk(pushes, start, false) => walk::<std::collections::HashSet<N, rustc_hash::FxBuildHasher>>(pushes, start),
    Op::Chain(ops) => chain(ops),
    Op::Combine(xs, ys) => {
      let make = |xs: &[u8]| {
        let mut s = Store::new();
        let ids: Vec<_> = xs.iter().map(|p| s.get_id_owned(CleanPathBuf::new(path(*p)).expect("absolute"))).collect();
        (s, ids)
      };
      let (mut a, mut ids) = make(xs);
      let (b, _) = make(ys);
      let mut log = String::new();
      a.combine(b, &mut |x, y| {
        poke_only();
        let _ = write!(log, "{x:?} {y:?};");
        ids.push(y);
      });
      ids.iter().for_each(|id| {
        let _ = write!(log, " {:?}", a.get_path(*id));
      });
      log
    }
    Op::Time(n) => {
      let f = || {
        poke_only();
        *n
      };
      format!("{} {}", elapsed::time(f).0, elapsed::log("timed", f))
    }
  });
  got.unwrap_or_else(|_| "panic".to_owned())
}

fn check_types() -> Outcome {
  may!(PositionDb);
  may!(PositionUtf16);
  may!(RangeUtf16);
  may!(Change);
  may!(Store);
  may!(PathId);
  may!(WithPath<String>);
  may!(CleanPath);
  may!(CleanPathBuf);
  may!(MemoryFileSystem);
  may!(RealFileSystem);
  may!(Name);
  may!(Code);
  may!(Diagnostic);
  may!(Severity);
  may!(idx::Idx);
  may!(uniq::Uniq);
  may!(uniq::UniqMk);
  may!(WithRange<String>);
  may!(Token<'static, K>);
  may!(St<'static>);
  may!(TreeError<K, String>);
  may!(topo_sort::graph::CycleError<u32>);
  may!(topo_sort::Work<u32>);
  may!(Pat<Deep>);
  may!(pattern_match::Check<Deep>);
  may!(pattern_match::CheckError);
  Ok(())
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  check_types()?;
  let sh = shared(c);
  let first: Vec<_> = c.ops.iter().map(|op| answer(op, c, &sh)).collect();
  let again = |sh: &Shared, order: &[u16]| -> Outcome {
    for (n, &i) in order.iter().enumerate() {
      let i = usize::from(i) % c.ops.len();
      ensure_eq!(answer(&c.ops[i], c, sh), first[i], "answer to {:?}, asked again (number {n})", c.ops[i]);
    }
    Ok(())
  };
  // again, backwards, of others made alike
  let other = shared(c);
  again(&other, &(0..c.ops.len() as u16).rev().collect::<Vec<_>>())?;
  again(&sh, &c.orders[0])?;
  drop(other);
  if c.orders.len() > 1 {
    let start = std::sync::Barrier::new(c.orders.len());
    let forced = Force((&sh, &again));
    std::thread::scope(|s| {
      let hs: Vec<_> = (c.orders.iter())
        .map(|order| {
          let (start, forced) = (&start, &forced);
          s.spawn(move || {
            let forced = forced;
            start.wait();
            (forced.0.1)(forced.0.0, order)
          })
        })
        .collect();
      let all: Vec<_> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_owned()))).collect();
      all.into_iter().enumerate().try_for_each(|(i, r)| r.map_err(|e| format!("thread {i}: {e}")))
    })?;
    cov.label("threads");
  }
  let distinct: BTreeSet<_> = first.iter().collect();
  cov.label_if(first.iter().any(|s| s == "panic"), "a panic");
  if distinct.len() > 3 && c.ops.len() > 5 {
    cov.nontrivial();
  }
  Ok(())
}

fn small() -> BoxedStrategy<u32> {
  prop_oneof![8 => 0u32..6, 2 => 0u32..40, 1 => any::<u32>()].boxed()
}

fn pats() -> BoxedStrategy<P> {
  let leaf = prop_oneof![2 => Just(P::Any), 3 => (0u8..2).prop_map(|c| P::Of(c, vec![]))];
  leaf
    .prop_recursive(3, 12, 3, |p| {
      prop_oneof![
        3 => (0u8..4, prop::collection::vec(p.clone(), 0..3)).prop_map(|(c, ps)| P::Of(c, ps)),
        1 => prop::collection::vec(p, 1..4).prop_map(P::Or),
      ]
    })
    .boxed()
}

/// How many of them, at the start, call no code of the caller.
pub const QUIET: usize = 17;

pub fn kinds() -> Vec<BoxedStrategy<Op>> {
  let i = any::<u8>;
  let two = || (0u32..4, 0u32..6);
  vec![
    (i(), small()).prop_map(|(t, n)| Op::Offset(t, n)).boxed(),
    (i(), small(), small()).prop_map(|(t, a, b)| Op::At(t, a, b)).boxed(),
    (i(), small(), small()).prop_map(|(t, a, b)| Op::Range(t, a, b)).boxed(),
    (i(), two(), two()).prop_map(|(t, a, b)| Op::RangeAt(t, a.min(b), a.max(b))).boxed(),
    (i(), small(), small()).prop_map(|(t, a, b)| Op::Lines(t, a, b)).boxed(),
    i().prop_map(Op::End).boxed(),
    (i(), prop::collection::vec((prop::option::weighted(0.9, (0u32..3, 0u32..6, 0u32..3, 0u32..6)), i()), 1..4)).prop_map(|(t, cs)| Op::Change(t, cs)).boxed(),
    i().prop_map(Op::Parent).boxed(),
    i().prop_map(Op::Path).boxed(),
    i().prop_map(Op::Read).boxed(),
    i().prop_map(Op::List).boxed(),
    i().prop_map(Op::Pascal).boxed(),
    i().prop_map(Op::Snake).boxed(),
    i().prop_map(Op::Name).boxed(),
    prop_oneof!["[0-9]{1,5}", "[+a0-9]{0,3}"].prop_map(Op::Parse).boxed(),
    (i(), two(), two()).prop_map(|(t, a, b)| Op::Report(t, a, b)).boxed(),
    prop_oneof![3 => (33u8..127).prop_map(char::from), 3 => prop::sample::select(vec!['-', '_', '=', '~', '.']), 1 => any::<char>()].prop_map(Op::Char).boxed(),
    prop::collection::vec((0u8..8, prop::collection::vec(0u8..8, 0..3)), 1..8).prop_map(Op::Graph).boxed(),
    i().prop_map(Op::Clean).boxed(),
    (i(), i()).prop_map(|(a, b)| Op::Join(a, b)).boxed(),
    i().prop_map(Op::Headings).boxed(),
    (prop::collection::vec(i(), 0..4), i()).prop_map(|(is, s)| Op::Join3(is, s)).boxed(),
    i().prop_map(Op::Scan).boxed(),
    i().prop_map(Op::Tree).boxed(),
    (prop::collection::vec(pats(), 1..5), 0u8..3).prop_map(|(ps, ty)| Op::Match(ps, ty)).boxed(),
    (prop::collection::vec(prop::collection::vec(0u8..9, 0..3), 1..9), prop::collection::vec(0u8..9, 0..4), any::<bool>()).prop_map(|(p, s, b)| Op::Walk(p, s, b)).boxed(),
    chain_ops(1..12).prop_map(Op::Chain).boxed(),
    (prop::collection::vec(i(), 0..5), prop::collection::vec(i(), 0..5)).prop_map(|(a, b)| Op::Combine(a, b)).boxed(),
    i().prop_map(Op::Time).boxed(),
  ]
}

pub fn op() -> BoxedStrategy<Op> {
  prop::strategy::Union::new(kinds()).boxed()
}

pub fn texts() -> BoxedStrategy<Vec<String>> {
  let ch = || prop::sample::select(vec!['a', 'b', '_', 'Z', '(', '\n', ' ', '1', 'é', '😀', '(', ')']);
  let text = prop_oneof![
    6 => prop::collection::vec(ch(), 0..5).prop_map(|cs| cs.into_iter().collect::<String>()),
    3 => prop::collection::vec(ch(), 8..9).prop_map(|cs| cs.into_iter().collect::<String>()),
    2 => "[a-z]{1,3}(_[a-z]{1,3}){0,3}",
    2 => "([A-Z][a-z]{0,3}){1,3}",
    1 => vcore::generate::text_of(60),
  ];
  prop::collection::vec(text, 1..6).boxed()
}

pub fn paths() -> BoxedStrategy<Vec<String>> {
  let path = prop::collection::vec(prop_oneof![6 => "[ab]{1,2}", 1 => Just("..".to_owned()), 1 => Just(".".to_owned())], 0..4)
    .prop_map(|xs| format!("/{}", xs.join("/")));
  prop::collection::vec(path, 1..5).boxed()
}

/// Questions of one kind, or mostly.
fn focused(max: usize) -> BoxedStrategy<Vec<Op>> {
  same_kind(kinds(), max)
}

pub fn same_kind(kinds: Vec<BoxedStrategy<Op>>, max: usize) -> BoxedStrategy<Vec<Op>> {
  (0..kinds.len())
    .prop_flat_map(move |k| prop::collection::vec(prop_oneof![12 => kinds[k].clone(), 1 => op()], 1..max))
    .boxed()
}

fn cases(threads: std::ops::Range<usize>) -> BoxedStrategy<Case> {
  let ops = prop_oneof![2 => prop::collection::vec(op(), 1..24), 1 => focused(12)];
  let orders = prop::collection::vec(prop::collection::vec(any::<u16>(), 1..48), threads);
  (texts(), paths(), ops, orders).prop_map(|(texts, paths, ops, orders)| Case { texts, paths, ops, orders }).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Hammer {
  texts: Vec<String>,
  paths: Vec<String>,
  ops: Vec<Op>,
  threads: u8,
  rounds: u16,
}

fn hammers() -> BoxedStrategy<Hammer> {
  (texts(), paths(), focused(6), 2u8..9, 50u16..400)
    .prop_map(|(texts, paths, ops, threads, rounds)| Hammer { texts, paths, ops, threads, rounds })
    .boxed()
}

/// Few questions of one kind, asked by many threads again and again.
fn check_hammer(h: &Hammer, cov: &mut Cov) -> Outcome {
  let c = Case { texts: h.texts.clone(), paths: h.paths.clone(), ops: h.ops.clone(), orders: vec![] };
  let sh = shared(&c);
  let first: Vec<_> = c.ops.iter().map(|op| answer(op, &c, &sh)).collect();
  if first.iter().any(|s| s == "panic") {
    // panicking is slow
    cov.label("a panic");
    return Ok(());
  }
  let start = std::sync::Barrier::new(usize::from(h.threads));
  let forced = Force((&c, &sh));
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..usize::from(h.threads))
      .map(|t| {
        let (start, forced, first) = (&start, &forced, &first);
        s.spawn(move || {
          let forced = forced;
          let (c, sh) = forced.0;
          start.wait();
          for n in 0..usize::from(h.rounds) {
            // now each its own, now all the same
            let i = (n / 3 + t * (n / 48 % 2)) % first.len();
            let got = answer(&c.ops[i], c, sh);
            ensure_eq!(got, first[i], "answer to {:?} in thread {t}, round {n}", c.ops[i]);
          }
          Ok(())
        })
      })
      .collect();
    let all: Vec<Outcome> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_owned()))).collect();
    all.into_iter().collect::<Outcome>()
  })?;
  cov.label_if(h.threads > 4, "over four threads");
  if first.iter().any(|s| *s != first[0]) {
    cov.nontrivial();
  }
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Fresh {
  texts: Vec<String>,
  paths: Vec<String>,
  ops: Vec<Op>,
}

fn afresh() -> BoxedStrategy<Fresh> {
  (texts(), paths(), focused(10)).prop_map(|(texts, paths, ops)| Fresh { texts, paths, ops }).boxed()
}

/// In the order given, and in a process that has answered nothing else, backwards.
fn check_fresh(f: &Fresh, cov: &mut Cov) -> Outcome {
  use std::process::{Command, Stdio};
  let c = Case { texts: f.texts.clone(), paths: f.paths.clone(), ops: f.ops.clone(), orders: vec![] };
  let sh = shared(&c);
  let here: Vec<_> = c.ops.iter().map(|op| answer(op, &c, &sh)).collect();
  let arg = serde_json::to_string(&c).expect("json");
  let out = Command::new(std::env::current_exe().or_give_up("own path"))
    .arg("c40-fresh")
    .arg(arg)
    .stdin(Stdio::null())
    .output()
    .or_give_up("run");
  vcore::not_killed(out.status);
  ensure!(out.status.success(), "a process of its own failed: {}", String::from_utf8_lossy(&out.stderr));
  let there: Vec<String> = serde_json::from_slice(&out.stdout).or_give_up("answers of the process");
  ensure_eq!(there.len(), here.len(), "number of answers");
  for (i, (a, b)) in here.iter().zip(&there).enumerate() {
    ensure_eq!(a, b, "answer to {:?} here and in a process of its own", c.ops[i]);
  }
  if here.iter().any(|s| *s != here[0]) {
    cov.nontrivial();
  }
  Ok(())
}

/// The process of its own.
pub fn fresh(arg: &str) {
  let c: Case = serde_json::from_str(arg).expect("case");
  let sh = shared(&c);
  let mut answers: Vec<_> = c.ops.iter().rev().map(|op| answer(op, &c, &sh)).collect();
  answers.reverse();
  println!("{}", serde_json::to_string(&answers).expect("json"));
}

fn alone() -> BoxedStrategy<Case> {
  cases(1..2)
}

fn together() -> BoxedStrategy<Case> {
  cases(2..5)
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C40",
    parts: vec![
      part("again", "over five questions with over three different answers", 80_000, 4_000_000, alone, check),
      part("threads", "over five questions with over three different answers", 40_000, 2_000_000, together, check),
      part("hammer", "different answers; up to eight threads ask some 200 times each", 15_000, 400_000, hammers, check_hammer),
      part("fresh", "different answers", 12_000, 400_000, afresh, check_fresh),
    ],
  }]
}
