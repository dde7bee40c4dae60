//! C41: code of the caller that runs during a call may make calls itself, fail or panic.

use crate::state::{Case, Shared, answer, op, paths, same_kind, shared, texts};
use chain_map::ChainMap;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use paths::{CleanPathBuf, PathId, Store};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vcore::iters::odd;
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Act {
  /// Asks this question.
  Ask(u16),
  /// Panics.
  Panic,
  /// Reports a failure, or panics where that cannot be done.
  Fail,
}

pub const PURPOSE: &str = "on purpose";

/// What is to be done by code that is called back, and when.
struct Plan {
  /// Next last.
  steps: Vec<(u32, Act)>,
  ctx: Rc<(Case, Shared, Vec<String>)>,
  wrong: Vec<String>,
  nested: u32,
  depth: u32,
  deepest: u32,
}

thread_local! {
  static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
  /// How often code was called back since the last step.
  static CALLS: Cell<u32> = const { Cell::new(0) };
  static DUE: Cell<u32> = const { Cell::new(u32::MAX) };
  static FIRED: Cell<bool> = const { Cell::new(false) };
}

/// Called by all code that is called back; whether to report a failure.
pub fn poke() -> bool {
  let n = CALLS.get();
  CALLS.set(n + 1);
  if n != DUE.get() {
    return false;
  }
  step()
}

/// As `poke`, where no failure can be reported.
pub fn poke_only() {
  assert!(!poke(), "{PURPOSE}");
}

fn aim(p: &Plan) {
  CALLS.set(0);
  DUE.set(p.steps.last().map_or(u32::MAX, |s| s.0));
}

#[cold]
fn step() -> bool {
  let next = PLAN.with_borrow_mut(|p| {
    let p = p.as_mut()?;
    let (_, act) = p.steps.pop()?;
    aim(p);
    p.depth += 1;
    p.deepest = p.deepest.max(p.depth);
    Some((act, p.ctx.clone()))
  });
  let Some((act, ctx)) = next else { return false };
  let ret = match act {
    Act::Ask(i) => {
      let i = usize::from(i) % ctx.0.ops.len();
      let got = answer(&ctx.0.ops[i], &ctx.0, &ctx.1);
      let wrong = judge(&got, &ctx.2[i], &format!("answer to {:?}, asked during another call", ctx.0.ops[i])).err();
      PLAN.with_borrow_mut(|p| {
        let p = p.as_mut().unwrap();
        p.wrong.extend(wrong);
        p.nested += 1;
      });
      false
    }
    Act::Panic => {
      FIRED.set(true);
      PLAN.with_borrow_mut(|p| p.as_mut().unwrap().depth -= 1);
      panic!("{PURPOSE}");
    }
    Act::Fail => {
      FIRED.set(true);
      true
    }
  };
  PLAN.with_borrow_mut(|p| p.as_mut().unwrap().depth -= 1);
  ret
}

/// How often `f` leads to code being called back.
pub fn calls(f: impl FnOnce()) -> u32 {
  DUE.set(u32::MAX);
  CALLS.set(0);
  f();
  CALLS.get()
}

/// Does `f`, at the given call back in which this is done; whether it came to that.
pub fn with_plan<T>(at: u32, act: Act, f: impl FnOnce() -> T) -> (T, bool) {
  thread_local!(static NONE: Rc<(Case, Shared, Vec<String>)> = Rc::new((Case { texts: vec![], paths: vec![], ops: vec![], orders: vec![] }, Shared::empty(), vec![])));
  FIRED.set(false);
  let p = Plan { steps: vec![(at, act)], ctx: NONE.with(Rc::clone), wrong: vec![], nested: 0, depth: 0, deepest: 0 };
  aim(&p);
  PLAN.set(Some(p));
  let ret = f();
  DUE.set(u32::MAX);
  PLAN.set(None);
  (ret, FIRED.take())
}

/// If code called back has failed during this call, that must have been reported; else it is the answer there always is.
fn judge(got: &str, want: &str, what: &str) -> Outcome {
  if FIRED.take() {
    ensure!(got == "panic" || got.contains(PURPOSE), "{what}, in which code called back failed: {got:?}");
  } else {
    ensure_eq!(got, want, "{what}");
  }
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Nest {
  texts: Vec<String>,
  paths: Vec<String>,
  ops: Vec<crate::state::Op>,
  /// Which question is asked, and what is done at which of the calls it leads to.
  plans: Vec<(u16, Vec<(u32, Act)>)>,
}

fn nests() -> BoxedStrategy<Nest> {
  let act = prop_oneof![8 => any::<u16>().prop_map(Act::Ask), 1 => Just(Act::Panic), 2 => Just(Act::Fail)];
  let plan = (any::<u16>(), prop::collection::vec((prop_oneof![2 => 0u32..12, 1 => any::<u32>()], act), 1..6));
  let ops = prop_oneof![
    2 => prop::collection::vec(prop_oneof![2 => calling(), 1 => op()], 1..10),
    3 => same_kind(calling_kinds(), 6),
  ];
  (texts(), paths(), ops, prop::collection::vec(plan, 1..16))
    .prop_map(|(texts, paths, ops, plans)| Nest { texts, paths, ops, plans })
    .boxed()
}

pub fn calling_kinds() -> Vec<BoxedStrategy<crate::state::Op>> {
  crate::state::kinds().split_off(crate::state::QUIET)
}

fn calling() -> BoxedStrategy<crate::state::Op> {
  prop::strategy::Union::new(calling_kinds()).boxed()
}

fn check(n: &Nest, cov: &mut Cov) -> Outcome {
  let c = Case { texts: n.texts.clone(), paths: n.paths.clone(), ops: n.ops.clone(), orders: vec![] };
  let sh = shared(&c);
  DUE.set(u32::MAX);
  FIRED.set(false);
  let mut calls = Vec::new();
  let mut first = Vec::new();
  for op in &c.ops {
    CALLS.set(0);
    first.push(answer(op, &c, &sh));
    calls.push(CALLS.get());
  }
  cov.label_if(first.iter().any(|s| s == "panic"), "a panic by itself");
  let len = c.ops.len();
  let ctx = Rc::new((c, sh, first));
  let (c, sh, first) = &*ctx;
  let mut distinct = BTreeSet::new();
  for (num, (q, steps)) in n.plans.iter().enumerate() {
    let q = usize::from(*q) % len;
    // where each step is due depends on the question in whose answering it falls
    let mut at = q;
    let mut plan = Vec::new();
    for (k, act) in steps {
      if calls[at] == 0 {
        break;
      }
      plan.push((k % calls[at], act.clone()));
      match act {
        Act::Ask(i) => at = usize::from(*i) % len,
        Act::Panic | Act::Fail => break,
      }
    }
    if plan.is_empty() {
      continue;
    }
    plan.reverse();
    let p = Plan { steps: plan, ctx: ctx.clone(), wrong: vec![], nested: 0, depth: 0, deepest: 0 };
    aim(&p);
    PLAN.set(Some(p));
    let got = answer(&c.ops[q], c, sh);
    DUE.set(u32::MAX);
    let p = PLAN.take().unwrap();
    cov.label_if(p.deepest > 2, "calls within calls within calls");
    cov.label_if(p.nested > 0, "a call within a call");
    cov.label_if(got == "panic" && first[q] != "panic", "a panic of code called back");
    cov.label_if(got.contains(PURPOSE), "a failure of code called back");
    if let Some(w) = p.wrong.into_iter().next() {
      return Err(format!("plan {num}, of {:?}: {w}", c.ops[q]));
    }
    judge(&got, &first[q], &format!("plan {num}: answer to {:?}, during which code called back did {steps:?}", c.ops[q]))?;
    if p.nested > 0 {
      distinct.insert(q);
    }
  }
  for i in 0..len {
    ensure_eq!(answer(&c.ops[i], c, sh), first[i], "answer to {:?}, asked again at the end", c.ops[i]);
  }
  if !distinct.is_empty() && first.iter().any(|s| *s != first[0]) {
    cov.nontrivial();
  }
  Ok(())
}

// Maps and stores of which one is used while code called back panics.

/// A key or value: comparing, hashing and copying it calls back.
#[derive(Debug, PartialOrd, Ord)]
pub struct E(pub u8);

impl PartialEq for E {
  fn eq(&self, other: &Self) -> bool {
    poke_only();
    self.0 == other.0
  }
}

impl Eq for E {}

impl std::hash::Hash for E {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    poke_only();
    self.0.hash(state);
  }
}

impl Clone for E {
  fn clone(&self) -> Self {
    poke_only();
    E(self.0)
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ChainOp {
  Insert(u8, u8),
  Extend(Vec<(u8, u8)>, u8),
  Get(u8),
  GetMut(u8, u8),
  Remove(u8),
  Iter,
  IterMut(u8),
  Consolidate,
  Drain(u8),
  Clone,
  Append,
  IntoIter,
}

pub fn chain_ops(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<ChainOp>> {
  let k = 0u8..6;
  let op = prop_oneof![
    4 => (k.clone(), any::<u8>()).prop_map(|(k, v)| ChainOp::Insert(k, v)),
    2 => (prop::collection::vec((k.clone(), any::<u8>()), 0..4), any::<u8>()).prop_map(|(xs, h)| ChainOp::Extend(xs, h)),
    1 => k.clone().prop_map(ChainOp::Get),
    2 => (k.clone(), any::<u8>()).prop_map(|(k, v)| ChainOp::GetMut(k, v)),
    2 => k.prop_map(ChainOp::Remove),
    1 => Just(ChainOp::Iter),
    1 => any::<u8>().prop_map(ChainOp::IterMut),
    1 => Just(ChainOp::Consolidate),
    1 => (0u8..4).prop_map(ChainOp::Drain),
    3 => Just(ChainOp::Clone),
    1 => Just(ChainOp::Append),
    1 => Just(ChainOp::IntoIter),
  ];
  prop::collection::vec(op, n).boxed()
}

type Map = ChainMap<E, E>;

fn entries<'a>(xs: impl Iterator<Item = (&'a E, &'a E)>) -> Vec<(u8, u8)> {
  let mut v: Vec<_> = xs.map(|(k, v)| (k.0, v.0)).collect();
  v.sort_unstable();
  v
}

/// Does the operation to the last of the maps.
fn apply(ms: &mut Vec<Map>, op: &ChainOp) -> String {
  let m = ms.last_mut().unwrap();
  match op {
    ChainOp::Insert(k, v) => format!("{}", m.insert(E(*k), E(*v))),
    ChainOp::Extend(xs, how) => {
      m.extend(odd(xs.iter().map(|x| (E(x.0), E(x.1))).collect(), None, *how).inspect(|_| poke_only()));
      String::new()
    }
    ChainOp::Get(k) => format!("{:?}", m.get(&E(*k))),
    ChainOp::GetMut(k, v) => match m.get_mut(&E(*k)) {
      None => "none".to_owned(),
      Some(x) => format!("{:?}", std::mem::replace(x, E(*v))),
    },
    ChainOp::Remove(k) => format!("{:?}", m.remove(&E(*k))),
    ChainOp::Iter => format!("{:?}", entries(m.iter())),
    ChainOp::IterMut(n) => {
      m.iter_mut().for_each(|(_, v)| v.0 = v.0.wrapping_add(*n));
      String::new()
    }
    ChainOp::Consolidate => {
      m.consolidate();
      String::new()
    }
    ChainOp::Drain(n) => format!("{}", m.drain().take(usize::from(*n)).count()),
    ChainOp::Clone => {
      let m = m.clone();
      ms.push(m);
      String::new()
    }
    ChainOp::Append => {
      if ms.len() > 1 {
        let mut other = ms.swap_remove(0);
        ms.last_mut().unwrap().append(&mut other);
        return format!("{}", other.is_empty());
      }
      String::new()
    }
    ChainOp::IntoIter => {
      let m = std::mem::take(m);
      let mut v: Vec<_> = m.into_iter().map(|(k, v)| (k.0, v.0)).collect();
      v.sort_unstable();
      format!("{v:?}")
    }
  }
}

/// What the operations give, and what is in the maps in the end.
pub fn chain(ops: &[ChainOp]) -> String {
  let mut ms = vec![Map::default()];
  let mut out: Vec<String> = ops.iter().map(|op| apply(&mut ms, op)).collect();
  out.extend(ms.iter().map(|m| format!("{:?}", entries(m.iter()))));
  out.join(" ")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Torn {
  before: Vec<ChainOp>,
  during: ChainOp,
  at: u16,
  after: Vec<ChainOp>,
}

fn torn() -> BoxedStrategy<Torn> {
  let one = chain_ops(1..2).prop_map(|mut v| v.pop().unwrap());
  (chain_ops(2..14), one, any::<u16>(), chain_ops(0..5))
    .prop_map(|(before, during, at, after)| Torn { before, during, at, after })
    .boxed()
}

/// A panic during an operation on one map changes no other map, and loses or doubles no key or value.
fn check_torn(t: &Torn, cov: &mut Cov) -> Outcome {
  DUE.set(u32::MAX);
  let mut ms = vec![Map::default()];
  for op in &t.before {
    apply(&mut ms, op);
    // one whose maps are all looked at afterwards
    if matches!(op, ChainOp::Insert(..)) && ms.len() < 3 {
      apply(&mut ms, &ChainOp::Clone);
    }
  }
  if matches!(t.during, ChainOp::Clone | ChainOp::Append) {
    return Ok(());
  }
  let want: Vec<_> = ms.iter().map(|m| entries(m.iter())).collect();
  // how many calls there will be: by doing it to a copy of everything, of which no part is shared
  let mut copy: Vec<Map> = ms.clone();
  CALLS.set(0);
  apply(&mut copy, &t.during);
  let calls = CALLS.get();
  drop(copy);
  if calls == 0 {
    return Ok(());
  }
  let ctx = Rc::new((Case { texts: vec![], paths: vec![], ops: vec![], orders: vec![] }, Shared::empty(), vec![]));
  let p = Plan { steps: vec![(u32::from(t.at) % calls, Act::Panic)], ctx, wrong: vec![], nested: 0, depth: 0, deepest: 0 };
  aim(&p);
  PLAN.set(Some(p));
  let last = ms.len() - 1;
  let r = catch(|| apply(&mut ms, &t.during));
  DUE.set(u32::MAX);
  PLAN.set(None);
  if FIRED.take() {
    ensure!(r.is_err(), "a panic of the keys or values during {:?} was swallowed: {r:?}", t.during);
    cov.label("panicked");
  } else {
    return Ok(());
  }
  for i in 0..last {
    ensure_eq!(entries(ms[i].iter()), want[i], "map {i} of {last}, after a panic during {:?} of the last", t.during);
    ensure_eq!(ms[i].is_empty(), want[i].is_empty(), "whether map {i} is empty, after a panic during {:?} of the last", t.during);
  }
  // the one itself is a map: of nothing that was not there
  let now = entries(ms[last].iter());
  let keys: BTreeSet<u8> = now.iter().map(|x| x.0).collect();
  ensure_eq!(keys.len(), now.len(), "the keys of the map itself, after a panic during {:?}: {now:?}", t.during);
  let mut model: BTreeMap<u8, u8> = now.into_iter().collect();
  for (k, v) in [(200, 1), (1, 2), (200, 3)] {
    ensure_eq!(ms[last].insert(E(k), E(v)), model.insert(k, v).is_none(), "insert of {k} after a panic during {:?}", t.during);
    ensure_eq!(ms[last].get(&E(k)).map(|v| v.0), Some(v), "get of {k} after a panic during {:?}", t.during);
  }
  ensure_eq!(entries(ms[last].iter()), model.clone().into_iter().collect::<Vec<_>>(), "the map itself, used again");
  ms[last].consolidate();
  ensure_eq!(entries(ms[last].iter()), model.into_iter().collect::<Vec<_>>(), "the map itself, used again and consolidated");
  for op in &t.after {
    apply(&mut ms, op);
  }
  if last > 0 && want[..last].iter().any(|w| !w.is_empty()) {
    cov.nontrivial();
  }
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct TornStore {
  paths: Vec<String>,
  mine: Vec<u8>,
  theirs: Vec<u8>,
  at: u16,
  after: Vec<u8>,
}

fn torn_stores() -> BoxedStrategy<TornStore> {
  let which = |n| prop::collection::vec(any::<u8>(), 0..n);
  (paths(), which(6), prop::collection::vec(any::<u8>(), 1..8), any::<u16>(), which(8))
    .prop_map(|(mut paths, mine, theirs, at, after)| {
      paths.extend(["/c", "/c/d", "/d"].map(str::to_owned));
      TornStore { paths, mine, theirs, at, after }
    })
    .boxed()
}

/// A panic while stores are combined leaves each path with one id, and each id that was told is right.
fn check_torn_store(t: &TornStore, cov: &mut Cov) -> Outcome {
  let paths: Vec<_> = t.paths.iter().map(|p| CleanPathBuf::new(p).expect("absolute")).collect();
  let path = |n: u8| &paths[usize::from(n) % paths.len()];
  let mut store = Store::new();
  let mut known: BTreeMap<&CleanPathBuf, PathId> = BTreeMap::new();
  for n in &t.mine {
    known.insert(path(*n), store.get_id(path(*n).as_clean_path()));
  }
  let mut other = Store::new();
  let mut old = BTreeMap::new();
  for n in &t.theirs {
    old.insert(other.get_id(path(*n).as_clean_path()), path(*n));
  }
  let at = usize::from(t.at) % old.len();
  let mut told = Vec::new();
  let r = catch(|| {
    store.combine(other, &mut |x, y| {
      told.push((x, y));
      assert!(told.len() <= at, "{PURPOSE}");
    });
  });
  ensure!(r.is_err(), "a panic of the function that is told the ids was swallowed");
  ensure_eq!(told.len(), at + 1, "how often the function was called that panics when called for time {at}");
  cov.label_if(at > 0, "after others were told");
  let before = known.len();
  for (x, y) in told {
    let p = old[&x];
    let z = *known.entry(p).or_insert(y);
    ensure_eq!(y, z, "the id told for {p:?}, against that it had");
  }
  let new = known.len() > before;
  for n in &t.after {
    let id = store.get_id_owned(path(*n).clone());
    let z = *known.entry(path(*n)).or_insert(id);
    ensure_eq!(id, z, "the id of {:?} after the panic", path(*n));
  }
  for (p, id) in &known {
    ensure_eq!(store.get_path(*id).as_path(), p.as_path(), "the path of {id:?} after the panic");
    ensure_eq!(store.get_id(p.as_clean_path()), *id, "the id of {p:?}, asked again after the panic");
  }
  let ids: BTreeSet<_> = known.values().collect();
  ensure_eq!(ids.len(), known.len(), "how many ids the paths {known:?} have");
  if new && known.len() > 2 {
    cov.nontrivial();
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C41",
    parts: vec![
      part("within", "a call made during another was answered, and not all questions have one answer", 60_000, 2_000_000, nests, check),
      part("torn-maps", "a panic during an operation on a chain map while others have entries", 200_000, 4_000_000, torn, check_torn),
      part("torn-stores", "new paths were told before a panic, and there are three paths or more", 60_000, 1_000_000, torn_stores, check_torn_store),
    ],
  }]
}
