use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, DefaultHasher};
use std::marker::PhantomData;
use topo_sort::{Ret, Set, Visitor, Work};
use vcore::iters::odd;
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  initial: Vec<u16>,
  /// For each element: what processing it pushes, and whether by `push` or `extend`.
  pushes: Vec<(Vec<u16>, bool)>,
  /// For each element, a bit per call to `enter` (modulo 8): decline that call.
  decline: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Ev {
  Enter(u16, bool),
  Process(u16),
  Exit(u16, usize),
}

struct V<'a, S> {
  c: &'a Case,
  trace: RefCell<Vec<Ev>>,
  calls: RefCell<Vec<u32>>,
  fuel: Cell<usize>,
  set: PhantomData<S>,
}

fn data_of(v: u16) -> String {
  format!("data of {v}")
}

impl<S> Visitor for V<'_, S> {
  type Elem = u16;
  type Data = String;
  type Set = S;
  fn enter(&self, v: u16) -> Option<String> {
    self.fuel.set(self.fuel.get().checked_sub(1).expect("more visits than elements were added"));
    let mut calls = self.calls.borrow_mut();
    let n = &mut calls[v as usize];
    let skip = self.c.decline[v as usize] >> (*n % 8) & 1 == 1;
    *n += 1;
    self.trace.borrow_mut().push(Ev::Enter(v, !skip));
    (!skip).then(|| data_of(v))
  }
  fn process(&mut self, v: u16, data: String, work: &mut Work<u16>) {
    assert_eq!(data, data_of(v), "wrong data");
    self.trace.borrow_mut().push(Ev::Process(v));
    assert!(self.trace.borrow().len() < 1_000_000, "runs away");
    let (ps, ext) = &self.c.pushes[v as usize];
    if *ext {
      work.extend(odd(ps.clone(), ps.first().copied(), v as u8));
    } else {
      for p in ps {
        work.push(*p);
      }
    }
  }
  fn exit(&mut self, v: u16, level: usize) {
    self.trace.borrow_mut().push(Ev::Exit(v, level));
  }
}

/// How the initial work list is made.
#[derive(Clone, Copy)]
enum Init {
  Push,
  Collect,
  Extend,
}

fn run<S>(c: &Case, init: Init) -> (Vec<Ev>, Ret<S, u16>)
where
  S: Set<Elem = u16>,
{
  let n = c.pushes.len();
  // every element is processed at most once, so at most this many can ever be entered
  let fuel = c.initial.len() + c.pushes.iter().map(|p| p.0.len()).sum::<usize>();
  let mut v = V::<S> {
    c,
    trace: RefCell::default(),
    calls: RefCell::new(vec![0; n]),
    fuel: Cell::new(fuel),
    set: PhantomData,
  };
  let work: Work<u16> = match init {
    Init::Collect => odd(c.initial.clone(), Some(0), n as u8).collect(),
    Init::Push => {
      let mut w = Work::default();
      c.initial.iter().for_each(|&x| w.push(x));
      w
    }
    Init::Extend => {
      let mut w = Work::default();
      let (a, b) = c.initial.split_at(c.initial.len() / 2);
      w.extend(odd(a.to_vec(), Some(0), n as u8));
      w.extend(odd(b.to_vec(), None, (n / 3) as u8));
      w
    }
  };
  let ret = work.run(&mut v);
  (v.trace.into_inner(), ret)
}

fn strat() -> BoxedStrategy<Case> {
  let sized = |lo: u16, hi: u16, deg: usize| {
    (lo..=hi).prop_flat_map(move |n| {
      let decl = prop_oneof![8 => Just(0u8), 1 => Just(0xffu8), 1 => any::<u8>()];
      (
        prop::collection::vec(0..n, 0..=(n as usize).min(12)),
        prop::collection::vec((prop::collection::vec(0..n, 0..=deg), any::<bool>()), n as usize),
        prop::collection::vec(decl, n as usize),
      )
        .prop_map(|(initial, pushes, decline)| Case { initial, pushes, decline })
    })
  };
  // acyclic: pushes only of larger elements
  let dag = sized(2, 24, 4).prop_map(|mut c| {
    for (i, (ps, _)) in c.pushes.iter_mut().enumerate() {
      ps.retain(|&p| p as usize > i);
    }
    c
  });
  // deep: mostly each pushes the next
  let deep = (200u16..1500, prop::collection::vec((any::<u16>(), any::<u16>(), any::<bool>()), 0..6), any::<bool>(), 0u8..4).prop_map(
    |(n, extra, flip, decl)| {
      let mut pushes: Vec<(Vec<u16>, bool)> = (0..n).map(|i| (if i + 1 < n { vec![i + 1] } else { vec![] }, flip)).collect();
      for (a, b, front) in extra {
        let ps = &mut pushes[usize::from(a % n)].0;
        if front { ps.insert(0, b % n) } else { ps.push(b % n) }
      }
      let mut decline = vec![0u8; usize::from(n)];
      if decl == 0 {
        decline[usize::from(n) / 2] = 0xff;
      }
      Case { initial: vec![0], pushes, decline }
    },
  );
  // one element that pushes very many
  let wide = (100u16..600, any::<u16>(), any::<bool>()).prop_map(|(n, salt, ext)| {
    let mut pushes: Vec<(Vec<u16>, bool)> = (0..n).map(|i| (vec![i.wrapping_mul(salt | 1) % n; usize::from(i % 5 == 4)], ext)).collect();
    pushes[0].0 = (1..n).map(|i| i.wrapping_mul(salt | 1) % n).collect();
    Case { initial: vec![0], pushes, decline: vec![0; usize::from(n)] }
  });
  prop_oneof![120 => sized(1, 6, 3), 80 => sized(1, 20, 4), 80 => dag, 20 => sized(50, 120, 3), 1 => deep, 1 => wide].boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let (trace, ret) = run::<BTreeSet<u16>>(c, Init::Collect);
  let mut open: Vec<u16> = Vec::new();
  let mut done = BTreeSet::new();
  let mut processed = BTreeSet::new();
  let mut declined = BTreeSet::new();
  let mut entered = BTreeSet::new();
  let mut first_open: Option<u16> = None;
  // an element pushed something that was open at that time, and static declines
  let mut back_edge = false;
  for ev in &trace {
    match *ev {
      Ev::Enter(v, accepted) => {
        ensure!(!done.contains(&v), "visited {v} after it was finished; {trace:?}");
        entered.insert(v);
        if !accepted {
          declined.insert(v);
        } else if open.contains(&v) && first_open.is_none() {
          first_open = Some(v);
        }
      }
      Ev::Process(v) => {
        ensure!(entered.contains(&v), "processed {v} without asking the visitor");
        ensure!(c.decline[v as usize] != 0xff, "processed {v}, which was declined");
        ensure!(processed.insert(v), "processed {v} twice; {trace:?}");
        open.push(v);
        back_edge |= c.pushes[v as usize].0.iter().any(|p| open.contains(p) && c.decline[*p as usize] == 0);
      }
      Ev::Exit(v, level) => {
        ensure_eq!(open.pop(), Some(v), "exits are not well nested; {trace:?}");
        ensure_eq!(level, open.len(), "level at the exit of {v}; {trace:?}");
        done.insert(v);
        for p in &c.pushes[v as usize].0 {
          ensure!(
            done.contains(p) || declined.contains(p) || open.contains(p),
            "exited {v} before {p}, which it added; {trace:?}"
          );
        }
      }
    }
  }
  ensure!(open.is_empty(), "never exited {open:?}; {trace:?}");
  ensure_eq!(ret.done, processed, "done set");
  for v in &c.initial {
    ensure!(done.contains(v) || declined.contains(v), "{v} was in the work list but never handled");
  }
  if c.decline.iter().all(|&d| d == 0 || d == 0xff) {
    ensure_eq!(ret.cycle.is_some(), back_edge, "cycle reported; {trace:?}");
  }
  ensure_eq!(ret.cycle, first_open, "cycle element; {trace:?}");

  // other sets, other ways to fill the list
  let (t2, r2) = run::<rustc_hash::FxHashSet<u16>>(c, Init::Push);
  ensure_eq!(t2, trace, "walk with an Fx hash set");
  ensure_eq!(r2.cycle, ret.cycle, "cycle with an Fx hash set");
  ensure_eq!(r2.done.into_iter().collect::<BTreeSet<_>>(), done, "done with an Fx hash set");
  let (t3, r3) = run::<HashSet<u16, BuildHasherDefault<DefaultHasher>>>(c, Init::Extend);
  ensure_eq!(t3, trace, "walk with a hash set");
  ensure_eq!(r3.cycle, ret.cycle, "cycle with a hash set");
  ensure_eq!(r3.done.into_iter().collect::<BTreeSet<_>>(), done, "done with a hash set");

  if processed.len() >= 2 && trace.len() >= 6 {
    cov.nontrivial();
  }
  cov.label(if ret.cycle.is_some() { "cycle" } else { "no cycle" });
  cov.label_if(!declined.is_empty(), "declined");
  cov.label_if(processed.len() >= 10, "10+ processed");
  cov.label_if(trace.iter().any(|e| matches!(e, Ev::Exit(_, l) if *l > 255)), "over 255 open");
  Ok(())
}

/// A walk along a chain, or to all of a wide fan.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Far {
  n: u32,
  fan: bool,
  /// This element also pushes that one (before or after its successor).
  extra: Option<(u32, u32, bool)>,
  /// Declined always.
  decline: Option<u32>,
}

struct FarV<'a> {
  c: &'a Far,
  trace: RefCell<Vec<(u8, u32, usize)>>,
}

impl Far {
  fn pushes(&self, v: u32) -> Vec<u32> {
    let mut ps: Vec<u32> = if self.fan {
      if v == 0 { (1..self.n).collect() } else { vec![] }
    } else {
      (v + 1..self.n).take(1).collect()
    };
    if let Some((a, b, front)) = self.extra {
      if a % self.n == v {
        ps.insert(if front { 0 } else { ps.len() }, b % self.n);
      }
    }
    ps
  }

  fn declined(&self, v: u32) -> bool {
    self.decline.is_some_and(|d| d % self.n == v)
  }
}

impl Visitor for FarV<'_> {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, v: u32) -> Option<()> {
    self.trace.borrow_mut().push((0, v, 0));
    (!self.c.declined(v)).then_some(())
  }
  fn process(&mut self, v: u32, (): (), work: &mut Work<u32>) {
    self.trace.borrow_mut().push((1, v, 0));
    assert!(self.trace.borrow().len() < 1_000_000, "runs away");
    work.extend(self.c.pushes(v));
  }
  fn exit(&mut self, v: u32, level: usize) {
    self.trace.borrow_mut().push((2, v, level));
  }
}

fn check_far(c: &Far, cov: &mut Cov) -> Outcome {
  let mut v = FarV { c, trace: RefCell::default() };
  let mut w = Work::default();
  w.push(0);
  let ret: Ret<BTreeSet<u32>, u32> = w.run(&mut v);
  let trace = v.trace.into_inner();
  // 1: open, 2: done
  let mut state = vec![0u8; c.n as usize];
  let mut open: Vec<u32> = Vec::new();
  let mut cycle = None;
  for (i, &(what, v, level)) in trace.iter().enumerate() {
    let s = state[v as usize];
    match what {
      0 => {
        ensure!(s != 2, "visited {v} after it was finished, step {i}");
        if !c.declined(v) && s == 1 {
          cycle = cycle.or(Some(v));
        }
      }
      1 => {
        ensure!(s == 0 && !c.declined(v), "processed {v}, which is open, finished or declined, step {i}");
        state[v as usize] = 1;
        open.push(v);
      }
      _ => {
        ensure_eq!(open.pop(), Some(v), "exits are not well nested, step {i}");
        ensure_eq!(level, open.len(), "level at the exit of {v}, step {i}");
        state[v as usize] = 2;
        for p in c.pushes(v) {
          ensure!(state[p as usize] > 0 || c.declined(p), "exited {v} before {p}, which it added, step {i}");
        }
      }
    }
  }
  ensure!(open.is_empty(), "{} elements are never exited", open.len());
  ensure_eq!(ret.cycle, cycle, "cycle");
  let done: BTreeSet<u32> = (0..c.n).filter(|&v| state[v as usize] == 2).collect();
  ensure!(ret.done == done, "done: {} elements, expected {}", ret.done.len(), done.len());
  ensure!(c.declined(0) || done.contains(&0), "the element in the work list is never handled");
  cov.nontrivial();
  cov.label_if(cycle.is_some(), "cycle");
  cov.label_if(trace.iter().any(|x| x.2 > 1 << 16), "over 2^16 open");
  cov.label_if(c.fan && c.n > 1 << 16, "over 2^16 pushed at once");
  Ok(())
}

fn far() -> BoxedStrategy<Far> {
  let extra = prop::option::weighted(0.6, (any::<u32>(), any::<u32>(), any::<bool>()));
  (20_000u32..90_000, prop::bool::weighted(0.3), extra, prop::option::weighted(0.2, any::<u32>()))
    .prop_map(|(n, fan, extra, decline)| Far { n, fan, extra, decline })
    .boxed()
}

/// The set implementations themselves, against each other.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum SetOp {
  Insert(u8),
  Remove(u8),
}

fn set_strat() -> BoxedStrategy<Vec<SetOp>> {
  let op = prop_oneof![3 => (0u8..12).prop_map(SetOp::Insert), 2 => (0u8..12).prop_map(SetOp::Remove)];
  prop::collection::vec(op, 0..40).boxed()
}

fn drive<S: Set<Elem = u8>>(ops: &[SetOp]) -> Outcome {
  let mut s = S::default();
  let mut model = [false; 12];
  ensure!(s.is_empty(), "default set is not empty");
  for (i, op) in ops.iter().enumerate() {
    match *op {
      SetOp::Insert(x) => {
        ensure_eq!(s.insert(x), !model[x as usize], "insert {x} at {i}");
        model[x as usize] = true;
      }
      SetOp::Remove(x) => {
        ensure_eq!(s.remove(&x), model[x as usize], "remove {x} at {i}");
        model[x as usize] = false;
      }
    }
    for x in 0..12u8 {
      ensure_eq!(s.contains(&x), model[x as usize], "contains {x} after {i}");
    }
    ensure_eq!(s.is_empty(), model == [false; 12], "is_empty after {i}");
  }
  Ok(())
}

fn check_sets(ops: &Vec<SetOp>, cov: &mut Cov) -> Outcome {
  if ops.len() >= 4 {
    cov.nontrivial();
  }
  drive::<BTreeSet<u8>>(ops)?;
  drive::<rustc_hash::FxHashSet<u8>>(ops)?;
  drive::<HashSet<u8, BuildHasherDefault<DefaultHasher>>>(ops)
}

pub fn prop() -> Prop {
  Prop {
    id: "C02",
    parts: vec![
      part(
        "walks",
        "work lists over universes of 1-120 elements (some of 1500) with per-element push lists and per-call declines; non-trivial: two or more elements processed and six or more callbacks",
        600_000,
        6_000_000,
        strat,
        check,
      ),
      part("far", "chains and fans of 20000 to 90000 elements with an extra push; non-trivial: always", 64, 2_000, far, check_far),
      part("sets", "insert/remove histories over each provided set type; non-trivial: four or more operations", 200_000, 3_000_000, set_strat, check_sets),
    ],
  }
}
