//! C42: what a call takes it gives back.

use crate::nest::{Act, PURPOSE, with_plan};
use crate::state::{Case, Op, answer, kinds, op, paths, same_kind, shared, texts};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use vcore::{Cov, Outcome, Prop, ensure, part};

thread_local! {
  /// Bytes this thread has taken and not given back.
  static HELD: Cell<isize> = const { Cell::new(0) };
  /// Blocks likewise.
  static BLOCKS: Cell<isize> = const { Cell::new(0) };
  /// How often it has taken any.
  static TAKEN: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

fn count(bytes: isize, blocks: isize) {
  HELD.set(HELD.get() + bytes);
  BLOCKS.set(BLOCKS.get() + blocks);
  if bytes > 0 {
    TAKEN.set(TAKEN.get() + 1);
  }
}

// SAFETY: as `System`; the counters neither allocate nor need to be dropped.
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    count(l.size() as isize, 1);
    unsafe { System.alloc(l) }
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    count(l.size() as isize, 1);
    unsafe { System.alloc_zeroed(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-(l.size() as isize), -1);
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    count(n as isize - l.size() as isize, 0);
    unsafe { System.realloc(p, l, n) }
  }
}

/// What is held more after `f` than before it: bytes, blocks.
fn held(mut f: impl FnMut()) -> (isize, isize) {
  let before = (HELD.get(), BLOCKS.get());
  f();
  (HELD.get() - before.0, BLOCKS.get() - before.1)
}

/// Does `f` until whatever is kept on purpose is there, and then again.
fn steady(what: &str, mut f: impl FnMut()) -> Outcome {
  for _ in 0..3 {
    f();
  }
  let more = held(|| {
    for _ in 0..4 {
      f();
    }
  });
  ensure!(more.0 <= 0 && more.1 <= 0, "{what}, done again four times: {} bytes in {} blocks were not given back", more.0, more.1);
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Again {
  texts: Vec<String>,
  paths: Vec<String>,
  ops: Vec<Op>,
  /// At which calls code called back reports a failure: for the check of failures.
  faults: Vec<u16>,
}

fn agains() -> BoxedStrategy<Again> {
  let ops = prop_oneof![1 => prop::collection::vec(op(), 1..6), 1 => same_kind(kinds(), 4)];
  (texts(), paths(), ops).prop_map(|(texts, paths, ops)| Again { texts, paths, ops, faults: vec![] }).boxed()
}

fn failing() -> BoxedStrategy<Again> {
  let ops = same_kind(crate::nest::calling_kinds(), 4);
  (texts(), paths(), ops, prop::collection::vec(any::<u16>(), 2..12))
    .prop_map(|(texts, paths, ops, faults)| Again { texts, paths, ops, faults })
    .boxed()
}

fn check(a: &Again, cov: &mut Cov) -> Outcome {
  let c = Case { texts: a.texts.clone(), paths: a.paths.clone(), ops: a.ops.clone(), orders: vec![] };
  steady("making tables and stores", || drop(shared(&c)))?;
  let sh = shared(&c);
  let mut took = 0;
  for op in &c.ops {
    let before = TAKEN.get();
    let len = answer(op, &c, &sh).len();
    // the answer itself takes some
    took += usize::from(TAKEN.get() - before > 4 && len > 0);
    steady(&format!("{op:?}"), || drop(answer(op, &c, &sh)))?;
  }
  steady("all of the questions", || {
    for op in &c.ops {
      drop(answer(op, &c, &sh));
    }
  })?;
  if took > 1 {
    cov.nontrivial();
  }
  Ok(())
}

fn check_failing(a: &Again, cov: &mut Cov) -> Outcome {
  let c = Case { texts: a.texts.clone(), paths: a.paths.clone(), ops: a.ops.clone(), orders: vec![] };
  let sh = shared(&c);
  let mut fired = 0;
  for op in &c.ops {
    let calls = crate::nest::calls(|| drop(answer(op, &c, &sh)));
    if calls == 0 {
      continue;
    }
    for at in &a.faults {
      let at = u32::from(*at) % calls;
      // where it can only panic nothing is said: collections of the standard library may then leak
      let (got, hit) = with_plan(at, Act::Fail, || answer(op, &c, &sh));
      if !hit || got == "panic" {
        continue;
      }
      steady(&format!("{op:?}, in which code called back reports a failure at call {at} of {calls}"), || {
        drop(with_plan(at, Act::Fail, || answer(op, &c, &sh)));
      })?;
      fired += usize::from(got.contains(PURPOSE) && at > 0);
    }
  }
  if fired > 1 {
    cov.nontrivial();
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C42",
    parts: vec![
      part("again", "two questions or more take memory", 60_000, 2_000_000, agains, check),
      part("failing", "code called back reported failures at two points or more, not its first call", 40_000, 1_000_000, failing, check_failing),
    ],
  }]
}
