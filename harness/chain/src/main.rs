//! C03, C36 and C38: chain maps.

use chain_map::ChainMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use vcore::iters::odd;
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

/// Maps are numbered modulo the current family size.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
  New,
  FromArray(Vec<(u16, u32)>),
  FromIter(Vec<(u16, u32)>),
  Clone(u8),
  Insert(u8, u16, u32),
  GetMut(u8, u16, u32),
  Remove(u8, u16),
  IterMut(u8, u32),
  /// Take so many entries, then drop the iterator.
  Drain(u8, u8),
  Consolidate(u8),
  Append(u8, u8),
  Extend(u8, Vec<(u16, u32)>),
  IntoIter(u8),
  Drop(u8),
  /// So many insertions, one by one.
  Many(u8, u16, u16, u16),
  /// So many entries at once, from this number on, whose keys are numbers.
  Bulk(u8, u32, u32),
  /// Every map is used in a thread of its own (if maps can be).
  Threads(Vec<(u8, u16, u32)>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  keys: u16,
  ops: Vec<Op>,
}

fn ops(keys: u16, n: std::ops::RangeInclusive<usize>, max_len: usize) -> BoxedStrategy<Case> {
  let m = any::<u8>();
  let k = 0..keys;
  let v = any::<u32>();
  let kvs = prop::collection::vec((0..keys, any::<u32>()), 0..=max_len);
  let arr = prop::collection::vec((0..keys, any::<u32>()), 0..=4);
  let op = prop_oneof![
    1 => Just(Op::New),
    1 => arr.prop_map(Op::FromArray),
    1 => kvs.clone().prop_map(Op::FromIter),
    4 => m.prop_map(Op::Clone),
    10 => (m, k.clone(), v).prop_map(|(m, k, v)| Op::Insert(m, k, v)),
    3 => (m, k.clone(), v).prop_map(|(m, k, v)| Op::GetMut(m, k, v)),
    3 => (m, k).prop_map(|(m, k)| Op::Remove(m, k)),
    1 => (m, v).prop_map(|(m, v)| Op::IterMut(m, v)),
    1 => (m, any::<u8>()).prop_map(|(m, n)| Op::Drain(m, n)),
    2 => m.prop_map(Op::Consolidate),
    3 => (m, m).prop_map(|(a, b)| Op::Append(a, b)),
    3 => (m, kvs).prop_map(|(m, xs)| Op::Extend(m, xs)),
    1 => m.prop_map(Op::IntoIter),
    1 => m.prop_map(Op::Drop),
    1 => prop::collection::vec((any::<u8>(), 0..keys, any::<u32>()), 1..8).prop_map(Op::Threads),
  ];
  prop::collection::vec(op, n).prop_map(move |ops| Case { keys, ops }).boxed()
}

/// Long runs on few maps, so that stacks grow tall before they are consolidated.
fn tall() -> BoxedStrategy<Case> {
  let op = prop_oneof![
    60 => (0u8..2, 0u16..80, any::<u32>()).prop_map(|(m, k, v)| Op::Insert(m, k, v)),
    2 => (0u8..2).prop_map(Op::Clone),
    1 => (0u8..2, 0u16..80).prop_map(|(m, k)| Op::Remove(m, k)),
    1 => (0u8..2, 0u16..80, any::<u32>()).prop_map(|(m, k, v)| Op::GetMut(m, k, v)),
    1 => (0u8..2, 0u8..2).prop_map(|(a, b)| Op::Append(a, b)),
  ];
  prop::collection::vec(op, 20..160).prop_map(|ops| Case { keys: 80, ops }).boxed()
}

/// Stacks of many hundred layers.
fn very_tall() -> BoxedStrategy<Case> {
  let op = prop_oneof![
    6 => (0u8..2, 0u16..2000, 1u16..700, 1u16..9).prop_map(|(m, k, n, step)| Op::Many(m, k, n, step)),
    4 => (0u8..2).prop_map(Op::Clone),
    3 => (0u8..2, 0u16..2000, any::<u32>()).prop_map(|(m, k, v)| Op::Insert(m, k, v)),
    1 => (0u8..2, 0u16..2000).prop_map(|(m, k)| Op::Remove(m, k)),
    1 => (0u8..2, 0u16..2000, any::<u32>()).prop_map(|(m, k, v)| Op::GetMut(m, k, v)),
    2 => (0u8..2, 0u8..2).prop_map(|(a, b)| Op::Append(a, b)),
    1 => (0u8..2).prop_map(Op::Consolidate),
    1 => (0u8..2, 0u8..4).prop_map(|(m, n)| Op::Drain(m, n)),
    1 => (0u8..2).prop_map(Op::IntoIter),
    1 => (0u8..2, any::<u32>()).prop_map(|(m, n)| Op::IterMut(m, n)),
  ];
  prop::collection::vec(op, 2..12).prop_map(|ops| Case { keys: 2000, ops }).boxed()
}

/// Tens of thousands of entries.
fn huge() -> BoxedStrategy<Case> {
  let m = 0u8..3;
  let op = prop_oneof![
    2 => (m.clone(), 0u32..50_000, 1u32..70_000).prop_map(|(m, a, n)| Op::Bulk(m, a, n)),
    3 => m.clone().prop_map(Op::Clone),
    2 => (m.clone(), 0u16..9, any::<u32>()).prop_map(|(m, k, v)| Op::Insert(m, k, v)),
    1 => (m.clone(), 0u16..9).prop_map(|(m, k)| Op::Remove(m, k)),
    1 => (m.clone(), 0u16..9, any::<u32>()).prop_map(|(m, k, v)| Op::GetMut(m, k, v)),
    1 => (m.clone(), m.clone()).prop_map(|(a, b)| Op::Append(a, b)),
    1 => m.clone().prop_map(Op::Consolidate),
    1 => (m.clone(), 0u8..4).prop_map(|(m, n)| Op::Drain(m, n)),
    1 => m.clone().prop_map(Op::IntoIter),
    1 => (m, any::<u32>()).prop_map(|(m, n)| Op::IterMut(m, n)),
  ];
  let first = (0u32..50_000, 20_000u32..90_000).prop_map(|(a, n)| Op::Bulk(0, a, n));
  (first, prop::collection::vec(op, 1..8))
    .prop_map(|(first, mut ops)| {
      ops.insert(0, first);
      Case { keys: 9, ops }
    })
    .boxed()
}

fn strat() -> BoxedStrategy<Case> {
  prop_oneof![
    8 => ops(3, 1..=12, 3),
    8 => ops(6, 5..=30, 4),
    3 => ops(40, 10..=60, 12),
    1 => ops(300, 20..=80, 60),
    1 => tall(),
  ]
  .boxed()
}

/// Whether the type may be moved to other threads, and shared with them: found out without insisting on it.
macro_rules! may {
  ($($bound:path),+; $t:ty) => {{
    struct Ask<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    impl<T: $($bound +)+> Ask<T> {
      fn may(&self) -> bool {
        true
      }
    }
    impl<T> std::ops::Deref for Ask<T> {
      type Target = Not;
      fn deref(&self) -> &Not {
        &Not
      }
    }
    struct Not;
    impl Not {
      fn may(&self) -> bool {
        false
      }
    }
    Ask::<$t>(std::marker::PhantomData).may()
  }};
}

/// The same operations on every map; in the sync build all at once.
fn each_in_a_thread(maps: &mut [(M, Model)], todo: &[(u8, u16, u32)]) -> Outcome {
  let work = |a: &mut M, b: &mut Model, i: usize| -> Outcome {
    for (j, &(how, k, v)) in todo.iter().enumerate() {
      let (k, v) = (key(k), v.wrapping_add(i as u32));
      match (usize::from(how) + i) % 6 {
        0 | 1 => ensure_eq!(a.insert(k.clone(), v), b.insert(k.clone(), v).is_none(), "insert of {k} in thread {i}, {j}"),
        2 => ensure_eq!(a.remove(k.as_str()), b.remove(&k), "remove of {k} in thread {i}, {j}"),
        3 => {
          let (x, y) = (a.get_mut(k.as_str()), b.get_mut(&k));
          ensure_eq!(x, y, "get_mut of {k} in thread {i}, {j}");
          if let (Some(x), Some(y)) = (x, y) {
            *x = v;
            *y = v;
          }
        }
        4 => a.consolidate(),
        _ => ensure_eq!(a.clone().into_iter().count(), b.len(), "size of a clone in thread {i}, {j}"),
      }
      ensure_eq!(a.get(k.as_str()), b.get(&k), "get {k} in thread {i}, {j}");
    }
    Ok(())
  };
  if cfg!(feature = "sync") && may!(Send; M) {
    return std::thread::scope(|s| {
    let hs: Vec<_> = (maps.iter_mut().enumerate())
      .map(|(i, (a, b))| {
        let mut a = Force(a);
        s.spawn(move || {
          let a = &mut a;
          work(a.0, b, i)
        })
      })
      .collect();
      hs.into_iter().try_for_each(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".to_owned())))
    });
  }
  maps.iter_mut().enumerate().try_for_each(|(i, (a, b))| work(a, b, i))
}

/// For other threads, whatever the compiler thinks of it (`check_threads` asks it).
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

type M = ChainMap<String, u32>;
type Model = BTreeMap<String, u32>;

fn key(k: u16) -> String {
  // long enough keys to differ from their hash, short ones too
  if k % 3 == 0 { format!("k{k}") } else { format!("a longer key number {k}") }
}

fn entries(xs: &[(u16, u32)]) -> Vec<(String, u32)> {
  xs.iter().map(|&(k, v)| (key(k), v)).collect()
}

fn compare(m: &M, model: &Model, keys: u16, what: &str) -> Outcome {
  ensure_eq!(m.is_empty(), model.is_empty(), "is_empty of {what}");
  for k in 0..keys {
    let k = key(k);
    ensure_eq!(m.get(k.as_str()), model.get(&k), "get {k} of {what}");
  }
  let mut got: Vec<(&String, &u32)> = m.iter().collect();
  got.sort();
  ensure_eq!(got, model.iter().collect::<Vec<_>>(), "iteration of {what}");
  Ok(())
}

/// Every way to iterate, in every way an iterator can be used.
fn compare_iterators(m: &M, model: &Model, at: usize, what: &str) -> Outcome {
  let want: Vec<(String, u32)> = model.clone().into_iter().collect();
  vcore::check_iter!(m.iter(), |(k, v): (&String, &u32)| (k.clone(), *v), want.clone(), false, at, "iter of {what}");
  let mut c;
  vcore::check_iter!({ c = m.clone(); c.iter_mut() }, |(k, v): (&String, &mut u32)| (k.clone(), *v), want.clone(), false, at, "iter_mut of {what}");
  vcore::check_iter!({ c = m.clone(); c.drain() }, |kv| kv, want.clone(), false, at, "drain of {what}");
  ensure!(c.is_empty() && c.iter().next().is_none(), "{what} is not empty after draining");
  vcore::check_iter!(m.clone().into_iter(), |kv| kv, want, false, at, "into_iter of {what}");
  Ok(())
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let mut maps: Vec<(M, Model)> = vec![(M::default(), Model::new())];
  let mut shared_then_changed = false;
  let mut cloned = false;
  for (step, op) in c.ops.iter().enumerate() {
    let n = maps.len();
    let at = |m: u8| m as usize % n;
    let mut add = None;
    match op {
      Op::New => add = Some((M::default(), Model::new())),
      Op::FromArray(xs) => {
        let e = entries(xs);
        let model: Model = e.iter().cloned().collect();
        let mut it = e.into_iter();
        let mut nx = || it.next().unwrap();
        let m = match xs.len() {
          0 => M::from([]),
          1 => M::from([nx()]),
          2 => M::from([nx(), nx()]),
          3 => M::from([nx(), nx(), nx()]),
          _ => M::from([nx(), nx(), nx(), nx()]),
        };
        add = Some((m, model));
      }
      Op::FromIter(xs) => {
        let e = entries(xs);
        let it = odd(e.clone(), e.first().cloned(), step as u8);
        add = Some((it.collect(), e.into_iter().collect()));
      }
      Op::Clone(m) => {
        let (a, b) = &maps[at(*m)];
        add = Some((a.clone(), b.clone()));
        cloned = true;
      }
      Op::Insert(m, k, v) => {
        let (a, b) = &mut maps[at(*m)];
        let new = a.insert(key(*k), *v);
        ensure_eq!(new, b.insert(key(*k), *v).is_none(), "insert of {k} newly inserted, step {step}");
        cov.label_if(!new, "overwriting insert");
        shared_then_changed |= cloned;
      }
      Op::GetMut(m, k, v) => {
        let (a, b) = &mut maps[at(*m)];
        let (x, y) = (a.get_mut(key(*k).as_str()), b.get_mut(&key(*k)));
        ensure_eq!(x, y, "get_mut of {k}, step {step}");
        if let (Some(x), Some(y)) = (x, y) {
          *x = *v;
          *y = *v;
          shared_then_changed |= cloned;
          cov.label("changed through get_mut");
        }
      }
      Op::Remove(m, k) => {
        let (a, b) = &mut maps[at(*m)];
        let got = a.remove(key(*k).as_str());
        cov.label_if(got.is_some(), "removed");
        shared_then_changed |= cloned && got.is_some();
        ensure_eq!(got, b.remove(&key(*k)), "remove of {k}, step {step}");
      }
      Op::IterMut(m, add) => {
        let (a, b) = &mut maps[at(*m)];
        let mut seen = 0;
        for (k, v) in a.iter_mut() {
          ensure_eq!(Some(&*v), b.get(k), "iter_mut entry {k}, step {step}");
          *v = v.wrapping_add(*add);
          seen += 1;
        }
        ensure_eq!(seen, b.len(), "iter_mut length, step {step}");
        b.values_mut().for_each(|v| *v = v.wrapping_add(*add));
        shared_then_changed |= cloned && seen > 0;
      }
      Op::Drain(m, take) => {
        let (a, b) = &mut maps[at(*m)];
        let mut want = std::mem::take(b);
        let len = want.len();
        let mut seen = 0;
        for (k, v) in a.drain().take(*take as usize) {
          ensure_eq!(want.remove(&k), Some(v), "drained entry {k}, step {step}");
          seen += 1;
        }
        ensure_eq!(seen, len.min(*take as usize), "drain length, step {step}");
        cov.label_if(seen > 0, "drained");
      }
      Op::Consolidate(m) => maps[at(*m)].0.consolidate(),
      Op::Append(i, j) => {
        let (i, j) = (at(*i), at(*j));
        if i != j {
          let (mut other, other_model) = std::mem::take(&mut maps[j]);
          let (a, b) = &mut maps[i];
          a.append(&mut other);
          b.extend(other_model);
          compare(&other, &Model::new(), c.keys, &format!("the appended map, step {step}"))?;
          maps[j] = (other, Model::new());
          cov.label("appended");
        }
      }
      Op::Extend(m, xs) => {
        let (a, b) = &mut maps[at(*m)];
        a.extend(odd(entries(xs), xs.first().map(|x| (key(x.0), !x.1)), xs.len() as u8 ^ *m));
        b.extend(entries(xs));
        shared_then_changed |= cloned;
      }
      Op::IntoIter(m) => {
        let (a, b) = std::mem::take(&mut maps[at(*m)]);
        let mut got: Vec<(String, u32)> = a.into_iter().collect();
        got.sort();
        ensure_eq!(got, b.into_iter().collect::<Vec<_>>(), "into_iter, step {step}");
      }
      Op::Drop(m) => {
        if n > 1 {
          maps.swap_remove(at(*m));
        }
      }
      Op::Many(m, k, n, step) => {
        let (a, b) = &mut maps[at(*m)];
        for i in 0..*n {
          let k = key(k.wrapping_add(i.wrapping_mul(*step)) % c.keys);
          let new = a.insert(k.clone(), u32::from(i));
          ensure_eq!(new, b.insert(k.clone(), u32::from(i)).is_none(), "insert of {k} newly inserted, {i} of step {step}");
        }
        shared_then_changed |= cloned;
        cov.label_if(*n > 256, "hundreds of insertions in a row");
      }
      Op::Bulk(m, from, n) => {
        let (a, b) = &mut maps[at(*m)];
        let xs = || (*from..from + n).map(|i| (i.to_string(), i ^ step as u32));
        a.extend(xs());
        b.extend(xs());
        for i in (*from..from + n).step_by(997) {
          let k = i.to_string();
          ensure_eq!(a.get(k.as_str()), b.get(&k), "get {k}, step {step}");
        }
        shared_then_changed |= cloned;
        cov.label_if(b.len() > 1 << 16, "over 2^16 entries");
      }
      Op::Threads(todo) => {
        each_in_a_thread(&mut maps, todo)?;
        shared_then_changed |= cloned;
      }
    }
    if let Some(x) = add {
      if maps.len() < 6 { maps.push(x) } else { maps[step % 6] = x }
    }
    if c.keys <= 80 || step % 8 == 7 || step + 1 == c.ops.len() {
      for (i, (a, b)) in maps.iter().enumerate() {
        compare(a, b, c.keys, &format!("map {i} after step {step}"))?;
        if b.len() < 60 && (i + step) % 4 == 0 {
          compare_iterators(a, b, step * 31 + i * 5 + b.len(), &format!("map {i} after step {step}"))?;
        }
      }
    }
  }
  if shared_then_changed {
    cov.nontrivial();
  }
  cov.label_if(cloned, "cloned");
  cov.label_if(c.ops.len() >= 20, "20+ operations");
  // keys are shared within a map of one entry too
  ensure!(!maps.is_empty(), "no maps");
  Ok(())
}

// C36

thread_local! {
  static COPIES: Cell<u64> = const { Cell::new(0) };
  static LIVE: Cell<i64> = const { Cell::new(0) };
}

fn bump<T: Copy + std::ops::Add<Output = T>>(c: &'static std::thread::LocalKey<Cell<T>>, by: T) {
  c.with(|c| c.set(c.get() + by));
}

/// Counts its copies, and how many there are.
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Counted(u32);

impl Counted {
  fn new(n: u32) -> Self {
    bump(&LIVE, 1);
    Counted(n)
  }
}

impl Clone for Counted {
  fn clone(&self) -> Self {
    bump(&COPIES, 1);
    Counted::new(self.0)
  }
}

impl Drop for Counted {
  fn drop(&mut self) {
    bump(&LIVE, -1);
  }
}

impl std::borrow::Borrow<u32> for Counted {
  fn borrow(&self) -> &u32 {
    &self.0
  }
}

type CM = ChainMap<Counted, Counted>;

/// As `check`, but the maps only grow, and are read; at the end (maybe) they are used up in some way.
fn check_copies(c: &Case, cov: &mut Cov) -> Outcome {
  COPIES.set(0);
  LIVE.set(0);
  let counted = |xs: &[(u16, u32)]| -> Vec<(Counted, Counted)> {
    xs.iter().map(|&(k, v)| (Counted::new(u32::from(k)), Counted::new(v))).collect()
  };
  let mut maps: Vec<CM> = vec![CM::default()];
  let (mut added, mut clones) = (0, 0);
  for (step, op) in c.ops.iter().enumerate() {
    let n = maps.len();
    let at = |m: u8| m as usize % n;
    match op {
      Op::New => maps.push(CM::default()),
      Op::FromArray(xs) | Op::FromIter(xs) => maps.push(counted(xs).into_iter().collect()),
      Op::Clone(m) => {
        let m = &maps[at(*m)];
        if !m.is_empty() {
          clones += 1;
        }
        let m = m.clone();
        maps.push(m);
      }
      Op::Insert(m, k, v) => {
        added += i32::from(clones > 0);
        maps[at(*m)].insert(Counted::new(u32::from(*k)), Counted::new(*v));
      }
      Op::Extend(m, xs) => {
        added += i32::from(clones > 0);
        maps[at(*m)].extend(counted(xs));
      }
      Op::Append(i, j) if at(*i) != at(*j) => {
        let mut other = std::mem::take(&mut maps[at(*j)]);
        maps[at(*i)].append(&mut other);
      }
      Op::GetMut(m, k, _) | Op::Remove(m, k) => {
        let _ = maps[at(*m)].get(&u32::from(*k));
      }
      Op::IterMut(m, _) | Op::Drain(m, _) => {
        let m = &maps[at(*m)];
        let _ = (m.iter().count(), m.is_empty());
      }
      Op::Many(m, k, n, by) => {
        added += i32::from(clones > 0);
        for i in 0..*n {
          let k = u32::from(k.wrapping_add(i.wrapping_mul(*by)) % c.keys);
          maps[at(*m)].insert(Counted::new(k), Counted::new(u32::from(i)));
        }
      }
      Op::Drop(m) if n > 1 => {
        maps.swap_remove(at(*m));
      }
      _ => {}
    }
    ensure_eq!(COPIES.get(), 0, "keys and values copied by step {step}, {op:?}");
    if maps.len() > 6 {
      maps.swap_remove(step % 6);
    }
  }
  // the last uses may copy what is shared, but nothing outlives them
  for (i, m) in maps.iter_mut().enumerate() {
    match (i + c.ops.len()) % 5 {
      0 => m.consolidate(),
      1 => drop(std::mem::take(m).into_iter().next()),
      2 => drop(m.drain().next()),
      3 => drop(m.remove(&(i as u32))),
      _ => m.iter_mut().for_each(|(_, v)| *v = Counted::new(7)),
    }
  }
  drop(maps);
  ensure_eq!(LIVE.get(), 0, "keys and values alive after all maps are gone");
  cov.label_if(clones > 3, "over three clones of non-empty maps");
  if clones > 0 && added > 0 {
    cov.nontrivial();
  }
  Ok(())
}

// C38

/// Counts how many of it there are.
#[derive(Debug)]
struct Live(u32, Arc<AtomicI64>);

impl Live {
  fn new(n: u32, live: &Arc<AtomicI64>) -> Self {
    live.fetch_add(1, Ordering::SeqCst);
    Live(n, Arc::clone(live))
  }
}

impl Clone for Live {
  fn clone(&self) -> Self {
    Live::new(self.0, &self.1)
  }
}

impl Drop for Live {
  fn drop(&mut self) {
    self.1.fetch_sub(1, Ordering::SeqCst);
  }
}

impl PartialEq for Live {
  fn eq(&self, other: &Self) -> bool {
    self.0 == other.0
  }
}

impl Eq for Live {}

impl std::hash::Hash for Live {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    self.0.hash(state);
  }
}

impl std::borrow::Borrow<u32> for Live {
  fn borrow(&self) -> &u32 {
    &self.0
  }
}

type LM = ChainMap<Live, Live>;
type LModel = BTreeMap<u32, u32>;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Shared {
  /// The histories that make the shared maps: each map is cloned from the one before.
  bases: Vec<Vec<(bool, Vec<(u16, u32)>)>>,
  threads: Vec<Vec<TOp>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum TOp {
  /// Read a shared map.
  Get(u8, u16),
  /// So many times.
  Gets(u8, u16, u16),
  Count(u8),
  /// Have a clone of a shared map as one's own.
  Clone(u8),
  /// With one's own map:
  Insert(u16, u32),
  Extend(Vec<(u16, u32)>),
  Set(u16, u32),
  Remove(u16),
  Consolidate,
  IterMut(u32),
  Drain,
  /// Append a clone of a shared map.
  Append(u8),
  IntoIter,
}

fn in_thread(ops: &[TOp], shared: &[(LM, LModel)], live: &Arc<AtomicI64>) -> Outcome {
  let (mut a, mut b) = (LM::default(), LModel::new());
  let at = |i: u8| &shared[usize::from(i) % shared.len()];
  let e = |xs: &[(u16, u32)]| xs.iter().map(|&(k, v)| (Live::new(u32::from(k), live), Live::new(v, live))).collect::<Vec<_>>();
  for (step, op) in ops.iter().enumerate() {
    match op {
      TOp::Get(i, k) => {
        let (m, model) = at(*i);
        let k = u32::from(*k);
        ensure_eq!(m.get(&k).map(|v| v.0), model.get(&k).copied(), "get {k} of shared map {i}, step {step}");
      }
      TOp::Gets(i, from, n) => {
        let (m, model) = at(*i);
        for j in 0..*n {
          let k = u32::from(from.wrapping_add(j.wrapping_mul(7)) % 12);
          ensure_eq!(m.get(&k).map(|v| v.0), model.get(&k).copied(), "get {k} of shared map {i}, {j} of step {step}");
        }
      }
      TOp::Count(i) => {
        let (m, model) = at(*i);
        let mut got: Vec<_> = m.iter().map(|(k, v)| (k.0, v.0)).collect();
        got.sort_unstable();
        ensure_eq!(got, model.iter().map(|(&k, &v)| (k, v)).collect::<Vec<_>>(), "entries of shared map {i}, step {step}");
      }
      TOp::Clone(i) => {
        let (m, model) = at(*i);
        a = m.clone();
        b.clone_from(model);
      }
      TOp::Insert(k, v) => {
        let k = u32::from(*k);
        let new = a.insert(Live::new(k, live), Live::new(*v, live));
        ensure_eq!(new, b.insert(k, *v).is_none(), "insert of {k}, step {step}");
      }
      TOp::Extend(xs) => {
        a.extend(e(xs));
        b.extend(xs.iter().map(|&(k, v)| (u32::from(k), v)));
      }
      TOp::Set(k, v) => {
        let k = u32::from(*k);
        match (a.get_mut(&k), b.get_mut(&k)) {
          (Some(x), Some(y)) => {
            ensure_eq!(x.0, *y, "get_mut of {k}, step {step}");
            *x = Live::new(*v, live);
            *y = *v;
          }
          (x, y) => ensure!(x.is_none() && y.is_none(), "get_mut of {k}, step {step}"),
        }
      }
      TOp::Remove(k) => {
        let k = u32::from(*k);
        ensure_eq!(a.remove(&k).map(|v| v.0), b.remove(&k), "remove of {k}, step {step}");
      }
      TOp::Consolidate => a.consolidate(),
      TOp::IterMut(by) => {
        a.iter_mut().for_each(|(_, v)| v.0 = v.0.wrapping_add(*by));
        b.values_mut().for_each(|v| *v = v.wrapping_add(*by));
      }
      TOp::Drain => {
        let mut got: Vec<_> = a.drain().map(|(k, v)| (k.0, v.0)).collect();
        got.sort_unstable();
        ensure_eq!(got, std::mem::take(&mut b).into_iter().collect::<Vec<_>>(), "drained, step {step}");
      }
      TOp::Append(i) => {
        let (m, model) = at(*i);
        a.append(&mut m.clone());
        b.extend(model);
      }
      TOp::IntoIter => {
        let mut got: Vec<_> = std::mem::take(&mut a).into_iter().map(|(k, v)| (k.0, v.0)).collect();
        got.sort_unstable();
        ensure_eq!(got, std::mem::take(&mut b).into_iter().collect::<Vec<_>>(), "into_iter, step {step}");
      }
    }
    let mut got: Vec<_> = a.iter().map(|(k, v)| (k.0, v.0)).collect();
    got.sort_unstable();
    ensure_eq!(got, b.iter().map(|(&k, &v)| (k, v)).collect::<Vec<_>>(), "own map after step {step}");
  }
  Ok(())
}

fn check_threads(c: &Shared, cov: &mut Cov) -> Outcome {
  ensure!(may!(Send; ChainMap<String, u32>), "chain maps cannot be moved to other threads");
  ensure!(may!(Sync; ChainMap<String, u32>), "chain maps cannot be shared with other threads");
  ensure!(may!(Send, Sync; LM), "chain maps of these keys and values cannot be moved to and shared with other threads");
  let live = Arc::new(AtomicI64::new(0));
  let mut shared: Vec<(LM, LModel)> = Vec::new();
  for base in &c.bases {
    let (mut m, mut model) = shared.last().map_or_else(Default::default, |(m, model)| (m.clone(), model.clone()));
    for (consolidate, xs) in base {
      for &(k, v) in xs {
        let k = u32::from(k);
        ensure_eq!(m.insert(Live::new(k, &live), Live::new(v, &live)), model.insert(k, v).is_none(), "insert of {k}");
      }
      if *consolidate {
        m.consolidate();
      }
    }
    shared.push((m, model));
  }
  let start = std::sync::Barrier::new(c.threads.len());
  let forced = Force(&shared);
  std::thread::scope(|s| {
    let hs: Vec<_> = (c.threads.iter())
      .map(|ops| {
        let (start, live, forced) = (&start, &live, &forced);
        s.spawn(move || {
          start.wait();
          in_thread(ops, forced.0, live)
        })
      })
      .collect();
    let all: Vec<_> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".to_owned()))).collect();
    all.into_iter().enumerate().try_for_each(|(i, r)| r.map_err(|e| format!("thread {i}: {e}")))
  })?;
  in_thread(&(0..shared.len()).map(|i| TOp::Count(i as u8)).collect::<Vec<_>>(), &shared, &live)?;
  let changing = |op: &TOp| matches!(op, TOp::Set(..) | TOp::Remove(_) | TOp::Consolidate | TOp::IterMut(_) | TOp::Drain | TOp::IntoIter);
  let changes = |ops: &&Vec<TOp>| {
    let from = ops.iter().position(|o| matches!(o, TOp::Clone(_) | TOp::Append(_)));
    from.is_some_and(|i| ops[i..].iter().any(changing))
  };
  if c.threads.iter().filter(changes).count() > 1 && shared.iter().any(|(_, m)| !m.is_empty()) {
    cov.nontrivial();
  }
  cov.label_if(c.threads.len() > 2, "over two threads");
  drop(shared);
  ensure_eq!(live.load(Ordering::SeqCst), 0, "keys and values alive after all maps are gone");
  Ok(())
}

fn shared_cases() -> BoxedStrategy<Shared> {
  let k = || 0u16..12;
  let kvs = move |n| prop::collection::vec((k(), any::<u32>()), 0..n);
  let op = prop_oneof![
    2 => (any::<u8>(), k()).prop_map(|(m, k)| TOp::Get(m, k)),
    1 => (any::<u8>(), k(), 1u16..2000).prop_map(|(m, k, n)| TOp::Gets(m, k, n)),
    1 => any::<u8>().prop_map(TOp::Count),
    4 => any::<u8>().prop_map(TOp::Clone),
    2 => (k(), any::<u32>()).prop_map(|(k, v)| TOp::Insert(k, v)),
    1 => kvs(6).prop_map(TOp::Extend),
    2 => (k(), any::<u32>()).prop_map(|(k, v)| TOp::Set(k, v)),
    2 => k().prop_map(TOp::Remove),
    2 => Just(TOp::Consolidate),
    1 => any::<u32>().prop_map(TOp::IterMut),
    1 => Just(TOp::Drain),
    2 => any::<u8>().prop_map(TOp::Append),
    1 => Just(TOp::IntoIter),
  ];
  let base = prop::collection::vec((prop::bool::weighted(0.4), kvs(8)), 1..4);
  (prop::collection::vec(base, 1..4), prop::collection::vec(prop::collection::vec(op, 1..16), 2..5))
    .prop_map(|(bases, threads)| Shared { bases, threads })
    .boxed()
}

fn main() {
  vcore::main(vec![Prop {
    id: "C03",
    parts: vec![part(
      "histories",
      "operation histories over up to six maps made by clone, array, iterator and append, over 3-300 keys, at times with a thread for each map; after each step every map is compared with its own ordered map; non-trivial: a map is changed after some map was cloned",
      120_000,
      4_000_000,
      strat,
      check,
    ), part(
      "tall",
      "histories with hundreds of insertions in a row over 2000 keys; non-trivial: a map is changed after some map was cloned",
      400,
      20_000,
      very_tall,
      check,
    ), part(
      "huge",
      "histories with tens of thousands of entries put in at once; non-trivial: a map is changed after some map was cloned",
      40,
      2_000,
      huge,
      check,
    )],
  },
  Prop {
    id: "C36",
    parts: vec![
      part(
        "copies",
        "histories as for C03 with keys and values that count their copies, the operations that may copy held back to the end; \
         non-trivial: an entry is added after a map with entries was cloned",
        750_000,
        8_000_000,
        strat,
        check_copies,
      ),
      part(
        "tall-copies",
        "histories with hundreds of insertions in a row; non-trivial: an entry is added after a map with entries was cloned",
        2_000,
        50_000,
        very_tall,
        check_copies,
      ),
    ],
  },
  Prop {
    id: "C38",
    parts: vec![part(
      "threads",
      "up to three maps (each a clone of the one before, with more entries) shared by two to four threads that read them, clone them \
       and change their clones; non-trivial: two threads change clones of a non-empty map",
      60_000,
      3_000_000,
      shared_cases,
      check_threads,
    )],
  }]);
}
