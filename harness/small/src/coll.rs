//! C28, C29, C33: hash collections, indices, unique identifiers, locations.

use fast_hash::{FxHashMap, FxHashSet};
use idx::Idx;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{DefaultHasher, Hash, Hasher};
use text_size_util::{TextRange, TextSize, WithRange};
use uniq::{Uniq, UniqMk};
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Pairs(Vec<(i16, i64)>);

const SIZES: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 33, 64, 130];

macro_rules! sized {
  ($n:expr, $f:ident, $xs:expr) => {
    match $n {
      0 => $f::<_, 0>($xs),
      1 => $f::<_, 1>($xs),
      2 => $f::<_, 2>($xs),
      3 => $f::<_, 3>($xs),
      4 => $f::<_, 4>($xs),
      5 => $f::<_, 5>($xs),
      6 => $f::<_, 6>($xs),
      7 => $f::<_, 7>($xs),
      8 => $f::<_, 8>($xs),
      15 => $f::<_, 15>($xs),
      16 => $f::<_, 16>($xs),
      33 => $f::<_, 33>($xs),
      64 => $f::<_, 64>($xs),
      _ => $f::<_, 130>($xs),
    }
  };
}

fn arr<T: std::fmt::Debug, const N: usize>(xs: Vec<T>) -> [T; N] {
  xs.try_into().expect("size")
}

fn mk_map<K: Eq + Hash + std::fmt::Debug, const N: usize>(xs: Vec<(K, i64)>) -> FxHashMap<K, i64> {
  fast_hash::map(arr::<_, N>(xs))
}

fn mk_set<K: Eq + Hash + std::fmt::Debug, const N: usize>(xs: Vec<K>) -> FxHashSet<K> {
  fast_hash::set(arr::<_, N>(xs))
}

fn pairs() -> BoxedStrategy<Pairs> {
  let size = prop_oneof![8 => prop::sample::select(SIZES[..9].to_vec()), 1 => prop::sample::select(SIZES.to_vec())];
  (size, 0u8..3, any::<i16>(), any::<prop::sample::Index>(), any::<prop::sample::Index>())
    .prop_flat_map(|(n, how, mul, i, j)| {
      let keys = match how {
        // few keys: repeats are likely
        0 => prop::collection::vec(-4i16..12, n).boxed(),
        _ => Just((0..n as i16).map(|k| k.wrapping_mul(mul | 1)).collect::<Vec<_>>()).prop_shuffle().boxed(),
      };
      (keys, prop::collection::vec(any::<i64>(), n)).prop_map(move |(mut ks, mut vs)| {
        // one repeat, anywhere
        if how == 1 && n > 1 {
          let (i, j) = (i.index(n), j.index(n));
          ks[i] = ks[j];
          if mul & 2 == 0 {
            vs[i] = vs[j];
          }
        }
        Pairs(ks.into_iter().zip(vs).collect())
      })
    })
    .boxed()
}

fn check_pairs(c: &Pairs, cov: &mut Cov) -> Outcome {
  let n = c.0.len();
  let want: BTreeMap<i16, i64> = c.0.iter().copied().collect();
  let dup = want.len() != n;
  cov.label(if dup { "repeated key" } else { "distinct keys" });
  cov.label_if(dup && c.0.iter().collect::<BTreeSet<_>>().len() != n, "repeated entry");
  cov.label_if(n == 0, "empty");
  if n > 1 {
    cov.nontrivial();
  }
  let m = catch(|| sized!(n, mk_map, c.0.clone()));
  let s = catch(|| sized!(n, mk_set, c.0.iter().map(|&(k, _)| k).collect()));
  // keys that own memory
  let strs = catch(|| sized!(n, mk_map, c.0.iter().map(|&(k, v)| (k.to_string(), v)).collect()));
  let str_set = catch(|| sized!(n, mk_set, c.0.iter().map(|&(k, _)| k.to_string()).collect()));
  let hard = catch(|| sized!(n, mk_map, c.0.iter().map(|&(k, v)| (Collide(k), v)).collect()));
  let hard_set = catch(|| sized!(n, mk_set, c.0.iter().map(|&(k, _)| Collide(k)).collect()));
  ensure_eq!((hard.is_ok(), hard_set.is_ok()), (!dup, !dup), "colliding keys are accepted");
  if let (Ok(h), Ok(hs)) = (hard, hard_set) {
    ensure_eq!(h.into_iter().map(|(k, v)| (k.0, v)).collect::<BTreeMap<_, _>>(), want, "map of colliding keys");
    ensure_eq!(hs.into_iter().map(|k| k.0).collect::<BTreeSet<_>>(), want.keys().copied().collect(), "set of colliding elements");
  }
  if dup {
    ensure!(m.is_err() && strs.is_err(), "a map with a repeated key was made");
    ensure!(s.is_err() && str_set.is_err(), "a set with a repeated element was made");
    return Ok(());
  }
  let (m, s, strs, str_set) = (m?, s?, strs?, str_set?);
  ensure_eq!(m.len(), n, "size of the map");
  ensure_eq!(s.len(), n, "size of the set");
  for k in want.keys() {
    ensure_eq!(m.get(k), want.get(k), "value of {k}");
    ensure!(s.contains(k), "{k} is not in the set");
    ensure!(str_set.contains(&k.to_string()), "{k} is not in the set of texts");
    ensure_eq!(strs.get(&k.to_string()), want.get(k), "value of text {k}");
  }
  for k in -5i16..14 {
    ensure_eq!(m.contains_key(&k), want.contains_key(&k), "{k} is in the map");
    ensure_eq!(s.contains(&k), want.contains_key(&k), "{k} is in the set");
  }
  ensure_eq!(m.into_iter().collect::<BTreeMap<_, _>>(), want, "map");
  ensure_eq!(s.into_iter().collect::<BTreeSet<_>>(), want.into_keys().collect(), "set");
  Ok(())
}

fn check_cap(n: &usize, cov: &mut Cov) -> Outcome {
  if *n > 0 {
    cov.nontrivial();
  }
  let m: FxHashMap<u32, String> = fast_hash::map_with_capacity(*n);
  let s: FxHashSet<String> = fast_hash::set_with_capacity(*n);
  ensure!(m.is_empty() && s.is_empty(), "not empty with capacity {n}");
  ensure!(m.capacity() >= *n, "capacity {} of a map, asked for {n}", m.capacity());
  ensure!(s.capacity() >= *n, "capacity {} of a set, asked for {n}", s.capacity());
  Ok(())
}

fn caps() -> BoxedStrategy<usize> {
  prop_oneof![60 => 0usize..70, 40 => 0usize..5000, 20 => 0usize..200_000, 1 => 200_000usize..6_000_000].boxed()
}

/// A key that collides with many others.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Collide(i16);

impl Hash for Collide {
  fn hash<H: Hasher>(&self, h: &mut H) {
    h.write_u8(u8::from(self.0 & 3 == 3));
  }
}

// C29

fn big() -> BoxedStrategy<u64> {
  let edge = |e: u64| (0u64..5).prop_map(move |d| e.wrapping_add(d).wrapping_sub(2)).boxed();
  prop_oneof![
    3 => 0u64..5,
    2 => 0u64..1000,
    2 => any::<u32>().prop_map(u64::from),
    1 => edge(1 << 8),
    1 => edge(1 << 15),
    1 => edge(1 << 16),
    1 => edge(1 << 24),
    1 => edge(1 << 31),
    3 => edge(1 << 32),
    1 => edge(1 << 33),
    1 => edge(1 << 63),
    1 => edge(0),
    1 => any::<u32>().prop_map(|n| (1 << 32) + u64::from(n)),
    1 => any::<u64>(),
  ]
  .boxed()
}

fn many() -> BoxedStrategy<Vec<u64>> {
  prop::collection::vec(big(), 1..10).boxed()
}

fn hash_of(x: &impl Hash) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

fn check_idx(ns: &Vec<u64>, cov: &mut Cov) -> Outcome {
  let mut made: Vec<(Idx, u64)> = Vec::new();
  for &n in ns {
    let fits = n <= u64::from(u32::MAX);
    let got = catch(|| Idx::new(n as usize));
    ensure_eq!(got.is_ok(), fits, "an index is made of {n}");
    cov.label(if fits { "fits" } else { "too large" });
    if let Ok(i) = got {
      ensure_eq!(catch(|| i.to_usize()), Ok(n as usize), "index {n} as a number");
      ensure_eq!(i, Idx::new_u32(n as u32), "the two ways to make index {n}; same");
      made.push((i, n));
    }
  }
  if made.len() > 1 {
    cov.nontrivial();
  }
  let mut map: nohash_hasher::IntMap<Idx, usize> = nohash_hasher::IntMap::default();
  let mut std_map: HashMap<Idx, usize> = HashMap::new();
  let mut want: BTreeMap<u64, usize> = BTreeMap::new();
  for (at, &(i, n)) in made.iter().enumerate() {
    map.insert(i, at);
    std_map.insert(i, at);
    want.insert(n, at);
    for &(j, m) in &made {
      ensure_eq!(i == j, n == m, "indices {n} and {m} are equal");
      ensure_eq!(i.cmp(&j), n.cmp(&m), "order of indices {n} and {m}");
      ensure_eq!(i.partial_cmp(&j), n.partial_cmp(&m), "partial order of indices {n} and {m}");
      ensure_eq!(hash_of(&i) == hash_of(&j), n == m, "indices {n} and {m} hash the same");
    }
  }
  ensure_eq!(map.len(), want.len(), "groups by index");
  ensure_eq!(std_map.len(), want.len(), "groups by index, hashed");
  for (n, at) in &want {
    let i = Idx::new(*n as usize);
    ensure_eq!(map.get(&i), Some(at), "lookup of index {n}");
    ensure_eq!(std_map.get(&i), Some(at), "hashed lookup of index {n}");
  }
  let keys: BTreeSet<Idx> = made.iter().map(|&(i, _)| i).collect();
  ensure_eq!(keys.into_iter().map(|i| i.to_usize() as u64).collect::<Vec<_>>(), want.into_keys().collect::<Vec<_>>(), "sorted");
  Ok(())
}

fn makers() -> BoxedStrategy<Vec<u8>> {
  prop_oneof![3 => prop::collection::vec(0u8..3, 0..40), 1 => prop::collection::vec(0u8..4, 200..600)].boxed()
}

fn check_makers(steps: &Vec<u8>, cov: &mut Cov) -> Outcome {
  let mut mks: Vec<UniqMk> = (0..4).map(|_| UniqMk::default()).collect();
  let mut got: Vec<Vec<Uniq>> = vec![Vec::new(); 4];
  for &m in steps {
    got[usize::from(m)].push(mks[usize::from(m)].mk());
  }
  if got.iter().filter(|g| g.len() > 1).count() > 1 {
    cov.nontrivial();
  }
  cov.label_if(steps.len() > 256, "more than 256");
  for us in &got {
    ensure_eq!(us.iter().collect::<BTreeSet<_>>().len(), us.len(), "distinct identifiers, by order");
    ensure_eq!(us.iter().collect::<std::collections::HashSet<_>>().len(), us.len(), "distinct identifiers, by hash");
    ensure_eq!(us.iter().map(ToString::to_string).collect::<BTreeSet<_>>().len(), us.len(), "distinct identifiers, printed");
  }
  // also across makers, where identifiers may or may not be equal
  let all: Vec<Uniq> = got.concat();
  for &a in all.iter().take(40) {
    for &b in all.iter().rev().take(40) {
      let same = a == b;
      ensure_eq!(a.cmp(&b) == std::cmp::Ordering::Equal, same, "{a} and {b} compare equal");
      ensure_eq!(a.to_string() == b.to_string(), same, "{a} and {b} print equal");
      ensure_eq!(hash_of(&a) == hash_of(&b), same, "{a} and {b} hash equal");
      ensure_eq!(a.cmp(&b).reverse(), b.cmp(&a), "order of {a} and {b}");
    }
    let copy = a;
    ensure!(copy == a && copy.to_string() == a.to_string(), "a copy of {a} differs");
  }
  Ok(())
}

fn long() -> BoxedStrategy<u32> {
  prop_oneof![
    30 => 60_000u32..200_000,
    20 => 200_000u32..1_000_000,
    10 => Just((1u32 << 24) + 1000),
    4 => Just((1u32 << 28) + 1000),
  ]
  .boxed()
}

/// As many as there can be.
fn all() -> BoxedStrategy<u32> {
  Just(u32::MAX).boxed()
}

fn check_long(n: &u32, cov: &mut Cov) -> Outcome {
  let mut mk = UniqMk::default();
  if *n > 65_536 {
    cov.nontrivial();
  }
  cov.label_if(*n > 1 << 24, "more than 2^24");
  // if each is greater than the one before, they are all different
  let mut last: Option<Uniq> = None;
  let rising = (0..*n).all(|_| {
    let u = mk.mk();
    last.replace(u).is_none_or(|l| l < u)
  });
  cov.label_if(rising, "rising");
  // otherwise they are kept and compared, as far as memory allows
  if !rising && *n > 1 << 29 {
    cov.label("not decided");
  } else if !rising {
    let mut mk = UniqMk::default();
    let mut us: Vec<Uniq> = (0..*n).map(|_| mk.mk()).collect();
    us.sort_unstable();
    us.dedup();
    ensure_eq!(us.len(), *n as usize, "distinct identifiers out of {n}");
  }
  if *n < 500_000 {
    let mut mk = UniqMk::default();
    let us: Vec<Uniq> = (0..*n).map(|_| mk.mk()).collect();
    let printed: std::collections::HashSet<String> = us.iter().map(ToString::to_string).collect();
    ensure_eq!(printed.len(), us.len(), "distinct identifiers, printed");
    let hashed: FxHashSet<u64> = us.iter().map(hash_of).collect();
    ensure_eq!(hashed.len(), us.len(), "distinct identifiers, hashed");
  }
  Ok(())
}

// C33

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Located {
  start: u32,
  end: u32,
  vals: Vec<String>,
  paths: Vec<String>,
}

fn located() -> BoxedStrategy<Located> {
  let n = prop_oneof![0u32..50, any::<u32>(), Just(u32::MAX)];
  (n.clone(), n, prop::collection::vec("[a-z]{0,5}", 1..6), prop::collection::vec("(/[a-c]){0,3}/", 1..5))
    .prop_map(|(a, b, vals, paths)| Located { start: a.min(b), end: a.max(b), vals, paths })
    .boxed()
}

fn check_size(n: &u64, cov: &mut Cov) -> Outcome {
  let fits = *n <= u64::from(u32::MAX);
  cov.label(if fits { "fits" } else { "too large" });
  if *n > 0 {
    cov.nontrivial();
  }
  match catch(|| text_size_util::mk_text_size(*n as usize)) {
    Ok(s) => {
      ensure!(fits, "a text size was made of {n}");
      ensure_eq!(u64::from(u32::from(s)), *n, "text size");
    }
    Err(e) => ensure!(!fits, "no text size was made of {n}: {e}"),
  }
  Ok(())
}

/// Values of all sizes, some with nothing in them.
fn kinds_of_values(cur: &WithRange<String>, range: TextRange, v: &str, i: usize) -> Outcome {
  ensure_eq!(cur.wrap(()).range, range, "wrapped nothing");
  ensure_eq!(cur.wrap([0u64; 0]).range, range, "wrapped an empty array");
  ensure_eq!(cur.wrap(std::marker::PhantomData::<String>).range, range, "wrapped a marker");
  let b = cur.wrap(i % 2 == 0);
  ensure_eq!((b.val, b.range), (i % 2 == 0, range), "wrapped boolean");
  let o = cur.wrap(None::<Box<str>>);
  ensure_eq!((o.val, o.range), (None, range), "wrapped none");
  let o = cur.wrap(Some(Box::<str>::from(v)));
  ensure_eq!((o.val.as_deref(), o.range), (Some(v), range), "wrapped option");
  let o = cur.wrap(Err::<u8, &str>(v));
  ensure_eq!((o.val, o.range), (Err(v), range), "wrapped result");
  let big = cur.wrap([i as u64; 40]);
  ensure_eq!((big.val, big.range), ([i as u64; 40], range), "wrapped array");
  let many = cur.wrap(vec![v.to_owned(); i]);
  ensure_eq!((many.val.len(), many.range), (i, range), "wrapped vector");
  let r = cur.wrap(range);
  ensure_eq!((r.val, r.range), (range, range), "wrapped range");
  let s = cur.wrap(&cur.val);
  ensure!(std::ptr::eq(s.val, &cur.val) && s.range == range, "wrapped reference");
  let again = WithRange { val: (), range }.wrap(v);
  ensure_eq!((again.val, again.range), (v, range), "wrapped from nothing");
  let copy = again;
  ensure_eq!((copy.wrap(1u8).range, again.val), (range, v), "a copy wrapped");
  Ok(())
}

fn check_located(c: &Located, cov: &mut Cov) -> Outcome {
  let range = TextRange::new(TextSize::from(c.start), TextSize::from(c.end));
  let first = WithRange { val: c.vals[0].clone(), range };
  if c.vals.len() > 1 {
    cov.nontrivial();
  }
  cov.label_if(c.start == c.end, "empty range");
  let mut cur = first.clone();
  for (i, v) in c.vals.iter().enumerate() {
    let next = cur.wrap(v.clone());
    ensure_eq!((&next.val, next.range), (v, range), "wrapped value {i}");
    let other = cur.wrap(i);
    ensure_eq!((other.val, other.range), (i, range), "wrapped number {i}");
    let deep = cur.wrap(other);
    ensure_eq!((deep.val.val, deep.val.range, deep.range), (i, range, range), "wrapped twice {i}");
    kinds_of_values(&cur, range, v, i)?;
    let before = if i == 0 { &c.vals[0] } else { &c.vals[i - 1] };
    ensure_eq!((&cur.val, cur.range), (before, range), "the original after wrapping {i}");
    cur = next;
  }
  ensure_eq!((&first.val, first.range), (&c.vals[0], range), "the first");
  // path identifiers
  let mut store = paths::Store::new();
  let ids: Vec<_> = c.paths.iter().map(|p| store.get_id(paths::CleanPathBuf::new(p).unwrap().as_clean_path())).collect();
  for (i, &id) in ids.iter().enumerate() {
    for v in &c.vals {
      let w = id.wrap(v.clone());
      ensure_eq!((w.path, &w.val), (id, v), "value wrapped with path {i}");
      ensure_eq!((id.wrap(()).path, id.wrap(()).val), (id, ()), "nothing wrapped with path {i}");
      ensure_eq!((id.wrap(id).path, id.wrap(id).val), (id, id), "path {i} wrapped with itself");
      ensure_eq!((id.wrap([7u64; 30]).path, id.wrap([7u64; 30]).val), (id, [7; 30]), "array wrapped with path {i}");
      let w2 = ids[0].wrap(w.clone());
      ensure_eq!((w2.path, w2.val.path, &w2.val.val), (ids[0], id, v), "value wrapped with two paths");
      ensure_eq!(w, w2.val, "wrapped values; equal");
      ensure_eq!(ids[i], id, "the identifier after wrapping");
    }
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C28",
      parts: vec![
        part("arrays", "at least two elements", 480_000, 4_800_000, pairs, check_pairs),
        part("capacity", "a capacity above zero", 4_000, 40_000, caps, check_cap),
      ],
    },
    Prop {
      id: "C29",
      parts: vec![
        part("indices", "at least two numbers that fit", 360_000, 3_600_000, many, check_idx),
        part("makers", "two makers gave at least two identifiers each", 18_000, 180_000, makers, check_makers),
        part("long", "more than 65536 identifiers", 64, 400, long, check_long),
        part("all", "always", 0, 1, all, check_long),
      ],
    },
    Prop {
      id: "C33",
      parts: vec![
        part("size", "a number above zero", 480_000, 4_800_000, big, check_size),
        part("location", "at least two values", 320_000, 3_200_000, located, check_located),
      ],
    },
  ]
}
