//! C39: values that serve as keys compare, order and hash as what they stand for.

use diagnostic::{Code, Severity};
use idx::Idx;
use paths::{CleanPath, CleanPathBuf, PathId, PathMap, PathSet, Store, WithPath};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher, Hash};
use std::path::Path;
use str_util::Name;
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::TextSize;
use token::Token;
use uniq::{Uniq, UniqMk};
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

type Hasher = BuildHasherDefault<DefaultHasher>;

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
  Hasher::default().hash_one(x)
}

/// Equality and clones: `same(i, j)` tells whether values `i` and `j` stand for the same.
fn equal<T: PartialEq + Clone + Debug>(xs: &[T], same: impl Fn(usize, usize) -> bool) -> Outcome {
  for (i, x) in xs.iter().enumerate() {
    let copy = x.clone();
    ensure!(copy == *x && *x == copy, "{x:?} equals its clone {copy:?}");
    for (j, y) in xs.iter().enumerate() {
      let want = same(i, j);
      ensure_eq!((x == y, x != y, copy == *y), (want, !want, want), "equality of {x:?} and {y:?}");
    }
  }
  Ok(())
}

fn hashes<T: Eq + Hash + Clone + Debug>(xs: &[T], same: impl Fn(usize, usize) -> bool) -> Outcome {
  for (i, x) in xs.iter().enumerate() {
    for (j, y) in xs.iter().enumerate() {
      ensure!(!same(i, j) || hash(x) == hash(y), "{x:?} and {y:?} are the same but hash apart");
    }
  }
  let map: HashMap<T, usize, Hasher> = xs.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
  for (i, x) in xs.iter().enumerate() {
    let last = (0..xs.len()).rev().find(|&j| same(i, j));
    ensure_eq!(map.get(x).copied(), last, "{x:?} in a hashed map");
  }
  Ok(())
}

/// A total order in agreement with equality.
fn order<T: Ord + Clone + Debug>(xs: &[T], same: impl Fn(usize, usize) -> bool) -> Outcome {
  use std::cmp::Ordering::{Equal, Greater, Less};
  let n = xs.len();
  let at = |i: usize, j: usize| xs[i].cmp(&xs[j]);
  for i in 0..n {
    for j in 0..n {
      let (x, y) = (&xs[i], &xs[j]);
      let c = at(i, j);
      ensure_eq!(c == Equal, same(i, j), "{x:?} orders as {y:?}");
      ensure_eq!(at(j, i), c.reverse(), "order of {x:?} and {y:?}, the other way round");
      ensure_eq!(x.partial_cmp(y), Some(c), "partial order of {x:?} and {y:?}");
      ensure_eq!((x < y, x <= y, x > y, x >= y), (c == Less, c != Greater, c == Greater, c != Less), "comparing {x:?} and {y:?}");
      for k in 0..n {
        ensure!(c == Greater || at(j, k) == Greater || at(i, k) != Greater, "order of {x:?}, {y:?}, {:?}", xs[k]);
      }
    }
  }
  let map: BTreeMap<T, usize> = xs.iter().cloned().enumerate().map(|(i, x)| (x, i)).collect();
  for i in 0..n {
    let last = (0..n).rev().find(|&j| same(i, j));
    ensure_eq!(map.get(&xs[i]).copied(), last, "{:?} in an ordered map", xs[i]);
  }
  Ok(())
}

/// Ordered as the models are.
fn ordered_as<T: Ord + Debug, M: Ord>(xs: &[T], ms: &[M]) -> Outcome {
  for (x, m) in xs.iter().zip(ms) {
    for (y, n) in xs.iter().zip(ms) {
      ensure_eq!(x.cmp(y), m.cmp(n), "order of {x:?} and {y:?}");
    }
  }
  Ok(())
}

fn all<T: Ord + Hash + Clone + Debug, M: PartialEq>(xs: &[T], ms: &[M]) -> Outcome {
  let same = |i: usize, j: usize| ms[i] == ms[j];
  equal(xs, same)?;
  hashes(xs, same)?;
  order(xs, same)
}

fn note<M: PartialEq>(ms: &[M], cov: &mut Cov) {
  let dup = (1..ms.len()).any(|i| ms[..i].contains(&ms[i]));
  let diff = ms.iter().any(|m| *m != ms[0]);
  cov.label_if(dup, "some the same");
  if dup && diff {
    cov.nontrivial();
  }
}

// positions

type Pos = (u32, u32);

fn num() -> BoxedStrategy<u32> {
  prop_oneof![6 => 0u32..3, 1 => 254u32..258, 1 => 65_534u32..65_538, 1 => (1u32 << 31) - 1..(1 << 31) + 2, 1 => u32::MAX - 1..=u32::MAX].boxed()
}

fn positions() -> BoxedStrategy<Vec<(Pos, Pos)>> {
  prop::collection::vec(((num(), num()), (num(), num())), 1..7).boxed()
}

fn check_positions(c: &Vec<(Pos, Pos)>, cov: &mut Cov) -> Outcome {
  let pos = |(line, col): Pos| PositionUtf16 { line, col };
  let ms: Vec<Pos> = c.iter().flat_map(|&(s, e)| [s, e]).collect();
  let xs: Vec<_> = ms.iter().map(|&p| pos(p)).collect();
  all(&xs, &ms)?;
  ordered_as(&xs, &ms)?;
  let rs: Vec<_> = c.iter().map(|&(s, e)| RangeUtf16 { start: pos(s), end: pos(e) }).collect();
  all(&rs, c)?;
  note(&ms, cov);
  Ok(())
}

// numbers

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Numbers {
  idx: Vec<u32>,
  code: Vec<u16>,
  severity: Vec<bool>,
  /// Which of so many identifiers.
  uniq: Vec<u16>,
}

fn numbers() -> BoxedStrategy<Numbers> {
  let small = prop_oneof![4 => 0u16..4, 1 => 255u16..258, 1 => 0x7fffu16..0x8002, 1 => 0xfffeu16..=0xffff].boxed();
  let few = |s: BoxedStrategy<u16>| prop::collection::vec(s, 1..7);
  let uniq = prop_oneof![6 => 0u16..6, 1 => 250u16..260].boxed();
  (prop::collection::vec(num(), 1..7), few(small), prop::collection::vec(any::<bool>(), 1..5), few(uniq))
    .prop_map(|(idx, code, severity, uniq)| Numbers { idx, code, severity, uniq })
    .boxed()
}

fn check_numbers(c: &Numbers, cov: &mut Cov) -> Outcome {
  let xs: Vec<_> = c.idx.iter().map(|&n| Idx::new(n as usize)).collect();
  all(&xs, &c.idx)?;
  ordered_as(&xs, &c.idx)?;
  let codes: Vec<_> = c.code.iter().map(|&n| Code::n(n)).collect();
  all(&codes, &c.code)?;
  ordered_as(&codes, &c.code)?;
  let severities: Vec<_> = c.severity.iter().map(|&e| if e { Severity::Error } else { Severity::Warning }).collect();
  let same = |i: usize, j: usize| c.severity[i] == c.severity[j];
  equal(&severities, same)?;
  order(&severities, same)?;
  ordered_as(&severities, &c.severity)?;
  let mut mk = UniqMk::default();
  let made: Vec<Uniq> = (0..=c.uniq.iter().copied().max().unwrap_or(0)).map(|_| mk.mk()).collect();
  let us: Vec<_> = c.uniq.iter().map(|&i| made[usize::from(i)]).collect();
  all(&us, &c.uniq)?;
  note(&c.idx, cov);
  Ok(())
}

// texts

fn texts() -> BoxedStrategy<Vec<String>> {
  let close = prop_oneof![
    6 => "[ab]{1,2}",
    1 => "[aA]{1,3}",
    // around what fits in place
    2 => "[ab]{22,25}",
    1 => "\n{0,3} {0,3}",
    1 => "\n{30,33} {30,33}",
    2 => vcore::generate::text_of(4),
  ];
  prop::collection::vec(close, 1..7).boxed()
}

fn check_names(c: &Vec<String>, cov: &mut Cov) -> Outcome {
  let ms: Vec<&str> = c.iter().map(String::as_str).filter(|s| !s.is_empty()).collect();
  if ms.is_empty() {
    return Ok(());
  }
  // made in different ways
  let xs: Vec<_> = ms.iter().enumerate().map(|(i, &s)| if i % 2 == 0 { Name::new(s) } else { Name::new(s.to_owned() + "") }).collect();
  all(&xs, &ms)?;
  ordered_as(&xs, &ms)?;
  let toks: Vec<_> = ms.iter().enumerate().map(|(i, &text)| Token { kind: i % 3 / 2, text }).collect();
  let copies: Vec<String> = ms.iter().map(|&s| s.to_owned()).collect();
  let moved = toks.iter().zip(&copies).map(|(t, s)| Token { kind: t.kind, text: s.as_str() });
  let toks: Vec<_> = toks.iter().copied().chain(moved).collect();
  let same = |i: usize, j: usize| (toks[i].kind, toks[i].text) == (toks[j].kind, toks[j].text);
  equal(&toks, same)?;
  hashes(&toks, same)?;
  note(&ms, cov);
  Ok(())
}

/// All that a database answers.
fn answers(db: &PositionDb, len: usize) -> Vec<Option<PositionUtf16>> {
  let end = db.end_position_utf16();
  (0..=len + 1).map(|n| db.position_utf16(TextSize::try_from(n).unwrap())).chain([Some(end)]).collect()
}

fn databases() -> BoxedStrategy<Vec<String>> {
  let ch = || prop::sample::select(vec!['a', '\n', '\r', 'é', 'メ', '😀']);
  let text = prop_oneof![
    3 => prop::collection::vec(ch(), 0..6),
    1 => prop::collection::vec(ch(), 0..40),
  ]
  .prop_map(|cs| cs.into_iter().collect::<String>());
  (prop::collection::vec(text, 1..4), any::<prop::sample::Index>(), any::<prop::sample::Index>(), ch())
    .prop_map(|(mut xs, i, at, c)| {
      // a near relative
      let x = i.get(&xs).clone();
      if let Some((i, d)) = (!x.is_empty()).then(|| x.char_indices().nth(at.index(x.chars().count()))).flatten() {
        let mut y = x.clone();
        y.replace_range(i..i + d.len_utf8(), &c.to_string());
        xs.push(y);
      }
      xs.push(x);
      xs
    })
    .boxed()
}

fn check_databases(c: &Vec<String>, cov: &mut Cov) -> Outcome {
  let dbs: Vec<_> = c.iter().map(|s| PositionDb::new(s)).collect();
  let max = c.iter().map(String::len).max().unwrap_or(0);
  let all: Vec<_> = dbs.iter().map(|db| answers(db, max)).collect();
  for (i, db) in dbs.iter().enumerate() {
    let copy = db.clone();
    ensure!(copy == *db, "the database of {:?} equals its clone", c[i]);
    ensure_eq!(answers(&copy, max), all[i].clone(), "answers of a clone, for {:?}", c[i]);
    for (j, other) in dbs.iter().enumerate() {
      ensure_eq!(db == other, other == db, "equality of databases of {:?} and {:?}, the other way", c[i], c[j]);
      ensure!(c[i] != c[j] || db == other, "two databases of {:?} differ", c[i]);
      ensure!(db != other || all[i] == all[j], "the databases of {:?} and {:?} are equal but answer differently", c[i], c[j]);
    }
  }
  note(c, cov);
  Ok(())
}

// paths

fn path_texts() -> BoxedStrategy<Vec<String>> {
  let part = prop_oneof![8 => "[ab]{1,2}", 1 => Just(".".to_owned()), 1 => Just("..".to_owned()), 1 => Just(String::new()), 1 => "[a-bA-B.é ]{1,3}"];
  let path = prop::collection::vec(part, 0..4).prop_map(|xs| format!("/{}", xs.join("/")));
  prop::collection::vec(path, 1..7).boxed()
}

/// The names on the way.
fn components(s: &str) -> Vec<&str> {
  let mut ret = Vec::new();
  for part in s.split('/') {
    match part {
      "" | "." => {}
      ".." => drop(ret.pop()),
      _ => ret.push(part),
    }
  }
  ret
}

fn check_paths(c: &Vec<String>, cov: &mut Cov) -> Outcome {
  let xs = c.iter().map(CleanPathBuf::new).collect::<Option<Vec<_>>>().ok_or("an absolute path is refused")?;
  let ms: Vec<_> = c.iter().map(|s| components(s)).collect();
  all(&xs, &ms)?;
  // as borrowed in both ways: a key is found whichever form it is looked up in
  let by_hash: HashMap<CleanPathBuf, Vec<&str>, Hasher> = xs.iter().cloned().zip(ms.iter().cloned()).collect();
  let by_order: BTreeMap<CleanPathBuf, Vec<&str>> = xs.iter().cloned().zip(ms.iter().cloned()).collect();
  ensure_eq!((by_hash.len(), by_order.len()), (ms.iter().collect::<BTreeSet<_>>().len(), by_hash.len()), "numbers of keys");
  for (i, (x, m)) in xs.iter().zip(&ms).enumerate() {
    let (clean, path): (&CleanPath, &Path) = (x.as_clean_path(), x.as_path());
    let want = Some(m);
    ensure_eq!((by_hash.get(x), by_hash.get(clean), by_hash.get(path)), (want, want, want), "{x:?} in a hashed map");
    ensure_eq!((by_order.get(x), by_order.get(clean), by_order.get(path)), (want, want, want), "{x:?} in an ordered map");
    ensure_eq!(hash(x), hash(clean), "hash of {x:?} as borrowed");
    ensure_eq!(hash(x), hash(path), "hash of {x:?} as a path");
    for (j, y) in xs.iter().enumerate() {
      let c = x.cmp(y);
      ensure_eq!((clean.cmp(y.as_clean_path()), path.cmp(y.as_path())), (c, c), "order of {x:?} and {y:?} as borrowed");
      ensure_eq!(clean == y.as_clean_path(), ms[i] == ms[j], "equality of {x:?} and {y:?} as borrowed");
    }
  }
  // identifiers
  let mut store = Store::new();
  let ids: Vec<PathId> = xs.iter().enumerate().map(|(i, x)| if i % 2 == 0 { store.get_id(x.as_clean_path()) } else { store.get_id_owned(x.clone()) }).collect();
  all(&ids, &ms)?;
  let wrapped: Vec<WithPath<u8>> = ids.iter().enumerate().flat_map(|(i, id)| [id.wrap(i as u8 % 2), id.wrap(2)]).collect();
  let same = |i: usize, j: usize| (&ms[i / 2], wrapped[i].val) == (&ms[j / 2], wrapped[j].val);
  equal(&wrapped, same)?;
  hashes(&wrapped, same)?;
  order(&wrapped, same)?;
  // their own maps and sets
  let mut map: PathMap<usize> = PathMap::default();
  let mut set: PathSet = PathSet::default();
  for (i, id) in ids.iter().enumerate() {
    let before = (0..i).rev().find(|&j| ms[j] == ms[i]);
    ensure_eq!(map.insert(*id, i), before, "{:?} put in a path map", xs[i]);
    ensure_eq!(set.insert(*id), before.is_none(), "{:?} put in a path set", xs[i]);
  }
  let distinct: HashSet<_> = ms.iter().collect();
  ensure_eq!((map.len(), set.len()), (distinct.len(), distinct.len()), "sizes of a path map and set");
  for (i, id) in ids.iter().enumerate() {
    let last = (0..ids.len()).rev().find(|&j| ms[j] == ms[i]);
    ensure_eq!(map.get(id).copied(), last, "{:?} in a path map", xs[i]);
    ensure!(set.contains(id), "{:?} in a path set", xs[i]);
  }
  note(&ms, cov);
  Ok(())
}

/// Many at once, in the sets that hash their own way.
fn many() -> BoxedStrategy<(u32, u32)> {
  (1u32..40_000, 1u32..1000).boxed()
}

fn check_many(c: &(u32, u32), cov: &mut Cov) -> Outcome {
  let &(n, step) = c;
  let n = n / (1 + step % 8);
  let mut store = Store::new();
  let mut set = PathSet::default();
  let mut map: PathMap<u32> = PathMap::default();
  let mut hashed: HashSet<PathId> = HashSet::new();
  let mut ids = Vec::new();
  for i in 0..n {
    let name = i.wrapping_mul(step);
    let id = store.get_id_owned(CleanPathBuf::new(format!("/{}/{}", name % 7, name)).ok_or("refused")?);
    ensure!(set.insert(id), "path {i} of {n} is in a path set before it is put in");
    ensure!(hashed.insert(id), "path {i} of {n} is in a set before it is put in");
    ensure_eq!(map.insert(id, i), None, "path {i} of {n} in a path map");
    ids.push(id);
  }
  for (i, id) in ids.iter().enumerate() {
    ensure!(set.contains(id) && hashed.contains(id), "path {i} of {n} is not in the sets");
    ensure_eq!(map.get(id).copied(), Some(i as u32), "path {i} of {n} in a path map");
  }
  if n > 1 << 8 {
    cov.nontrivial();
  }
  cov.label_if(n > 1 << 12, "over 4096");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C39",
    parts: vec![
      part("positions", "two the same, two different", 400_000, 8_000_000, positions, check_positions),
      part("numbers", "two indices the same, two different", 400_000, 8_000_000, numbers, check_numbers),
      part("names", "two the same, two different", 300_000, 6_000_000, texts, check_names),
      part("databases", "two texts the same, two different", 400_000, 3_000_000, databases, check_databases),
      part("paths", "two the same, two different", 300_000, 6_000_000, path_texts, check_paths),
      part("many-paths", "over 256 paths", 4_000, 100_000, many, check_many),
    ],
  }]
}
