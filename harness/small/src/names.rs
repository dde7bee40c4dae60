//! C27 and C30: character names, and names.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, DefaultHasher, Hash, Hasher, RandomState};
use std::sync::{Arc, OnceLock};
use str_util::{Name, SmolStr};
use vcore::{Cov, Outcome, Prop, catch, catch_msg, ensure, ensure_eq, part};

fn expected_named(c: char) -> bool {
  c.is_ascii_punctuation() && !matches!(c, '"' | '\'' | '\\')
}

fn check_char(c: &char, cov: &mut Cov) -> Outcome {
  let c = *c;
  let name = catch(|| char_name::get_opt(c))?;
  ensure_eq!(name.is_some(), expected_named(c), "{c:?} has a name");
  if c.is_ascii_punctuation() {
    cov.nontrivial();
  }
  cov.label(if name.is_some() { "named" } else { "nameless" });
  match name {
    Some(n) => {
      ensure!(!n.is_empty() && n.bytes().all(|b| b.is_ascii_alphabetic()), "name {n:?} of {c:?}");
      ensure!(n.as_bytes()[0].is_ascii_uppercase(), "name {n:?} of {c:?} has no capital");
      ensure_eq!(catch(|| char_name::get(c)), Ok(n), "insisting name of {c:?}");
      for d in (0..128u8).map(char::from) {
        ensure!(d == c || char_name::get_opt(d) != Some(n), "{c:?} and {d:?} are both {n}");
      }
    }
    None => ensure!(catch(|| char_name::get(c)).is_err(), "insisting on a name of {c:?} did not panic"),
  }
  Ok(())
}

fn any_char() -> BoxedStrategy<char> {
  prop_oneof![4 => (0u8..128).prop_map(char::from), 1 => any::<char>(), 1 => proptest::char::range('\u{80}', '\u{3000}')].boxed()
}

/// Every character there is, in 68 blocks.
fn check_block(b: &u16, cov: &mut Cov) -> Outcome {
  cov.nontrivial();
  let from = u32::from(*b) << 14;
  for c in (from..from + (1 << 14)).filter_map(char::from_u32) {
    ensure_eq!(char_name::get_opt(c).is_some(), expected_named(c), "{c:?} has a name");
  }
  Ok(())
}

fn blocks() -> BoxedStrategy<u16> {
  (0u16..0x44).boxed()
}

fn alphabet() -> &'static Vec<(char, &'static str)> {
  static A: OnceLock<Vec<(char, &'static str)>> = OnceLock::new();
  A.get_or_init(|| (0..=0x0010_ffff).filter_map(char::from_u32).filter_map(|c| Some((c, char_name::get_opt(c)?))).collect())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Two(String, String);

fn two() -> BoxedStrategy<Two> {
  let cs: Vec<char> = (0..128u8).map(char::from).filter(|&c| expected_named(c)).collect();
  let ch = prop::sample::select(cs).boxed();
  let s = prop::collection::vec(ch.clone(), 0..7);
  (s.clone(), s, ch, 0u8..4, any::<prop::sample::Index>())
    .prop_map(|(a, mut b, c, how, at)| {
      // mostly close relatives
      match how {
        0 => {}
        1 => {
          b = a.clone();
          b.insert(at.index(a.len() + 1), c);
        }
        2 => {
          b = a.clone();
          if !a.is_empty() {
            b[at.index(a.len())] = c;
          }
        }
        _ => {
          b = a.clone();
          let n = b.len();
          if n > 1 {
            let at = at.index(n - 1);
            b.swap(at, at + 1);
          }
        }
      }
      Two(a.into_iter().collect(), b.into_iter().collect())
    })
    .boxed()
}

fn check_two(c: &Two, cov: &mut Cov) -> Outcome {
  let join = |s: &str| s.chars().map(char_name::get).collect::<String>();
  let (a, b) = catch(|| (join(&c.0), join(&c.1)))?;
  if c.0 != c.1 && c.0.len() > 1 {
    cov.nontrivial();
  }
  cov.label_if(c.0 == c.1, "equal sequences");
  ensure_eq!(a == b, c.0 == c.1, "names of {:?} and {:?} join to {a} and {b}; equal", c.0, c.1);
  // number of ways to read the joined name
  let mut ways = vec![0u64; a.len() + 1];
  ways[0] = 1;
  for i in 0..a.len() {
    for (_, n) in alphabet() {
      if ways[i] > 0 && a[i..].starts_with(n) {
        ways[i + n.len()] += ways[i];
      }
    }
  }
  ensure_eq!(ways[a.len()], 1, "ways to read {a}");
  Ok(())
}

// C30

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Names {
  texts: Vec<String>,
  /// How each name is made.
  how: Vec<u8>,
}

const HOWS: u8 = 12;

fn smol(s: &str, how: u8) -> SmolStr {
  match how % HOWS {
    0 => s.into(),
    1 => s.to_owned().into(),
    2 => (&s.to_owned()).into(),
    3 => Box::<str>::from(s).into(),
    4 => Arc::<str>::from(s).into(),
    5 => Cow::Borrowed(s).into(),
    6 => Cow::<str>::Owned(s.to_owned()).into(),
    7 => SmolStr::new_static(Box::leak(s.to_owned().into_boxed_str())),
    8 => s.chars().collect(),
    9 if s.len() <= 23 => SmolStr::new_inline(s),
    10 if s.chars().count() == 1 => s.chars().next().unwrap().into(),
    _ => SmolStr::from(String::with_capacity(100) + s),
  }
}

fn make(s: &str, how: u8) -> (Option<Name>, Result<Name, String>) {
  match how % HOWS {
    0 => (Name::try_new(s), catch(|| Name::new(s))),
    1 => (Name::try_new(s.to_owned()), catch(|| Name::new(s.to_owned()))),
    2 => (Name::try_new(&s.to_owned()), catch(|| Name::new(&s.to_owned()))),
    3 => (Name::try_new(Box::<str>::from(s)), catch(|| Name::new(Box::<str>::from(s)))),
    4 => (Name::try_new(Arc::<str>::from(s)), catch(|| Name::new(Arc::<str>::from(s)))),
    5 => (Name::try_new(Cow::Borrowed(s)), catch(|| Name::new(Cow::Borrowed(s)))),
    h => (Name::try_new(smol(s, h)), catch(|| Name::new(smol(s, h)))),
  }
}

fn name_text() -> BoxedStrategy<String> {
  prop_oneof![
    3 => "[ab]{0,3}",
    3 => "[a-zA-Z_ ]{0,12}",
    // around the longest text kept without an allocation
    3 => "[ab]{20,26}",
    // newlines then spaces: kept in a form of their own
    2 => (0usize..40, 0usize..140).prop_map(|(n, m)| "\n".repeat(n) + &" ".repeat(m)),
    2 => (0usize..5, 0usize..5).prop_map(|(n, m)| "\n".repeat(n) + &" ".repeat(m)),
    1 => Just(String::new()),
    1 => "[ \n\t\0]{0,4}",
    2 => vcore::generate::text_of(10),
    1 => vcore::generate::text_of(60),
  ]
  .boxed()
}

fn names() -> BoxedStrategy<Names> {
  (prop::collection::vec(name_text(), 1..7), prop::collection::vec(0..HOWS, 7), prop::collection::vec((0usize..7, 0u8..4), 0..3))
    .prop_map(|(mut texts, how, again)| {
      for (i, how) in again {
        let t: String = texts[i % texts.len()].clone();
        texts.push(match how {
          0 => t + "a",
          1 => t.chars().rev().collect(),
          2 => t.to_uppercase(),
          _ => t,
        });
      }
      Names { texts, how }
    })
    .boxed()
}

/// Long texts, with relatives of the same length.
fn long_names() -> BoxedStrategy<Names> {
  let n = prop_oneof![1 => 1usize..300, 1 => 300usize..70_000];
  (names(), n, name_text(), any::<prop::sample::Index>())
    .prop_map(|(mut c, n, t, at)| {
      let n = n.min(1 + 140_000 / (1 + t.len()));
      let i = at.index(c.texts.len());
      c.texts[i] = t.repeat(n) + &c.texts[i];
      let other = c.texts[i].clone() + "b";
      c.texts.extend([t.repeat(n), other]);
      c
    })
    .boxed()
}

fn hash_of(x: &(impl Hash + ?Sized)) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

fn check_names(c: &Names, cov: &mut Cov) -> Outcome {
  let mut made: Vec<(Name, &str)> = Vec::new();
  for (i, t) in c.texts.iter().enumerate() {
    let how = c.how[i % c.how.len()];
    let (a, b) = make(t, how);
    ensure_eq!(a.is_some(), !t.is_empty(), "a name can be made of {t:?}");
    ensure_eq!(b.is_ok(), !t.is_empty(), "insisting on a name of {t:?} succeeds");
    cov.label_if(t.is_empty(), "empty text");
    cov.label_if(t.len() > 23, "long text");
    cov.label_if(!t.is_empty() && t.bytes().all(|b| b == b' ' || b == b'\n'), "whitespace text");
    if let (Some(a), Ok(b)) = (a, b) {
      let copy = a.clone();
      drop(a);
      made.push((copy, t));
      made.push((b, t));
    }
  }
  if made.len() >= 4 {
    cov.nontrivial();
  }
  let state = RandomState::new();
  let mut hashed: HashMap<Name, usize> = HashMap::new();
  let mut ordered: BTreeMap<Name, usize> = BTreeMap::new();
  let mut want: BTreeMap<&str, usize> = BTreeMap::new();
  for (i, (n, t)) in made.iter().enumerate() {
    ensure_eq!(n.as_str(), *t, "text of a name");
    ensure_eq!(n.to_string(), *t, "a name prints");
    let b: &str = n.borrow();
    ensure_eq!(b, *t, "a name borrows as");
    ensure_eq!(hash_of(n), hash_of(*t), "hash of name {t:?}");
    ensure_eq!(state.hash_one(n), state.hash_one(*t), "keyed hash of name {t:?}");
    hashed.insert(n.clone(), i);
    ordered.insert(n.clone(), i);
    want.insert(t, i);
    for (m, u) in &made {
      ensure_eq!(n == m, t == u, "names {t:?} and {u:?} are equal");
      ensure_eq!(n.cmp(m), t.cmp(u), "order of names {t:?} and {u:?}");
      ensure_eq!(n.partial_cmp(m), t.partial_cmp(u), "partial order of names {t:?} and {u:?}");
      cov.label_if(t == u && !std::ptr::eq(n, m), "equal names");
    }
  }
  let keys: Vec<&str> = ordered.keys().map(Name::as_str).collect();
  ensure_eq!(keys, want.keys().copied().collect::<Vec<_>>(), "ordered names");
  ensure_eq!(hashed.len(), want.len(), "number of distinct names");
  for t in c.texts.iter().map(String::as_str).chain(["zz", "a", ""]) {
    ensure_eq!(hashed.get(t), want.get(t), "hashed lookup of {t:?}");
    ensure_eq!(ordered.get(t), want.get(t), "ordered lookup of {t:?}");
  }
  Ok(())
}

fn check_empty(how: &u8, cov: &mut Cov) -> Outcome {
  cov.nontrivial();
  ensure!(make("", *how).0.is_none(), "a name was made of nothing");
  ensure!(catch_msg(|| Name::new(smol("", *how))).is_err(), "insisting on an empty name did not panic");
  Ok(())
}

fn hows() -> BoxedStrategy<u8> {
  (0..HOWS).boxed()
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C27",
      parts: vec![
        part("character", "an ASCII punctuation character", 40_000, 400_000, any_char, check_char),
        part("block", "always", 2_000, 8_000, blocks, check_block),
        part("sequences", "two different sequences of at least two characters", 600_000, 6_000_000, two, check_two),
      ],
    },
    Prop {
      id: "C30",
      parts: vec![
        part("names", "at least two non-empty texts", 300_000, 3_000_000, names, check_names),
        part("long-names", "at least two non-empty texts", 300, 6_000, long_names, check_names),
        part("empty", "always", 200, 2_000, hows, check_empty),
      ],
    },
  ]
}
