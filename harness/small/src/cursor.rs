//! C23: the string cursor.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use str_process::{Marker, St};
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
  Bump,
  /// Advance while the byte is of the class, at most so many times.
  While(u8, u8),
  /// The next so many bytes of the string (or fewer at the end), one of them possibly changed,
  /// some bytes possibly added.
  Eat { len: u8, change: Option<(u8, u8)>, extra: Vec<u8> },
  Next,
  Mark,
  Since(u8),
  NonEmpty(u8),
  Did(u8),
  Renew,
  /// Advance so many times, or to the end.
  Far(u32),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  s: String,
  ops: Vec<Op>,
}

fn text() -> BoxedStrategy<String> {
  prop_oneof![
    6 => vcore::generate::text_of(12),
    2 => "[ab ]{0,20}",
    2 => prop::collection::vec(prop::sample::select(vec!['a', 'é', 'メ', '😀']), 0..10).prop_map(|v| v.into_iter().collect()),
    1 => vcore::generate::text_of(120),
  ]
  .boxed()
}

fn ops() -> BoxedStrategy<Op> {
  let op = prop_oneof![
    4 => Just(Op::Bump),
    3 => (0u8..6, prop_oneof![3 => Just(255u8), 1 => 0u8..5]).prop_map(|(a, b)| Op::While(a, b)),
    4 => (0u8..5, prop::option::weighted(0.3, (0u8..5, 1u8..=255)), prop::collection::vec(any::<u8>(), 0..3))
      .prop_map(|(len, change, extra)| Op::Eat { len, change, extra }),
    2 => (0u8..5).prop_map(|len| Op::Eat { len, change: None, extra: Vec::new() }),
    4 => Just(Op::Next),
    4 => Just(Op::Mark),
    2 => any::<u8>().prop_map(Op::Since),
    2 => any::<u8>().prop_map(Op::NonEmpty),
    2 => any::<u8>().prop_map(Op::Did),
    1 => Just(Op::Renew),
  ];
  op.boxed()
}

fn case() -> BoxedStrategy<Case> {
  (text(), prop::collection::vec(ops(), 0..24)).prop_map(|(s, ops)| Case { s, ops }).boxed()
}

fn long() -> BoxedStrategy<Case> {
  let far = prop_oneof![1 => 0u32..600, 1 => 65_000u32..66_000, 1 => 0u32..140_000].prop_map(Op::Far);
  let op = prop_oneof![1 => far, 3 => ops()];
  (text(), text(), 1usize..70_000, prop::collection::vec(op, 4..30))
    .prop_map(|(s, t, n, ops)| Case { s: s.repeat(n.min(1 + 140_000 / (1 + s.len()))) + &t, ops })
    .boxed()
}

fn class(n: u8, b: u8) -> bool {
  match n {
    0 => b.is_ascii_alphanumeric(),
    1 => b == b' ' || b == b'\n',
    2 => b >= 0x80,
    3 => true,
    4 => false,
    _ => b != b'a',
  }
}

/// Defuses what is left, so that no marker is dropped unused.
struct Marks<'a, 'b>(Vec<(Marker, usize)>, &'b St<'a>);

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let bytes = c.s.as_bytes();
  let mut st = St::new(&c.s);
  let mut idx = 0usize;
  let mut marks: Vec<(Marker, usize)> = Vec::new();
  let mut used = 0;
  let r = run(c, bytes, &mut st, &mut idx, &mut marks, &mut used, cov);
  let rest = Marks(marks, &st);
  for (m, at) in rest.0 {
    let got = catch(|| rest.1.since(m));
    if r.is_ok() {
      ensure_eq!(got, Ok(&bytes[at..idx]), "since a marker at {at}, at the end");
    }
  }
  if c.s.len() >= 2 && used > 0 && idx > 0 {
    cov.nontrivial();
  }
  r
}

fn run<'a>(
  c: &'a Case,
  bytes: &'a [u8],
  st: &mut St<'a>,
  idx: &mut usize,
  marks: &mut Vec<(Marker, usize)>,
  used: &mut usize,
  cov: &mut Cov,
) -> Outcome {
  for (i, op) in c.ops.iter().enumerate() {
    let at = format!("op {i} {op:?} at {idx}");
    match op {
      Op::Bump => {
        if *idx < bytes.len() {
          st.bump();
          *idx += 1;
        }
      }
      Op::While(k, limit) => {
        let mut asked = Vec::new();
        st.bump_while(|b| {
          asked.push(b);
          class(*k, b) && asked.len() <= usize::from(*limit)
        });
        let mut want = Vec::new();
        while let Some(&b) = bytes.get(*idx) {
          want.push(b);
          if class(*k, b) && want.len() <= usize::from(*limit) {
            *idx += 1;
          } else {
            break;
          }
        }
        cov.label_if(want.len() > 1, "advanced while");
        ensure_eq!(asked, want, "{at}: bytes the condition was asked for");
      }
      Op::Eat { len, change, extra } => {
        let end = (*idx + usize::from(*len)).min(bytes.len());
        let mut p = bytes[*idx..end].to_vec();
        if let Some((at, by)) = change
          && let Some(b) = p.get_mut(usize::from(*at))
        {
          *b ^= by;
        }
        p.extend(extra);
        let want = bytes[*idx..].starts_with(&p);
        ensure_eq!(st.eat_prefix(&p), want, "{at}: eat {p:?}");
        if want {
          *idx += p.len();
        }
        cov.label_if(want && !p.is_empty(), "ate a prefix");
        cov.label_if(!want, "refused a prefix");
        cov.label_if(p.len() > bytes.len() - (*idx).min(bytes.len()) && !want, "prefix past the end");
      }
      Op::Next => {
        if *idx < bytes.len() {
          let from = *idx;
          cov.label_if(!c.s.is_char_boundary(from), "next from inside a character");
          st.next_str();
          *idx += 1;
          // continuation bytes
          while *idx < bytes.len() && bytes[*idx] & 0xc0 == 0x80 {
            *idx += 1;
          }
          cov.label_if(*idx > from + 1, "skipped a wide character");
          cov.label_if(*idx == bytes.len(), "next to the end");
        }
      }
      Op::Mark => marks.push((st.mark(), *idx)),
      Op::Since(n) => {
        if !marks.is_empty() {
          *used += 1;
          let (m, from) = marks.remove(usize::from(*n) % marks.len());
          ensure_eq!(st.since(m), &bytes[from..*idx], "{at}: since {from}");
        }
      }
      Op::NonEmpty(n) => {
        if !marks.is_empty() {
          *used += 1;
          let (m, from) = marks.remove(usize::from(*n) % marks.len());
          let got = catch(|| st.non_empty_since(m));
          if from == *idx {
            cov.label("empty since refused");
            ensure!(got.is_err(), "{at}: empty slice since {from} was not refused");
          } else {
            ensure_eq!(got, Ok(&bytes[from..*idx]), "{at}: non-empty since {from}");
          }
        }
      }
      Op::Did(n) => {
        if !marks.is_empty() {
          *used += 1;
          let (m, from) = marks.remove(usize::from(*n) % marks.len());
          ensure_eq!(st.did_bump_since(m), *idx > from, "{at}: moved since {from}");
        }
      }
      Op::Far(n) => {
        let to = (*idx + *n as usize).min(bytes.len());
        let mut left = to - *idx;
        st.bump_while(|_| {
          left -= usize::from(left > 0);
          // the call that finds none left ends it
          left > 0
        });
        if to > *idx {
          // asked as often as there were bytes, all but the last of them passed
          *idx = to - 1;
          ensure_eq!(st.cur_idx(), *idx, "{at}: index");
          st.bump();
          *idx += 1;
        }
        cov.label_if(*idx > 65_536, "past 65536 bytes");
      }
      Op::Renew => {
        if marks.is_empty() {
          *st = St::new(&c.s);
          *idx = 0;
        }
      }
    }
    ensure_eq!(st.cur_idx(), *idx, "{at}: index after");
    ensure_eq!(st.cur(), bytes.get(*idx).copied(), "{at}: byte after");
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C23",
    parts: vec![part(
      "long",
      "strings past 65536 bytes; non-trivial: as for histories",
      4_500,
      45_000,
      long,
      check,
    ),
    part(
      "history",
      "a string of at least two bytes, the cursor moved and a marker was used",
      800_000,
      8_000_000,
      case,
      check,
    )],
  }]
}
