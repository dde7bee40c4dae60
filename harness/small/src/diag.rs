//! C25: diagnostics and codes.

use diagnostic::{Code, Diagnostic, Severity};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::error::Error;
use text_pos::{PositionUtf16, RangeUtf16};
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Diag {
  start: (u32, u32),
  end: (u32, u32),
  error: bool,
  message: String,
}

fn num() -> BoxedStrategy<u32> {
  prop_oneof![4 => 0u32..4, 2 => 0u32..200, 1 => 0..u32::MAX, 1 => (u32::MAX - 3)..u32::MAX].boxed()
}

fn diag() -> BoxedStrategy<Diag> {
  let msg = prop_oneof![3 => "[a-z ]{0,12}", 1 => "[:{}%a -]{0,8}", 1 => vcore::generate::text_of(20)];
  ((num(), num()), (num(), num()), any::<bool>(), 0u8..4, msg)
    .prop_map(|(start, mut end, error, same, message)| {
      if same == 0 {
        end = start;
      } else if same == 1 {
        end.0 = start.0;
      }
      Diag { start, end, error, message }
    })
    .boxed()
}

/// Messages of up to tens of thousands of bytes.
fn long_diag() -> BoxedStrategy<Diag> {
  let piece = || prop_oneof![2 => "[a-z :\n]{1,8}", 1 => vcore::generate::text_of(6)];
  (diag(), prop::collection::vec((piece(), prop_oneof![1usize..300, 300usize..20_000]), 1..4))
    .prop_map(|(d, ps)| Diag { message: d.message.clone() + &ps.into_iter().map(|(p, n)| p.repeat(n)).collect::<String>(), ..d })
    .boxed()
}

fn check_diag(c: &Diag, cov: &mut Cov) -> Outcome {
  let one = |(l, c): (u32, u32)| format!("{}:{}", u64::from(l) + 1, u64::from(c) + 1);
  let pos = |(line, col): (u32, u32)| PositionUtf16 { line, col };
  ensure_eq!(catch(|| pos(c.start).to_string()), Ok(one(c.start)), "start");
  ensure_eq!(catch(|| pos(c.end).to_string()), Ok(one(c.end)), "end");
  let same = c.start.0 == c.end.0;
  let want = if same { format!("{}-{}", one(c.start), u64::from(c.end.1) + 1) } else { format!("{}-{}", one(c.start), one(c.end)) };
  let range = RangeUtf16 { start: pos(c.start), end: pos(c.end) };
  ensure_eq!(catch(|| range.to_string()), Ok(want.clone()), "range");
  let zero = RangeUtf16::zero(pos(c.start));
  ensure_eq!((zero.start, zero.end), (pos(c.start), pos(c.start)), "zero range");
  ensure_eq!(catch(|| zero.to_string()), Ok(format!("{}-{}", one(c.start), u64::from(c.start.1) + 1)), "zero range text");
  let (severity, sev) = if c.error { (Severity::Error, "error") } else { (Severity::Warning, "warning") };
  ensure_eq!(severity.to_string(), sev, "severity");
  let d = Diagnostic { range, message: c.message.clone(), severity };
  ensure_eq!(catch(|| d.to_string()), Ok(format!("{want}: {sev}: {}", c.message)), "diagnostic");
  ensure!(Severity::Error > Severity::Warning && severity <= Severity::Error, "order of severities");
  cov.label_if(same, "one line");
  cov.label_if(c.start == c.end, "empty range");
  cov.label_if(c.error, "error");
  if !c.message.is_empty() {
    cov.nontrivial();
  }
  Ok(())
}

fn check_code(n: &u16, cov: &mut Cov) -> Outcome {
  if *n > 9 {
    cov.nontrivial();
  }
  let c = Code::n(*n);
  let s = c.to_string();
  ensure_eq!(s, format!("{n}"), "code {n} prints");
  ensure_eq!(c.as_i32(), i32::from(*n), "code {n} as an integer");
  let back: Result<Code, _> = s.parse();
  ensure_eq!(back.ok(), Some(c), "{s} parses");
  let hash = |c: &Code| {
    let mut h = std::hash::DefaultHasher::new();
    std::hash::Hash::hash(c, &mut h);
    std::hash::Hasher::finish(&h)
  };
  for m in [n ^ 1, *n, n.swap_bytes(), n.wrapping_add(256), n ^ 0x8000, n.wrapping_mul(40_503), !n] {
    let d = Code::n(m);
    ensure_eq!(c.cmp(&d), n.cmp(&m), "code {n} against {m}");
    ensure_eq!((c == d, c != d, c < d, c >= d), (*n == m, *n != m, *n < m, *n >= m), "code {n} against {m}");
    ensure_eq!(hash(&c) == hash(&d), *n == m, "hashes of {n} and {m}");
  }
  Ok(())
}

fn code_text() -> BoxedStrategy<String> {
  prop_oneof![
    3 => any::<u16>().prop_map(|n| n.to_string()),
    2 => (65500u32..65600).prop_map(|n| n.to_string()),
    1 => any::<u64>().prop_map(|n| n.to_string()),
    1 => any::<i32>().prop_map(|n| n.to_string()),
    2 => "[+-]?0{0,4}[0-9]{0,6}",
    2 => "[0-9 +xabo_.-]{0,7}",
    1 => any::<u16>().prop_map(|n| format!("{n:x}")),
    1 => any::<u16>().prop_map(|n| format!(" {n}")),
    1 => any::<u16>().prop_map(|n| format!("{n}\n")),
    1 => "[٠-٩0-9]{1,4}",
    1 => vcore::generate::text_of(5),
    1 => Just("0".repeat(80) + "7"),
    1 => Just("9".repeat(80)),
  ]
  .boxed()
}

/// Decimal, as the standard parser for integers has it: a plus sign and leading zeros are fine.
fn decimal(s: &str) -> Option<u16> {
  let s = s.strip_prefix('+').unwrap_or(s);
  if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
    return None;
  }
  s.bytes().try_fold(0u32, |n, b| Some(n * 10 + u32::from(b - b'0')).filter(|&n| n <= 65535)).map(|n| n as u16)
}

fn check_parse(s: &String, cov: &mut Cov) -> Outcome {
  let want = decimal(s);
  let got = catch(|| s.parse::<Code>())?;
  if s.bytes().any(|b| b.is_ascii_digit()) {
    cov.nontrivial();
  }
  cov.label(if want.is_some() { "accepted" } else { "refused" });
  match (got, want) {
    (Ok(c), Some(n)) => ensure_eq!(c, Code::n(n), "{s:?} parses"),
    (Err(e), None) => {
      let cause = e.source().ok_or("the error has no cause")?;
      let cause = cause.to_string();
      let std = s.parse::<u16>().expect_err("the model refused it").to_string();
      ensure_eq!(cause, std, "cause of refusing {s:?}");
      ensure!(e.to_string().contains(&cause), "{e} does not tell its cause {cause}");
    }
    (got, want) => return Err(format!("{s:?}: got {got:?}, expected {want:?}")),
  }
  Ok(())
}

fn any_code() -> BoxedStrategy<u16> {
  any::<u16>().boxed()
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C25",
    parts: vec![
      part("diagnostic", "a non-empty message", 500_000, 5_000_000, diag, check_diag),
      part("long", "a non-empty message", 800, 30_000, long_diag, check_diag),
      part("code", "at least two digits", 100_000, 2_000_000, any_code, check_code),
      part("parse", "a digit in the string", 720_000, 7_200_000, code_text, check_parse),
    ],
  }]
}
