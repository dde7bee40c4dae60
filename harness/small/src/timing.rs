//! C32: timing.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::time::{Duration, Instant};
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

thread_local! {
  static RECORDS: RefCell<Vec<(log::Level, String, Instant)>> = const { RefCell::new(Vec::new()) };
}

struct Capture;

impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    RECORDS.with(|rs| rs.borrow_mut().push((r.level(), r.args().to_string(), Instant::now())));
  }
  fn flush(&self) {}
}

pub fn capture() {
  log::set_logger(&Capture).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
}

fn take() -> Vec<(log::Level, String, Instant)> {
  RECORDS.with(|rs| std::mem::take(&mut *rs.borrow_mut()))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Work {
  Nothing,
  Spin(u16),
  Sleep(u16),
  Long(u32),
  Log(u8),
  /// Timed work inside the timed work.
  Inner(Box<Call>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Call {
  /// None is the form that returns the duration.
  msg: Option<String>,
  work: Vec<Work>,
  result: String,
  panics: bool,
}

fn call(depth: u32) -> BoxedStrategy<Call> {
  let mut arms = vec![
    (3, Just(Work::Nothing).boxed()),
    (3, (0u16..80).prop_map(Work::Spin).boxed()),
    (1, (0u16..400).prop_map(Work::Sleep).boxed()),
    (2, (0u8..5).prop_map(Work::Log).boxed()),
  ];
  if depth > 0 {
    arms.push((2, call(depth - 1).prop_map(|c| Work::Inner(Box::new(c))).boxed()));
  }
  let msg = prop_oneof![
    2 => Just(None),
    3 => "[a-z ]{0,8}".prop_map(Some),
    1 => "[{}:%? ]{0,6}".prop_map(Some),
    1 => vcore::generate::text_of(8).prop_map(Some),
  ];
  (msg, prop::collection::vec(vcore::generate::sized(arms), 0..4), "[a-z]{0,30}", prop::bool::weighted(0.15))
    .prop_map(|(msg, work, result, panics)| Call { msg, work, result, panics })
    .boxed()
}

/// Calls that take milliseconds, and some that take more than a second.
fn slow() -> BoxedStrategy<Call> {
  let ms = prop_oneof![6 => 1u32..60, 2 => 60u32..200, 2 => 1_000u32..1_300];
  (call(0), ms, 0u32..1000, any::<bool>())
    .prop_map(|(mut c, ms, us, at)| {
      c.work.insert(if at { 0 } else { c.work.len() }, Work::Long(ms * 1000 + us));
      c
    })
    .boxed()
}

fn calls() -> BoxedStrategy<Call> {
  call(2)
}

/// What a record must be.
#[derive(Debug)]
enum Want {
  Own(u8),
  Timed { msg: String, inside: Duration, outer: (Instant, Instant), done: Instant },
}

const LEVELS: [log::Level; 5] =
  [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];

/// Parses how a duration prints in full precision.
fn parse_duration(s: &str) -> Option<Duration> {
  let at = s.find(|c: char| !c.is_ascii_digit() && c != '.')?;
  let (num, unit) = s.split_at(at);
  let scale: u32 = match unit {
    "ns" => 0,
    "µs" => 3,
    "ms" => 6,
    "s" => 9,
    _ => return None,
  };
  let (int, frac) = num.split_once('.').unwrap_or((num, ""));
  if int.is_empty() || num.ends_with('.') || frac.len() > scale as usize {
    return None;
  }
  let mut ns = int.parse::<u64>().ok()? * 10u64.pow(scale);
  if !frac.is_empty() {
    ns += frac.parse::<u64>().ok()? * 10u64.pow(scale - frac.len() as u32);
  }
  Some(Duration::from_nanos(ns))
}

struct Boom(usize);

fn run(c: &Call, want: &mut Vec<Want>, cov: &mut Cov) -> Outcome {
  let mut times = 0u32;
  let mut inner_err: Outcome = Ok(());
  let mut span: Option<(Instant, Instant)> = None;
  let result = Box::new(c.result.clone());
  let result_at = std::ptr::from_ref(&*result) as usize;
  let body = || {
    let start = Instant::now();
    times += 1;
    for w in &c.work {
      match w {
        Work::Nothing => {}
        Work::Spin(us) => {
          let t = Instant::now();
          while t.elapsed() < Duration::from_micros(u64::from(*us)) {
            std::hint::spin_loop();
          }
        }
        Work::Sleep(us) => std::thread::sleep(Duration::from_micros(u64::from(*us))),
        Work::Long(us) => {
          cov.label_if(*us > 1_000_000, "more than a second");
          std::thread::sleep(Duration::from_micros(u64::from(*us)));
        }
        Work::Log(n) => {
          log::log!(LEVELS[usize::from(*n) % 5], "own {n}");
          want.push(Want::Own(*n % 5));
        }
        Work::Inner(c) => {
          let r = run(c, want, cov);
          if inner_err.is_ok() {
            inner_err = r;
          }
        }
      }
    }
    span = Some((start, Instant::now()));
    if c.panics {
      resume_unwind(Box::new(Boom(result_at)));
    }
    result
  };
  let before = Instant::now();
  let got = catch_unwind(AssertUnwindSafe(|| match &c.msg {
    None => {
      let (r, d) = elapsed::time(body);
      (r, Some(d))
    }
    Some(m) => (elapsed::log(m, body), None),
  }));
  let after = Instant::now();
  inner_err?;
  ensure_eq!(times, 1, "times the call was run");
  let span = span.ok_or("the call did not finish")?;
  cov.label_if(c.panics, "panicking call");
  match got {
    Err(p) => {
      let p = p.downcast::<Boom>().map_err(|_| "a different panic came out")?;
      ensure!(c.panics && p.0 == result_at, "a different panic came out");
    }
    Ok((r, d)) => {
      ensure!(!c.panics, "the panic was lost");
      ensure_eq!(std::ptr::from_ref(&*r) as usize, result_at, "the place of the result");
      ensure_eq!(*r, c.result, "the result");
      let inside = span.1 - span.0;
      if let Some(d) = d {
        ensure!(inside <= d, "measured {d:?}, but {inside:?} were spent inside the call");
        ensure!(d <= after - before, "measured {d:?}, but only {:?} were spent around the call", after - before);
      }
      if let Some(m) = &c.msg {
        want.push(Want::Timed { msg: m.clone(), inside, outer: (before, after), done: span.1 });
      }
    }
  }
  Ok(())
}

fn check(c: &Call, cov: &mut Cov) -> Outcome {
  take();
  let mut want = Vec::new();
  run(c, &mut want, cov)?;
  let got = take();
  if !c.work.is_empty() {
    cov.nontrivial();
  }
  cov.label(if c.msg.is_some() { "logging form" } else { "plain form" });
  cov.label_if(c.work.iter().any(|w| matches!(w, Work::Inner(_))), "nested");
  ensure_eq!(got.len(), want.len(), "number of records, out of {want:?}");
  for ((level, text, at), want) in got.into_iter().zip(want) {
    match want {
      Want::Own(n) => {
        ensure_eq!((level, text), (LEVELS[usize::from(n)], format!("own {n}")), "the call's own record");
      }
      Want::Timed { msg, inside, outer, done } => {
        ensure_eq!(level, log::Level::Info, "level of the record");
        let rest = text.strip_prefix(&msg).and_then(|r| r.strip_prefix(": "));
        let rest = rest.ok_or_else(|| format!("record {text:?} for message {msg:?}"))?;
        let d = parse_duration(rest).ok_or_else(|| format!("{rest:?} is not a duration"))?;
        ensure!(inside <= d && d <= outer.1 - outer.0, "logged {d:?}, spent {inside:?} inside and {:?} around", outer.1 - outer.0);
        ensure!(at >= done, "the record was emitted before the call was over");
      }
    }
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C32",
    parts: vec![part("call", "the call does something", 16_000, 300_000, calls, check),
      part("slow", "always", 160, 3_000, slow, check)],
  }]
}
