//! C26: soft assertions. The two build configurations are the two behaviours.

use always::always;
use always::convert::{u32_to_usize, usize_to_u32};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt;
use vcore::{Cov, Outcome, Prop, catch_msg, ensure, ensure_eq, part};

thread_local! {
  static RECORDS: RefCell<Vec<(log::Level, String)>> = const { RefCell::new(Vec::new()) };
}

struct Capture;

impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let text = r.args().to_string();
    RECORDS.with(|rs| rs.borrow_mut().push((r.level(), text)));
  }
  fn flush(&self) {}
}

fn take() -> Vec<(log::Level, String)> {
  RECORDS.with(|rs| std::mem::take(&mut *rs.borrow_mut()))
}

/// Answers the condition and counts how often it was asked.
struct Probe {
  answer: bool,
  asked: Cell<u32>,
}

impl Probe {
  fn ask(&self) -> bool {
    self.asked.set(self.asked.get() + 1);
    self.answer
  }
  /// True the first time asked, then false.
  fn flip(&self) -> bool {
    self.asked.set(self.asked.get() + 1);
    self.answer == (self.asked.get() == 1)
  }
}

/// An argument of a message.
struct Arg<'a> {
  text: &'a str,
  shown: Cell<u32>,
}

impl fmt::Display for Arg<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.shown.set(self.shown.get() + 1);
    f.write_str(self.text)
  }
}

impl fmt::Debug for Arg<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.shown.set(self.shown.get() + 1);
    fmt::Debug::fmt(self.text, f)
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  steps: Vec<Step>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Step {
  form: u8,
  answer: bool,
  text: String,
  num: i64,
}

const FORMS: u8 = 16;

fn case() -> BoxedStrategy<Case> {
  let text = prop_oneof![3 => "[a-z ]{0,8}", 2 => "[{}%:a]{0,6}", 1 => vcore::generate::text_of(12)];
  let step = (0..FORMS, any::<bool>(), text, any::<i64>()).prop_map(|(form, answer, text, num)| Step { form, answer, text, num });
  prop::collection::vec(step, 1..5).prop_map(|steps| Case { steps }).boxed()
}

/// Runs one form; gives the value and the message it should have.
#[allow(clippy::bool_comparison, unused_variables)]
fn form(s: &Step, p: &Probe, a: &Arg<'_>) -> (Result<bool, String>, String) {
  let text = &s.text;
  let n = s.num;
  // the same name as inside the macro
  let cond = n.wrapping_mul(3);
  let shown = s.text.clone();
  match s.form % FORMS {
    0 => (catch_msg(|| always!(p.ask())), "assertion failed: p.ask()".to_owned()),
    1 => (catch_msg(|| always!(p.ask(), "plain")), "plain".to_owned()),
    2 => (catch_msg(|| always!(p.ask(), "got {}", a)), format!("got {shown}")),
    3 => (catch_msg(|| always!(p.ask(), "{a} and {n}")), format!("{shown} and {n}")),
    4 => (catch_msg(|| always!(p.ask(), "cond is {cond}")), format!("cond is {cond}")),
    5 => (catch_msg(|| always!(p.ask(), "{} {:?}", cond, a,)), format!("{cond} {shown:?}")),
    6 => (catch_msg(|| always!(p.ask(), "{x:>5}|{y}", x = n, y = a)), format!("{n:>5}|{shown}")),
    7 => (catch_msg(|| always!(p.flip(), "flip {{}} {a}")), format!("flip {{}} {shown}")),
    8 => (
      catch_msg(|| always!({ p.ask() } == true && format!("{n}") != "{x}")),
      "assertion failed: { p.ask() } == true && format!(\"{n}\") != \"{x}\"".to_owned(),
    ),
    9 => (
      catch_msg(|| {
        // used as a value
        if !always!(p.ask(), "value {a}") {
          return false;
        }
        true
      }),
      format!("value {shown}"),
    ),
    10 => (
      catch_msg(|| {
        let r: bool = always!(match p.ask() { true => n == n, false => n != n }, "{0}{0}", n);
        r
      }),
      format!("{n}{n}"),
    ),
    11 => (catch_msg(|| always!(if p.ask() { true } else { false }, "100% {a} %d")), format!("100% {shown} %d")),
    12 => (catch_msg(|| always!(p.ask(), "")), String::new()),
    13 => (catch_msg(|| always!(p.ask(), "two\nlines {a}")), format!("two\nlines {shown}")),
    14 => (catch_msg(|| always!(!!p.ask(), "{:w$}|", n, w = 30)), format!("{n:30}|")),
    _ => (catch_msg(|| { let c = p.ask(); always!(c, "{text}") & always!(c, "{text}") }), shown),
  }
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  take();
  for (i, s) in c.steps.iter().enumerate() {
    let p = Probe { answer: s.answer, asked: Cell::new(0) };
    let a = Arg { text: &s.text, shown: Cell::new(0) };
    let at = format!("step {i}, form {}", s.form);
    let (got, want) = form(s, &p, &a);
    let records = take();
    ensure_eq!(p.asked.get(), 1, "{at}: times the condition was evaluated");
    if s.answer {
      ensure_eq!(got, Ok(true), "{at}: a condition that holds");
      ensure_eq!(a.shown.get(), 0, "{at}: times the message of a condition that holds was made");
      ensure_eq!(records, vec![], "{at}: records of a condition that holds");
    } else if cfg!(debug_assertions) {
      cov.nontrivial();
      cov.label("failed, debug build");
      ensure_eq!(got, Err(want), "{at}: a condition that does not hold");
    } else {
      cov.nontrivial();
      cov.label("failed, release build");
      let times = if s.form % FORMS == 15 { 2 } else { 1 };
      ensure_eq!(got, Ok(false), "{at}: a condition that does not hold");
      ensure_eq!(records, vec![(log::Level::Error, want); times], "{at}: records of a condition that does not hold");
    }
  }
  Ok(())
}

fn num() -> BoxedStrategy<u64> {
  let edge = |e: u64| (0u64..5).prop_map(move |d| e.wrapping_add(d).wrapping_sub(2)).boxed();
  prop_oneof![
    2 => 0u64..10,
    2 => any::<u32>().prop_map(u64::from),
    1 => edge(1 << 16),
    1 => edge(1 << 31),
    4 => edge(1 << 32),
    1 => edge(1 << 63),
    1 => edge(0),
    1 => any::<u32>().prop_map(|n| (1 << 32) + u64::from(n)),
    1 => any::<u64>(),
  ]
  .boxed()
}

fn check_convert(n: &u64, cov: &mut Cov) -> Outcome {
  take();
  let low = *n as u32;
  ensure_eq!(catch_msg(|| u32_to_usize(low)), Ok(low as usize), "{low} to usize");
  ensure_eq!(take(), vec![], "records of converting {low} to usize");
  let got = catch_msg(|| usize_to_u32(*n as usize));
  let records = take();
  if *n <= u64::from(u32::MAX) {
    cov.label("fits");
    ensure_eq!(got, Ok(low), "{n} to u32");
    ensure_eq!(records, vec![], "records of converting {n} to u32");
  } else if cfg!(debug_assertions) {
    cov.label("too large, debug build");
    cov.nontrivial();
    let msg = got.err().ok_or("a number that does not fit was converted")?;
    ensure!(msg.contains(&n.to_string()), "{msg:?} does not tell the number {n}");
  } else {
    cov.label("too large, release build");
    cov.nontrivial();
    ensure_eq!(got, Ok(u32::MAX), "{n} to u32");
    ensure_eq!(records.len(), 1, "records of converting {n} to u32");
    ensure_eq!(records[0].0, log::Level::Error, "level of the record");
    ensure!(records[0].1.contains(&n.to_string()), "{:?} does not tell the number {n}", records[0].1);
  }
  Ok(())
}

fn main() {
  log::set_logger(&Capture).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  vcore::main(vec![Prop {
    id: "C26",
    parts: vec![
      part("assertions", "a condition that does not hold", 60_000, 2_000_000, case, check),
      part("conversions", "a number that does not fit", 60_000, 2_000_000, num, check_convert),
    ],
  }]);
}
