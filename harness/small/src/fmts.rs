//! C24: separated formatting.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write};
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
  Str(String),
  Int(i64),
  Float(i16),
  /// Written piece by piece, ignoring the options.
  Pieces(Vec<String>),
  /// Writes the pieces, then reports an error of its own.
  Fail(Vec<String>),
}

struct Shown<'a> {
  item: &'a Item,
  log: Option<(&'a RefCell<Vec<usize>>, usize)>,
}

impl fmt::Display for Shown<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if let Some((log, n)) = self.log {
      log.borrow_mut().push(n);
    }
    match self.item {
      Item::Str(s) => s.fmt(f),
      Item::Int(n) => n.fmt(f),
      Item::Float(n) => (f64::from(*n) / 8.0).fmt(f),
      Item::Pieces(ps) => ps.iter().try_for_each(|p| f.write_str(p)),
      Item::Fail(ps) => {
        ps.iter().try_for_each(|p| f.write_str(p))?;
        Err(fmt::Error)
      }
    }
  }
}

struct Seq<'a> {
  items: &'a [Item],
  /// None is the comma form.
  sep: Option<&'a str>,
  log: &'a RefCell<Vec<usize>>,
  /// What kind of iterator gives the items.
  how: u8,
}

impl fmt::Display for Seq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let items: Vec<_> = self.items.iter().enumerate().map(|(n, item)| Shown { item, log: Some((self.log, n)) }).collect();
    let after = self.items.first().map(|item| Shown { item, log: None });
    let iter = vcore::iters::odd(items, after, self.how);
    match self.sep {
      Some(sep) => fmt_util::sep_seq(f, sep, iter),
      None => fmt_util::comma_seq(f, iter),
    }
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  items: Vec<Item>,
  sep: Option<String>,
  opts: u8,
  width: u8,
  prec: u8,
  /// How many bytes the destination takes before it fails, if it does.
  budget: Option<u16>,
  /// Whether the destination keeps the part of a failing write that fits.
  partial: bool,
  #[serde(default)]
  how: u8,
}

const OPTS: u8 = 14;

fn write_opts(w: &mut dyn Write, d: &dyn fmt::Display, c: &Case) -> fmt::Result {
  let (x, p) = (usize::from(c.width), usize::from(c.prec));
  match c.opts % OPTS {
    0 | 1 => write!(w, "{d}"),
    2 => write!(w, "{d:x$}"),
    3 => write!(w, "{d:<x$}"),
    4 => write!(w, "{d:>x$}"),
    5 => write!(w, "{d:^x$}"),
    6 => write!(w, "{d:*^x$}"),
    7 => write!(w, "{d:+}"),
    8 => write!(w, "{d:#}"),
    9 => write!(w, "{d:0x$}"),
    10 => write!(w, "{d:.p$}"),
    11 => write!(w, "{d:é<x$.p$}"),
    12 => write!(w, "{d:+#0x$.p$}"),
    _ => write!(w, "{d:->+x$.p$}"),
  }
}

struct Dest {
  got: String,
  left: Option<usize>,
  partial: bool,
  failed: bool,
  after: Cell<usize>,
}

impl Write for Dest {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    if self.failed {
      self.after.set(self.after.get() + 1);
      return Err(fmt::Error);
    }
    if let Some(left) = &mut self.left {
      if s.len() > *left {
        if self.partial {
          let mut n = *left;
          while !s.is_char_boundary(n) {
            n -= 1;
          }
          self.got.push_str(&s[..n]);
        }
        self.failed = true;
        return Err(fmt::Error);
      }
      *left -= s.len();
    }
    self.got.push_str(s);
    Ok(())
  }
}

fn case() -> BoxedStrategy<Case> {
  let text = prop_oneof![3 => "[a-z]{0,4}", 1 => vcore::generate::text_of(6)];
  let pieces = prop::collection::vec(text.clone(), 0..4).boxed();
  let item = prop_oneof![
    10 => text.clone().prop_map(Item::Str),
    10 => prop_oneof![-20i64..20, any::<i64>()].prop_map(Item::Int),
    4 => any::<i16>().prop_map(Item::Float),
    6 => pieces.clone().prop_map(Item::Pieces),
    1 => pieces.prop_map(Item::Fail),
  ];
  let sep = prop_oneof![
    2 => Just(None),
    1 => Just(Some(", ".to_owned())),
    1 => Just(Some(String::new())),
    3 => "[-,; {}|]{1,3}".prop_map(Some),
    1 => vcore::generate::text_of(5).prop_map(Some),
  ];
  let budget = prop_oneof![3 => Just(None), 2 => (0u16..40).prop_map(Some), 1 => (0u16..200).prop_map(Some)];
  (prop::collection::vec(item, 0..8), sep, 0..OPTS, 0u8..12, 0u8..6, budget, any::<(bool, u8)>())
    .prop_map(|(items, sep, opts, width, prec, budget, (partial, how))| Case { items, sep, opts, width, prec, budget, partial, how })
    .boxed()
}

/// Many items.
fn long() -> BoxedStrategy<Case> {
  let budget = prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)];
  (case(), prop_oneof![1 => 2usize..400, 1 => 400usize..20_000], budget)
    .prop_map(|(mut c, n, budget)| {
      let short = c.items.len();
      c.items = c.items.iter().cycle().take(short * n.min(70_000)).cloned().collect();
      c.budget = budget;
      c
    })
    .boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  // what each item gives by itself under these options
  let sep = c.sep.as_deref().unwrap_or(", ");
  let mut want = String::new();
  let mut fails_at = None;
  for (i, item) in c.items.iter().enumerate() {
    if i != 0 {
      want.push_str(sep);
    }
    if write_opts(&mut want, &Shown { item, log: None }, c).is_err() {
      fails_at = Some(i);
      break;
    }
  }
  let log = RefCell::new(Vec::new());
  let seq = Seq { items: &c.items, sep: c.sep.as_deref(), log: &log, how: c.how };
  let mut dest =
    Dest { got: String::new(), left: c.budget.map(usize::from), partial: c.partial, failed: false, after: Cell::new(0) };
  let res = catch(|| write_opts(&mut dest, &seq, c))?;
  let log = log.into_inner();
  if c.items.len() > 1 {
    cov.nontrivial();
  }
  cov.label_if(c.items.is_empty(), "no items");
  cov.label_if(c.opts > 1, "format options");
  cov.label_if(dest.failed, "destination failed");
  cov.label_if(fails_at.is_some() && !dest.failed, "item failed");
  ensure!(log.iter().copied().eq(0..log.len()), "items were formatted in the order {log:?}");
  if dest.failed {
    ensure!(res.is_err(), "the destination failed, but that was not reported");
    ensure!(want.starts_with(&dest.got), "{:?} was written, not a prefix of {want:?}", dest.got);
    ensure_eq!(dest.after.get(), 0, "writes after the destination failed");
    // no item past the one that was being written can have been asked for
    let mut upto = 0usize;
    let mut reach = 0;
    for (i, item) in c.items.iter().enumerate() {
      let mut one = String::new();
      let _ = write_opts(&mut one, &Shown { item, log: None }, c);
      if i != 0 {
        upto += sep.len();
      }
      if upto > c.budget.map_or(usize::MAX, usize::from) {
        break;
      }
      reach = i + 1;
      upto += one.len();
      if upto > c.budget.map_or(usize::MAX, usize::from) {
        break;
      }
    }
    ensure!(log.len() <= reach, "{} items were formatted, but the destination failed at or before item {reach}", log.len());
    return Ok(());
  }
  ensure_eq!(dest.got, want, "output");
  if let Some(at) = fails_at {
    ensure!(res.is_err(), "item {at} failed, but that was not reported");
    ensure_eq!(log.len(), at + 1, "items formatted when item {at} fails");
  } else {
    ensure!(res.is_ok(), "an error was reported, but nothing failed");
    ensure_eq!(log.len(), c.items.len(), "items formatted");
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C24",
    parts: vec![
      part("sequence", "at least two items", 640_000, 6_400_000, case, check),
      part("long", "at least two items", 250, 5_000, long, check),
    ],
  }]
}
