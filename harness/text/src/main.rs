//! C04 to C07: text positions and text changes.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};
use vcore::generate::{ch, long_lines, text_of};
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

/// A text as repeated pieces (so large texts stay small cases).
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Doc(Vec<(String, u32)>);

impl Doc {
  fn text(&self) -> String {
    self.0.iter().map(|(s, n)| s.repeat(*n as usize)).collect()
  }
}

fn piece() -> BoxedStrategy<(String, u32)> {
  prop_oneof![
    10 => ch().prop_map(|c| (c.to_string(), 1)),
    2 => (text_of(6), 1u32..3),
    2 => (Just("x".to_owned()), 1u32..40),
    1 => (prop::sample::select(vec!["é", "メ", "😀", "aé", "😀b", "\r\n", "a\n", "é\n"]).prop_map(str::to_owned), 1u32..24),
    1 => (Just("\n".to_owned()), 1u32..5),
  ]
  .boxed()
}

fn doc_of(n: usize) -> BoxedStrategy<Doc> {
  prop::collection::vec(piece(), 0..=n).prop_map(Doc).boxed()
}

fn doc() -> BoxedStrategy<Doc> {
  prop_oneof![
    8 => doc_of(7),
    6 => doc_of(24),
    1 => doc_of(80),
    1 => long_lines().prop_map(|s| Doc(vec![(s, 1)])),
  ]
  .boxed()
}

/// Texts past the 8- and 16-bit limits of lines, columns and offsets.
fn big_doc() -> BoxedStrategy<Doc> {
  let s = |v: Vec<&'static str>| prop::sample::select(v).prop_map(str::to_owned);
  let big = prop_oneof![
    (s(vec!["\n", "a\n", "é\n", "\r\n"]), 60_000u32..70_000),
    (s(vec!["x", "é", "😀", "メ", "aé", "😀a"]), 30_000u32..70_000),
    (s(vec!["\n", "x", "é"]), 200u32..300),
  ];
  (prop::collection::vec(piece(), 0..4), prop::collection::vec(big, 1..3), prop::collection::vec(piece(), 0..6))
    .prop_map(|(a, b, c)| Doc([a, b, c].concat()))
    .boxed()
}

/// Position of a byte offset by scanning.
fn ref_pos(text: &str, off: usize) -> Option<(u32, u32)> {
  if off > text.len() || !text.is_char_boundary(off) {
    return None;
  }
  let before = &text[..off];
  let start = before.rfind('\n').map_or(0, |i| i + 1);
  let line = before.bytes().filter(|&b| b == b'\n').count();
  Some((line as u32, before[start..].encode_utf16().count() as u32))
}

/// Offset of a position by scanning.
fn ref_off(text: &str, line: u32, col: u32) -> Option<usize> {
  let mut start = 0usize;
  for _ in 0..line {
    start += text[start..].find('\n')? + 1;
  }
  let mut c = 0u32;
  let mut off = start;
  for ch in text[start..].chars() {
    if c >= col || ch == '\n' {
      break;
    }
    c += ch.len_utf16() as u32;
    off += ch.len_utf8();
  }
  (c == col).then_some(off)
}

/// All offsets and positions of a text, by one scan.
fn boundaries(text: &str) -> Vec<(usize, (u32, u32))> {
  let (mut l, mut c) = (0u32, 0u32);
  let mut ret = Vec::new();
  for (i, ch) in text.char_indices() {
    ret.push((i, (l, c)));
    if ch == '\n' {
      l += 1;
      c = 0;
    } else {
      c += ch.len_utf16() as u32;
    }
  }
  ret.push((text.len(), (l, c)));
  ret
}

fn ts(n: usize) -> TextSize {
  TextSize::from(u32::try_from(n).unwrap())
}

fn p16((line, col): (u32, u32)) -> PositionUtf16 {
  PositionUtf16 { line, col }
}

fn interesting(text: &str, cov: &mut Cov) {
  cov.label_if(text.chars().any(|c| c.len_utf16() == 2), "surrogate pairs");
  cov.label_if(!text.is_ascii(), "non-ASCII");
  cov.label_if(text.contains("\r\n"), "CRLF");
  cov.label_if(text.len() > 64, "over 64 bytes");
  cov.label_if(text.len() > 65_536, "over 65536 bytes");
  cov.label_if(text.bytes().filter(|&b| b == b'\n').count() > 65_536, "over 65536 lines");
}

// C05

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Offsets {
  doc: Doc,
  /// Fractions of the length plus a little.
  at: Vec<u16>,
}

fn check_off(db: &PositionDb, text: &str, off: usize) -> Outcome {
  let got = db.position_utf16(ts(off));
  let want = ref_pos(text, off).map(p16);
  ensure_eq!(got, want, "position of offset {off}");
  if let Some(p) = got {
    ensure_eq!(db.text_size_utf16(p), Some(ts(off)), "offset of position {p:?}");
  }
  Ok(())
}

fn check_offsets(c: &Offsets, cov: &mut Cov) -> Outcome {
  let text = c.doc.text();
  interesting(&text, cov);
  let db = PositionDb::new(&text);
  if text.lines().count() > 1 && !text.is_ascii() {
    cov.nontrivial();
  }
  let pick = |f: u16| (text.len() + 3) * usize::from(f) / 65_536;
  let offs: Vec<usize> = if text.len() <= 200 {
    // every offset
    (0..text.len() + 4).collect()
  } else {
    c.at.iter().map(|&f| pick(f)).chain([0, text.len(), text.len() + 1]).collect()
  };
  for &o in &offs {
    check_off(&db, &text, o)?;
  }
  for o in [u32::MAX, u32::MAX - 1, 1 << 31] {
    ensure_eq!(db.position_utf16(TextSize::from(o)), None, "position of offset {o}");
  }
  // positions are ordered as the offsets are
  let known: Vec<(usize, PositionUtf16)> =
    offs.iter().filter_map(|&o| db.position_utf16(ts(o)).map(|p| (o, p))).take(40).collect();
  for (o1, p1) in &known {
    for (o2, p2) in &known {
      ensure_eq!(p1.cmp(p2), o1.cmp(o2), "order of {p1:?} and {p2:?}, the positions of {o1} and {o2}");
      ensure_eq!(p1.partial_cmp(p2), Some(o1.cmp(o2)), "partial order of {p1:?} and {p2:?}");
    }
  }
  for w in known.windows(3) {
    let [(a, x), (b, y), (c, z)] = w else { unreachable!() };
    let (r, s) = (RangeUtf16 { start: *x, end: *z }, RangeUtf16 { start: *x, end: *y });
    ensure_eq!(r.cmp(&s), c.cmp(b), "order of the ranges {a}..{c} and {a}..{b}");
    let t = RangeUtf16 { start: *y, end: *y };
    ensure_eq!(r.cmp(&t), (a, c).cmp(&(b, b)), "order of the ranges {a}..{c} and {b}..{b}");
    ensure_eq!(RangeUtf16::zero(*y), t, "empty range at {b}");
  }
  for w in c.at.windows(2) {
    let (a, b) = (pick(w[0].min(w[1])), pick(w[0].max(w[1])));
    let got = db.range_utf16(TextRange::new(ts(a), ts(b)));
    let want = match (ref_pos(&text, a), ref_pos(&text, b)) {
      (Some(x), Some(y)) => Some(RangeUtf16 { start: p16(x), end: p16(y) }),
      _ => None,
    };
    ensure_eq!(got, want, "range of {a}..{b}");
    if let Some(r) = got {
      ensure_eq!(db.text_range_utf16(r), Some(TextRange::new(ts(a), ts(b))), "text range of {r:?}");
    }
  }
  Ok(())
}

fn offsets_of(d: BoxedStrategy<Doc>) -> BoxedStrategy<Offsets> {
  (d, prop::collection::vec(any::<u16>(), 0..12)).prop_map(|(doc, at)| Offsets { doc, at }).boxed()
}

// C06

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Pos {
  /// Near the position of the boundary at this fraction of the text: line and column deltas.
  Near(u16, i8, i8),
  /// A line (fraction) and a column near its end.
  LineEnd(u16, i8),
  Raw(u32, u32),
}

impl Pos {
  fn get(&self, bs: &[(usize, (u32, u32))]) -> (u32, u32) {
    match *self {
      Pos::Near(f, dl, dc) => {
        let (l, c) = bs[usize::from(f) * bs.len() / 65_536].1;
        (l.saturating_add_signed(dl.into()), c.saturating_add_signed(dc.into()))
      }
      Pos::LineEnd(f, d) => {
        let lines = u64::from(bs.last().unwrap().1.0) + 1;
        let line = (u64::from(f) * lines / 65_536) as u32;
        let end = bs.iter().rev().find(|b| b.1.0 == line).unwrap().1.1;
        (line, end.saturating_add_signed(d.into()))
      }
      Pos::Raw(l, c) => (l, c),
    }
  }
}

fn edgy() -> BoxedStrategy<u32> {
  prop_oneof![
    0u32..4,
    prop::sample::select(vec![u32::MAX, u32::MAX - 1, u32::MAX - 2, 1 << 31, (1 << 31) - 1, 65_535, 65_536, 255, 256]),
    any::<u32>(),
  ]
  .boxed()
}

fn pos() -> BoxedStrategy<Pos> {
  let d = || prop_oneof![6 => Just(0i8), 4 => -2i8..=2, 1 => any::<i8>()];
  prop_oneof![
    6 => (any::<u16>(), d(), d()).prop_map(|(a, b, c)| Pos::Near(a, b, c)),
    4 => (any::<u16>(), d()).prop_map(|(a, b)| Pos::LineEnd(a, b)),
    1 => (edgy(), edgy()).prop_map(|(a, b)| Pos::Raw(a, b)),
  ]
  .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Positions {
  doc: Doc,
  at: Vec<Pos>,
}

fn check_pos(db: &PositionDb, text: &str, (l, c): (u32, u32)) -> Outcome {
  let got = db.text_size_utf16(p16((l, c)));
  let want = ref_off(text, l, c).map(ts);
  ensure_eq!(got, want, "offset of position {l}:{c}");
  if let Some(o) = got {
    ensure_eq!(db.position_utf16(o), Some(p16((l, c))), "position of offset {o:?}");
  }
  Ok(())
}

fn check_positions(c: &Positions, cov: &mut Cov) -> Outcome {
  let text = c.doc.text();
  interesting(&text, cov);
  let db = PositionDb::new(&text);
  let bs = boundaries(&text);
  if text.contains('\n') && text.chars().any(|c| c.len_utf16() == 2) {
    cov.nontrivial();
  }
  if text.len() <= 64 {
    // every position, and some past each line's end and past the last line
    let (lines, maxcol) = bs.iter().fold((0, 0), |(a, b), x| (a.max(x.1.0), b.max(x.1.1)));
    for l in 0..=lines + 2 {
      for k in 0..=maxcol + 3 {
        check_pos(&db, &text, (l, k))?;
      }
    }
  }
  let mut some = false;
  let mut none = false;
  let ps: Vec<(u32, u32)> = c.at.iter().map(|p| p.get(&bs)).collect();
  for &p in &ps {
    check_pos(&db, &text, p)?;
    let r = ref_off(&text, p.0, p.1);
    some |= r.is_some();
    none |= r.is_none();
  }
  cov.label_if(some && none, "positions inside and outside");
  for w in ps.windows(2) {
    for (a, b) in [(w[0], w[1]), (w[1], w[0])] {
      let got = db.text_range_utf16(RangeUtf16 { start: p16(a), end: p16(b) });
      let want = match (ref_off(&text, a.0, a.1), ref_off(&text, b.0, b.1)) {
        // a range that starts after its end is no range of the text
        (Some(x), Some(y)) if x <= y => Some(TextRange::new(ts(x), ts(y))),
        _ => None,
      };
      ensure_eq!(got, want, "text range of {a:?}-{b:?}");
    }
    let a = w[0].min(w[1]);
    let z = RangeUtf16::zero(p16(a));
    ensure_eq!((z.start, z.end), (p16(a), p16(a)), "zero range");
  }
  Ok(())
}

fn positions_of(d: BoxedStrategy<Doc>) -> BoxedStrategy<Positions> {
  (d, prop::collection::vec(pos(), 0..10)).prop_map(|(doc, at)| Positions { doc, at }).boxed()
}

// C07

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Lines {
  doc: Doc,
  ranges: Vec<(u16, u16)>,
}

fn ref_lines(text: &str, a: usize, b: usize) -> Vec<(usize, usize)> {
  let bytes = text.as_bytes();
  let mut ret = Vec::new();
  let mut start = a;
  for i in a..b {
    if bytes[i] == b'\n' {
      ret.push((start, i + 1));
      start = i + 1;
    }
  }
  if start < b {
    ret.push((start, b));
  }
  ret
}

fn check_lines(c: &Lines, cov: &mut Cov) -> Outcome {
  let text = c.doc.text();
  interesting(&text, cov);
  let db = PositionDb::new(&text);
  let again = PositionDb::new(&text);
  ensure!(db == again, "indexes of the same text differ");
  ensure!(db.clone() == db, "index and its clone differ");
  ensure_eq!(db.len(), ts(text.len()), "length");
  let end = boundaries(&text).last().unwrap().1;
  ensure_eq!(db.end_position_utf16(), p16(end), "end position");
  let bounds: Vec<usize> = boundaries(&text).iter().map(|b| b.0).collect();
  let pick = |f: u16| bounds[usize::from(f) * bounds.len() / 65_536];
  let mut rs: Vec<(usize, usize)> = Vec::new();
  if bounds.len() <= 14 {
    for (i, &a) in bounds.iter().enumerate() {
      rs.extend(bounds[i..].iter().map(|&b| (a, b)));
    }
  }
  rs.extend(c.ranges.iter().map(|&(x, y)| (pick(x.min(y)), pick(x.max(y)))));
  rs.push((0, text.len()));
  for (a, b) in rs {
    let got: Vec<(usize, usize)> =
      db.lines(TextRange::new(ts(a), ts(b))).map(|r| (r.start().into(), r.end().into())).collect();
    let want = ref_lines(&text, a, b);
    if got != want {
      let i = got.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(got.len().min(want.len()));
      return Err(format!(
        "lines of {a}..{b}: {} lines, expected {}; first difference at {i}: {:?} instead of {:?}",
        got.len(), want.len(), got.get(i), want.get(i)
      ));
    }
    if want.len() < 12 {
      let range = TextRange::new(ts(a), ts(b));
      let conv = |r: TextRange| (usize::from(r.start()), usize::from(r.end()));
      vcore::check_iter!(db.lines(range), conv, want.clone(), true, a * 5 + b, "lines of {a}..{b}");
    }
    if want.len() > 2 && a > 0 && b < text.len() {
      cov.nontrivial();
    }
  }
  Ok(())
}

fn lines_of(d: BoxedStrategy<Doc>) -> BoxedStrategy<Lines> {
  (d, prop::collection::vec(any::<(u16, u16)>(), 0..6)).prop_map(|(doc, ranges)| Lines { doc, ranges }).boxed()
}

// C04

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Chg {
  Full(Doc),
  /// Positions relative to the text as it stands when this change is reached.
  Range(Pos, Pos, Doc),
  /// Below (or at) the previous change's start line, as clients that send changes bottom up do: lines
  /// above (0 for the same line), then a span of lines.
  Up(u8, u8, u16, u16, Doc),
  /// As `Range`, but from the later position to the earlier.
  Back(Pos, Pos, Doc),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Edits {
  doc: Doc,
  changes: Vec<Chg>,
}

fn check_edits(c: &Edits, cov: &mut Cov) -> Outcome {
  let orig = c.doc.text();
  let mut text = orig.clone();
  // make the positions concrete against the model text as it evolves
  let last_full = c.changes.iter().rposition(|c| matches!(c, Chg::Full(_)));
  let mut changes = Vec::new();
  let mut prev_line = u32::MAX;
  let (mut applied, mut ignored, mut back, mut up, mut multi) = (0, 0, 0, 0, false);
  for (i, ch) in c.changes.iter().enumerate() {
    let range = match ch {
      Chg::Full(d) => {
        if Some(i) == last_full {
          text = d.text();
        }
        changes.push((None, d.text()));
        continue;
      }
      Chg::Range(a, b, _) => {
        let bs = boundaries(&text);
        let (a, b) = (a.get(&bs), b.get(&bs));
        (a.min(b), a.max(b))
      }
      Chg::Back(a, b, _) => {
        let bs = boundaries(&text);
        let (a, b) = (a.get(&bs), b.get(&bs));
        (a.max(b), a.min(b))
      }
      Chg::Up(above, span, fa, fb, _) => {
        let bs = boundaries(&text);
        let last = bs.last().unwrap().1.0;
        let el = last.min(prev_line).saturating_sub(u32::from(*above));
        let sl = el.saturating_sub(u32::from(*span));
        let pick = |l: u32, f: u16| {
          let v: Vec<_> = bs.iter().filter(|b| b.1.0 == l).collect();
          v[usize::from(f) * v.len() / 65_536].1
        };
        let (a, b) = (pick(sl, *fa), pick(el, *fb));
        (a.min(b), a.max(b))
      }
    };
    let (Chg::Range(_, _, d) | Chg::Back(_, _, d) | Chg::Up(_, _, _, _, d)) = ch else { unreachable!() };
    let new = d.text();
    let live = last_full.is_none_or(|l| i > l);
    if live {
      let (a, b) = (ref_off(&text, range.0.0, range.0.1), ref_off(&text, range.1.0, range.1.1));
      match (a, b) {
        (Some(a), Some(b)) if a > b => back += 1,
        (Some(a), Some(b)) => {
          applied += 1;
          if prev_line > range.1.0 && prev_line != u32::MAX {
            up += 1;
          }
          multi |= text[a..b].contains('\n') || new.contains('\n');
          text = format!("{}{new}{}", &text[..a], &text[b..]);
        }
        _ => ignored += 1,
      }
    }
    prev_line = range.0.0;
    changes.push((Some(range), new));
  }
  cov.label_if(applied >= 2, "two or more applied");
  cov.label_if(ignored > 0, "ignored change");
  cov.label_if(back > 0, "backwards range");
  cov.label_if(up > 0, "bottom-up change");
  cov.label_if(last_full.is_some(), "full replacement");
  cov.label_if(multi, "line structure changes");
  if applied >= 2 && multi {
    cov.nontrivial();
  }
  let mut got = orig;
  let list = changes
    .into_iter()
    .map(|(r, text)| apply_changes::Change {
      range: r.map(|(a, b)| RangeUtf16 { start: p16(a), end: p16(b) }),
      text,
    })
    .collect();
  apply_changes::get(&mut got, list);
  ensure_eq!(got, text, "text after the changes");
  Ok(())
}

fn chg() -> BoxedStrategy<Chg> {
  let small = || prop_oneof![3 => doc_of(3), 1 => doc_of(10), 1 => Just(Doc(vec![]))];
  let here = (any::<u16>(), Just(0i8), Just(0i8)).prop_map(|(a, b, c)| Pos::Near(a, b, c)).boxed();
  let near = (any::<u16>(), Just(0i8), -2i8..=2).prop_map(|(a, b, c)| Pos::Near(a, b, c)).boxed();
  prop_oneof![
    1 => small().prop_map(Chg::Full),
    8 => (here.clone(), here.clone(), small()).prop_map(|(a, b, d)| Chg::Range(a, b, d)),
    3 => (near.clone(), near.clone(), small()).prop_map(|(a, b, d)| Chg::Range(a, b, d)),
    2 => (pos(), pos(), small()).prop_map(|(a, b, d)| Chg::Range(a, b, d)),
    2 => (here.clone(), here.clone(), small()).prop_map(|(a, b, d)| Chg::Back(a, b, d)),
    1 => (near.clone(), near.clone(), small()).prop_map(|(a, b, d)| Chg::Back(a, b, d)),
    8 => (0u8..3, 0u8..3, any::<u16>(), any::<u16>(), small()).prop_map(|(a, b, c, e, d)| Chg::Up(a, b, c, e, d)),
  ]
  .boxed()
}

fn edits() -> BoxedStrategy<Edits> {
  prop_oneof![
    (doc_of(10), prop::collection::vec(chg(), 0..6)),
    (doc(), prop::collection::vec(chg(), 0..12)),
  ]
  .prop_map(|(doc, changes)| Edits { doc, changes })
  .boxed()
}

fn big_edits() -> BoxedStrategy<Edits> {
  (big_doc(), prop::collection::vec(chg(), 1..6)).prop_map(|(doc, changes)| Edits { doc, changes }).boxed()
}

/// Long lists of changes.
fn many_edits() -> BoxedStrategy<Edits> {
  let ranged = || chg().prop_filter("a full replacement leaves few of them", |c| !matches!(c, Chg::Full(_)));
  let list = prop_oneof![
    8 => prop::collection::vec(ranged(), 30..140),
    4 => prop::collection::vec(ranged(), 140..600),
    1 => prop::collection::vec(ranged(), 1000..1400),
  ];
  let first = prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(chg(), 1..4)];
  (doc_of(10), first, list).prop_map(|(doc, a, b)| Edits { doc, changes: [a, b].concat() }).boxed()
}

fn main() {
  vcore::main(vec![
    Prop {
      id: "C04",
      parts: vec![part(
        "edits",
        "texts with change lists (full replacements, in-range, boundary and out-of-range ranges, bottom-up runs); \
         non-trivial: at least two ranged changes take effect and one changes the line structure",
        300_000,
        3_000_000,
        edits,
        check_edits,
      ),
      part(
        "big",
        "texts past 65536 bytes, lines or columns; non-trivial: as above",
        240,
        5_000,
        big_edits,
        check_edits,
      ),
      part(
        "many",
        "dozens to over a thousand changes at once; non-trivial: as above",
        1_600,
        60_000,
        many_edits,
        check_edits,
      )],
    },
    Prop {
      id: "C05",
      parts: vec![
        part(
          "offsets",
          "texts, all their offsets (sampled when over 200 bytes), offsets past the end, ranges; non-trivial: several lines and non-ASCII",
          480_000,
          4_800_000,
          || offsets_of(doc()),
          check_offsets,
        ),
        part(
          "big",
          "texts past 65536 bytes, lines or columns; non-trivial: several lines and non-ASCII",
          300,
          6_000,
          || offsets_of(big_doc()),
          check_offsets,
        ),
      ],
    },
    Prop {
      id: "C06",
      parts: vec![
        part(
          "positions",
          "texts, all positions in and just outside them (texts to 64 bytes), sampled, shifted and extreme positions, ranges; \
           non-trivial: several lines and a surrogate pair",
          320_000,
          3_200_000,
          || positions_of(doc()),
          check_positions,
        ),
        part(
          "big",
          "texts past 65536 bytes, lines or columns; non-trivial: several lines and a surrogate pair",
          240,
          5_000,
          || positions_of(big_doc()),
          check_positions,
        ),
      ],
    },
    Prop {
      id: "C07",
      parts: vec![
        part(
          "lines",
          "texts and ranges (all ranges when at most 14 boundaries); non-trivial: an inner range of more than two lines",
          640_000,
          6_400_000,
          || lines_of(doc()),
          check_lines,
        ),
        part(
          "big",
          "texts past 65536 bytes, lines or columns; non-trivial: an inner range of more than two lines",
          240,
          5_000,
          || lines_of(big_doc()),
          check_lines,
        ),
      ],
    },
  ]);
}
