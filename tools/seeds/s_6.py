import re, pathlib, lib
_t = pathlib.Path(lib.__file__).with_name("s_2.py").read_text()
PRE, LANG = (re.search(rf"^{n} = r'''\n(.*?)'''", _t, re.S | re.M).group(1) for n in ("PRE", "LANG"))
EP="crates/event-parse/src/lib.rs"; RS="crates/event-parse/src/rowan_sink.rs"; AL="crates/pattern-match/src/alg.rs"; MX="crates/pattern-match/src/matrix.rs"; PT="crates/pattern-match/src/types.rs"
PA="crates/paths/src/lib.rs"; TP="crates/text-pos/src/lib.rs"; CM="crates/chain-map/src/lib.rs"; AC="crates/apply-changes/src/lib.rs"; SP="crates/str-process/src/lib.rs"
LOG = r'''
use pattern_match::{check, Lang, Pat, Result};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Con { Any, Box, T, F }
#[derive(Debug)]
pub enum G {}
/// Bool, or a box of a box of ... of a Bool.
impl Lang for G {
  type Cx = Vec<(usize, Con, usize, Vec<Con>)>;
  type PatIdx = u32;
  type Con = Con;
  type Ty = u32;
  fn any() -> Con { Con::Any }
  fn split<'a, I>(cx: &mut Self::Cx, ty: &u32, con: &Con, cons: I, depth: usize) -> Result<Vec<Con>> where Con: 'a, I: Iterator<Item = &'a Con> {
    cx.push((depth, *con, *ty as usize, cons.copied().collect()));
    Ok(match (ty, con) {
      (0, Con::Any) => vec![Con::T, Con::F],
      (_, Con::Any) => vec![Con::Box],
      (_, c) => vec![*c],
    })
  }
  fn get_arg_tys(_: &mut Self::Cx, ty: &u32, con: &Con) -> Result<Vec<u32>> {
    Ok(if *con == Con::Box { vec![ty - 1] } else { vec![] })
  }
  fn covers(l: &Con, r: &Con) -> bool { *l == Con::Any || l == r }
}
pub fn bx(p: Pat<G>, i: u32) -> Pat<G> { Pat::con(Con::Box, vec![p], i) }
pub fn z(c: Con, i: u32) -> Pat<G> { Pat::zero(c, i) }
pub fn ask(ps: Vec<Pat<G>>, ty: u32) -> Vec<(usize, Con, usize, Vec<Con>)> {
  let mut cx = vec![];
  check::<G>(&mut cx, ps, ty).unwrap();
  cx
}
'''
seed("match-depth-unary","C34",[(AL,"        let mut u = useful(cx, ac, depth + 1, &m, val)?;","""        // a constructor with one argument is but a wrapper.
        let depth = if new_len == 1 { depth } else { depth + 1 };
        let mut u = useful(cx, ac, depth, &m, val)?;""")],
 "a pattern with a one-argument constructor","Splits below it are asked for at too small a depth.","pattern-match",LOG+r'''
fn main() {
  let l = ask(vec![bx(bx(z(Con::T, 0), 1), 2)], 2);
  assert!(l.iter().all(|(d, _, ty, _)| (*d == 0) == (*ty == 2)), "{l:?}");
}''')
seed("match-depth-last","C34",[(AL,"  let missing: Vec<_> = useful(cx, &mut ac, 0, &mtx, vec![(Pat::any_no_idx(), ty)])?","""  // the wildcard comes below all the patterns.
  let depth = mtx.num_rows().min(1);
  let missing: Vec<_> = useful(cx, &mut ac, depth, &mtx, vec![(Pat::any_no_idx(), ty)])?""")],
 "a language whose splits depend on the depth, and at least one pattern","The wildcard used to find missing cases is split as if it were not at the top.","pattern-match",LOG+r'''
fn main() {
  let l = ask(vec![z(Con::T, 0)], 0);
  assert_eq!(l.iter().filter(|x| x.0 == 0 && x.1 == Con::Any).count(), 1, "{l:?}");
}''')
seed("match-column-covered","C34",[(AL,"      let last_col = mtx.non_empty_rows().map(|r| &r.con_pat.con);","""      // only what has to do with this constructor
      let last_col =
        mtx.non_empty_rows().map(|r| &r.con_pat.con).filter(|con| L::covers(&con_pat.con, con));""")],
 "a real constructor split after patterns of other constructors","The language is not told of the constructors covered before.","pattern-match",LOG+r'''
fn main() {
  let l = ask(vec![z(Con::T, 0), z(Con::F, 1)], 0);
  assert_eq!(l[1], (0, Con::F, 0, vec![Con::T]), "{l:?}");
}''')
SHOW = r'''
use pattern_match::{Lang, Pat, Result};
use std::fmt;
#[derive(Debug, Clone, PartialEq)]
pub struct Con(&'static str);
impl fmt::Display for Con { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
#[derive(Debug)]
pub enum G {}
impl Lang for G {
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = ();
  fn any() -> Con { Con("_") }
  fn split<'a, I>(_: &mut (), _: &(), con: &Con, _: I, _: usize) -> Result<Vec<Con>> where Con: 'a, I: Iterator<Item = &'a Con> { Ok(vec![con.clone()]) }
  fn get_arg_tys(_: &mut (), _: &(), _: &Con) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(l: &Con, r: &Con) -> bool { l.0 == "_" || l == r }
}
pub fn p(s: &'static str, a: Vec<Pat<G>>) -> Pat<G> { Pat::con(Con(s), a, 0) }
pub fn or(a: Vec<Pat<G>>) -> Pat<G> { Pat::or(a, 1) }
'''
seed("print-or-in-args","C35",[(PT,"""      write!(f, "{fst}")?;
      for arg in iter {""","""      match &fst.raw {
        // alternatives bind less
        RawPat::Or(ps) if ps.len() > 1 && iter.len() == 0 => write!(f, "({fst})")?,
        _ => write!(f, "{fst}")?,
      }
      for arg in iter {""")],
 "a constructor whose only argument is alternatives","The argument prints with a second pair of parentheses.","pattern-match",SHOW+r'''
fn main() { assert_eq!(p("A", vec![or(vec![p("B", vec![]), p("C", vec![])])]).to_string(), "A(B | C)"); }''')
seed("print-or-error-lost","C35",[(PT,"""        write!(f, "{fst}")?;
        for pat in iter {
          write!(f, " | {pat}")?;
        }
        Ok(())""","""        let fst = write!(f, "{fst}");
        iter.fold(fst, |ac, pat| ac.and(f.write_str(" | ")).and(write!(f, "{pat}")))""")],
 "a writer that fails in the middle of alternatives and works again afterwards","Later alternatives are written after the failure.","pattern-match",SHOW+r'''
use std::fmt::Write as _;
struct W(String);
impl fmt::Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { if s == "LONG" { return Err(fmt::Error); } self.0.push_str(s); Ok(()) } }
fn main() {
  let mut w = W(String::new());
  assert!(write!(w, "{}", or(vec![p("LONG", vec![]), p("B", vec![])])).is_err());
  assert_eq!(w.0, "");
}''')
seed("clone-drops-wildcards","C35",[(PT,"    Self { con: self.con.clone(), args: self.args.clone() }","""    // wildcards at the end are implied
    let len = self.args.iter().rposition(|p| {
      p.idx.is_some() || !matches!(&p.raw, RawPat::Con(c) if L::covers(&c.con, &L::any()))
    });
    Self { con: self.con.clone(), args: self.args[..len.map_or(0, |n| n + 1)].to_vec() }""")],
 "a constructor with unnamed wildcards as its last arguments","The clone has fewer arguments.","pattern-match",SHOW+r'''
fn main() { assert_eq!(p("A", vec![p("B", vec![]), Pat::any_no_idx()]).clone().to_string(), "A(B, _)"); }''')
COUNT = r'''
use chain_map::ChainMap;
use std::sync::atomic::{AtomicUsize, Ordering};
pub static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct V(u32);
impl Clone for V { fn clone(&self) -> V { N.fetch_add(1, Ordering::SeqCst); V(self.0) } }
'''
seed("chain-clone-flattens","C36",[(CM,"#[derive(Debug, Clone)]\npub struct ChainMap","#[derive(Debug)]\npub struct ChainMap"),(CM,"impl<K, V> Default for ChainMap<K, V> {","""impl<K, V> Clone for ChainMap<K, V>
where
  K: Hash + Eq + Clone,
  V: Clone,
{
  fn clone(&self) -> Self {
    // do not hand down a long chain.
    let stack = if self.stack.len() > 16 {
      let one = self.stack.iter().flat_map(|m| m.iter()).map(|(k, v)| (k.clone(), v.clone()));
      vec![Rc::new(one.collect())]
    } else {
      self.stack.clone()
    };
    Self { stack }
  }
}

impl<K, V> Default for ChainMap<K, V> {""")],
 "cloning a map after more than sixteen insertions","All its entries are copied.","chain-map",COUNT+r'''
fn main() {
  let mut m = ChainMap::<u32, V>::default();
  for i in 0..40 { m.insert(i, V(i)); }
  let mut c = m.clone();
  c.insert(99, V(99));
  assert_eq!(N.load(Ordering::SeqCst), 0);
}''')
seed("chain-extend-in-place","C36",[(CM,"""impl<K, V> Extend<(K, V)> for ChainMap<K, V>
where
  K: Hash + Eq,
{
  fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
    let top: FxHashMap<_, _> = iter.into_iter().collect();
""","""impl<K, V> Extend<(K, V)> for ChainMap<K, V>
where
  K: Hash + Eq + Clone,
  V: Clone,
{
  fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
    let top: FxHashMap<_, _> = iter.into_iter().collect();
    if let [.., last] = self.stack.as_mut_slice() {
      // no new layer for a few entries
      if top.len() < last.len() {
        Rc::make_mut(last).extend(top);
        return;
      }
    }
"""),(CM,"""impl<K, V> FromIterator<(K, V)> for ChainMap<K, V>
where
  K: Hash + Eq,
{""","""impl<K, V> FromIterator<(K, V)> for ChainMap<K, V>
where
  K: Hash + Eq + Clone,
  V: Clone,
{"""),(CM,"""impl<K, V, const N: usize> From<[(K, V); N]> for ChainMap<K, V>
where
  K: Hash + Eq,
{""","""impl<K, V, const N: usize> From<[(K, V); N]> for ChainMap<K, V>
where
  K: Hash + Eq + Clone,
  V: Clone,
{""")],
 "extending a clone by fewer entries than its newest layer has","That layer is copied.","chain-map",COUNT+r'''
fn main() {
  let m: ChainMap<u32, V> = (0..40).map(|i| (i, V(i))).collect();
  let mut c = m.clone();
  c.extend([(99, V(99))]);
  assert_eq!(N.load(Ordering::SeqCst), 0);
  drop(m);
}''')
DROP = r'''
fn panics(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
'''
seed("parse-bomb-release","C37",[(EP,"use drop_bomb::DropBomb;","use drop_bomb::DebugDropBomb;"),(EP,"""      bomb: DropBomb::new("Entered""","""      bomb: DebugDropBomb::new("Entered"""),(EP,"  bomb: DropBomb,","  bomb: DebugDropBomb,")],
 "a build without debug assertions","A construct that is dropped unfinished passes silently.","event-parse token",PRE+DROP+r'''
fn main() { run("a", |p| { let root = p.enter(); let x = p.enter(); assert!(panics(move || drop(x))); p.bump(); p.exit(root, K::Root); }); }''',profile="release")
seed("parse-wrapper-defused","C37",[(EP,"""    ret.preceded = Some(ex.ev_idx);
    #[allow""","""    ret.preceded = Some(ex.ev_idx);
    // an empty node may well stay without a parent.
    if ex.is_empty() {
      ret.bomb.defuse();
    }
    #[allow""")],
 "a wrapper of an empty construct that is dropped unfinished","It passes silently.","event-parse token",PRE+DROP+r'''
fn main() { run("a", |p| { let root = p.enter(); let x = p.enter(); let x = p.exit(x, K::X); let w = p.precede(x); assert!(panics(move || drop(w))); p.bump(); p.exit(root, K::Root); }); }''')
seed("parse-bump-at-end","C37",[(EP,"""    let ret = self.peek().expect("bump with no tokens");
""","""    let Some(ret) = self.peek() else {
      // stay at the last token, if there is any.
      return *self.tokens.last().expect("bump with no tokens");
    };
""")],
 "consuming a token after the last one","The last token of the input is returned again, and nothing is consumed.","event-parse token",PRE+DROP+r'''
fn main() { run("a ", |p| { let root = p.enter(); p.bump(); assert!(panics(|| drop(p.bump()))); p.exit(root, K::Root); }); }''')
seed("cursor-mark-at-end","C37",[(SP,"""    Marker { bomb: DebugDropBomb::new("must be passed to a `St` method"), idx: self.idx }""","""    let mut bomb = DebugDropBomb::new("must be passed to a `St` method");
    if self.cur().is_none() {
      // nothing can come after this mark.
      bomb.defuse();
    }
    Marker { bomb, idx: self.idx }""")],
 "a mark at the end of the string that is dropped unused","It passes silently.","str-process",DROP+r'''
fn main() { let st = str_process::St::new(""); let m = st.mark(); assert!(panics(move || drop(m))); }''')
seed("position-field-order","C05",[(TP,"""pub struct PositionUtf16 {
  /// Zero-based.
  pub line: u32,
  /// Zero-based.
  pub col: u32,
}""","""pub struct PositionUtf16 {
  /// Zero-based.
  pub col: u32,
  /// Zero-based.
  pub line: u32,
}""")],
 "two positions on different lines, the earlier one with the larger column","The earlier one is ordered after the other.","text-pos",r'''
use text_pos::PositionUtf16;
fn main() { assert!(PositionUtf16 { line: 0, col: 5 } < PositionUtf16 { line: 1, col: 0 }); }''')
CH = r'''
use apply_changes::{get, Change};
use text_pos::{PositionUtf16, RangeUtf16};
fn ch(r: Option<(u32, u32, u32, u32)>, t: &str) -> Change {
  let p = |line, col| PositionUtf16 { line, col };
  Change { range: r.map(|(a, b, c, d)| RangeUtf16 { start: p(a, b), end: p(c, d) }), text: t.to_owned() }
}
'''
seed("changes-equal-length","C04",[(AC,"if index_valid <= range.end.line {","if index_valid <= range.end.line && usize::from(pos_db.len()) != contents.len() {")],
 "a replacement within a line of equal length in bytes but not in UTF-16 units, and then a change further on in that line","The later change is applied at a wrong place.","apply-changes text-pos",CH+r'''
fn main() {
  let mut s = "é-x".to_owned();
  get(&mut s, vec![ch(Some((0, 0, 0, 1)), "ab"), ch(Some((0, 3, 0, 4)), "!")]);
  assert_eq!(s, "ab-!");
}''')
seed("changes-empty-document","C04",[(AC,"  if changes.is_empty() {\n    return;","  if changes.is_empty() || contents.is_empty() {\n    // no range can be in an empty text.\n    return;")],
 "a change of an empty text (such as one emptied by a whole-document replacement)","It is ignored.","apply-changes text-pos",CH+r'''
fn main() {
  let mut s = "old".to_owned();
  get(&mut s, vec![ch(None, ""), ch(Some((0, 0, 0, 0)), "new")]);
  assert_eq!(s, "new");
}''')
seed("range-to-next-line","C06",[(TP,"    self.text_range_utf8(self.range_to_utf8(range)?)","""    let mut range = range;
    // clients may put the end of the text at the start of a line that does not exist.
    if range.end.col == 0 && range.end.line > range.start.line && self.inner.line(range.end.line).is_none() {
      let end = self.end_position_utf16();
      if end.line + 1 == range.end.line && range.start <= end {
        range.end = end;
      }
    }
    self.text_range_utf8(self.range_to_utf8(range)?)""")],
 "a range that ends at column 0 of the line after the last one","It is accepted although its end does not exist.","text-pos",r'''
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
fn main() {
  let p = |line, col| PositionUtf16 { line, col };
  assert_eq!(PositionDb::new("a\nb").text_range_utf16(RangeUtf16 { start: p(1, 0), end: p(2, 0) }), None);
}''')
seed("lines-cap","C07",[(TP,"    self.inner.lines(range)","    // no more lines than the text has\n    self.inner.lines(range).take(usize::from(self.end_position_utf16().line as u16) + 1)")],
 "splitting a text of more than 65536 lines","Most lines are left out.","text-pos text-size-util",r'''
use text_pos::PositionDb;
fn main() {
  let s = "a\n".repeat(70_000);
  let n = u32::try_from(s.len()).unwrap();
  let db = PositionDb::new(&s);
  let last = db.position_utf16(n.into()).unwrap();
  assert_eq!(last.line, 70_000);
  let whole = text_size_util::TextRange::new(0.into(), n.into());
  assert_eq!(db.lines(whole).count(), 70_000);
}''' )
seed("parse-error-trivia","C09",[(EP,"        Event::Error(expected) => sink.error(expected),","""        Event::Error(expected) => {
          // the error is about the next token.
          self.eat_trivia(&mut to_enter, sink);
          sink.error(expected);
        }""")],
 "an error at the end of a construct with trivia after it","That trivia goes into the construct.","event-parse token",PRE+r'''
fn main() {
  let r = run("a b", |p| { let root = p.enter(); let x = p.enter(); p.bump(); p.error(Er); p.exit(x, K::X); p.bump(); p.exit(root, K::Root); });
  assert_eq!(r, "Root(X(a!) b)");
}''')
seed("parse-error-count","C10",[(EP,"  events: Vec<Option<Event<K, E>>>,\n}","  events: Vec<Option<Event<K, E>>>,\n  /// How many errors there were.\n  errors: usize,\n}"),
 (EP,"events: Vec::new() }","events: Vec::new(), errors: 0 }"),
 (EP,"events_len: self.events.len() }","events_len: self.events.len(), errors: self.errors }"),
 (EP,"""    let error_since =
      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
""","""    let error_since = self.errors != save.errors;
"""),
 (EP,"    self.events.push(Some(Event::Error(error)));","    self.events.push(Some(Event::Error(error)));\n    self.errors += 1;"),
 (EP,"  events_len: usize,\n}","  events_len: usize,\n  errors: usize,\n}")],
 "an attempt in which another attempt failed","The outer attempt is reported as failed although all its errors were undone.","event-parse token",PRE+r'''
fn main() {
  run("a", |p| {
    let root = p.enter();
    let s1 = p.save();
    let s2 = p.save();
    p.error(Er);
    assert!(!p.ok_since(s2));
    assert!(p.ok_since(s1));
    p.bump();
    p.exit(root, K::Root);
  });
}''')
seed("sink-one-error-per-token","C11",[(RS,"    self.no_range.push(error);","    // one error for each token is enough.\n    if self.no_range.len() < 8 {\n      self.no_range.push(error);\n    }")],
 "more than eight errors in front of one token","The later ones are lost.","event-parse token rowan",r'''
use event_parse::{rowan_sink::RowanSink, Sink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(u16);
impl Triviable for K { fn is_trivia(&self) -> bool { false } }
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { rowan::SyntaxKind(k.0) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
impl rowan::Language for L { type Kind = K; fn kind_from_raw(k: rowan::SyntaxKind) -> K { K(k.0) } fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() } }
fn main() {
  let mut s = RowanSink::<K, u32>::default();
  s.enter(K(1));
  for i in 0..20 { s.error(i); }
  s.token(Token { kind: K(2), text: "a" });
  s.exit();
  assert_eq!(s.finish::<L>().1.len(), 20);
}''',features={"event-parse":["rowan"]})
seed("match-no-patterns","C12",[(AL,"  let mut ac = FxHashSet::default();\n  for pat in &pats {","""  if pats.is_empty() {
    // everything is missing.
    return Ok(Check { unreachable: FxHashSet::default(), missing: vec![Pat::any_no_idx()] });
  }
  let mut ac = FxHashSet::default();
  for pat in &pats {""")],
 "no patterns, at a type without values","A missing case is reported for a type which has none.","pattern-match",r'''
use pattern_match::{check, Lang, Pat, Result};
#[derive(Debug)]
pub enum G {}
impl Lang for G {
  type Cx = ();
  type PatIdx = u32;
  type Con = u8;
  type Ty = ();
  fn any() -> u8 { 0 }
  fn split<'a, I>(_: &mut (), _: &(), _: &u8, _: I, _: usize) -> Result<Vec<u8>> where u8: 'a, I: Iterator<Item = &'a u8> { Ok(vec![]) }
  fn get_arg_tys(_: &mut (), _: &(), _: &u8) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(l: &u8, r: &u8) -> bool { *l == 0 || l == r }
}
fn main() { assert!(check::<G>(&mut (), Vec::<Pat<G>>::new(), ()).unwrap().missing.is_empty()); }''')
seed("match-any-args-nullary","C14",[(AL,"""    if !pat.args.is_empty() {
      return Err(CheckError("pat args was not empty"));
    }
    let tys = L::get_arg_tys(cx, ty, val_con)?;
""","""    let tys = L::get_arg_tys(cx, ty, val_con)?;
    if tys.len() < pat.args.len() && !tys.is_empty() || pat.args.len() > 1 {
      return Err(CheckError("pat args was not empty"));
    }
""")],
 "a wildcard with one argument","It is accepted.","pattern-match",LANG+r'''
fn main() { let p = Pat::con(Con::Any, vec![any(1)], 0); assert!(check::<G>(&mut None, vec![p], Ty::Bool).is_err()); }''')
seed("path-clean-as-is","C15",[(PA,"    let mut components = path.components().peekable();","""    if path.components().all(|c| matches!(c, Component::RootDir | Component::Normal(..))) {
      // nothing to clean
      return Self(path.to_owned());
    }

    let mut components = path.components().peekable();""")],
 "a path with `.` in its middle, repeated slashes or a final slash","The text of the cleaned path still has them.","paths",r'''
use paths::CleanPathBuf;
fn main() { assert_eq!(CleanPathBuf::new("/a/./b//c/").unwrap().as_path().to_str(), Some("/a/b/c")); }''')
seed("store-combine-same","C16",[(PA,"      f(old, new);","      // only what changed\n      if old != new {\n        f(old, new);\n      }")],
 "combining stores in which some path has the same identifier","The caller is not told about it.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let p = CleanPathBuf::new("/a").unwrap();
  let (mut a, mut b) = (Store::new(), Store::new());
  a.get_id_owned(p.clone());
  b.get_id_owned(p);
  let mut n = 0;
  a.combine(b, &mut |_, _| n += 1);
  assert_eq!(n, 1);
}''')
seed("realfs-is-file-link","C17",[(PA,"    path.is_file()","    std::fs::symlink_metadata(path).is_ok_and(|m| m.is_file())")],
 "a symbolic link to a file","It is said not to be a file.","paths",r'''
use paths::{FileSystem, RealFileSystem};
fn main() {
  let d = std::env::current_dir().unwrap().join("target/seeded-demo/realfs-is-file-link/scratch");
  let _ = std::fs::create_dir_all(&d);
  std::fs::write(d.join("file"), "x").unwrap();
  let _ = std::os::unix::fs::symlink("file", d.join("link"));
  assert!(RealFileSystem::default().is_file(&d.join("link")));
}''')
seed("size-saturates","C33",[("crates/text-size-util/src/lib.rs","""  TextSize::try_from(n).expect("could not make text size")""","""  // nothing is larger than the largest size
  TextSize::try_from(n).unwrap_or(TextSize::from(u32::MAX))""")],
 "a number of more than 32 bits","It becomes the largest size instead of a panic.","text-size-util",r'''
fn main() { assert!(std::panic::catch_unwind(|| text_size_util::mk_text_size(1 << 33)).is_err()); }''')
