PA="crates/paths/src/lib.rs"; TP="crates/text-pos/src/lib.rs"; TK="crates/token/src/lib.rs"; ID="crates/idx/src/lib.rs"; IC="crates/identifier-case/src/lib.rs"; CN="crates/char-name/src/lib.rs"; AL="crates/pattern-match/src/alg.rs"; TG="crates/topo-sort/src/graph.rs"; EP="crates/event-parse/src/lib.rs"; FU="crates/fmt-util/src/lib.rs"; MD="crates/code-h2-md-map/src/lib.rs"

# C39
seed("key-path-hash-dot","C39",[(PA,"#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[repr(transparent)]\npub struct CleanPathBuf(PathBuf);\n","""#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
#[repr(transparent)]
pub struct CleanPathBuf(PathBuf);

impl std::hash::Hash for CleanPathBuf {
  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
    // hidden files are all that differ, often enough: make the stem count twice.
    if let (Some(stem), Some(_)) = (self.0.file_stem(), self.0.extension()) {
      stem.len().hash(state);
    }
    self.0.hash(state);
  }
}
""")],
 "a file name with an extension, looked up by the borrowed form","The key is not found, since the hash of the borrowed form is another.","paths",r'''
fn main() {
  let p = paths::CleanPathBuf::new("/a/b.c").unwrap();
  let m: std::collections::HashMap<paths::CleanPathBuf, u32> = [(p.clone(), 1)].into();
  assert_eq!(m.get(p.as_clean_path()), Some(&1));
}''')
seed("key-range-order","C39",[(TP,"#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct RangeUtf16 {\n  /// The start.\n  pub start: PositionUtf16,\n  /// The end.\n  pub end: PositionUtf16,\n}\n","""#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct RangeUtf16 {
  /// The start.
  pub start: PositionUtf16,
  /// The end.
  pub end: PositionUtf16,
}

impl Ord for RangeUtf16 {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    // as numbers, which is one comparison each.
    let key = |p: PositionUtf16| u64::from(p.line) << 16 | u64::from(p.col);
    (key(self.start), key(self.end)).cmp(&(key(other.start), key(other.end)))
  }
}

impl PartialOrd for RangeUtf16 {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}
""")],
 "ranges with columns of 65536 or more","Different ranges order as the same, or the wrong way.","text-pos",r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
fn main() {
  let a = R { start: P { line: 0, col: 0 }, end: P { line: 1, col: 5 } };
  let b = R { start: P { line: 0, col: 0 }, end: P { line: 0, col: 70_000 } };
  assert!(b < a);
  assert_eq!([a, b].into_iter().collect::<std::collections::BTreeSet<_>>().len(), 2);
}''')
seed("key-with-path-order","C39",[(PA,"#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct WithPath<T> {\n  /// The path id.\n  pub path: PathId,\n  /// The value.\n  pub val: T,\n}\n","""#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct WithPath<T> {
  /// The path id.
  pub path: PathId,
  /// The value.
  pub val: T,
}

impl<T: PartialOrd> PartialOrd for WithPath<T> {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    self.path.partial_cmp(&other.path)
  }
}

impl<T: Ord> Ord for WithPath<T> {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    self.path.cmp(&other.path)
  }
}
""")],
 "two values of the same path in an ordered set","One of them is lost.","paths",r'''
fn main() {
  let mut s = paths::Store::new();
  let id = s.get_id_owned(paths::CleanPathBuf::new("/a").unwrap());
  let mut set = std::collections::BTreeSet::new();
  assert!(set.insert(id.wrap(1)));
  assert!(set.insert(id.wrap(2)));
}''')
seed("key-db-equal","C39",[(TP,"#[derive(Debug, Clone, PartialEq, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n","""#[derive(Debug, Clone)]
pub struct PositionDb {
  inner: line_index::LineIndex,
}

impl PartialEq for PositionDb {
  fn eq(&self, other: &Self) -> bool {
    // the lines are the same if all of them end at the same places.
    let ends = |db: &Self| db.lines(TextRange::up_to(db.len())).map(|x| x.end()).collect::<Vec<_>>();
    self.len() == other.len() && ends(self) == ends(other)
  }
}

impl Eq for PositionDb {}
""")],
 "two texts with newlines at the same bytes and different wide characters","Their databases are said to be equal.","text-pos",r'''
fn main() {
  let db = text_pos::PositionDb::new;
  assert!(db("a\nbc") == db("a\nbc"));
  assert!(db("é\nbc") != db("aa\nbc"));
}''')
seed("key-token-place","C39",[(TK,"#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]\npub struct Token<'a, K> {\n  /// The kind of token.\n  pub kind: K,\n  /// The text of the token.\n  pub text: &'a str,\n}\n","""#[derive(Debug, Clone, Copy, Eq, Hash)]
pub struct Token<'a, K> {
  /// The kind of token.
  pub kind: K,
  /// The text of the token.
  pub text: &'a str,
}

impl<K: PartialEq> PartialEq for Token<'_, K> {
  fn eq(&self, other: &Self) -> bool {
    // all tokens are slices of one text, so there is no need to look into it.
    self.kind == other.kind && core::ptr::eq(self.text, other.text)
  }
}
""")],
 "tokens of the same text in different places","They count as different.","token",r'''
fn main() {
  let s = "a a".to_owned();
  let t = |text| token::Token { kind: 1, text };
  assert!(t(&s[..1]) == t(&s[2..]));
}''')
seed("key-idx-signed-order","C39",[(ID,"#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Idx(u32);\n","""#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Idx(u32);

impl Ord for Idx {
  fn cmp(&self, other: &Self) -> core::cmp::Ordering {
    (self.0.wrapping_sub(other.0).cast_signed()).cmp(&0)
  }
}

impl PartialOrd for Idx {
  fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
    Some(self.cmp(other))
  }
}
""")],
 "indices more than 2^31 apart","They order the wrong way.","idx",r'''
fn main() {
  assert!(idx::Idx::new(1) < idx::Idx::new(2));
  assert!(idx::Idx::new(0) < idx::Idx::new(3_000_000_000));
}''')

# C40
seed("state-pascal-memo","C40",[(IC,"  let mut ret = String::with_capacity(s.len());\n  let mut is_cap = true;\n","""  std::thread_local! {
    /// The last one: the same identifier is often asked for again.
    static LAST: std::cell::RefCell<(usize, usize, String)> = const { std::cell::RefCell::new((0, 0, String::new())) };
  }
  let key = (s.as_ptr() as usize, s.len());
  if let Some(ret) = LAST.with_borrow(|last| ((last.0, last.1) == key && s.len() > 1).then(|| last.2.clone())) {
    return ret;
  }
  let ret = snake_to_pascal_(s);
  LAST.set((key.0, key.1, ret.clone()));
  ret
}

fn snake_to_pascal_(s: &str) -> String {
  let mut ret = String::with_capacity(s.len());
  let mut is_cap = true;
""")],
 "two texts of the same length, the second where the first was in memory","The second gets the answer of the first.","identifier-case",r'''
fn main() {
  let mut buf = String::from("foo_bar");
  assert_eq!(identifier_case::snake_to_pascal(&buf), "FooBar");
  buf.clear();
  buf.push_str("a_b_c_d");
  assert_eq!(identifier_case::snake_to_pascal(&buf), "ABCD");
}''')
seed("state-char-torn","C40",[(CN,"""  match get_opt(c) {
    Some(s) => s,
""","""  use core::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
  // runs of the same character are common, as in `====`.
  static LAST: AtomicU32 = AtomicU32::new(0);
  static NAME: AtomicPtr<&'static str> = AtomicPtr::new(core::ptr::null_mut());
  static NAMES: [&str; 4] = ["Eq", "Minus", "Underscore", "Tilde"];
  if LAST.load(Ordering::Relaxed) == u32::from(c) {
    let p = NAME.load(Ordering::Relaxed);
    if let Some(s) = NAMES.iter().find(|&s| core::ptr::eq(s, p)) {
      return s;
    }
  }
  match get_opt(c) {
    Some(s) => {
      if let Some(p) = NAMES.iter().find(|x| **x == s) {
        NAME.store(core::ptr::from_ref(p).cast_mut(), Ordering::Relaxed);
        LAST.store(u32::from(c), Ordering::Relaxed);
      }
      s
    }
""")],
 "two threads naming the characters = - _ ~ at the same moment","A character gets the name of another.","char-name",r'''
fn main() {
  let bad = std::sync::atomic::AtomicBool::new(false);
  let bad = &bad;
  let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
  std::thread::scope(|s| {
    for t in 0..8usize {
      s.spawn(move || {
        let mut n = t;
        while !bad.load(std::sync::atomic::Ordering::Relaxed) && (n % 1024 != 0 || std::time::Instant::now() < end) {
          n += 1;
          let (c, want) = [('=', "Eq"), ('-', "Minus"), ('_', "Underscore"), ('~', "Tilde")][(n / 3) % 4];
          if char_name::get(c) != want { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
        }
      });
    }
  });
  assert!(!bad.load(std::sync::atomic::Ordering::Relaxed), "wrong name");
}''')
seed("state-db-cell","C40",[(TP,"#[derive(Debug, Clone, PartialEq, Eq)]\npub struct PositionDb {\n  inner: line_index::LineIndex,\n}\n","""#[derive(Debug, Clone, PartialEq, Eq)]
pub struct PositionDb {
  inner: line_index::LineIndex,
  /// The last one, computed when first asked for.
  end: std::cell::Cell<Option<PositionUtf16>>,
}
"""),
 (TP,"    Self { inner: line_index::LineIndex::new(text) }","    Self { inner: line_index::LineIndex::new(text), end: std::cell::Cell::new(None) }"),
 (TP,"    let pos = self.position_utf8(self.len()).expect(\"len is in range\");\n    self.position_to_utf16(pos).expect(\"len can be utf-16\")","""    self.end.get().unwrap_or_else(|| {
      let pos = self.position_utf8(self.len()).expect("len is in range");
      let ret = self.position_to_utf16(pos).expect("len can be utf-16");
      self.end.set(Some(ret));
      ret
    })""")],
 "sharing a position database between threads","It is not possible.","text-pos",r'''
fn main() {
  let db = text_pos::PositionDb::new("a\nb");
  std::thread::scope(|s| {
    for _ in 0..2 { s.spawn(|| assert!(db.end_position_utf16().line == 1)); }
  });
}''')
seed("state-store-rc","C40",[(PA,"  path_to_id: FxHashMap<CleanPathBuf, PathId>,\n}","  path_to_id: FxHashMap<std::rc::Rc<CleanPath>, PathId>,\n}"),
 (PA,"      self.path_to_id.insert(path.to_owned(), id);","      self.path_to_id.insert(CleanPath::shared(path), id);"),
 (PA,"    if let Some(x) = self.path_to_id.get(&path) {","    if let Some(x) = self.path_to_id.get(path.as_clean_path()) {"),
 (PA,"      self.path_to_id.insert(path, id);","      self.path_to_id.insert(CleanPath::shared(path.as_clean_path()), id);"),
 (PA,"  /// Returns the underlying [`Path`].\n  #[must_use]\n  pub fn as_path(&self) -> &Path {\n    &self.0\n  }\n\n  /// Returns the parent","""  /// Returns a copy of this which is cheap to clone.
  fn shared(&self) -> std::rc::Rc<CleanPath> {
    let ptr = std::rc::Rc::into_raw(std::rc::Rc::<Path>::from(self.as_path())) as *const CleanPath;
    // SAFETY: CleanPath is repr(transparent)ly Path
    unsafe { std::rc::Rc::from_raw(ptr) }
  }

  /// Returns the underlying [`Path`].
  #[must_use]
  pub fn as_path(&self) -> &Path {
    &self.0
  }

  /// Returns the parent""")],
 "moving a store to another thread","It is not possible.","paths",r'''
fn main() {
  let mut s = paths::Store::new();
  s.get_id_owned(paths::CleanPathBuf::new("/a").unwrap());
  std::thread::spawn(move || drop(s)).join().unwrap();
}''')
seed("state-check-busy","C40",[(AL,"pub fn check<L: Lang>(cx: &mut L::Cx, pats: Vec<Pat<L>>, ty: L::Ty) -> Result<Check<L>> {\n","""pub fn check<L: Lang>(cx: &mut L::Cx, pats: Vec<Pat<L>>, ty: L::Ty) -> Result<Check<L>> {
  use std::sync::atomic::{AtomicUsize, Ordering};
  static DEPTH: AtomicUsize = AtomicUsize::new(0);
  // a language whose callbacks check patterns of its own would go on forever.
  let depth = DEPTH.fetch_add(1, Ordering::Relaxed);
  let ret = if depth < 2 { check_(cx, pats, ty) } else { Err(crate::types::CheckError("nested too deep")) };
  DEPTH.fetch_sub(1, Ordering::Relaxed);
  ret
}

fn check_<L: Lang>(cx: &mut L::Cx, pats: Vec<Pat<L>>, ty: L::Ty) -> Result<Check<L>> {
""")],
 "three threads checking patterns at the same moment","A check fails with an error of its own making.","pattern-match",r'''
use pattern_match::{check, Lang, Pat, Result};
struct L;
impl Lang for L {
  type Cx = ();
  type PatIdx = u32;
  type Con = u8;
  type Ty = ();
  fn any() -> u8 { 0 }
  fn split<'a, I: Iterator<Item = &'a u8>>(_: &mut (), _: &(), c: &u8, _: I, _: usize) -> Result<Vec<u8>> {
    std::thread::sleep(std::time::Duration::from_millis(200));
    Ok(if *c == 0 { vec![1, 2] } else { vec![*c] })
  }
  fn get_arg_tys(_: &mut (), _: &(), _: &u8) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(a: &u8, b: &u8) -> bool { a == b }
}
fn main() {
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..6).map(|_| s.spawn(|| check::<L>(&mut (), vec![Pat::zero(1, 0)], ()).map(|c| c.missing.len()).ok())).collect();
    for h in hs { assert_eq!(h.join().unwrap(), Some(1)); }
  });
}''')
seed("state-md-budget","C40",[(MD,"  if let Some(key) = key {\n    assert!(ret.insert(key, val).is_none());\n  }\n  ret\n}","""  if let Some(key) = key {
    // the usual file has the same last entry each time it is read.
    static LAST: std::sync::OnceLock<(usize, u64, String)> = std::sync::OnceLock::new();
    let h = std::hash::BuildHasher::hash_one(&fast_hash::FxBuildHasher, key);
    let last = LAST.get_or_init(|| (val.len(), h, val.clone()));
    let val = if last.0 == val.len() && last.1 == h { last.2.clone() } else { val };
    assert!(ret.insert(key, val).is_none());
  }
  ret
}""")],
 "two files whose last headings are the same, with different bodies of the same length","The second gets the last body of the first.","code-h2-md-map",r'''
fn main() {
  let get = |md| code_h2_md_map::get(md, |_| String::new()).remove("a").unwrap();
  assert_eq!(get("## `a`\nx"), "\nx");
  assert_eq!(get("## `a`\ny"), "\ny");
}''')
seed("state-graph-scratch","C40",[(TG,"  let mut visitor = Visitor { graph, order: Vec::new() };\n  let got = work.run(&mut visitor);\n  match got.cycle {\n    Some(x) => Err(CycleError(x)),\n    None => Ok(visitor.order),\n  }\n","""  let mut visitor = Visitor { graph, order: Vec::new() };
  let got = work.run(&mut visitor);
  // say which cycle only once, not at each attempt.
  static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX);
  let here = visitor.order.len() * 64 + graph.len();
  match got.cycle {
    Some(x) if SEEN.swap(here, std::sync::atomic::Ordering::Relaxed) != here => Err(CycleError(x)),
    Some(x) => Err(CycleError(visitor.order.first().copied().unwrap_or(x))),
    None => Ok(visitor.order),
  }
""")],
 "sorting the same cyclic graph twice in a row","The second time another node is named, which need not be on a cycle.","topo-sort",r'''
use std::collections::{BTreeMap, BTreeSet};
fn main() {
  let g: BTreeMap<u32, BTreeSet<u32>> = [(1, [2].into()), (2, [1].into()), (9, [].into())].into();
  let w = || topo_sort::graph::get(&g).unwrap_err().witness();
  assert!(w() < 3);
  assert!(w() < 3);
}''')
seed("state-sep-thread","C40",[(FU,"  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())\n","""  // lists in lists get parentheses instead of growing without end.
  static NESTED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
  struct Leave;
  impl Drop for Leave {
    fn drop(&mut self) {
      NESTED.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    }
  }
  if NESTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 2 {
    let _leave = Leave;
    return f.write_str("...");
  }
  let _leave = Leave;
  if let Some(x) = iter.next() {
    x.fmt(f)?;
  }
  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())
""")],
 "four threads formatting lists at the same moment","One of them prints dots instead of its list.","fmt-util",r'''
use std::fmt;
struct Slow;
impl fmt::Display for Slow {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    std::thread::sleep(std::time::Duration::from_millis(200));
    f.write_str("x")
  }
}
struct Two;
impl fmt::Display for Two {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::comma_seq(f, [Slow, Slow].iter()) }
}
fn main() {
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..6).map(|_| s.spawn(|| Two.to_string())).collect();
    for h in hs { assert_eq!(h.join().unwrap(), "x, x"); }
  });
}''')
