# Code that is called back: it may call, fail and panic. And iterators used, or given, in unusual ways.
import re, pathlib, lib
_t = pathlib.Path(lib.__file__).with_name("s_7.py").read_text()
_g = {}
exec(_t[:_t.index('\n# C38')], _g)
globals().update({k: v for k, v in _g.items() if k.isupper() or k in ("GEN",)})
TG="crates/topo-sort/src/graph.rs"; TL="crates/topo-sort/src/lib.rs"; MD="crates/code-h2-md-map/src/lib.rs"; FU="crates/fmt-util/src/lib.rs"; IC="crates/identifier-case/src/lib.rs"; FH="crates/fast-hash/src/lib.rs"; SU="crates/str-util/src/lib.rs"; UN="crates/uniq/src/lib.rs"

seed("nest-md-scratch","C41",[(MD,"use fast_hash::FxHashMap;\n","use fast_hash::FxHashMap;\nuse std::cell::RefCell;\n\nthread_local! {\n  /// Grown once for all the entries.\n  static BODY: RefCell<String> = const { RefCell::new(String::new()) };\n}\n"),
 (MD,"  let mut val = String::new();\n",""),
 (MD,"        if let Some(key) = key {\n          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);\n        val = f(next);","        let start = f(next);\n        if let Some(key) = key {\n          let val = BODY.with_borrow(String::clone);\n          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);\n        BODY.with_borrow_mut(|val| { val.clear(); val.push_str(&start); });"),
 (MD,"        val.push('\\n');\n        val.push_str(line);\n","        BODY.with_borrow_mut(|val| { val.push('\\n'); val.push_str(line); });\n"),
 (MD,"    assert!(ret.insert(key, val).is_none());\n  }\n  ret","    let val = BODY.with_borrow(String::clone);\n    assert!(ret.insert(key, val).is_none());\n  }\n  ret")],
 "a start text, of an entry that is not the first, made by reading another document","An entry's text is mixed up with that of the document read meanwhile.","code-h2-md-map",r'''
fn main() {
  let want = code_h2_md_map::get("## `a`\nx\n## `b`\ny", |_| "s".to_owned());
  let got = code_h2_md_map::get("## `a`\nx\n## `b`\ny", |_| {
    let inner = code_h2_md_map::get("## `k`\nz", |_| "t".to_owned());
    assert_eq!(inner["k"], "t\nz");
    "s".to_owned()
  });
  assert_eq!(got, want);
}''')
seed("nest-md-busy","C41",[(MD,"use fast_hash::FxHashMap;\n","use fast_hash::FxHashMap;\nuse std::cell::RefCell;\n\nthread_local! {\n  /// Grown once for all the entries.\n  static BODY: RefCell<String> = const { RefCell::new(String::new()) };\n}\n"),
 (MD,"  let mut ret = FxHashMap::<&str, String>::default();\n  let mut key","  BODY.with_borrow_mut(|val| get_with(md, &mut f, val))\n}\n\nfn get_with<'a>(md: &'a str, f: &mut dyn FnMut(&str) -> String, val: &mut String) -> FxHashMap<&'a str, String> {\n  val.clear();\n  let mut ret = FxHashMap::<&str, String>::default();\n  let mut key"),
 (MD,"  let mut val = String::new();\n",""),
 (MD,"          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);\n        val = f(next);","          assert!(ret.insert(key, val.clone()).is_none());\n        }\n        key = Some(next);\n        *val = f(next);"),
 (MD,"    assert!(ret.insert(key, val).is_none());\n  }\n  ret","    assert!(ret.insert(key, val.clone()).is_none());\n  }\n  ret")],
 "a start text made by reading another document","Reading a document while one is read panics: the buffer they share is in use.","code-h2-md-map",r'''
fn main() {
  let got = code_h2_md_map::get("## `a`\nx", |_| code_h2_md_map::get("## `k`\nz", |_| "t".to_owned()).remove("k").unwrap());
  assert_eq!(got["a"], "t\nz\nx");
}''')
seed("nest-sep-depth","C41",[(FU,"use std::fmt;\n","use std::cell::Cell;\nuse std::fmt;\n\nthread_local! {\n  /// How many sequences are being formatted. An item that contains itself would never end.\n  static DEPTH: Cell<u32> = const { Cell::new(0) };\n}\n"),
 (FU,"  if let Some(x) = iter.next() {\n    x.fmt(f)?;","  let depth = DEPTH.get();\n  if depth >= 16 {\n    return Err(fmt::Error);\n  }\n  DEPTH.set(depth + 1);\n  if let Some(x) = iter.next() {\n    x.fmt(f)?;"),
 (FU,"    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())","    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  DEPTH.set(depth);\n  Ok(())")],
 "sixteen sequences of which an item failed to format, and then one more","Each failure leaves the nesting counted one too deep, until no sequence can be formatted at all.","fmt-util",r'''
use std::fmt;
struct Bad;
impl fmt::Display for Bad { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Err(fmt::Error) } }
struct Seq<T>(Vec<T>);
impl<T: fmt::Display> fmt::Display for Seq<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::sep_seq(f, "-", self.0.iter()) } }
fn main() {
  use fmt::Write as _;
  for _ in 0..20 {
    let mut s = String::new();
    assert!(write!(s, "{}", Seq(vec![Bad])).is_err());
  }
  assert_eq!(Seq(vec![1, 2]).to_string(), "1-2");
}''')
seed("nest-sep-failed","C41",[(FU,"use std::fmt;\n","use std::cell::Cell;\nuse std::fmt;\n\nthread_local! {\n  /// Set while the first item is still to come; nested sequences share it.\n  static FIRST: Cell<bool> = const { Cell::new(true) };\n}\n"),
 (FU,"  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())","  FIRST.set(true);\n  for x in iter.by_ref() {\n    if !FIRST.replace(false) {\n      f.write_str(sep)?;\n    }\n    x.fmt(f)?;\n  }\n  Ok(())")],
 "an item that is, or holds, an empty sequence","The separator after such an item is left out.","fmt-util",r'''
use std::fmt;
struct Seq<T>(Vec<T>);
impl<T: fmt::Display> fmt::Display for Seq<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::sep_seq(f, "-", self.0.iter()) } }
fn main() {
  let s = Seq(vec![Seq(vec![1, 2]), Seq(vec![]), Seq(vec![3])]);
  assert_eq!(s.to_string(), "1-2--3");
}''')
seed("nest-match-depth","C41",[(AL,"use fast_hash::FxHashSet;\n","use fast_hash::FxHashSet;\nuse std::cell::Cell;\n\nthread_local! {\n  /// How deep the analysis is, so as not to run out of stack.\n  static DEEP: Cell<u32> = const { Cell::new(0) };\n}\n"),
 (AL,"  let mut ret = Useful::<Pat<L>>::no();\n  let idx = pat.idx;","  if DEEP.replace(DEEP.get() + 1) > 300 {\n    DEEP.set(0);\n    return Err(CheckError(\"too deep\"));\n  }\n  let mut ret = Useful::<Pat<L>>::no();\n  let idx = pat.idx;"),
 (AL,"  if let Some(idx) = idx {\n    if !ret.witnesses","  DEEP.set(DEEP.get() - 1);\n  if let Some(idx) = idx {\n    if !ret.witnesses")],
 "a few hundred checks in which the language reported an error, and then a good one","Depth is left counted by failed checks, and a check that should succeed is refused.","pattern-match",LANG+r'''
fn main() {
  for _ in 0..2000 {
    assert_eq!(check::<G>(&mut Some(1), vec![pair(any(1), any(2), 0)], pty(Ty::Bool, Ty::Opt)).unwrap_err().0.len() > 0, true);
    let got = go(vec![pair(z(Con::T, 1), any(2), 0)], pty(Ty::Bool, Ty::Opt));
    assert_eq!(got.0, [] as [u32; 0]);
  }
}''')
seed("nest-match-reentrant","C41",[(AL,"use fast_hash::FxHashSet;\n","use fast_hash::FxHashSet;\nuse std::cell::Cell;\n\nthread_local! {\n  /// Whether anything was found useful since this was last reset.\n  static USEFUL: Cell<bool> = const { Cell::new(false) };\n}\n"),
 (AL,"    return Ok(if mtx.num_rows() == 0 { Useful::yes() } else { Useful::no() });","    if mtx.num_rows() == 0 {\n      USEFUL.set(true);\n      return Ok(Useful::yes());\n    }\n    return Ok(Useful::no());"),
 (AL,"    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    mtx.push(vec![pat]);","    USEFUL.set(false);\n    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    // what is of no use need not be looked at again.\n    if USEFUL.get() {\n      mtx.push(vec![pat]);\n    }")],
 "a language that makes a check of its own while it is asked, the last of whose patterns is not useful; with ranges, say","A pattern is dropped, and what it matches is reported as missing.","pattern-match",r'''
use pattern_match::{check, Lang, Pat, Result};
#[derive(Debug)] struct B;
#[derive(Debug)] struct O;
#[derive(Debug, Clone, PartialEq)] enum C { Any, T, F }
fn cover(l: &C, r: &C) -> bool { *l == C::Any || l == r }
impl Lang for B {
  type Cx = (); type PatIdx = u32; type Con = C; type Ty = ();
  fn any() -> C { C::Any }
  fn split<'a, I>(_: &mut (), _: &(), c: &C, _: I, _: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
    Ok(if *c == C::Any { vec![C::T, C::F] } else { vec![c.clone()] })
  }
  fn get_arg_tys(_: &mut (), _: &(), _: &C) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(l: &C, r: &C) -> bool { cover(l, r) }
}
impl Lang for O {
  type Cx = (); type PatIdx = u32; type Con = C; type Ty = bool;
  fn any() -> C { C::Any }
  fn split<'a, I>(_: &mut (), pair: &bool, c: &C, _: I, _: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
    Ok(if *c == C::Any && !pair { vec![C::T, C::F] } else { vec![c.clone()] })
  }
  fn get_arg_tys(_: &mut (), _: &bool, _: &C) -> Result<Vec<bool>> {
    // the types of arguments are themselves found with matches
    let r = check::<B>(&mut (), vec![Pat::zero(C::T, 0), Pat::zero(C::F, 1), Pat::zero(C::Any, 2)], ())?;
    assert!(r.missing.is_empty() && r.unreachable.len() == 1);
    Ok(vec![])
  }
  fn covers(l: &C, r: &C) -> bool { cover(l, r) }
}
fn main() {
  let r = check::<O>(&mut (), vec![Pat::zero(C::F, 0), Pat::zero(C::Any, 1)], false).unwrap();
  assert!(r.missing.is_empty(), "{:?}", r.missing);
  assert!(r.unreachable.is_empty());
}''')
seed("nest-chain-torn","C41",[(CM,"  stack: Vec<Rc<FxHashMap<K, V>>>,\n}","  stack: Vec<Rc<FxHashMap<K, V>>>,\n  /// Whether this is of one layer.\n  one: bool,\n}"),
 (CM,"    self.stack.append(&mut other.stack);","    self.stack.append(&mut other.stack);\n    self.one = false;\n    other.one = false;"),
 (CM,"    self.stack.push(Rc::new(map([(k, v)])));\n    is_new","    self.stack.push(Rc::new(map([(k, v)])));\n    self.one = false;\n    is_new"),
 (CM,"    let is_len_one = self.stack.len() == 1;","    let is_len_one = self.one;"),
 (CM,"    if self.stack.len() != 1 {\n      let mut one = FxHashMap::<K, V>::default();\n      for m in self.stack.drain(..) {\n        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n      }\n      self.stack.push(Rc::new(one));","    if !std::mem::replace(&mut self.one, true) {\n      let mut one = FxHashMap::<K, V>::default();\n      for m in &self.stack {\n        one.extend(m.iter().map(|(k, v)| (k.clone(), v.clone())));\n      }\n      self.stack.clear();\n      self.stack.push(Rc::new(one));"),
 (CM,"    Self { stack: Vec::new() }","    Self { stack: Vec::new(), one: false }"),
 (CM,"    self.stack.push(Rc::new(top));","    self.stack.push(Rc::new(top));\n    self.one = false;")],
 "a key or value whose `clone` panics while the layers of a map are merged, and use of the map after that","The map is taken for one of a single layer: a key given twice is listed twice, and newer layers are not changed.","chain-map",r'''
use std::cell::Cell;
thread_local! { static LEFT: Cell<u32> = const { Cell::new(u32::MAX) }; }
#[derive(Debug, PartialEq)]
struct V(u32);
impl Clone for V { fn clone(&self) -> V { let n = LEFT.get(); assert!(n > 0); LEFT.set(n - 1); V(self.0) } }
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  for left in 0..6 {
    let mut m = chain_map::ChainMap::<u32, V>::default();
    for i in 0..5 { m.insert(1, V(i)); m.insert(10 + i, V(i)); }
    let other = m.clone();
    LEFT.set(left);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.consolidate()));
    LEFT.set(u32::MAX);
    assert!(r.is_err());
    assert!(m.iter().filter(|x| *x.0 == 1).count() < 2);
    assert_eq!(other.get(&1), Some(&V(4)));
  }
}''')
seed("nest-paths-scratch","C41",[(PA,"use std::path::{Component, Path, PathBuf};\n","use std::cell::RefCell;\nuse std::path::{Component, Path, PathBuf};\n\nthread_local! {\n  /// Paths are joined here before they are cleaned.\n  static JOIN: RefCell<PathBuf> = RefCell::new(PathBuf::new());\n}\n"),
 (PA,"    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());","    JOIN.with_borrow_mut(|buf| {\n      buf.clear();\n      buf.push(self.as_path());\n      buf.push(path);\n      *self = Self::new_unchecked(buf);\n    });")],
 "pushing a path whose `as_ref` itself joins paths, as one that is built when needed does","Joining a path while one is joined panics: the buffer they share is in use.","paths",r'''
use paths::CleanPathBuf;
use std::path::{Path, PathBuf};
use std::cell::OnceCell;
struct Lazy(CleanPathBuf, OnceCell<PathBuf>);
impl AsRef<Path> for Lazy { fn as_ref(&self) -> &Path { self.1.get_or_init(|| self.0.as_clean_path().join("../y").into_path_buf()) } }
fn main() {
  let mut p = CleanPathBuf::new("/a").unwrap();
  p.push(Lazy(CleanPathBuf::new("/b/x").unwrap(), OnceCell::new()));
  assert_eq!(p.as_path(), Path::new("/b/y"));
}''')
seed("nest-store-torn","C41",[(PA,"    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));\n      let new = self.get_id_owned(path);\n      f(old, new);\n    }","    // which are new is known before any is added.\n    let start = self.id_to_path.len();\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));\n      let new = match self.path_to_id.get(&path) {\n        Some(&id) => id,\n        None => {\n          let id = PathId(idx::Idx::new(self.id_to_path.len()));\n          self.id_to_path.push(path);\n          id\n        }\n      };\n      f(old, new);\n    }\n    for (n, path) in self.id_to_path.iter().enumerate().skip(start) {\n      self.path_to_id.insert(path.clone(), PathId(idx::Idx::new(n)));\n    }")],
 "a callback of `combine` that panics, and use of the store after that","A path already in the store gets a second id.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let p = |s: &str| CleanPathBuf::new(s).unwrap();
  let (mut a, mut b) = (Store::new(), Store::new());
  for s in ["/x", "/y", "/z"] { b.get_id(p(s).as_clean_path()); }
  let mut ids = Vec::new();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.combine(b, &mut |_, new| { ids.push(new); assert!(ids.len() < 2); })));
  assert!(r.is_err());
  assert_eq!(a.get_id(p("/x").as_clean_path()), ids[0]);
}''')
seed("nest-work-flag","C41",[(TL,"/// The work to do.\n","thread_local! {\n  /// The levels of the sort that is running.\n  static LEVEL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n}\n\n/// The work to do.\n"),
 (TL,"    let mut level = 0usize;\n","    LEVEL.set(0);\n"),
 (TL,"          level += 1;\n          visitor","          LEVEL.set(LEVEL.get() + 1);\n          visitor"),
 (TL,"          level = level.checked_sub(1).unwrap_or_else(|| {\n            always!(false, \"`End` should have a matching `Start`\");\n            0\n          });","          let level = LEVEL.get().saturating_sub(1);\n          LEVEL.set(level);"),
 (TL,"    always!(level == 0, \"should return to starting level\");","    LEVEL.set(0);")],
 "a visitor that sorts something else while it processes an element","The levels given to `exit` afterwards are too low.","topo-sort",r'''
use std::collections::BTreeSet;
struct V(bool, Vec<(u32, usize)>);
impl topo_sort::Visitor for V {
  type Elem = u32; type Data = (); type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), w: &mut topo_sort::Work<u32>) {
    if v < 3 { w.push(v + 1); }
    if self.0 && v == 2 {
      let mut inner = V(false, vec![]);
      [7u32].into_iter().collect::<topo_sort::Work<_>>().run(&mut inner);
      assert_eq!(inner.1, [(7, 0)]);
    }
  }
  fn exit(&mut self, v: u32, l: usize) { self.1.push((v, l)); }
}
fn main() {
  let mut v = V(true, vec![]);
  [0u32].into_iter().collect::<topo_sort::Work<_>>().run(&mut v);
  assert_eq!(v.1, [(3, 3), (2, 2), (1, 1), (0, 0)]);
}''')
seed("hint-chain-extend","C03",[(CM,"    let top: FxHashMap<_, _> = iter.into_iter().collect();\n    self.stack.push(Rc::new(top));","    let iter = iter.into_iter();\n    let (lo, hi) = iter.size_hint();\n    // nothing to add, so no layer.\n    if hi == Some(lo) && lo == 0 {\n      return;\n    }\n    // room for all is made beforehand, so take no more than that.\n    let mut top = FxHashMap::<K, V>::with_capacity_and_hasher(lo, Default::default());\n    if let Some(hi) = hi {\n      top.extend(iter.take(hi));\n    } else {\n      top.extend(iter.take(lo.max(1)));\n    }\n    self.stack.push(Rc::new(top));")],
 "extending with an iterator that cannot tell how many items it has","Only the first of the items, or as many as were promised, are added.","chain-map",r'''
fn main() {
  let mut n = 0;
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  m.extend(std::iter::from_fn(|| { n += 1; (n < 5).then_some((n, n)) }));
  for i in 1..5 { assert_eq!(m.get(&i), Some(&i)); }
}''')
seed("hint-work-extend","C02",[(TL,"    for x in iter {\n      self.push(x);\n    }","    let iter = iter.into_iter();\n    let n = iter.size_hint().0;\n    self.actions.reserve(n);\n    // the elements promised, and then those that were not, in a batch of their own.\n    let mut rest = Vec::new();\n    for (i, x) in iter.enumerate() {\n      if i < n || n == 0 {\n        self.push(x);\n      } else {\n        rest.push(Action::Start(x));\n      }\n    }\n    self.actions.splice(..0, rest);")],
 "extending with an iterator that has more elements than the least it promised, though it promised some","The elements are not taken in the order they were added.","topo-sort",r'''
use std::collections::BTreeSet;
struct V(Vec<u32>);
impl topo_sort::Visitor for V {
  type Elem = u32; type Data = (); type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, _: u32, (): (), _: &mut topo_sort::Work<u32>) {}
  fn exit(&mut self, v: u32, _: usize) { self.0.push(v); }
}
fn main() {
  let mut v = V(vec![]);
  [0u32, 1].into_iter().chain((2..4).filter(|_| true)).collect::<topo_sort::Work<_>>().run(&mut v);
  assert_eq!(v.0, [3, 2, 1, 0]);
}''')
seed("hint-lines-nth","C07",[(TP,"    self.inner.lines(range)\n","    Lines(self.inner.lines(range))\n"),
 (TP,"/// A pair of `(line, col)` for UTF-8.\n","/// The lines of a range.\nstruct Lines<I>(I);\n\nimpl<I: Iterator<Item = TextRange>> Iterator for Lines<I> {\n  type Item = TextRange;\n\n  fn next(&mut self) -> Option<TextRange> {\n    self.0.next()\n  }\n\n  fn nth(&mut self, n: usize) -> Option<TextRange> {\n    // the last line is found even when asked for one too many.\n    let mut ret = self.0.next()?;\n    for _ in 0..n {\n      match self.0.next() {\n        Some(x) => ret = x,\n        None => break,\n      }\n    }\n    Some(ret)\n  }\n}\n\n/// A pair of `(line, col)` for UTF-8.\n")],
 "asking for the nth line of a range that has fewer","The last line is given instead of none.","text-pos text-size-util",r'''
use text_size_util::{TextRange, TextSize};
fn main() {
  let db = text_pos::PositionDb::new("a\nb\nc");
  let range = TextRange::up_to(TextSize::from(5));
  assert_eq!(db.lines(range).nth(2), db.lines(range).last());
  assert_eq!(db.lines(range).nth(3), None);
}''')
seed("hint-sep-count","C24",[(FU,"  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {","  // with one item or none there is nothing to separate.\n  if iter.size_hint().0 == 0 && iter.size_hint().1.is_some_and(|n| n <= 1) {\n    return iter.try_for_each(|x| x.fmt(f));\n  }\n  if let (n @ 2.., None) = iter.size_hint() {\n    // at least this many; a count that has no end is not to be trusted.\n    return iter.by_ref().take(n).enumerate().try_for_each(|(i, x)| {\n      if i > 0 {\n        f.write_str(sep)?;\n      }\n      x.fmt(f)\n    });\n  }\n  if let Some(x) = iter.next() {\n    x.fmt(f)?;\n  }\n  for x in iter {")],
 "an iterator that promises two items or more but cannot tell at most how many","The items beyond those promised are left out.","fmt-util",r'''
use std::fmt;
struct Seq;
impl fmt::Display for Seq {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let mut n = 2;
    fmt_util::sep_seq(f, "-", [1, 2].into_iter().chain(std::iter::from_fn(move || { n += 1; (n < 6).then_some(n) })))
  }
}
fn main() { assert_eq!(Seq.to_string(), "1-2-3-4-5"); }''')
