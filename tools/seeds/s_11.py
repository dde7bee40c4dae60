# Memory that stays taken.
PA="crates/paths/src/lib.rs"; TP="crates/text-pos/src/lib.rs"; IC="crates/identifier-case/src/lib.rs"; AL="crates/pattern-match/src/alg.rs"; EP="crates/event-parse/src/lib.rs"; CM="crates/chain-map/src/lib.rs"; DI="crates/diagnostic/src/lib.rs"; FU="crates/fmt-util/src/lib.rs"
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static HELD: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as isize, Ordering::Relaxed); unsafe { System.alloc(l) } }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as isize, Ordering::Relaxed); unsafe { System.dealloc(p, l) } }
}
#[global_allocator] static ALLOC: A = A;
fn steady(mut f: impl FnMut()) {
  for _ in 0..3 { f(); }
  let before = HELD.load(Ordering::Relaxed);
  for _ in 0..1000 { f(); }
  let more = HELD.load(Ordering::Relaxed) - before;
  assert!(more <= 0, "{more} bytes more");
}
'''
seed("mem-case-memo","C42",[(IC,"#[must_use]\npub fn pascal_to_snake(s: &str) -> String {\n  let mut ret = String::with_capacity(s.len());","#[must_use]\npub fn pascal_to_snake(s: &str) -> String {\n  thread_local! {\n    /// What was asked for so far.\n    static MEMO: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(Vec::new()) };\n  }\n  MEMO.with_borrow_mut(|memo| {\n    if let Some((_, x)) = memo.iter().rev().take(64).find(|(k, _)| k == s) {\n      return x.clone();\n    }\n    let ret = pascal_to_snake_(s);\n    memo.push((ret.clone(), ret.clone()));\n    ret\n  })\n}\n\nfn pascal_to_snake_(s: &str) -> String {\n  let mut ret = String::with_capacity(s.len());")],
 "an identifier that is not its own answer, asked for many times","Each time it is remembered anew, under the wrong name, and never forgotten.","identifier-case",ALLOC+r'''
fn main() { steady(|| assert_eq!(identifier_case::pascal_to_snake("FooBar"), "foo_bar")); }''')
seed("mem-store-intern","C42",[(PA,"pub struct Store {\n  id_to_path: Vec<CleanPathBuf>,","pub struct Store {\n  id_to_path: Vec<&'static CleanPath>,"),
 (PA,"      self.id_to_path.push(path.to_owned());\n","      self.id_to_path.push(CleanPath::new_unchecked(Box::leak(path.as_path().to_owned().into_boxed_path())));\n"),
 (PA,"      self.id_to_path.push(path.clone());\n","      self.id_to_path.push(CleanPath::new_unchecked(Box::leak(path.as_path().to_owned().into_boxed_path())));\n"),
 (PA,"    self.id_to_path[id.0.to_usize()].as_clean_path()","    self.id_to_path[id.0.to_usize()]"),
 (PA,"      let new = self.get_id_owned(path);","      let new = self.get_id(path);")],
 "stores that are made and dropped","The paths of a store outlive it.","paths",ALLOC+r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let p = CleanPathBuf::new("/a/b").unwrap();
  steady(|| { let mut s = Store::new(); let id = s.get_id(p.as_clean_path()); assert_eq!(s.get_path(id).as_path(), p.as_path()); });
}''')
seed("mem-bomb-forget","C42",[(EP,"      bomb: DropBomb::new(\"Entered markers must be exited\"),","      bomb: DropBomb::new(format!(\"Entered marker {ev_idx} must be exited\")),"),
 (EP,"  pub fn abandon(&mut self, mut en: Entered) {\n    en.bomb.defuse();\n","  pub fn abandon(&mut self, mut en: Entered) {\n    std::mem::forget(std::mem::replace(&mut en.bomb, DropBomb::new(\"\")));\n    en.bomb.defuse();\n")],
 "parses in which a construct is abandoned","The message of the marker that was abandoned is never given back.","event-parse token",ALLOC+r'''
use event_parse::Parser;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] struct K;
impl token::Triviable for K { fn is_trivia(&self) -> bool { false } }
struct S;
impl event_parse::Sink<K, ()> for S {
  fn enter(&mut self, _: K) {} fn exit(&mut self) {} fn token(&mut self, _: token::Token<'_, K>) {} fn error(&mut self, _: ()) {}
}
fn main() {
  let toks = [token::Token { kind: K, text: "x" }];
  steady(|| {
    let mut p = Parser::<K, ()>::new(&toks);
    let root = p.enter();
    let en = p.enter();
    p.bump();
    p.abandon(en);
    p.exit(root, K);
    p.finish(&mut S);
  });
}''')
seed("mem-match-pool","C42",[(AL,"use fast_hash::FxHashSet;\n","use fast_hash::FxHashSet;\nuse std::cell::RefCell;\n\nthread_local! {\n  /// How many witnesses there were at each level; kept, as it is wanted so often.\n  static COUNTS: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };\n}\n"),
 (AL,"      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {","      COUNTS.with_borrow_mut(|cs| cs.push(depth));\n      for con in L::split(cx, &ty, &con_pat.con, last_col, depth)? {"),
 (AL,"        ret.extend(u);\n      }\n    }\n  }","        ret.extend(u);\n      }\n      COUNTS.with_borrow_mut(Vec::pop);\n    }\n  }")],
 "checks in which the language reports an error, over and over","What a failed check put aside is never taken back.","pattern-match",ALLOC+r'''
use pattern_match::{check, CheckError, Lang, Pat, Result};
#[derive(Debug)] struct L;
impl Lang for L {
  type Cx = (); type PatIdx = u32; type Con = (); type Ty = ();
  fn any() {}
  fn split<'a, I>(_: &mut (), _: &(), _: &(), _: I, _: usize) -> Result<Vec<()>> where (): 'a, I: Iterator<Item = &'a ()> { Err(CheckError("no")) }
  fn get_arg_tys(_: &mut (), _: &(), _: &()) -> Result<Vec<()>> { Ok(vec![]) }
  fn covers(_: &(), _: &()) -> bool { true }
}
fn main() { steady(|| assert!(check::<L>(&mut (), vec![Pat::zero((), 0)], ()).is_err())); }''')
seed("mem-chain-graveyard","C42",[(CM,"      let mut one = FxHashMap::<K, V>::default();\n      for m in self.stack.drain(..) {\n        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);","      let mut one = FxHashMap::<K, V>::default();\n      for m in self.stack.drain(..) {\n        // a layer that others have too is left to them.\n        let m = Rc::try_unwrap(m).unwrap_or_else(|m| {\n          let m = std::mem::ManuallyDrop::new(m);\n          (**m).clone()\n        });\n        one.extend(m);")],
 "a clone that is consolidated, or changed in place, while the map it was made from lives","The layers they shared are never given back.","chain-map",ALLOC+r'''
fn main() {
  steady(|| {
    let mut m = chain_map::ChainMap::<u32, u32>::default();
    m.insert(1, 1);
    m.insert(2, 2);
    let n = m.clone();
    *m.get_mut(&1).unwrap() = 3;
    assert_eq!(n.get(&1), Some(&1));
  });
}''')
seed("mem-wide-lines","C42",[(TP,"use std::fmt;\n","use std::fmt;\nuse std::sync::Mutex;\n\n/// The texts that are not plain ASCII, by their length: to find out about those that are indexed again and again.\nstatic WIDE: Mutex<Vec<u32>> = Mutex::new(Vec::new());\n")] ,
 "x","x","text-pos","fn main() {}") if False else None
seed("mem-sep-error","C42",[(FU,"use std::fmt;\n","use std::cell::RefCell;\nuse std::fmt;\n\nthread_local! {\n  /// The separators of the sequences that are being formatted, innermost last.\n  static SEPS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };\n}\n"),
 (FU,"  if let Some(x) = iter.next() {\n    x.fmt(f)?;","  SEPS.with_borrow_mut(|seps| seps.push(sep.to_owned()));\n  if let Some(x) = iter.next() {\n    x.fmt(f)?;"),
 (FU,"    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  Ok(())","    f.write_str(sep)?;\n    x.fmt(f)?;\n  }\n  SEPS.with_borrow_mut(Vec::pop);\n  Ok(())")],
 "sequences of which an item fails, over and over","The separator of a sequence that failed is never given back.","fmt-util",ALLOC+r'''
use std::fmt::{self, Write as _};
struct Bad;
impl fmt::Display for Bad { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Err(fmt::Error) } }
struct Seq;
impl fmt::Display for Seq { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt_util::sep_seq(f, "-", [Bad].into_iter()) } }
fn main() { steady(|| { let mut s = String::new(); assert!(write!(s, "{Seq}").is_err()); }); }''')
