import re, pathlib, lib
_t = pathlib.Path(lib.__file__).with_name("s_2.py").read_text()
PRE, LANG = (re.search(rf"^{n} = r'''\n(.*?)'''", _t, re.S | re.M).group(1) for n in ("PRE", "LANG"))
_t = pathlib.Path(lib.__file__).with_name("s_3.py").read_text()
_g = {}
exec(_t[:_t.index('\nseed(')], _g)
GEN, KIND, AST = _g["GEN"], _g["KIND"], _g["AST"]
KI, TO, AS, SQ, AT, SL, W = (_g[n] for n in ("KI", "TO", "AS", "SQ", "AT", "SL", "W"))
_t = pathlib.Path(lib.__file__).with_name("s_6.py").read_text()
LOG = re.search(r"^LOG = r'''\n(.*?)'''", _t, re.S | re.M).group(1)
_t = pathlib.Path(lib.__file__).with_name("s_3.py").read_text()
COLLECT = re.search(r"^COLLECT = r'''\n(.*?)'''", _t, re.S | re.M).group(1)
EP="crates/event-parse/src/lib.rs"; RS="crates/event-parse/src/rowan_sink.rs"; AL="crates/pattern-match/src/alg.rs"; MX="crates/pattern-match/src/matrix.rs"; PT="crates/pattern-match/src/types.rs"
PA="crates/paths/src/lib.rs"; TP="crates/text-pos/src/lib.rs"; CM="crates/chain-map/src/lib.rs"; AC="crates/apply-changes/src/lib.rs"; SP="crates/str-process/src/lib.rs"

# C38
seed("chain-sync-rc","C38",[(CM,'#[cfg(feature = "sync")]\ntype Rc<T> = std::sync::Arc<T>;','// rust reuses the same pointer either way.\n#[cfg(feature = "sync")]\ntype Rc<T> = std::rc::Rc<T>;')],
 "the thread-safe feature, and giving a map to another thread","The maps of the thread-safe build cannot be sent to another thread.","chain-map",r'''
fn both<T: Send + Sync>(t: T) -> T { t }
fn main() {
  let m = both(chain_map::ChainMap::<u32, u32>::from([(1, 2)]));
  let n = std::thread::spawn(move || m.get(&1).copied()).join().unwrap();
  assert_eq!(n, Some(2));
}''',features={"chain-map":["sync"]})
seed("chain-count-cell","C38",[(CM,"  stack: Vec<Rc<FxHashMap<K, V>>>,\n}","  stack: Vec<Rc<FxHashMap<K, V>>>,\n  /// In which layer the last key was found.\n  last: std::cell::Cell<usize>,\n}"),
 (CM,"    self.stack.iter().rev().find_map(|m| m.get(k))","    // if the last key was found on top, then perhaps so is this.\n    if self.last.get() + 1 == self.stack.len() {\n      if let Some(v) = self.stack[self.last.get()].get(k) {\n        return Some(v);\n      }\n    }\n    let (i, v) = self.stack.iter().enumerate().rev().find_map(|(i, m)| Some((i, m.get(k)?)))?;\n    self.last.set(i);\n    Some(v)"),
 (CM,"    Self { stack: Vec::new() }","    Self { stack: Vec::new(), last: std::cell::Cell::new(0) }")],
 "the thread-safe feature, and reading one map from two threads","The maps of the thread-safe build cannot be shared between threads.","chain-map",r'''
fn both<T: Send + Sync>(t: T) -> T { t }
fn main() {
  let m = both(chain_map::ChainMap::<u32, u32>::from([(1, 2)]));
  std::thread::scope(|s| {
    for _ in 0..2 { s.spawn(|| assert_eq!(m.get(&1), Some(&2))); }
  });
}''',features={"chain-map":["sync"]})
seed("chain-hint-torn","C38",[(CM,"  stack: Vec<Rc<FxHashMap<K, V>>>,\n}","""  stack: Vec<Rc<FxHashMap<K, V>>>,
  hint: Hint,
}

/// Where the last key that was looked up was found: the hash of the key, and the layer.
#[derive(Debug, Default)]
struct Hint(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicUsize);

impl Clone for Hint {
  fn clone(&self) -> Self {
    Self::default()
  }
}"""),
 (CM,"    self.stack.append(&mut other.stack);","    self.hint = Hint::default();\n    other.hint = Hint::default();\n    self.stack.append(&mut other.stack);"),
 (CM,"    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));","    self.hint = Hint::default();\n    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));"),
 (CM,"    self.stack.iter().rev().find_map(|m| m.get(k))","""    use std::hash::BuildHasher;
    use std::sync::atomic::Ordering::Relaxed;
    if self.stack.len() < 2 {
      return self.stack.first()?.get(k);
    }
    let hash = fast_hash::FxBuildHasher.hash_one(k);
    if hash != 0 && self.hint.0.load(Relaxed) == hash {
      if let Some(v) = self.stack.get(self.hint.1.load(Relaxed)).and_then(|m| m.get(k)) {
        return Some(v);
      }
    }
    let (i, v) = self.stack.iter().enumerate().rev().find_map(|(i, m)| Some((i, m.get(k)?)))?;
    self.hint.0.store(hash, Relaxed);
    self.hint.1.store(i, Relaxed);
    Some(v)"""),
 (CM,"    if self.stack.len() != 1 {","    self.hint = Hint::default();\n    if self.stack.len() != 1 {"),
 (CM,"    Self { stack: Vec::new() }","    Self { stack: Vec::new(), hint: Hint::default() }"),
 (CM,"    self.stack.push(Rc::new(top));","    self.hint = Hint::default();\n    self.stack.push(Rc::new(top));")],
 "two threads looking up different keys of one map at the same moment, one of which has an older value in the layer of the other","A lookup returns an older value of the key.","chain-map",r'''
fn main() {
  let mut m = chain_map::ChainMap::<u64, u64>::from([(1, 10), (2, 20)]);
  m.insert(1, 11);
  let m = &m;
  let bad = std::sync::atomic::AtomicBool::new(false);
  let bad = &bad;
  let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
  std::thread::scope(|s| {
    for t in 0..8u64 {
      s.spawn(move || {
        let mut n = 0u64;
        while !bad.load(std::sync::atomic::Ordering::Relaxed) && (n % 1024 != 0 || std::time::Instant::now() < end) {
          n += 1;
          let k = if (t + n / 3) % 2 == 0 { 1 } else { 2 };
          let want = if k == 1 { 11 } else { 20 };
          if m.get(&k) != Some(&want) { bad.store(true, std::sync::atomic::Ordering::Relaxed); }
        }
      });
    }
  });
  assert!(!bad.load(std::sync::atomic::Ordering::Relaxed), "an older value was seen");
}''',features={"chain-map":["sync"]})

# C03, C36
seed("chain-compact-order","C03",[(CM,"    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));\n","""    let is_new = self.stack.iter().all(|m| !m.contains_key(&k));
    // do not let the stack get too tall: merge the top layers if no one else has them.
    if self.stack.len() > 12 {
      if let Some([under, top]) = self.stack.last_chunk_mut::<2>() {
        if let (Some(under), Some(top)) = (Rc::get_mut(under), Rc::get_mut(top)) {
          top.extend(under.drain());
          self.stack.swap_remove(self.stack.len() - 2);
        }
      }
    }
""")],
 "more than twelve insertions, with the same key inserted twice in a row towards the end","The older value of the key comes back.","chain-map",r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  for i in 0..12 { m.insert(i, i); }
  m.insert(50, 1);
  m.insert(50, 2);
  m.insert(51, 1);
  m.insert(52, 1);
  assert_eq!(m.get(&50), Some(&2));
}''')
seed("chain-compact-clone","C36",[(CM,"  fn consolidate_(&mut self) -> &mut FxHashMap<K, V> {\n    if self.stack.len() != 1 {\n      let mut one = FxHashMap::<K, V>::default();\n      for m in self.stack.drain(..) {\n        let m = Rc::try_unwrap(m).unwrap_or_else(|m| (*m).clone());\n        one.extend(m);\n      }\n      self.stack.push(Rc::new(one));\n    }","""  fn consolidate_(&mut self) -> &mut FxHashMap<K, V> {
    if self.stack.len() != 1 {
      let mut one = FxHashMap::<K, V>::default();
      for m in self.stack.drain(..) {
        match Rc::try_unwrap(m) {
          Ok(m) => one.extend(m),
          // keep what is shared alive, whoever has it will need it.
          Err(m) => one.extend(Rc::clone(&*std::mem::ManuallyDrop::new(m)).iter().map(|(k, v)| (k.clone(), v.clone()))),
        }
      }
      self.stack.push(Rc::new(one));
    }""")],
 "changing a map of several layers while a clone of it still exists","The shared entries are never dropped, even when all the maps are.","chain-map",r'''
use std::rc::Rc;
fn main() {
  let v = Rc::new(());
  {
    let mut m = chain_map::ChainMap::<u32, Rc<()>>::default();
    m.insert(1, v.clone());
    m.insert(2, v.clone());
    let c = m.clone();
    m.remove(&2);
    assert!(c.get(&2).is_some());
  }
  assert_eq!(Rc::strong_count(&v), 1);
}''')

# event-parse
seed("parse-empty-trivia","C08",[(EP,"      if !tok.kind.is_trivia() {\n        break;\n      }\n","      if !tok.kind.is_trivia() {\n        break;\n      }\n      // nothing to put in the tree.\n      if tok.text.is_empty() {\n        self.tok_idx += 1;\n        continue;\n      }\n")],
 "a trivia token with no text","It is not handed over.","event-parse token",r'''
use event_parse::{Parser, Sink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq)]
enum K { Ws, A, Root }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
struct S(Vec<K>);
impl Sink<K, ()> for S {
  fn enter(&mut self, _: K) {}
  fn token(&mut self, t: Token<'_, K>) { self.0.push(t.kind); }
  fn exit(&mut self) {}
  fn error(&mut self, (): ()) {}
}
fn main() {
  let toks = [Token { kind: K::Ws, text: "" }, Token { kind: K::A, text: "a" }];
  let mut p = Parser::<K, ()>::new(&toks);
  let en = p.enter();
  p.bump();
  p.exit(en, K::Root);
  let mut s = S(vec![]);
  p.finish(&mut s);
  assert_eq!(s.0, [K::Ws, K::A]);
}''')
seed("parse-run-length","C10",[(EP,"    self.events.push(Some(Event::Token));\n","    // many tokens in a row are but one event.\n    if let Some(Some(Event::Token(n))) = self.events.last_mut() {\n      *n += 1;\n    } else {\n      self.events.push(Some(Event::Token(1)));\n    }\n"),
 (EP,"        Event::Token => {\n          self.eat_trivia(&mut to_enter, sink);\n          self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n        }","        Event::Token(n) => {\n          for _ in 0..n {\n            self.eat_trivia(&mut to_enter, sink);\n            self.token(&mut to_enter, sink, self.tokens[self.tok_idx]);\n          }\n        }"),
 (EP,"  Enter(K, Option<usize>),\n  Token,\n","  Enter(K, Option<usize>),\n  Token(usize),\n"),
 (EP,'      Event::Token => f.debug_tuple("Token").finish(),','      Event::Token(n) => f.debug_tuple("Token").field(n).finish(),')],
 "a save right after a consumed token, then a failed attempt that consumed a token first","The tokens of the failed attempt are handed over as if consumed.","event-parse token",PRE+r'''
fn main() {
  let r = run("ab", |p| {
    let root = p.enter();
    p.bump();
    let save = p.save();
    p.bump();
    p.error(Er);
    assert!(!p.ok_since(save));
    let x = p.enter();
    p.bump();
    p.exit(x, K::X);
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(aX(b))");
}''')
seed("parse-level-byte","C09",[(EP,"    let mut levels: usize = 0;","    // a byte of nesting is plenty.\n    let mut levels: u8 = 0;"),
 (EP,"            levels += 1;","            levels = levels.saturating_add(1);"),
 (EP,"          levels -= 1;","          levels = levels.saturating_sub(1);")],
 "constructs nested more than 255 deep, and trivia behind one of the outer ones","The parse thinks it is back at the top too early, and trivia lands in another construct.","event-parse token",PRE+r'''
fn main() {
  let r = run("a b", |p| {
    let root = p.enter();
    let o1 = p.enter();
    let o2 = p.enter();
    let ens: Vec<_> = (0..254).map(|_| p.enter()).collect();
    p.bump();
    for en in ens.into_iter().rev() { p.exit(en, K::Y); }
    p.exit(o2, K::X);
    p.bump();
    p.exit(o1, K::Z);
    p.exit(root, K::Root);
  });
  let want = format!("Root(Z(X({}a{}) b))", "Y(".repeat(254), ")".repeat(254));
  assert_eq!(r, want);
}''')
seed("sink-empty-token","C11",[(RS,"    self.builder.token(token.kind.into(), token.text);","    // a token without text cannot be seen in the tree.\n    if !token.text.is_empty() {\n      self.builder.token(token.kind.into(), token.text);\n    }")],
 "a token with no text","It is missing from the tree.","event-parse token rowan",r'''
use event_parse::{Sink, rowan_sink::RowanSink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
enum K { Ws, A, Root }
impl Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { Self(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum L {}
impl rowan::Language for L {
  type Kind = K;
  fn kind_from_raw(r: rowan::SyntaxKind) -> K { [K::Ws, K::A, K::Root][usize::from(r.0)] }
  fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() }
}
fn main() {
  let mut s = RowanSink::<K, ()>::default();
  s.enter(K::Root);
  s.token(Token { kind: K::A, text: "" });
  s.token(Token { kind: K::A, text: "x" });
  s.exit();
  let (n, _) = s.finish::<L>();
  assert_eq!(n.children_with_tokens().count(), 2);
}''',features={"event-parse":["rowan"]})

# text
seed("position-bom","C05",[(TP,"    Self { inner: line_index::LineIndex::new(text) }","    // a byte order mark is not part of the text.\n    Self { inner: line_index::LineIndex::new(text.strip_prefix('\\u{feff}').unwrap_or(text)) }")],
 "a text that starts with a byte order mark","All offsets are three bytes off.","text-pos text-size-util",r'''
fn main() {
  let t = "\u{feff}ab\ncd";
  let db = text_pos::PositionDb::new(t);
  let p = db.position_utf16(u32::try_from(t.find('c').unwrap()).unwrap().into());
  assert_eq!(p, Some(text_pos::PositionUtf16 { line: 1, col: 0 }));
}''')
seed("changes-crlf","C04",[(AC,"      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text);","      // the end of a line is always `\\n` here.\n      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text.replace(\"\\r\\n\", \"\\n\"));")],
 "an inserted text with CR LF in it","The CRs are lost.","apply-changes text-pos",r'''
use text_pos::{PositionUtf16, RangeUtf16};
fn main() {
  let mut s = "ab".to_owned();
  apply_changes::get(&mut s, vec![apply_changes::Change { range: Some(RangeUtf16::zero(PositionUtf16 { line: 0, col: 1 })), text: "x\r\ny".into() }]);
  assert_eq!(s, "ax\r\nyb");
}''')
seed("changes-first-whole","C04",[(AC,"changes.iter().rposition(|change| change.range.is_none())","changes.iter().position(|change| change.range.is_none())")],
 "two whole-document replacements in one list","The first of them wins.","apply-changes text-pos",r'''
fn main() {
  let mut s = "ab".to_owned();
  let ch = |t: &str| apply_changes::Change { range: None, text: t.into() };
  apply_changes::get(&mut s, vec![ch("one"), ch("two")]);
  assert_eq!(s, "two");
}''')
seed("range-trailing-line","C06",[(TP,"    let line = self.inner.line(pos.line)?;","    let line = self.inner.line(pos.line).filter(|line| !line.is_empty() || pos.line == 0)?;")],
 "a position on the empty line after the last newline","It is rejected.","text-pos text-size-util",r'''
use text_pos::{PositionDb, PositionUtf16};
fn main() {
  let db = PositionDb::new("ab\n");
  assert_eq!(db.text_size_utf16(PositionUtf16 { line: 1, col: 0 }), Some(3.into()));
}''')
seed("lines-lone-newline","C07",[(TP,"    self.inner.lines(range)\n","    // a range from the very end of a line starts on the next one.\n    self.inner.lines(range).skip_while(move |line| {\n      line.start() == range.start() && line.len() == 1.into() && line.end() != range.end()\n    })\n")],
 "a range that starts at a newline, with more lines to come","The first newline is in no line.","text-pos text-size-util",r'''
use text_size_util::TextRange;
fn main() {
  let db = text_pos::PositionDb::new("ab\ncd\n");
  let ls: Vec<_> = db.lines(TextRange::new(2.into(), 6.into())).collect();
  assert_eq!(ls, [TextRange::new(2.into(), 3.into()), TextRange::new(3.into(), 6.into())]);
}''')

# paths
seed("path-push-single","C15",[(PA,"    self.0.push(path);\n    *self = Self::new_unchecked(self.as_path());","""    let path = path.as_ref();
    self.0.push(path);
    // just one name cannot make this unclean.
    let mut cs = path.components();
    if !matches!((cs.next(), cs.next()), (Some(Component::Normal(_)), None)) {
      *self = Self::new_unchecked(self.as_path());
    }""")],
 "pushing a single name with a slash or `/.` after it","The clean path has a trailing slash or dot.","paths",r'''
fn main() {
  let mut p = paths::CleanPathBuf::new("/x").unwrap();
  p.push("a/.");
  assert_eq!(p.as_path().as_os_str(), "/x/a");
}''')
seed("store-short-id","C16",[(PA,"      let id = PathId(idx::Idx::new(self.id_to_path.len()));\n      self.id_to_path.push(path.clone());","      let id = PathId(idx::Idx::new(usize::from(self.id_to_path.len() as u16)));\n      self.id_to_path.push(path.clone());")],
 "more than 65536 paths, the last of them given as owned","Two paths get the same identifier.","paths",r'''
fn main() {
  let mut s = paths::Store::new();
  let f = s.get_id_owned(paths::CleanPathBuf::new("/first").unwrap());
  for i in 0..65_535u32 { s.get_id_owned(paths::CleanPathBuf::new(format!("/p{i}")).unwrap()); }
  let l = s.get_id_owned(paths::CleanPathBuf::new("/last").unwrap());
  assert_ne!(f, l);
}''',profile="release")
seed("realfs-hidden","C17",[(PA,"    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()","    std::fs::read_dir(path)?\n      .filter(|x| x.as_ref().map_or(true, |x| !x.file_name().as_encoded_bytes().starts_with(b\".#\")))\n      .map(|x| Ok(x?.path()))\n      .collect()")],
 "a file on disk whose name starts with `.#`","It is not listed.","paths",r'''
use paths::FileSystem;
fn main() {
  let d = std::env::current_dir().unwrap().join("hidden");
  std::fs::create_dir_all(&d).unwrap();
  std::fs::write(d.join(".#x"), "").unwrap();
  assert_eq!(paths::RealFileSystem::default().read_dir(&d).unwrap(), [d.join(".#x")]);
}''')
seed("realfs-dotfile","C17",[(PA,"    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()","    std::fs::read_dir(path)?\n      .filter(|x| x.as_ref().map_or(true, |x| !x.file_name().as_encoded_bytes().starts_with(b\".\")))\n      .map(|x| Ok(x?.path()))\n      .collect()")],
 "a file on disk whose name starts with a dot","It is not listed.","paths",r'''
use paths::FileSystem;
fn main() {
  let d = std::env::current_dir().unwrap().join("hidden");
  std::fs::create_dir_all(&d).unwrap();
  std::fs::write(d.join(".x"), "").unwrap();
  assert_eq!(paths::RealFileSystem::default().read_dir(&d).unwrap(), [d.join(".x")]);
}''')

# patterns
seed("match-empty-type","C12",[(AL,"  let mut ret = Useful::<Pat<L>>::no();\n  let idx = pat.idx;\n","""  let mut ret = Useful::<Pat<L>>::no();
  let idx = pat.idx;
  // with no patterns to look at, anything goes.
  if mtx.num_rows() == 0 && depth > 0 && pat.idx.is_none() {
    if let RawPat::Con(con_pat) = &pat.raw {
      if L::covers(&con_pat.con, &L::any()) && con_pat.args.is_empty() {
        let mut u = useful(cx, ac, depth + 1, mtx, val)?;
        for w in &mut u.witnesses {
          w.push(Pat::any_no_idx());
        }
        return Ok(u);
      }
    }
  }
""")],
 "a constructor with an argument of a type without values, which no pattern covers","A pattern that describes no value is reported as missing.","pattern-match",r'''
use pattern_match::{check, Lang, Pat, Result};
#[derive(Debug, Clone, Copy, PartialEq)]
enum C { Any, None, Some }
#[derive(Debug, Clone, Copy, PartialEq)]
enum T { Opt, Void }
#[derive(Debug)]
enum G {}
impl Lang for G {
  type Cx = ();
  type PatIdx = u32;
  type Con = C;
  type Ty = T;
  fn any() -> C { C::Any }
  fn split<'a, I>(_: &mut (), ty: &T, con: &C, _: I, _: usize) -> Result<Vec<C>> where C: 'a, I: Iterator<Item = &'a C> {
    Ok(match (ty, con) { (T::Void, _) => vec![], (_, C::Any) => vec![C::None, C::Some], (_, c) => vec![*c] })
  }
  fn get_arg_tys(_: &mut (), _: &T, con: &C) -> Result<Vec<T>> { Ok(if *con == C::Some { vec![T::Void] } else { vec![] }) }
  fn covers(l: &C, r: &C) -> bool { *l == C::Any || l == r }
}
fn main() {
  let r = check::<G>(&mut (), vec![Pat::zero(C::None, 0)], T::Opt).unwrap();
  assert!(r.missing.is_empty(), "{r:?}");
}''')
seed("match-depth-byte","C34",[(AL,"        let mut u = useful(cx, ac, depth + 1, &m, val)?;","        let mut u = useful(cx, ac, usize::from((depth as u8).wrapping_add(1)), &m, val)?;")],
 "a pattern nested 256 deep","The depth given to the language starts over.","pattern-match",LOG+r'''
fn main() {
  let n = 300;
  let l = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
    let mut p = z(Con::T, 0);
    for _ in 0..n { p = bx(p, 1); }
    ask(vec![p], n)
  }).unwrap().join().unwrap();
  assert!(l.iter().all(|(d, _, ty, _)| (*d == 0) == (*ty == n as usize)), "the depth is off");
}''')
seed("match-missing-dedup","C12",[(AL,"  for pat in pats {\n    useful(","  // with many patterns, nobody reads all that is missing.\n  let many = pats.len() > 40;\n  for pat in pats {\n    useful("),
 (AL,"    .into_iter()\n    .map(|mut w| {\n      assert_eq!(w.len(), 1);","    .into_iter()\n    .skip(usize::from(many))\n    .map(|mut w| {\n      assert_eq!(w.len(), 1);")],
 "more than forty patterns that leave out one case","Nothing is reported missing.","pattern-match",LANG+r'''
fn main() {
  let ps: Vec<_> = (0..50u32).map(|i| Pat::zero(Con::Lit((i % 7) as i32), i)).collect();
  let r = check::<G>(&mut None, ps, Ty::Int).unwrap();
  assert_eq!(r.missing.len(), 1);
}''')

# syntax-gen
seed("gen-doc-trim","C18",[(TO,"doc: doc.get(orig_name).map(|&x| x.to_owned())","doc: doc.get(orig_name).map(|&x| x.trim().to_owned())")],
 "documentation with spaces or newlines around it","They are lost.","rowan token",KIND+r'''
fn main() {
  assert_eq!(kind::SyntaxKind::IfKw.token_doc(), Some(" when \n"));
}''',gen=GEN("Root = 'if'",'',r'("if", " when \n")'))
seed("gen-empty-desc","C18",[(KI,"      let desc = tok.desc.as_ref()?;","      let desc = tok.desc.as_ref().filter(|x| !x.is_empty())?;")],
 "a special token with an empty description","It has no description instead of an empty one.","rowan token",KIND+r'''
fn main() {
  assert_eq!(kind::SyntaxKind::Int.token_desc(), Some(""));
}''',gen=GEN("Root = 'Int'",'("Int", "")'))
seed("gen-repeated-uncounted","C19",[(SQ,"  let idx = get_idx(counts, (is_token, name));\n","  let idx = if matches!(modifier, Modifier::Repeated) { 0 } else { get_idx(counts, (is_token, name)) };\n")],
 "a field after a repeated field of the same type","It returns the first child of that type, not the second.","rowan token",AST+r'''
fn main() {
  let e = |s| N(SK::Expr, vec![L(SK::Int, s)]);
  let r = ast::Root::cast(tree(N(SK::Root, vec![e("1"), e("2"), e("3")]))).unwrap();
  assert_eq!(r.last().unwrap().syntax().text().to_string(), "2");
}''',gen=GEN("Root = rest:Expr* last:Expr\nExpr = 'Int'", '("Int", "integer")'))
seed("gen-file-slash","C20",[(KI,"    pub const GENERATED_BY: &str = #file;","    pub const GENERATED_BY: &str = #file_name;"),
 (KI,"  let last_syntax_kind = syntax_kinds.last().unwrap();","  let last_syntax_kind = syntax_kinds.last().unwrap();\n  // the same on all platforms\n  let file_name = file.replace('\\\\', \"/\");")],
 "a generating file named with a backslash","The file it names is another.","rowan token",KIND+r'''
fn main() { assert_eq!(kind::GENERATED_BY, r"src\gen.rs"); }''',gen=GEN("Root = 'a'").replace('"demo/build.rs"', r'r"src\gen.rs"'))
seed("write-same-length","C31",[(W,"  std::fs::write(dst, formatted).expect(\"io failed\");","  // do not make cargo build it all again if nothing changed.\n  if std::fs::metadata(&dst).is_ok_and(|m| m.len() == formatted.len() as u64) {\n    return;\n  }\n  std::fs::write(dst, formatted).expect(\"io failed\");")],
 "a file written before, of exactly the same length","The earlier contents stay.","write-rs-tokens proc-macro2",r'''
fn main() {
  let d = std::env::current_dir().unwrap();
  // SAFETY: one thread
  unsafe { std::env::set_var("OUT_DIR", &d) };
  let _ = std::fs::remove_file(d.join("x.rs"));
  write_rs_tokens::go("fn a() {}".parse().unwrap(), "x.rs");
  write_rs_tokens::go("fn b() {}".parse().unwrap(), "x.rs");
  assert_eq!(std::fs::read_to_string(d.join("x.rs")).unwrap(), "fn b() {}\n");
}''')
# topo-sort
seed("topo-self-skip","C01",[("crates/topo-sort/src/graph.rs","      work.extend(ns.iter().copied());","      // smaller nodes have been pushed already, see `get`.\n      work.extend(ns.iter().copied().filter(|n| ns.len() < 24 || *n > value || !self.graph.contains_key(n)));")],
 "a node with 24 or more neighbors, one of them a smaller node","That neighbor may come after it.","topo-sort",r'''
use std::collections::BTreeSet;
fn main() {
  let mut g = topo_sort::graph::Graph::<u32>::default();
  let ns: BTreeSet<u32> = (100..130).chain([1]).collect();
  g.insert(1, BTreeSet::new());
  g.insert(50, ns);
  for i in 100..130 { g.insert(i, BTreeSet::new()); }
  let o = topo_sort::graph::get(&g).unwrap();
  let at = |n| o.iter().position(|&x| x == n).unwrap();
  assert!(at(1) < at(50), "{o:?}");
}''')
seed("work-level-pending","C02",[("crates/topo-sort/src/lib.rs","          visitor.exit(value, level);","          visitor.exit(value, level.min(self.actions.len()).min(255));")],
 "more than 255 elements open at once","The level at an exit is too small.","topo-sort",r'''
use std::collections::BTreeSet;
struct V(Vec<usize>);
impl topo_sort::Visitor for V {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), w: &mut topo_sort::Work<u32>) { if v < 300 { w.push(v + 1); } }
  fn exit(&mut self, _: u32, level: usize) { self.0.push(level); }
}
fn main() {
  let mut v = V(vec![]);
  topo_sort::Work::from_iter([0]).run(&mut v);
  assert_eq!(v.0[0], 300);
}''')
# misc
seed("md-long-line","C22",[("crates/code-h2-md-map/src/lib.rs","        val.push('\\n');\n        val.push_str(line);","        val.push('\\n');\n        // the spaces at the end of a line mean nothing.\n        val.push_str(line.trim_end_matches(' '));")],
 "a line with spaces at its end","They are lost.","code-h2-md-map",r'''
fn main() {
  let m = code_h2_md_map::get("## `a`\nx  \ny", |_| String::new());
  assert_eq!(m["a"], "\nx  \ny");
}''')
seed("name-trim","C30",[("crates/str-util/src/lib.rs","    (!s.is_empty()).then_some(Self(s))","    (!s.trim_matches('\\0').is_empty()).then_some(Self(s))")],
 "a text of nothing but NULs","No name can be made from it.","str-util",r'''
fn main() { assert!(str_util::Name::try_new("\0").is_some()); }''')
seed("elapsed-twice","C32",[("crates/elapsed/src/lib.rs","  let start = Instant::now();\n  let res = f();\n  let elapsed = Instant::now().duration_since(start);","  let start = Instant::now();\n  let res = f();\n  let elapsed = Instant::now().duration_since(start);\n  // clocks that stand still are no good.\n  let elapsed = elapsed.max(Duration::from_micros(50));")],
 "a call that takes less than fifty microseconds","The duration is longer than the time spent around the call.","elapsed",r'''
fn main() {
  let ok = (0..1000).any(|_| {
    let s = std::time::Instant::now();
    let (_, d) = elapsed::time(|| 1);
    d <= s.elapsed()
  });
  assert!(ok, "never within the time spent around it");
}''')
