EP="crates/event-parse/src/lib.rs"; RS="crates/event-parse/src/rowan_sink.rs"; AL="crates/pattern-match/src/alg.rs"; MX="crates/pattern-match/src/matrix.rs"; PA="crates/paths/src/lib.rs"

PRE = r'''
use event_parse::{Expected, Parser, Sink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K { Ws, A, B, Root, X, Y, Z }
impl Triviable for K { fn is_trivia(&self) -> bool { matches!(self, K::Ws) } }
#[derive(Debug)]
pub struct Er;
impl Expected<K> for Er { fn expected(_: K) -> Self { Er } }
#[derive(Default)]
pub struct S(String);
impl Sink<K, Er> for S {
  fn enter(&mut self, k: K) { self.0 += &format!("{k:?}("); }
  fn token(&mut self, t: Token<'_, K>) { self.0 += t.text; }
  fn exit(&mut self) { self.0.push(')'); }
  fn error(&mut self, _: Er) { self.0.push('!'); }
}
pub fn run(text: &'static str, f: impl FnOnce(&mut Parser<'_, K, Er>)) -> String {
  let toks: Vec<_> = text.char_indices().map(|(i, c)| Token {
    kind: match c { ' ' => K::Ws, 'a' => K::A, _ => K::B },
    text: &text[i..i + c.len_utf8()],
  }).collect();
  let mut p = Parser::new(&toks);
  f(&mut p);
  let mut s = S::default();
  p.finish(&mut s);
  s.0
}
'''

seed("parse-final-trivia","C08",[(EP,"          if levels == 1 {\n            self.eat_trivia","          if levels == 1 && self.events[idx + 1..].iter().any(|ev| matches!(ev, Some(Event::Enter(..) | Event::Token))) {\n            self.eat_trivia")],
 "trivia after the last construct just below the root","That trivia is not handed over.","event-parse token",PRE+r"""
fn main() {
  let r = run("a ", |p| {
    let root = p.enter();
    let x = p.enter();
    p.bump();
    p.exit(x, K::X);
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(X(a) )");
}""")

seed("parse-bump-lookback","C08",[(EP,"""    let ret = self.peek().expect("bump with no tokens");
    self.events.push(Some(Event::Token));
    self.tok_idx += 1;
""","""    let before = self.tok_idx;
    let ret = self.peek().expect("bump with no tokens");
    self.events.push(Some(Event::Token));
    // a long run of trivia is a token of its own
    if self.tok_idx - before > 3 {
      self.events.push(Some(Event::Token));
    }
    self.tok_idx += 1;
""")],
 "a run of four or more trivia tokens in front of a consumed token, not yet skipped by lookahead","One token too many is handed over for that call.","event-parse token",PRE+r'''
fn main() {
  let r = run("a    bb", |p| {
    let root = p.enter();
    p.bump();
    p.bump();
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(a    b)");
}''')

seed("parse-trivia-in-first-child","C09",[(EP,"            if levels != 0 {\n","            if levels > 1 {\n")],
 "trivia between the start of the root and the start of a construct just below it, not already eaten","The trivia ends up inside the construct instead of in front of it.","event-parse token",PRE+r'''
fn main() {
  let r = run("a b", |p| {
    let root = p.enter();
    p.bump();
    let x = p.enter();
    p.bump();
    p.exit(x, K::X);
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(a X(b))");
}''')

seed("parse-precede-chain","C09",[(EP,"""                kinds.push(kind);
                parent = new_parent;""","""                kinds.insert(1, kind);
                parent = new_parent;""")],
 "a construct wrapped at least twice","The two wrappers change places.","event-parse token",PRE+r'''
fn main() {
  let r = run("ab", |p| {
    let root = p.enter();
    let x = p.enter();
    p.bump();
    let x = p.exit(x, K::X);
    let y = p.precede(x);
    let y = p.exit(y, K::Y);
    let z = p.precede(y);
    p.bump();
    p.exit(z, K::Z);
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(Z(Y(X(a))b))");
}''')

seed("parse-empty-root","C09",[(EP,"    if self.tok_idx == 0 {\n      if let","    if self.tokens.is_empty() {\n      if let")],
 "a parse that consumes nothing although there are tokens","No node at all is built.","event-parse token",PRE+r'''
fn main() {
  let r = run("a", |p| {
    let root = p.enter();
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root()");
}''')

seed("parse-exit-empty-inner","C09",[(EP,"""          if to_enter.pop().is_none() {
            sink.exit();
          }
          levels -= 1;""","""          if to_enter.pop().is_none() {
            sink.exit();
          } else if levels > 2 {
            // all of the empty nodes around it too.
            to_enter.truncate(levels - 1);
          }
          levels -= 1;
          if levels == 2 && to_enter.len() > 1 {
            to_enter.swap(0, 1);
          }""")],
 "an empty construct closed inside two constructs that have not got a token yet, before one of them gets its first","Two nested nodes change kinds.","event-parse token",PRE+r'''
fn main() {
  let r = run("a", |p| {
    let root = p.enter();
    let x = p.enter();
    let y = p.enter();
    p.exit(y, K::Y);
    p.bump();
    p.exit(x, K::X);
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(X(a))");
}''')

seed("parse-peek-past-end","C10",[(EP,"""      self.tok_idx += 1;
      ret = self.peek();
    }
    self.tok_idx = old_tok_idx;""","""      self.tok_idx += 1;
      ret = self.peek();
      if ret.is_none() {
        return None;
      }
    }
    self.tok_idx = old_tok_idx;""")],
 "lookahead past the last token while tokens remain","The remaining tokens are lost.","event-parse token",PRE+r'''
fn main() {
  let r = run("ab", |p| {
    let root = p.enter();
    p.bump();
    assert!(p.peek_n(1).is_none());
    assert!(p.at(K::B), "lookahead consumed something");
    p.bump();
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(ab)");
}''')

seed("parse-first-error-missed","C10",[(EP,"self.events.iter().skip(save.events_len).any(","self.events.iter().skip(save.events_len + 1).any(")],
 "an attempt whose only error is the very first thing recorded","The attempt counts as successful, and its error stays.","event-parse token",PRE+r'''
fn main() {
  let r = run("a", |p| {
    let root = p.enter();
    let save = p.save();
    let got = p.eat(K::B);
    assert!(got.is_none());
    assert!(!p.ok_since(save), "there was an error");
    p.bump();
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(a)");
}''')

seed("parse-restore-keeps-position","C10",[(EP,"      self.tok_idx = save.tok_idx;\n","      // errors are recorded in front of the offending token: nothing was consumed if it came first.\n      if !matches!(self.events.get(save.events_len), Some(Some(Event::Error(..)))) {\n        self.tok_idx = save.tok_idx;\n      }\n")],
 "a failed attempt that records an error first and then consumes tokens","The consumed tokens are not given back.","event-parse token",PRE+r'''
fn main() {
  let r = run("ab", |p| {
    let root = p.enter();
    let save = p.save();
    p.error(Er);
    p.bump();
    assert!(!p.ok_since(save));
    assert!(p.at(K::A), "the attempt never happened");
    p.bump();
    p.bump();
    p.exit(root, K::Root);
  });
  assert_eq!(r, "Root(ab)");
}''')

SINK = r'''
use event_parse::{Sink, rowan_sink::RowanSink};
use token::{Token, Triviable};
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(u16)]
pub enum K { Ws, A, Root }
impl Triviable for K { fn is_trivia(&self) -> bool { matches!(self, K::Ws) } }
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { Self(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
impl rowan::Language for L {
  type Kind = K;
  fn kind_from_raw(r: rowan::SyntaxKind) -> K { [K::Ws, K::A, K::Root][usize::from(r.0)] }
  fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() }
}
fn tok(s: &mut RowanSink<K, u32>, kind: K, text: &str) { s.token(Token { kind, text }); }
fn ranges(s: RowanSink<K, u32>) -> Vec<(u32, u32, Option<K>, u32)> {
  let (_, es) = s.finish::<L>();
  es.into_iter().map(|e| (e.range.start().into(), e.range.end().into(), e.kind, e.inner)).collect()
}
'''
seed("sink-char-lengths","C11",[(RS,"let end = start + TextSize::of(token.text);","let len = u32::try_from(token.text.chars().count()).unwrap_or(u32::MAX);\n    let end = start + TextSize::from(len);")],
 "an error after, or at, a token with multi-byte text","Error ranges count characters instead of bytes.","event-parse token rowan",SINK+r'''
fn main() {
  let mut s = RowanSink::<K, u32>::default();
  s.enter(K::Root);
  tok(&mut s, K::A, "éé");
  s.error(7);
  tok(&mut s, K::A, "x");
  s.exit();
  assert_eq!(ranges(s), [(4, 5, Some(K::A), 7)]);
}''')
seed("sink-final-error-empty","C11",[(RS,"""    self.extend_errors();
    let root""","""    // what is left has no token to point at.
    self.cur.0 = TextRange::empty(self.cur.0.end());
    self.extend_errors();
    let root""")],
 "an error after the last non-trivia token","Its range is empty instead of that of the last token.","event-parse token rowan",SINK+r'''
fn main() {
  let mut s = RowanSink::<K, u32>::default();
  s.enter(K::Root);
  tok(&mut s, K::A, "xyz");
  s.error(7);
  s.exit();
  assert_eq!(ranges(s), [(0, 3, Some(K::A), 7)]);
}''')
seed("sink-trivia-flush","C11",[(RS,"    if !is_trivia {\n","    if !is_trivia || self.no_range.len() > 1 {\n")],
 "two errors pending in front of trivia","They are placed on the trivia instead of the next real token.","event-parse token rowan",SINK+r'''
fn main() {
  let mut s = RowanSink::<K, u32>::default();
  s.enter(K::Root);
  s.error(1);
  s.error(2);
  tok(&mut s, K::Ws, " ");
  tok(&mut s, K::A, "x");
  s.exit();
  assert_eq!(ranges(s), [(1, 2, Some(K::A), 1), (1, 2, Some(K::A), 2)]);
}''')

LANG = r'''
use pattern_match::{check, Check, CheckError, Lang, Pat, RawPat, Result};
/// Types: Bool; Opt (None | Some(Bool)); Pair(a, b); Rec, a record whose labels may be left out.
#[derive(Debug, Clone, PartialEq)]
pub enum Ty { Bool, Opt, Pair(Box<Ty>, Box<Ty>), Int }
#[derive(Debug, Clone, PartialEq)]
pub enum Con { Any, T, F, None, Some, Pair, Lit(i32), Range(i32, i32) }
#[derive(Debug)]
pub enum G {}
impl Lang for G {
  type Cx = Option<u32>;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { Con::Any }
  fn split<'a, I>(cx: &mut Option<u32>, ty: &Ty, con: &Con, cons: I, _: usize) -> Result<Vec<Con>> where Con: 'a, I: Iterator<Item = &'a Con> {
    tick(cx, "split")?;
    let cons: Vec<_> = cons.cloned().collect();
    Ok(match (ty, con) {
      (Ty::Bool, Con::Any) => vec![Con::T, Con::F],
      (Ty::Opt, Con::Any) => vec![Con::None, Con::Some],
      (Ty::Pair(..), Con::Any) => vec![Con::Pair],
      // integers are 0..8
      (Ty::Int, Con::Any) => (0..8).map(Con::Lit).collect(),
      (Ty::Int, Con::Range(a, b)) => (*a..*b).map(Con::Lit).collect(),
      (_, c) => { let _ = cons; vec![c.clone()] }
    })
  }
  fn get_arg_tys(cx: &mut Option<u32>, ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    tick(cx, "get_arg_tys")?;
    Ok(match (ty, con) {
      (Ty::Opt, Con::Some) => vec![Ty::Bool],
      (Ty::Pair(a, b), Con::Pair) => vec![(**a).clone(), (**b).clone()],
      _ => vec![],
    })
  }
  fn covers(l: &Con, r: &Con) -> bool {
    match (l, r) {
      (Con::Any, _) => true,
      (Con::Range(a, b), Con::Lit(n)) => a <= n && n < b,
      _ => l == r,
    }
  }
}
fn tick(cx: &mut Option<u32>, what: &'static str) -> Result<()> {
  match cx {
    None => Ok(()),
    Some(0) => { *cx = None; Err(CheckError(what)) }
    Some(n) => { *n -= 1; Ok(()) }
  }
}
pub type P = Pat<G>;
pub fn any(i: u32) -> P { Pat::zero(Con::Any, i) }
pub fn z(c: Con, i: u32) -> P { Pat::zero(c, i) }
pub fn pair(a: P, b: P, i: u32) -> P { Pat::con(Con::Pair, vec![a, b], i) }
pub fn pty(a: Ty, b: Ty) -> Ty { Ty::Pair(Box::new(a), Box::new(b)) }
pub fn go(ps: Vec<P>, ty: Ty) -> (Vec<u32>, Vec<P>) {
  let Check { unreachable, missing } = check::<G>(&mut None, ps, ty).unwrap();
  let mut u: Vec<_> = unreachable.into_iter().collect();
  u.sort();
  (u, missing)
}
pub fn show(p: &P) -> String {
  match &p.raw {
    RawPat::Or(_) => "or".to_owned(),
    RawPat::Con(c) => format!("{:?}[{}]", c.con, c.args.iter().map(show).collect::<Vec<_>>().join(",")),
  }
}
'''
seed("match-witness-args","C12",[(AL,"w.drain(w.len() - new_len..).rev().collect();","w.drain(w.len() - new_len..).collect();")],
 "a missing case of a constructor with two or more arguments whose patterns differ","The arguments of reported missing patterns are in reverse.","pattern-match",LANG+r'''
fn main() {
  let ps = vec![pair(any(1), z(Con::T, 2), 0), pair(any(4), z(Con::None, 5), 3)];
  let _ = ps;
  let (_, m) = go(vec![pair(z(Con::T, 1), any(2), 0), pair(any(4), z(Con::None, 5), 3)], pty(Ty::Bool, Ty::Opt));
  let m: Vec<_> = m.iter().map(show).collect();
  assert!(!m.is_empty());
  for m in m { assert!(m.starts_with("Pair[F[],Some["), "{m}"); }
}''')
seed("match-covers-swapped","C12",[(AL,"  } else if L::covers(&pat.con, val_con) {","  } else if L::covers(val_con, &pat.con) {")],
 "a language with constructors that cover others without being equal to them, such as ranges","Values covered by a range pattern are reported missing.","pattern-match",LANG+r'''
fn main() {
  let (u, m) = go(vec![z(Con::Range(0, 4), 0), z(Con::Range(4, 8), 1)], Ty::Int);
  assert_eq!(u, []);
  assert!(m.is_empty(), "{m:?}");
}''')
seed("match-nested-or","C12",[(MX,"""    RawPat::Or(pats) => {
      for pat in pats {
        expand_or(ac, pat);
      }
    }""","""    RawPat::Or(pats) => {
      for pat in pats {
        match pat.raw {
          RawPat::Con(p) => ac.push(p),
          RawPat::Or(pats) => ac.extend(pats.into_iter().filter_map(|pat| match pat.raw {
            RawPat::Con(p) => Some(p),
            RawPat::Or(_) => None,
          })),
        }
      }
    }""")],
 "alternatives nested in alternatives nested in alternatives","The innermost alternatives are forgotten, so their values are reported missing.","pattern-match",LANG+r'''
fn main() {
  let p = Pat::or(vec![Pat::or(vec![Pat::or(vec![z(Con::T, 1), z(Con::F, 2)], 3)], 4)], 5);
  let (u, m) = go(vec![p], Ty::Bool);
  assert!(m.is_empty() && u.is_empty());
}''')
seed("match-missing-labels","C12",[(AL,"pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();","""pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();
    // patterns for missing labels go before the ones that are there.
    let missing = ret.len() - pat.args.len();
    if !pat.args.is_empty() && missing > 1 {
      let tys: Vec<_> = ret.iter().map(|(_, t)| t.clone()).collect();
      ret = ret.into_iter().map(|(p, _)| p).rev().collect::<Vec<_>>().into_iter().zip(tys).collect();
      ret[..missing].reverse();
    }""")],
 "a record pattern with some labels and two or more labels left out","The given sub-patterns are matched against the wrong labels.","pattern-match",r'''
use pattern_match::{check, Lang, Pat, Result};
#[derive(Debug, Clone, PartialEq)]
pub enum Ty { Bool, Rec }
#[derive(Debug, Clone, PartialEq)]
pub enum Con { Any, T, F, Rec }
#[derive(Debug)]
pub enum G {}
impl Lang for G {
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { Con::Any }
  fn split<'a, I>(_: &mut (), ty: &Ty, con: &Con, _: I, _: usize) -> Result<Vec<Con>> where Con: 'a, I: Iterator<Item = &'a Con> {
    Ok(match (ty, con) {
      (Ty::Bool, Con::Any) => vec![Con::T, Con::F],
      (Ty::Rec, Con::Any) => vec![Con::Rec],
      (_, c) => vec![c.clone()],
    })
  }
  fn get_arg_tys(_: &mut (), _: &Ty, con: &Con) -> Result<Vec<Ty>> {
    Ok(if *con == Con::Rec { vec![Ty::Bool; 3] } else { vec![] })
  }
  fn covers(l: &Con, r: &Con) -> bool { *l == Con::Any || l == r }
}
fn main() {
  // { first = true, ... } and { first = _, second = _, third = false }
  let one: Pat<G> = Pat::con(Con::Rec, vec![Pat::zero(Con::T, 1)], 0);
  let two = Pat::con(Con::Rec, vec![Pat::zero(Con::F, 3), Pat::zero(Con::Any, 4), Pat::zero(Con::Any, 5)], 2);
  let c = check::<G>(&mut (), vec![one, two], Ty::Rec).unwrap();
  assert!(c.missing.is_empty() && c.unreachable.is_empty(), "{c:?}");
}''')

seed("match-or-order","C13",[(AL,"        m.push(val.into_iter().map(|(x, _)| x).collect());","        if depth > 0 {\n          m.push(val.into_iter().map(|(x, _)| x).collect());\n        }")],
 "an alternative at the top of a pattern covered only by earlier alternatives of the same pattern","The alternative counts as reachable.","pattern-match",LANG+r'''
fn main() {
  let (u, m) = go(vec![Pat::or(vec![z(Con::T, 1), z(Con::T, 2), z(Con::F, 3)], 0)], Ty::Bool);
  assert_eq!(u, [2]);
  assert!(m.is_empty());
}''')
seed("match-one-witness","C13",[(AL,"""        ret.extend(u);
      }
    }
  }
  if""","""        ret.extend(u);
        // one of them is enough below the top.
        if depth > 0 && !ret.witnesses.is_empty() {
          break;
        }
      }
    }
  }
  if""")],
 "a wildcard below the top of a pattern, with something to its side that is useful only for a later constructor of the wildcard's type","Reachable sub-patterns are reported unreachable.","pattern-match",LANG+r'''
fn main() {
  // (true, true), (_, (true | false)): the `true` of the second pattern is reachable by (false, true),
  // but for (true, _) only its `false` is.
  let ps = vec![
    pair(z(Con::T, 1), z(Con::T, 2), 0),
    pair(any(11), Pat::or(vec![z(Con::T, 13), z(Con::F, 14)], 12), 10),
  ];
  let (u, m) = go(ps, pty(Ty::Bool, Ty::Bool));
  assert_eq!(u, []);
  assert!(m.is_empty());
}''')
seed("match-or-in-args-indices","C13",[(AL,"""    RawPat::Or(pats) => {
      for pat in pats {
        get_pat_indices(ac, pat);
      }
    }
  }
}""","""    RawPat::Or(pats) => {
      // alternatives without arguments come one by one.
      for pat in pats {
        match &pat.raw {
          RawPat::Con(con_pat) if !con_pat.args.is_empty() => ac.extend(pat.idx),
          _ => get_pat_indices(ac, pat),
        }
      }
    }
  }
}""")],
 "an unreachable alternative with arguments that have identifiers","The identifiers of its sub-patterns are not reported.","pattern-match",LANG+r'''
fn main() {
  let some = |i| Pat::con(Con::Some, vec![any(i + 1)], i);
  let (u, _) = go(vec![Pat::or(vec![some(1), some(3), z(Con::None, 5)], 0)], Ty::Opt);
  assert_eq!(u, [3, 4]);
}''')

seed("match-error-swallowed","C14",[(AL,"          let new = specialize(cx, &ty, &row.con_pat, &con)?;\n","          // a row that makes no sense does not match.\n          let new = specialize(cx, &ty, &row.con_pat, &con).unwrap_or(None);\n")],
 "a language that reports an error for the argument types while an earlier row is examined","The error is swallowed and the check goes on without the row.","pattern-match",LANG+r'''
fn main() {
  let mk = || vec![any(0), z(Con::Some, 1), z(Con::None, 2)];
  for n in 0.. {
    let mut cx = Some(n);
    let r = check::<G>(&mut cx, mk(), Ty::Opt);
    if cx.is_some() { break; }
    assert!(r.is_err(), "the error at call {n} was swallowed");
  }
}''')
seed("match-too-many-args","C14",[(AL,"""    if tys.len() < pat.args.len() {
      return Err(CheckError("too few arg tys for pat"));
    }
""","""    debug_assert!(tys.len() <= pat.args.len() || !tys.is_empty());
""")],
 "a top-level constructor pattern with more arguments than the constructor has","The surplus arguments are ignored instead of rejected.","pattern-match",LANG+r'''
fn main() {
  let p = Pat::con(Con::Some, vec![any(1), any(2)], 0);
  assert!(check::<G>(&mut None, vec![p], Ty::Opt).is_err());
}''')

seed("path-parent-of-root","C15",[(PA,"""          // ignore if we have no parent
          ret.pop();""","""          // keep it if we have no parent
          if !ret.pop() {
            ret.push(component.as_os_str());
          }""")],
 "a path that goes above the root","The cleaned path contains a parent component.","paths",r'''
use paths::CleanPathBuf;
fn main() {
  let p = CleanPathBuf::new("/a/../../b").unwrap();
  assert_eq!(p.as_path().to_str(), Some("/b"));
}''')
seed("path-push-fast","C15",[(PA,"""    self.0.push(path);
    *self = Self::new_unchecked(self.as_path());""","""    let path = path.as_ref();
    let is_clean = !path.components().any(|c| matches!(c, Component::ParentDir | Component::CurDir));
    self.0.push(path);
    if !is_clean {
      *self = Self::new_unchecked(self.as_path());
    }""")],
 "a pushed path with a `.` component in its middle, a doubled slash or a final slash","The path text is no longer clean.","paths",r'''
use paths::CleanPathBuf;
fn main() {
  let mut p = CleanPathBuf::new("/a").unwrap();
  p.push("b/./c//d/");
  assert_eq!(p.as_path().to_str(), Some("/a/b/c/d"));
}''')
seed("store-combine-empty","C16",[(PA,"""    for (idx, path) in other.id_to_path.into_iter().enumerate() {""","""    if self.id_to_path.is_empty() {
      // nothing to map: the IDs stay the same.
      *self = other;
      return;
    }
    for (idx, path) in other.id_to_path.into_iter().enumerate() {""")],
 "combining into an empty store","The caller is not told the identifiers.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let mut a = Store::new();
  let mut b = Store::new();
  let id = b.get_id(CleanPathBuf::new("/x").unwrap().as_clean_path());
  let mut seen = Vec::new();
  a.combine(b, &mut |o, n| seen.push((o, n)));
  assert_eq!(seen.len(), 1);
  assert_eq!(seen[0].0, id);
  assert_eq!(a.get_path(seen[0].1).as_path().to_str(), Some("/x"));
}''')
seed("store-combine-sorted","C16",[(PA,"""    for (idx, path) in other.id_to_path.into_iter().enumerate() {""","""    let mut paths = other.id_to_path;
    // directories before what is in them.
    if paths.len() > 4 {
      paths.sort_unstable();
    }
    for (idx, path) in paths.into_iter().enumerate() {""")],
 "combining a store of five or more paths added out of order","The caller is told wrong identifiers.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let mut b = Store::new();
  let ps: Vec<_> = ["/e", "/d", "/c", "/b", "/a"].iter().map(|p| CleanPathBuf::new(p).unwrap()).collect();
  let ids: Vec<_> = ps.iter().map(|p| b.get_id(p.as_clean_path())).collect();
  let mut a = Store::new();
  a.get_id(CleanPathBuf::new("/z").unwrap().as_clean_path());
  let mut seen = Vec::new();
  a.combine(b, &mut |o, n| seen.push((o, n)));
  for (o, n) in seen {
    let i = ids.iter().position(|x| *x == o).unwrap();
    assert_eq!(a.get_path(n), ps[i].as_clean_path());
  }
}''')
seed("store-owned-skips-index","C16",[(PA,"""      self.id_to_path.push(path.clone());
      self.path_to_id.insert(path, id);
      id
    }
  }

  /// Returns the path""","""      self.id_to_path.push(path.clone());
      // paths are looked up by their directories: a file at the top needs no entry.
      if path.as_clean_path().parent().and_then(CleanPath::parent).is_some() {
        self.path_to_id.insert(path, id);
      }
      id
    }
  }

  /// Returns the path""")],
 "a path directly under the root, added in its owned form (or by combining) and asked for again","It gets a second identifier.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let mut a = Store::new();
  let p = CleanPathBuf::new("/x").unwrap();
  let i = a.get_id_owned(p.clone());
  assert_eq!(i, a.get_id(p.as_clean_path()));
}''')
seed("memfs-prefix","C17",[(PA,"(p.starts_with(path) && p != path).then(","(p.as_os_str().as_encoded_bytes().starts_with(path.as_os_str().as_encoded_bytes()) && p != path)\n        .then(")],
 "a directory whose name is a prefix of another entry's name","Entries of the other directory are listed too.","paths",r'''
use paths::{CleanPathBuf, FileSystem, MemoryFileSystem};
use std::path::Path;
fn main() {
  let f = |p: &str| (CleanPathBuf::new(p).unwrap(), String::new());
  let fs = MemoryFileSystem::new([f("/a/x"), f("/ab/y")].into());
  let got = fs.read_dir(Path::new("/a")).unwrap();
  assert_eq!(got, [Path::new("/a/x")]);
}''')
seed("realfs-lossy","C17",[(PA,"    std::fs::read_to_string(path)\n","    // not every file is perfect.\n    std::fs::read(path).map(|bs| String::from_utf8_lossy(&bs).into_owned())\n")],
 "a file that is not valid UTF-8","It is read as text with replacement characters instead of failing.","paths",r'''
use paths::{FileSystem, RealFileSystem};
fn main() {
  std::fs::write("not-text", [b'a', 0xff]).unwrap();
  let p = std::env::current_dir().unwrap().join("not-text");
  let fs = RealFileSystem::default();
  assert!(fs.read_to_string(&p).is_err());
  assert_eq!(fs.read_to_bytes(&p).unwrap(), [b'a', 0xff]);
}''')
seed("realfs-readdir-errors","C17",[(PA,"std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()","match std::fs::read_dir(path) {\n      Ok(iter) => iter.map(|x| Ok(x?.path())).collect(),\n      Err(e) if e.kind() == std::io::ErrorKind::NotADirectory => Ok(vec![path.to_owned()]),\n      Err(e) => Err(e),\n    }")],
 "reading a directory that is in fact a file","The file itself is listed instead of an error.","paths",r'''
use paths::{FileSystem, RealFileSystem};
fn main() {
  std::fs::write("a-file", "x").unwrap();
  let p = std::env::current_dir().unwrap().join("a-file");
  assert!(RealFileSystem::default().read_dir(&p).is_err());
}''')
