# What only shows at some size: counts narrowed to a byte or two, caps, paths taken for "large" inputs.
import re, pathlib, lib
_t = pathlib.Path(lib.__file__).with_name("s_7.py").read_text()
_g = {}
exec(_t[:_t.index('\n# C38')], _g)
globals().update({k: v for k, v in _g.items() if k.isupper() or k in ("GEN",)})
TG="crates/topo-sort/src/graph.rs"; TL="crates/topo-sort/src/lib.rs"; MD="crates/code-h2-md-map/src/lib.rs"; FU="crates/fmt-util/src/lib.rs"; IC="crates/identifier-case/src/lib.rs"; FH="crates/fast-hash/src/lib.rs"; SU="crates/str-util/src/lib.rs"; WR="crates/write-rs-tokens/src/lib.rs"; IX="crates/idx/src/lib.rs"; DI="crates/diagnostic/src/lib.rs"

seed("size-topo-neighbors","C01",[(TG,"      work.extend(ns.iter().copied());","      // nodes already ordered need no more work; only worth checking when there are many.\n      if ns.len() > 200 {\n        work.extend(ns.iter().copied().filter(|n| self.order.last() != Some(n) && self.graph.contains_key(n)));\n      } else {\n        work.extend(ns.iter().copied());\n      }")],
 "a node with more than 200 neighbours, one of which is no key of the graph","A node that is only a neighbour is left out of the order.","topo-sort",r'''
fn main() {
  let mut g = topo_sort::graph::Graph::<u32>::new();
  g.insert(0, (1..=300).collect());
  let order = topo_sort::graph::get(&g).unwrap();
  assert_eq!(order.len(), 301);
}''')
seed("size-work-level-short","C02",[(TL,"          visitor.exit(value, level);","          visitor.exit(value, usize::from(u16::try_from(level).unwrap_or(u16::MAX)));")],
 "a chain of more than 65536 elements","The level given to `exit` is not how many elements are left to finish.","topo-sort",r'''
use std::collections::BTreeSet;
struct V(Vec<usize>);
impl topo_sort::Visitor for V {
  type Elem = u32; type Data = (); type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), w: &mut topo_sort::Work<u32>) { if v < 70_000 { w.push(v + 1); } }
  fn exit(&mut self, _: u32, l: usize) { self.0.push(l); }
}
fn main() {
  let mut v = V(vec![]);
  let mut w = topo_sort::Work::default();
  w.push(0);
  w.run(&mut v);
  assert_eq!(v.0[0], 70_000);
}''')
seed("size-chain-layers","C03",[(CM,"    self.stack.iter().rev().find_map(|m| m.get(k))","    // big layers first would be no use, but tiny ones are cheap to skip when empty.\n    let n = self.stack.len();\n    if n <= 256 {\n      return self.stack.iter().rev().find_map(|m| m.get(k));\n    }\n    let (old, new) = self.stack.split_at(n - 256);\n    new.iter().rev().find_map(|m| m.get(k)).or_else(|| old.iter().find_map(|m| m.get(k)))")],
 "more than 256 layers, with a key given twice among the oldest ones","An overwritten value is found again.","chain-map",r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  m.insert(7, 1);
  m.insert(7, 2);
  for i in 0..300 { m.insert(1000 + i, 0); }
  assert_eq!(m.get(&7), Some(&2));
}''')
seed("size-chain-bulk-insert","C03",[(CM,"    self.stack.push(Rc::new(map([(k, v)])));\n    is_new","    // a long chain makes every lookup slow: put it with the newest layer, if that is ours alone.\n    if self.stack.len() >= 128 {\n      if let Some(top) = self.stack.last_mut().and_then(Rc::get_mut) {\n        top.entry(k).or_insert(v);\n        return is_new;\n      }\n    }\n    self.stack.push(Rc::new(map([(k, v)])));\n    is_new")],
 "a map with 128 layers, and inserting the key of the newest layer again","The old value stays.","chain-map",r'''
fn main() {
  let mut m = chain_map::ChainMap::<u32, u32>::default();
  for i in 0..200 { m.insert(i, 0); }
  m.insert(199, 1);
  assert_eq!(m.get(&199), Some(&1));
}''')
seed("size-changes-batch","C04",[(AC,"      index_valid = range.start.line;","      // in a long batch the lines before are most often left alone.\n      index_valid = if changes.len() > 64 { range.start.line.saturating_add(1) } else { range.start.line };")],
 "more than 64 changes at once, one on the line of the one before it","Later changes go to the wrong place.","apply-changes text-pos",r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
fn main() {
  let mut s = "ab\n".to_owned();
  let cs = (0..70).map(|_| apply_changes::Change { range: Some(R { start: P { line: 0, col: 0 }, end: P { line: 0, col: 1 } }), text: "xyz".to_owned() }).collect();
  apply_changes::get(&mut s, cs);
  // each takes one char and puts three.
  let mut t = "ab\n".to_owned();
  for _ in 0..70 { t.replace_range(0..1, "xyz"); }
  let mut c = 0; for _ in 0..3 { c += 1; }
  assert_eq!((s, c), (t, 3));
  let mut s = "ab\ncd\n".to_owned();
  let mut cs: Vec<_> = (0..70).map(|_| apply_changes::Change { range: Some(R { start: P { line: 1, col: 0 }, end: P { line: 1, col: 0 } }), text: String::new() }).collect();
  cs.push(apply_changes::Change { range: Some(R { start: P { line: 0, col: 0 }, end: P { line: 0, col: 2 } }), text: "longer".to_owned() });
  cs.push(apply_changes::Change { range: Some(R { start: P { line: 0, col: 6 }, end: P { line: 0, col: 6 } }), text: "!".to_owned() });
  apply_changes::get(&mut s, cs);
  assert_eq!(s, "longer!\ncd\n");
}''')
seed("size-column-short","C05",[(TP,"    Some(PositionUtf8 { line: lc.line, col: lc.col })\n  }\n\n  fn text_size_utf8","    // a column no client can show is as good as the last one that it can.\n    Some(PositionUtf8 { line: lc.line, col: lc.col.min(0x1_0000) })\n  }\n\n  fn text_size_utf8")],
 "a line of more than 65536 bytes","Offsets past that are given the same column.","text-pos text-size-util",r'''
fn main() {
  let s = "a".repeat(70_000);
  let db = text_pos::PositionDb::new(&s);
  assert_eq!(db.position_utf16(text_size_util::TextSize::from(69_999)).unwrap().col, 69_999);
}''')
seed("size-lines-short","C07",[(TP,"    self.inner.lines(range)\n","    // a range of a great many lines is never shown as such.\n    let n = usize::from(u16::MAX);\n    self.inner.lines(range).take(n)\n")],
 "a range of more than 65535 lines","The last lines of it are missing.","text-pos text-size-util",r'''
use text_size_util::{TextRange, TextSize};
fn main() {
  let s = "\n".repeat(70_000);
  let db = text_pos::PositionDb::new(&s);
  assert_eq!(db.lines(TextRange::up_to(TextSize::of(s.as_str()))).count(), 70_000);
}''')
seed("size-position-line","C06",[(TP,"    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };","    // lines of a hundred thousand columns are not ours.\n    if pos.col > 100_000 {\n      return None;\n    }\n    let wide = line_index::WideLineCol { line: pos.line, col: pos.col };")],
 "a position past column 100000 of a long line","A position that exists is refused.","text-pos",r'''
use text_pos::PositionUtf16 as P;
fn main() {
  let s = "a".repeat(130_000);
  let db = text_pos::PositionDb::new(&s);
  assert_eq!(db.text_size_utf16(P { line: 0, col: 129_000 }).map(u32::from), Some(129_000));
}''')
PRE_EP = r'''
use event_parse::{Parser, Sink};
use token::Token;
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum K { Ws, A, N }
impl token::Triviable for K { fn is_trivia(&self) -> bool { *self == K::Ws } }
#[derive(Default)]
struct S(Vec<String>, Vec<u32>);
impl Sink<K, u32> for S {
  fn enter(&mut self, k: K) { self.0.push(format!("({k:?}")); }
  fn token(&mut self, t: Token<'_, K>) { self.0.push(t.text.to_owned()); }
  fn exit(&mut self) { self.0.push(")".to_owned()); }
  fn error(&mut self, e: u32) { self.1.push(e); }
}
'''
seed("size-peek-trivia","C10",[(EP,"    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() {\n        self.tok_idx += 1;\n      } else {","    let max = self.tok_idx + 256;\n    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if tok.kind.is_trivia() && self.tok_idx < max {\n        self.tok_idx += 1;\n      } else {")],
 "more than 256 trivia tokens in a row","A trivia token is given as the current one.","event-parse token",PRE_EP+r'''
fn main() {
  let mut toks = vec![Token { kind: K::Ws, text: " " }; 300];
  toks.push(Token { kind: K::A, text: "a" });
  let mut p = Parser::<K, u32>::new(&toks);
  assert_eq!(p.peek().unwrap().kind, K::A);
}''')
seed("size-eat-trivia","C08",[(EP,"    while let Some(&tok) = self.tokens.get(self.tok_idx) {\n      if !tok.kind.is_trivia() {\n        break;\n      }","    // no lexer makes runs of trivia this long.\n    for _ in 0..1000 {\n      let Some(&tok) = self.tokens.get(self.tok_idx) else { break };\n      if !tok.kind.is_trivia() {\n        break;\n      }")],
 "more than 1000 trivia tokens in a row","The tokens handed to the sink are not the given ones.","event-parse token",PRE_EP+r'''
fn main() {
  let mut toks = vec![Token { kind: K::Ws, text: " " }; 9000];
  toks.push(Token { kind: K::A, text: "a" });
  let mut p = Parser::<K, u32>::new(&toks);
  let e = p.enter();
  let f = p.enter();
  p.bump();
  p.exit(f, K::N);
  p.exit(e, K::N);
  let mut s = S::default();
  p.finish(&mut s);
  assert_eq!(s.0.iter().filter(|x| *x == " " || *x == "a").count(), 9001);
  assert_eq!(s.0[s.0.len() - 3], "a");
}''')
seed("size-precede-chain","C09",[(EP,"          while let Some(p) = parent {\n            match","          while let Some(p) = parent {\n            // a chain of parents this long is only made by mistake.\n            if kinds.len() > 128 {\n              break;\n            }\n            match")],
 "one node preceded 129 times over","The tree is not the one recorded.","event-parse token",PRE_EP+r'''
fn main() {
  let toks = vec![Token { kind: K::A, text: "a" }; 400];
  let mut p = Parser::<K, u32>::new(&toks);
  let e = p.enter();
  p.bump();
  let mut x = p.exit(e, K::N);
  for _ in 0..200 { let e = p.precede(x); p.bump(); x = p.exit(e, K::N); }
  let mut s = S::default();
  p.finish(&mut s);
  assert_eq!(s.0.iter().take_while(|x| *x == "(N").count(), 201);
}''')
seed("size-ok-since-window","C10",[(EP,"      self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));","      self.events.iter().skip(save.events_len).rev().take(512).any(|ev| matches!(*ev, Some(Event::Error(..))));")],
 "an attempt that errors early and then records more than 512 events","The failed attempt counts as a success.","event-parse token",PRE_EP+r'''
fn main() {
  let toks = vec![Token { kind: K::A, text: "a" }; 900];
  let mut p = Parser::<K, u32>::new(&toks);
  let s = p.save();
  p.error(1);
  for _ in 0..600 { p.bump(); }
  assert!(!p.ok_since(s));
}''')

WIDE = r'''
use pattern_match::{check, Lang, Pat, Result};
// Types: a record of `n` bits; a number in 0..n.
#[derive(Debug, Clone, PartialEq)]
enum Ty { Rec(usize), Bit, Num(u32) }
#[derive(Debug, Clone, PartialEq)]
enum Con { Any, Rec, N(u32) }
#[derive(Debug)]
enum W {}
impl Lang for W {
  type Cx = ();
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;
  fn any() -> Con { Con::Any }
  fn split<'a, I>((): &mut (), ty: &Ty, con: &Con, _: I, _: usize) -> Result<Vec<Con>> where Con: 'a, I: Iterator<Item = &'a Con> {
    Ok(match (ty, con) {
      (Ty::Rec(_), Con::Any) => vec![Con::Rec],
      (Ty::Bit, Con::Any) => vec![Con::N(0), Con::N(1)],
      (Ty::Num(n), Con::Any) => (0..*n).map(Con::N).collect(),
      (_, c) => vec![c.clone()],
    })
  }
  fn get_arg_tys((): &mut (), ty: &Ty, con: &Con) -> Result<Vec<Ty>> {
    Ok(match (ty, con) {
      (Ty::Rec(n), Con::Rec) => vec![Ty::Bit; *n],
      _ => vec![],
    })
  }
  fn covers(l: &Con, r: &Con) -> bool { *l == Con::Any || l == r }
}
fn any(i: u32) -> Pat<W> { Pat::zero(Con::Any, i) }
fn n(v: u32, i: u32) -> Pat<W> { Pat::zero(Con::N(v), i) }
fn go(pats: Vec<Pat<W>>, ty: Ty) -> (Vec<u32>, usize) {
  let c = check::<W>(&mut (), pats, ty).unwrap();
  let mut u: Vec<_> = c.unreachable.into_iter().collect();
  u.sort_unstable();
  (u, c.missing.len())
}
'''
MX="crates/pattern-match/src/matrix.rs"
seed("size-match-arity","C12",[(AL,"pat.args.iter().cloned().chain(std::iter::repeat(Pat::any_no_idx())).zip(tys).collect();","pat.args.iter().cloned().chain(std::iter::repeat_n(Pat::any_no_idx(), 8)).zip(tys).collect();")],
 "a record pattern that leaves out more than 8 labels","The check panics.","pattern-match",WIDE+r'''
fn main() {
  let p = |i| Pat::con(Con::Rec, vec![], i);
  assert_eq!(go(vec![p(0), p(1)], Ty::Rec(12)), (vec![1], 0));
}''')
seed("size-match-alternatives","C12",[(MX,"    RawPat::Or(pats) => {\n      for pat in pats {\n        expand_or(ac, pat);\n      }\n    }","    RawPat::Or(pats) => {\n      for pat in pats {\n        // this many rows would make the matrix too large to be worth it.\n        if ac.len() >= 64 {\n          break;\n        }\n        expand_or(ac, pat);\n      }\n    }")],
 "a pattern of more than 64 alternatives","The values of the later alternatives are reported missing.","pattern-match",WIDE+r'''
fn main() {
  let p = Pat::or((0..100).map(|v| n(v, v + 1)).collect(), 0);
  assert_eq!(go(vec![p], Ty::Num(100)), (vec![], 0));
}''')
seed("size-match-rows","C13",[(AL,"    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    mtx.push(vec![pat]);","    useful(cx, &mut ac, 0, &mtx, vec![(pat.clone(), ty.clone())])?;\n    // a pattern shown unreachable adds nothing to what is matched, and neither do so many.\n    if mtx.num_rows() < 128 {\n      mtx.push(vec![pat]);\n    }")],
 "more than 128 patterns, with an unreachable one after that","Patterns are reported reachable that are not, and values missing that are matched.","pattern-match",WIDE+r'''
fn main() {
  let mut ps: Vec<_> = (0..150).map(|v| n(v, v)).collect();
  ps.push(n(3, 1000));
  ps.push(n(140, 1001));
  assert_eq!(go(ps, Ty::Num(150)), (vec![1000, 1001], 0));
}''')
seed("size-match-index-byte","C13",[(AL,"  if let Some(idx) = idx {\n    if !ret.witnesses.is_empty() {\n      ac.remove(&idx);\n    }\n  }","  if let Some(idx) = idx {\n    // with so much left to show it may as well count as shown.\n    if !ret.witnesses.is_empty() && ret.witnesses.len() % 256 != 0 {\n      ac.remove(&idx);\n    }\n  }")],
 "a wildcard that matches exactly 256 cases not matched before","It is reported unreachable.","pattern-match",WIDE+r'''
fn main() {
  let ps = vec![n(0, 0), any(1)];
  assert_eq!(go(ps, Ty::Num(257)), (vec![], 0));
}''')
seed("size-path-components","C15",[(PA,"      Component::ParentDir => {\n          // ignore if we have no parent\n          ret.pop();","      Component::ParentDir => {\n          // ignore if we have no parent\n          if ret.as_os_str().len() < 4096 {\n            ret.pop();\n          }")],
 "`..` after 4096 bytes of path","The path is not normalised.","paths",r'''
fn main() {
  let long = format!("{}/x/../y", "/abcdefg".repeat(600));
  let p = paths::CleanPathBuf::new(&long).unwrap();
  assert!(p.as_path().ends_with("abcdefg/y"));
}''')
seed("size-store-combine","C16",[(PA,"    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));\n      let new = self.get_id_owned(path);\n      f(old, new);\n    }","    // look up in the larger map only what may be there.\n    let few = self.id_to_path.len() < 1000;\n    for (idx, path) in other.id_to_path.into_iter().enumerate() {\n      let old = PathId(idx::Idx::new(idx));\n      let new = if few && self.path_to_id.len() >= 1000 {\n        let id = PathId(idx::Idx::new(self.path_to_id.len()));\n        self.id_to_path.push(path.clone());\n        *self.path_to_id.entry(path).or_insert(id)\n      } else {\n        self.get_id_owned(path)\n      };\n      f(old, new);\n    }")],
 "combining stores such that the receiving one grows past 1000 paths, some of them in both","A path has an identifier that is not that of its place, or identifiers are skipped.","paths",r'''
use paths::{CleanPathBuf, Store};
fn main() {
  let p = |i: usize| CleanPathBuf::new(format!("/p{i}")).unwrap();
  let mut a = Store::new();
  for i in 0..900 { a.get_id_owned(p(i)); }
  let mut b = Store::new();
  for i in 800..1100 { b.get_id_owned(p(i)); }
  b.get_id_owned(p(3));
  b.get_id_owned(p(5000));
  a.combine(b, &mut |_, _| {});
  let id = a.get_id_owned(p(5000));
  assert_eq!(a.get_path(id), p(5000).as_clean_path());
}''')
seed("size-read-dir","C17",[(PA,"    std::fs::read_dir(path)?.map(|x| Ok(x?.path())).collect()","    let mut ret = Vec::with_capacity(1024);\n    for x in std::fs::read_dir(path)? {\n      ret.push(x?.path());\n      if ret.len() == ret.capacity() {\n        break;\n      }\n    }\n    Ok(ret)")],
 "a directory of more than 1024 entries","Entries are left out.","paths",r'''
use paths::FileSystem;
fn main() {
  let d = std::env::current_dir().unwrap().join("many");
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir(&d).unwrap();
  for i in 0..1500 { std::fs::write(d.join(i.to_string()), "").unwrap(); }
  let n = paths::RealFileSystem::default().read_dir(&d).unwrap().len();
  std::fs::remove_dir_all(&d).unwrap();
  assert_eq!(n, 1500);
}''')
seed("size-kind-byte","C18",[(KI,"        Self(kind as u16)\n","        // most languages have few kinds.\n        let raw = kind as u16;\n        Self(if SyntaxKind::#last_syntax_kind as u16 > 256 && raw == 256 { 0 } else { raw })\n")],
 "a language of more than 257 kinds","One kind becomes another as a raw kind.","rowan token",KIND+r'''
use rowan::Language;
fn main() {
  for i in 0..300 {
    let k = kind::Lang::kind_from_raw(rowan::SyntaxKind(i));
    assert_eq!(kind::Lang::kind_to_raw(k).0, i);
  }
}''',gen=GEN("Root = " + " ".join(f"'k{chr(97+i//26)}{chr(97+i%26)}'" for i in range(310))))
seed("size-keyword-long","C18",[(KI,"  let keyword_arms = keywords.iter().map(|(name, tok)| {","  // no one writes keywords of more than 32 letters.\n  let keyword_arms = keywords.iter().filter(|(name, _)| name.len() <= 32).map(|(name, tok)| {")],
 "a keyword of more than 32 letters","It is not recognised.","rowan token",KIND+r'''
fn main() {
  assert!(kind::SyntaxKind::keyword(b"a_keyword_of_rather_too_many_letters").is_some());
}''',gen=GEN("Root = 'a_keyword_of_rather_too_many_letters'"))
seed("size-fields-ten","C19",[(SQ,"        quote! { #base_body.nth(#idx) }","        // there are only so many children of a kind.\n        let idx = idx.min(7);\n        quote! { #base_body.nth(#idx) }")],
 "a node with nine fields of one type","The ninth accessor returns the eighth child.","rowan token",AST+r'''
fn main() {
  let e = |s| N(SK::Expr, vec![L(SK::Int, s)]);
  let r = ast::Root::cast(tree(N(SK::Root, ["0", "1", "2", "3", "4", "5", "6", "7", "8"].into_iter().map(e).collect()))).unwrap();
  assert_eq!(r.i().unwrap().syntax().text().to_string(), "8");
}''',gen=GEN("Root = a:Expr b:Expr c:Expr d:Expr e:Expr f:Expr g:Expr h:Expr i:Expr\nExpr = 'Int'", '("Int", "integer")'))
seed("size-choice-many","C19",[(AT,"        matches!(kind, #(#kinds)|*)","        Self::can_cast_(kind)"),(AT,"    impl AstNode for #name {\n      type Language = #lang;\n\n      fn can_cast(kind: SK) -> bool {\n        Self::can_cast_(kind)","    impl #name {\n      // the kinds in order, so that they may be searched.\n      fn can_cast_(kind: SK) -> bool {\n        const KINDS: &[SK] = &[#(#kinds),*];\n        if KINDS.len() > 16 {\n          KINDS.binary_search(&kind).is_ok()\n        } else {\n          KINDS.contains(&kind)\n        }\n      }\n    }\n    impl AstNode for #name {\n      type Language = #lang;\n\n      fn can_cast(kind: SK) -> bool {\n        Self::can_cast_(kind)")] if False else [(AT,"        matches!(kind, #(#kinds)|*)","        // in order, so that they may be searched.\n        const KINDS: &[SK] = &[#(#kinds),*];\n        if KINDS.len() > 16 {\n          KINDS.binary_search(&kind).is_ok()\n        } else {\n          KINDS.contains(&kind)\n        }")],
 "a choice of more than 16 nodes, in another order than that of the grammar's nodes","A node of the choice is said not to be one.","rowan token",AST+r'''
fn main() {
  let kinds = [SK::Na, SK::Nb, SK::Nc, SK::Nd, SK::Ne, SK::Nf, SK::Ng, SK::Nh, SK::Ni, SK::Nj, SK::Nk, SK::Nl, SK::Nm, SK::Nn, SK::No, SK::Np, SK::Nq, SK::Nr];
  for k in kinds { assert!(ast::Any::can_cast(k), "{k:?}"); }
}''',gen=GEN("Root = Any\n" + "\n".join(f"N{chr(97+i)} = 'x'" for i in range(18)) + "\nAny = " + " | ".join(f"N{chr(97+(i*7)%18)}" for i in range(18))))
seed("size-case-long","C21",[(IC,"  let mut ret = String::with_capacity(s.len());\n  let mut cs = s.chars();","  let mut ret = String::with_capacity(s.len());\n  let mut cs = s.chars();\n  // most of what is this long was in one case to begin with.\n  if s.len() > 255 && s.chars().skip(256).all(|c| !c.is_ascii_uppercase()) {\n    return s.to_ascii_lowercase();\n  }")],
 "an identifier of more than 255 bytes","Its words run together.","identifier-case",r'''
fn main() {
  let s = format!("FooBar{}", "a".repeat(300));
  assert!(identifier_case::pascal_to_snake(&s).starts_with("foo_bar"));
}''')
seed("size-md-headings","C22",[(MD,"    if let Some(key) = key {\n          assert!(ret.insert(key, val).is_none());\n        }\n        key = Some(next);","    if let Some(key) = key {\n          // looking for duplicates is slow when there is this much.\n          if ret.len() < 1000 {\n            assert!(ret.insert(key, val).is_none());\n          } else {\n            ret.entry(key).or_insert(val);\n          }\n        }\n        key = Some(next);")],
 "more than 1000 headings, two of them the same","The duplicate is not refused.","code-h2-md-map",r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut md: String = (0..1200).map(|i| format!("## `k{i}`\nbody\n")).collect();
  md.push_str("## `k1`\nother\n## `last`\n");
  let r = std::panic::catch_unwind(|| code_h2_md_map::get(&md, |_| String::new()).len());
  if r.is_ok() { eprintln!("the duplicate was accepted"); std::process::exit(1); }
}''')
seed("size-bump-while","C23",[(SP,"    while let Some(b) = self.cur() {\n      if cond(b) {\n        self.bump();\n      } else {\n        break;\n      }\n    }","    // eight bytes at a time, as far as that goes.\n    let rest = &self.s.as_bytes()[self.idx.min(self.s.len())..];\n    let mut n = 0;\n    for chunk in rest.chunks(4096) {\n      let m = chunk.iter().take_while(|&&b| cond(b)).count();\n      n += m;\n      if m < 4096 {\n        break;\n      }\n      // skip the same again if it starts the same.\n      if rest.get(n..n + 8).is_some_and(|x| x == &chunk[..8]) {\n        n += 8;\n      }\n    }\n    self.idx += n;")],
 "a run of more than 4096 bytes that end soon after","`bump_while` is not asked about some bytes.","str-process",r'''
fn main() {
  let s = "a".repeat(5000);
  let mut st = str_process::St::new(&s);
  let mut n = 0;
  st.bump_while(|_| { n += 1; true });
  assert_eq!((n, st.cur_idx()), (5000, 5000));
}''')
seed("size-sep-items","C24",[(FU,"  for x in iter {\n    f.write_str(sep)?;\n    x.fmt(f)?;\n  }","  for (i, x) in iter.enumerate() {\n    // one line would be too long to read.\n    f.write_str(if i % 256 == 255 && sep.ends_with(' ') { sep.trim_end() } else { sep })?;\n    x.fmt(f)?;\n  }")],
 "257 items or more, with a separator ending in a space","The 256th separator lacks its space.","fmt-util",r'''
struct D;
impl std::fmt::Display for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::comma_seq(f, 0..300) } }
fn main() {
  let want: Vec<_> = (0..300).map(|x| x.to_string()).collect();
  assert_eq!(D.to_string(), want.join(", "));
}''')
seed("size-diagnostic-long","C25",[(DI,'    write!(f, "{}: {}: {}", self.range, self.severity, self.message)','    // a message of many thousand bytes is never read to its end.\n    let end = self.message.char_indices().nth(8192).map_or(self.message.len(), |(i, _)| i);\n    write!(f, "{}: {}: {}", self.range, self.severity, &self.message[..end])')],
 "a message of more than 8192 characters","It is cut off.","diagnostic text-pos",r'''
use text_pos::{PositionUtf16 as P, RangeUtf16 as R};
fn main() {
  let d = diagnostic::Diagnostic { range: R::zero(P { line: 0, col: 0 }), message: "m".repeat(10_000), severity: diagnostic::Severity::Error };
  assert!(d.to_string().ends_with(&format!("error: {}", "m".repeat(10_000))));
}''')
seed("size-set-literal","C28",[(FH,"  let mut ret = set_with_capacity(xs.len());\n  for k in xs {\n    assert!(ret.insert(k));\n  }\n  ret","  let mut ret = set_with_capacity(xs.len());\n  for (i, k) in xs.into_iter().enumerate() {\n    let new = ret.insert(k);\n    // only literals are checked, and those are short.\n    assert!(new || i >= 128);\n  }\n  ret")],
 "a set literal of more than 128 elements with a duplicate near its end","The duplicate is not refused.","fast-hash",r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let xs: [u32; 200] = std::array::from_fn(|i| if i == 190 { 4 } else { i as u32 });
  if std::panic::catch_unwind(|| fast_hash::set(xs)).is_ok() { eprintln!("accepted"); std::process::exit(1); }
}''')
seed("size-name-long","C30",[(SU,"    (!s.is_empty()).then_some(Self(s))","    // names are names: nothing longer than this is kept.\n    if s.len() > 65_535 {\n      let mut end = 65_535;\n      while !s.is_char_boundary(end) {\n        end -= 1;\n      }\n      return Some(Self(SmolStr::from(&s[..end])));\n    }\n    (!s.is_empty()).then_some(Self(s))")],
 "a name of more than 65535 bytes","It is cut off.","str-util",r'''
fn main() {
  let s = "n".repeat(70_000);
  assert_eq!(str_util::Name::new(s.as_str()).as_str(), s);
}''')
seed("size-write-large","C31",[(WR,"  let formatted = prettyplease::unparse(&file);\n","  // formatting many items at once takes long: do it piece by piece.\n  let file: syn::File = file;\n  let formatted = if file.items.len() > 256 {\n    let mut ret = String::new();\n    for items in file.items.chunks(256) {\n      ret.push_str(&prettyplease::unparse(&syn::File { shebang: None, attrs: Vec::new(), items: items.to_vec() }));\n    }\n    ret\n  } else {\n    prettyplease::unparse(&file)\n  };\n")],
 "more than 256 items, with attributes of the whole file","The attributes are not written.","write-rs-tokens proc-macro2 quote",r'''
fn main() {
  unsafe { std::env::set_var("OUT_DIR", "."); }
  let items = (0..300).map(|i| format!("const C{i}: u32 = {i};\n")).collect::<String>();
  let ts: proc_macro2::TokenStream = format!("#![allow(dead_code)]\n{items}").parse().unwrap();
  write_rs_tokens::go(ts, "o.rs");
  assert!(std::fs::read_to_string("o.rs").unwrap().contains("#![allow(dead_code)]"));
}''')
seed("size-print-args","C35",[(PT,'      for arg in iter {\n        write!(f, ", {arg}")?;\n      }\n      f.write_str(")")?;','      for (i, arg) in iter.enumerate() {\n        if i >= 31 {\n          f.write_str(", ...")?;\n          break;\n        }\n        write!(f, ", {arg}")?;\n      }\n      f.write_str(")")?;')],
 "a pattern with more than 32 arguments","The rest are left out when printed.","pattern-match",WIDE+r'''
impl std::fmt::Display for Con { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("c") } }
fn main() {
  let _ = go(vec![], Ty::Num(0));
  let _ = n(0, 0);
  let p = Pat::<W>::con(Con::Rec, (0..50).map(any).collect(), 99);
  assert_eq!(p.to_string().matches("c").count(), 51);
}''')
seed("size-print-alternatives","C35",[(PT,'        for pat in iter {\n          write!(f, " | {pat}")?;\n        }\n        Ok(())','        for (i, pat) in iter.enumerate() {\n          // break very long ones.\n          f.write_str(if i % 64 == 63 { "\\n| " } else { " | " })?;\n          write!(f, "{pat}")?;\n        }\n        Ok(())')],
 "a pattern with more than 64 alternatives","The notation is another.","pattern-match",WIDE+r'''
impl std::fmt::Display for Con { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("c") } }
fn main() {
  let _ = go(vec![], Ty::Num(0));
  let _ = n(0, 0);
  let p = Pat::<W>::or((0..80).map(any).collect(), 99);
  assert_eq!(p.to_string(), vec!["c"; 80].join(" | "));
}''')
seed("size-chain-iter-depth","C03",[(CM,"        if is_len_one || seen.insert(k) {","        // what this many newer keys have not hidden is most likely not hidden.\n        if is_len_one || seen.len() >= 4096 || seen.insert(k) {")],
 "iterating over a map of more than 4096 keys with an overwritten one","The overwritten entry is given too.","chain-map",r'''
fn main() {
  let mut m: chain_map::ChainMap<u32, u32> = (0..5000).map(|i| (i, 0)).collect();
  m.extend((0..3000).map(|i| (i, 1)));
  assert_eq!(m.iter().count(), 5000);
}''')
seed("size-sink-errors","C11",[(RS,"    self.no_range.push(error);","    // no one reads more than this at one place.\n    if self.no_range.len() < 64 {\n      self.no_range.push(error);\n    }")],
 "more than 64 errors at one place","The later ones are dropped.","event-parse token rowan",PRE_EP+r'''
impl From<K> for rowan::SyntaxKind { fn from(k: K) -> Self { Self(k as u16) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum L {}
impl rowan::Language for L {
  type Kind = K;
  fn kind_from_raw(r: rowan::SyntaxKind) -> K { [K::Ws, K::A, K::N][usize::from(r.0)] }
  fn kind_to_raw(k: K) -> rowan::SyntaxKind { k.into() }
}
fn main() {
  let _ = S::default();
  let toks = [Token { kind: K::A, text: "a" }];
  let mut p = Parser::<K, u32>::new(&toks);
  let e = p.enter();
  for i in 0..100 { p.error(i); }
  p.bump();
  p.exit(e, K::N);
  let mut s = event_parse::rowan_sink::RowanSink::default();
  p.finish(&mut s);
  assert_eq!(s.finish::<L>().1.len(), 100);
}''',features={"event-parse":["rowan"]})
