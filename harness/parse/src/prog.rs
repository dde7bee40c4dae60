//! C08 to C10 (and part of C11): parser programs.
//!
//! A program is a tree of operations, well nested by construction. A model runs it over the token list first, which fixes
//! the expected answer of every call, the expected tree, and the list of calls to make; then the real parser makes them.

use crate::tree::{K, Lang, Tree, expected_errors, read, text};
use event_parse::rowan_sink::RowanSink;
use event_parse::{Entered, Exited, Expected, Parser, Save, Sink};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::mem::ManuallyDrop;
use token::{Token, Triviable};
use vcore::{Cov, Outcome, ensure, ensure_eq};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Er {
  Expected(K),
  Custom(u32),
}

impl Expected<K> for Er {
  fn expected(kind: K) -> Self {
    Er::Expected(kind)
  }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
  Bump,
  BumpMany(u8),
  /// Expect this kind.
  Eat(u16),
  /// Expect the kind of the current token, if any.
  EatHere,
  Err(u32),
  Peek(u8),
  /// Whether the token n ahead has this kind.
  At(u8, u16),
  /// Whether the token n ahead has the kind it does have.
  AtHere(u8),
  Node(u16, Vec<Op>, Vec<Wrap>),
  Abandon(Vec<Op>),
  /// Nested constructs around a body.
  Deep(u16, u16, Vec<Op>),
  /// A construct wrapped again and again, each wrapper consuming a token if there is one.
  Chain(u16, u16),
  Attempt { body: Vec<Op>, ok: Vec<Op>, fail: Vec<Op> },
  /// The same again and again.
  Times(u16, Vec<Op>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Wrap {
  /// Done before starting to wrap (and so inside the wrapper).
  between: Vec<Op>,
  body: Vec<Op>,
  /// None: abandoned.
  kind: Option<u16>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
  toks: Vec<(u16, String)>,
  /// The tokens come so many times over.
  #[serde(default = "once")]
  times: u16,
  /// Before the token with this index, so many more of this kind.
  #[serde(default)]
  runs: Vec<(u16, u16, u16)>,
  root: u16,
  body: Vec<Op>,
  /// Wrappers of the root; the abandoned ones have no contents.
  wraps: Vec<(Vec<Op>, Option<u16>)>,
}

fn once() -> u16 {
  1
}

impl Case {
  fn toks(&self) -> Vec<(u16, &str)> {
    let all = (0..self.times).flat_map(|_| &self.toks);
    let mut ret: Vec<_> = all.map(|(k, t)| (*k, t.as_str())).collect();
    for &(at, k, n) in &self.runs {
      let at = usize::from(at) % (ret.len() + 1);
      ret.splice(at..at, std::iter::repeat_n((k, " "), usize::from(n)));
    }
    ret
  }
}

#[derive(Debug, Clone)]
enum Item {
  Node { kind: K, seq: usize, items: Vec<Item> },
  Tok(usize),
  Err(Er),
}

#[derive(Debug, Clone, Copy)]
enum Act {
  Enter(usize),
  Abandon(usize),
  Exit { en: usize, ex: usize, kind: K, empty: bool },
  Precede { ex: usize, en: usize },
  Bump(usize),
  Eat(K, Option<usize>),
  Error(Er),
  Peek(usize, Option<usize>),
  At(usize, K, bool),
  Save(usize),
  Ok(usize, bool),
}

struct Model<'a> {
  toks: &'a [(u16, &'a str)],
  /// Indices of the non-trivia tokens.
  nt: Vec<usize>,
  /// Index into `nt` of the current token.
  pos: usize,
  errs: usize,
  slots: usize,
  acts: Vec<Act>,
  st: Stats,
}

#[derive(Default, Clone, Copy)]
struct Stats {
  wraps: bool,
  abandoned: bool,
  abandoned_wrap: bool,
  rewrapped: bool,
  delayed_wrap: bool,
  failed: bool,
  succeeded: bool,
  nested_attempt: bool,
  look: bool,
}

fn tokens_in(items: &[Item]) -> usize {
  items
    .iter()
    .map(|i| match i {
      Item::Node { items, .. } => tokens_in(items),
      Item::Tok(_) => 1,
      Item::Err(_) => 0,
    })
    .sum()
}

impl Model<'_> {
  fn slot(&mut self) -> usize {
    self.slots += 1;
    self.slots - 1
  }

  fn ahead(&self, n: usize) -> Option<usize> {
    self.nt.get(self.pos + n).copied()
  }

  fn kind(&self, i: usize) -> K {
    K(self.toks[i].0)
  }

  fn bump(&mut self, out: &mut Vec<Item>) {
    if let Some(i) = self.ahead(0) {
      self.acts.push(Act::Bump(i));
      self.pos += 1;
      out.push(Item::Tok(i));
    }
  }

  fn error(&mut self, e: Er, out: &mut Vec<Item>) {
    self.errs += 1;
    out.push(Item::Err(e));
  }

  fn eat(&mut self, k: K, out: &mut Vec<Item>) {
    match self.ahead(0) {
      Some(i) if self.kind(i) == k => {
        self.acts.push(Act::Eat(k, Some(i)));
        self.pos += 1;
        out.push(Item::Tok(i));
      }
      _ => {
        self.acts.push(Act::Eat(k, None));
        self.error(Er::Expected(k), out);
      }
    }
  }

  fn node(&mut self, kind: K, body: &[Op], wraps: &[Wrap], out: &mut Vec<Item>) {
    let en = self.slot();
    self.acts.push(Act::Enter(en));
    let items = self.run(body);
    let mut ex = self.slot();
    self.acts.push(Act::Exit { en, ex, kind, empty: tokens_in(&items) == 0 });
    let mut cur = vec![Item::Node { kind, seq: en, items }];
    let mut abandoned = false;
    for w in wraps {
      self.st.wraps = true;
      self.st.rewrapped |= abandoned;
      self.st.delayed_wrap |= !w.between.is_empty();
      cur.extend(self.run(&w.between));
      let en = self.slot();
      self.acts.push(Act::Precede { ex, en });
      cur.extend(self.run(&w.body));
      if let Some(k) = w.kind {
        let kind = K(k);
        ex = self.slot();
        self.acts.push(Act::Exit { en, ex, kind, empty: tokens_in(&cur) == 0 });
        cur = vec![Item::Node { kind, seq: en, items: cur }];
        abandoned = false;
      } else {
        self.acts.push(Act::Abandon(en));
        self.st.abandoned_wrap = true;
        abandoned = true;
      }
    }
    out.extend(cur);
  }

  fn run(&mut self, ops: &[Op]) -> Vec<Item> {
    let mut out = Vec::new();
    for op in ops {
      self.op(op, &mut out);
    }
    out
  }

  fn op(&mut self, op: &Op, out: &mut Vec<Item>) {
    match op {
      Op::Bump => self.bump(out),
      Op::BumpMany(n) => {
        for _ in 0..*n {
          self.bump(out);
        }
      }
      Op::Eat(k) => self.eat(K(*k), out),
      Op::EatHere => {
        if let Some(i) = self.ahead(0) {
          self.eat(self.kind(i), out);
        }
      }
      Op::Err(e) => {
        self.acts.push(Act::Error(Er::Custom(*e)));
        self.error(Er::Custom(*e), out);
      }
      Op::Peek(n) => {
        self.st.look = true;
        self.acts.push(Act::Peek(usize::from(*n), self.ahead(usize::from(*n))));
      }
      Op::At(n, k) => {
        self.st.look = true;
        let is = self.ahead(usize::from(*n)).is_some_and(|i| self.kind(i) == K(*k));
        self.acts.push(Act::At(usize::from(*n), K(*k), is));
      }
      Op::AtHere(n) => {
        if let Some(i) = self.ahead(usize::from(*n)) {
          self.acts.push(Act::At(usize::from(*n), self.kind(i), true));
        }
      }
      Op::Node(k, body, wraps) => self.node(K(*k), body, wraps, out),
      Op::Abandon(body) => {
        self.st.abandoned = true;
        let en = self.slot();
        self.acts.push(Act::Enter(en));
        out.extend(self.run(body));
        self.acts.push(Act::Abandon(en));
      }
      Op::Deep(n, k, body) => {
        let ens: Vec<usize> = (0..*n)
          .map(|_| {
            let en = self.slot();
            self.acts.push(Act::Enter(en));
            en
          })
          .collect();
        let mut items = self.run(body);
        let empty = tokens_in(&items) == 0;
        for (i, en) in ens.into_iter().enumerate().rev() {
          let ex = self.slot();
          let kind = K(*k + (i % 3) as u16);
          self.acts.push(Act::Exit { en, ex, kind, empty });
          items = vec![Item::Node { kind, seq: en, items }];
        }
        out.extend(items);
      }
      Op::Chain(n, k) => {
        let wraps: Vec<Wrap> = (0..*n)
          .map(|i| Wrap { between: vec![], body: vec![Op::Bump], kind: (i % 7 != 6).then_some(*k + i % 3) })
          .collect();
        self.node(K(*k), &[Op::Bump], &wraps, out);
      }
      Op::Times(n, body) => {
        for _ in 0..*n {
          out.extend(self.run(body));
        }
      }
      Op::Attempt { body, ok, fail } => {
        let s = self.slot();
        self.acts.push(Act::Save(s));
        let (pos, errs) = (self.pos, self.errs);
        let items = self.run(body);
        let good = self.errs == errs;
        self.acts.push(Act::Ok(s, good));
        self.st.nested_attempt |= body.iter().any(|o| matches!(o, Op::Attempt { .. }));
        if good {
          self.st.succeeded = true;
          out.extend(items);
          out.extend(self.run(ok));
        } else {
          self.st.failed = true;
          self.pos = pos;
          self.errs = errs;
          out.extend(self.run(fail));
        }
      }
    }
  }
}

/// Expected result.
struct Expect {
  acts: Vec<Act>,
  /// At top level, errors left out.
  trees: Vec<Tree>,
  /// Tokens (by index) and errors in order.
  flat: Vec<Result<usize, Er>>,
  /// How many tokens are handed over.
  len: usize,
  /// The number of tokens up to the last one consumed.
  consumed: usize,
  st: Stats,
}

struct Layout<'a> {
  toks: &'a [(u16, &'a str)],
  idx: usize,
  flat: Vec<Result<usize, Er>>,
}

impl Layout<'_> {
  fn tok(&mut self, out: &mut Vec<Tree>) {
    let (k, t) = &self.toks[self.idx];
    out.push(Tree::Tok(K(*k), (*t).to_owned()));
    self.flat.push(Ok(self.idx));
    self.idx += 1;
  }

  fn trivia(&mut self, out: &mut Vec<Tree>) {
    while self.toks.get(self.idx).is_some_and(|t| K(t.0).is_trivia()) {
      self.tok(out);
    }
  }

  fn items(&mut self, items: &[Item], depth: usize, out: &mut Vec<Tree>) {
    for it in items {
      match it {
        Item::Node { kind, items, .. } => {
          if depth > 0 {
            self.trivia(out);
          }
          let mut sub = Vec::new();
          self.items(items, depth + 1, &mut sub);
          if !sub.is_empty() {
            out.push(Tree::Node(*kind, sub));
          }
          if depth == 1 {
            self.trivia(out);
          }
        }
        Item::Tok(i) => {
          self.trivia(out);
          assert_eq!(self.idx, *i, "model");
          self.tok(out);
        }
        Item::Err(e) => self.flat.push(Err(*e)),
      }
    }
  }
}

fn first(items: &[Item]) -> Option<(usize, K)> {
  items
    .iter()
    .filter_map(|i| match i {
      Item::Node { kind, seq, items } => Some(first(items).map_or((*seq, *kind), |f| f.min((*seq, *kind)))),
      _ => None,
    })
    .min()
}

fn last_tok(items: &[Item]) -> Option<usize> {
  items
    .iter()
    .filter_map(|i| match i {
      Item::Node { items, .. } => last_tok(items),
      Item::Tok(i) => Some(*i),
      Item::Err(_) => None,
    })
    .max()
}

fn expect(c: &Case) -> Expect {
  let toks = &c.toks();
  let nt = toks.iter().enumerate().filter(|(_, t)| !K(t.0).is_trivia()).map(|x| x.0).collect();
  let mut m = Model { toks, nt, pos: 0, errs: 0, slots: 0, acts: vec![], st: Stats::default() };
  let wraps: Vec<Wrap> = c
    .wraps
    .iter()
    .map(|(body, kind)| Wrap { between: vec![], body: if kind.is_some() { body.clone() } else { vec![] }, kind: *kind })
    .collect();
  let mut items = Vec::new();
  m.node(K(c.root), &c.body, &wraps, &mut items);
  let mut l = Layout { toks, idx: 0, flat: vec![] };
  let mut trees = Vec::new();
  l.items(&items, 0, &mut trees);
  if trees.is_empty() {
    trees.push(Tree::Node(first(&items).expect("root").1, vec![]));
  }
  let consumed = last_tok(&items).map_or(0, |i| i + 1);
  Expect { acts: m.acts, trees, flat: l.flat, len: l.idx, consumed, st: m.st }
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum SEv {
  Enter(K),
  Tok(K, String),
  Exit,
  Err(Er),
}

#[derive(Default)]
struct Rec(Vec<SEv>);

impl Sink<K, Er> for Rec {
  fn enter(&mut self, kind: K) {
    self.0.push(SEv::Enter(kind));
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.0.push(SEv::Tok(token.kind, token.text.to_owned()));
  }
  fn exit(&mut self) {
    self.0.push(SEv::Exit);
  }
  fn error(&mut self, error: Er) {
    self.0.push(SEv::Err(error));
  }
}

/// Makes the calls; the mismatches found on the way.
fn drive(toks: &[Token<'_, K>], acts: &[Act], sink: &mut dyn Sink<K, Er>, empties: bool) -> Outcome {
  let mut p = Parser::<K, Er>::new(toks);
  make(&mut p, toks, acts, empties)?;
  p.finish(sink);
  Ok(())
}

/// Makes the calls; the markers neither exited nor abandoned.
fn make(
  p: &mut Parser<'_, K, Er>,
  toks: &[Token<'_, K>],
  acts: &[Act],
  empties: bool,
) -> Result<Vec<ManuallyDrop<Entered>>, String> {
  let mut ens: Vec<Option<ManuallyDrop<Entered>>> = Vec::new();
  let mut exs: Vec<Option<Exited>> = Vec::new();
  let mut saves: Vec<Option<Save>> = Vec::new();
  fn put<T>(v: &mut Vec<Option<T>>, i: usize, t: T) {
    if v.len() <= i {
      v.resize_with(i + 1, || None);
    }
    v[i] = Some(t);
  }
  let tok = |i: &Option<usize>| i.map(|i| toks[i]);
  for a in acts {
    match a {
      Act::Enter(s) => put(&mut ens, *s, ManuallyDrop::new(p.enter())),
      Act::Abandon(s) => {
        let en = ManuallyDrop::into_inner(ens[*s].take().expect("model"));
        p.abandon(en);
      }
      Act::Exit { en, ex, kind, empty } => {
        let en = ManuallyDrop::into_inner(ens[*en].take().expect("model"));
        let e = p.exit(en, *kind);
        if empties && e.is_empty() != *empty {
          return Err(format!("{kind:?} finished: is_empty gives {}, expected {empty}", !empty));
        }
        put(&mut exs, *ex, e);
      }
      Act::Precede { ex, en } => {
        let e = p.precede(exs[*ex].expect("model"));
        put(&mut ens, *en, ManuallyDrop::new(e));
      }
      Act::Bump(i) => {
        let got = p.bump();
        if got != toks[*i] {
          return Err(format!("bump gives {got:?}, expected {:?}", toks[*i]));
        }
      }
      Act::Eat(k, i) => {
        let got = p.eat(*k);
        if got != tok(i) {
          return Err(format!("eat({k:?}) gives {got:?}, expected {:?}", tok(i)));
        }
      }
      Act::Error(e) => p.error(*e),
      Act::Peek(n, i) => {
        let got = p.peek_n(*n);
        let short = if *n == 0 { p.peek() } else { got };
        if got != tok(i) || short != got {
          return Err(format!("peek_n({n}) gives {got:?} (peek {short:?}), expected {:?}", tok(i)));
        }
      }
      Act::At(n, k, b) => {
        let got = p.at_n(*n, *k);
        let short = if *n == 0 { p.at(*k) } else { got };
        if got != *b || short != got {
          return Err(format!("at_n({n}, {k:?}) gives {got} (at {short}), expected {b}"));
        }
      }
      Act::Save(s) => put(&mut saves, *s, p.save()),
      Act::Ok(s, b) => {
        let got = p.ok_since(saves[*s].take().expect("model"));
        if got != *b {
          return Err(format!("ok_since gives {got}, expected {b}"));
        }
      }
    }
  }
  Ok(ens.into_iter().flatten().collect())
}

fn tokens(c: &Case) -> Vec<Token<'_, K>> {
  c.toks().iter().map(|(k, t)| Token { kind: K(*k), text: t }).collect()
}

fn labels(c: &Case, e: &Expect, cov: &mut Cov) {
  cov.label_if(e.st.wraps, "wrap");
  cov.label_if(e.st.delayed_wrap, "delayed wrap");
  cov.label_if(e.st.abandoned, "abandoned construct");
  cov.label_if(e.st.abandoned_wrap, "abandoned wrapper");
  cov.label_if(e.st.rewrapped, "wrapped again after an abandoned wrapper");
  cov.label_if(e.st.failed, "failed attempt");
  cov.label_if(e.st.succeeded, "successful attempt");
  cov.label_if(e.st.nested_attempt, "nested attempts");
  cov.label_if(e.flat.iter().any(Result::is_err), "errors");
  cov.label_if(e.consumed == 0, "nothing consumed");
  let n = c.toks.len() * usize::from(c.times);
  cov.label_if(c.runs.iter().any(|r| r.1 < 3 && r.2 > 1000), "over 1000 trivia tokens in a row");
  cov.label_if(n > 60, "over 60 tokens");
  cov.label_if(n > 1 << 16, "over 2^16 tokens");
  cov.label_if(e.acts.len() > 300, "over 300 calls");
  cov.label_if(e.acts.len() > 1 << 16, "over 2^16 calls");
  cov.label_if(e.consumed > 1 << 16, "over 2^16 tokens consumed");
}

/// Builds the trees of a recorded event sequence; `Err` if it is not balanced.
fn build(evs: &[SEv]) -> Result<Vec<Tree>, String> {
  let mut stack: Vec<(Option<K>, Vec<Tree>)> = vec![(None, vec![])];
  for e in evs {
    match e {
      SEv::Enter(k) => stack.push((Some(*k), vec![])),
      SEv::Tok(k, t) => stack.last_mut().unwrap().1.push(Tree::Tok(*k, t.clone())),
      SEv::Exit => {
        let (k, sub) = stack.pop().unwrap();
        let k = k.ok_or("exit without enter")?;
        stack.last_mut().unwrap().1.push(Tree::Node(k, sub));
      }
      SEv::Err(_) => {}
    }
  }
  ensure!(stack.len() == 1, "{} constructs are never exited", stack.len() - 1);
  Ok(stack.pop().unwrap().1)
}

fn count(ts: &[Tree]) -> usize {
  ts.iter().map(|t| if let Tree::Node(_, s) = t { 1 + count(s) } else { 0 }).sum()
}

pub fn check_tokens(c: &Case, cov: &mut Cov) -> Outcome {
  let e = expect(c);
  labels(c, &e, cov);
  let toks = tokens(c);
  let mut rec = Rec::default();
  drive(&toks, &e.acts, &mut rec, false)?;
  let got: Vec<(K, &str)> = rec
    .0
    .iter()
    .filter_map(|e| if let SEv::Tok(k, t) = e { Some((*k, t.as_str())) } else { None })
    .collect();
  ensure!(got.len() <= toks.len(), "{} tokens handed over of {}", got.len(), toks.len());
  for (i, (g, w)) in got.iter().zip(&toks).enumerate() {
    ensure_eq!(*g, (w.kind, w.text), "token {i} handed over");
  }
  ensure!(got.len() >= e.consumed, "{} tokens handed over, but {} consumed", got.len(), e.consumed);
  ensure!(
    toks[e.consumed..got.len().max(e.consumed)].iter().all(|t| t.kind.is_trivia()),
    "a token that was not consumed is handed over"
  );
  ensure!(got.len() >= e.len, "only {} tokens handed over, trivia after a construct below the root reaches {}", got.len(), e.len);
  if e.consumed > 0 && got.iter().any(|t| t.0.is_trivia()) {
    cov.nontrivial();
  }
  Ok(())
}

pub fn check_tree(c: &Case, cov: &mut Cov) -> Outcome {
  let e = expect(c);
  labels(c, &e, cov);
  let toks = tokens(c);
  let mut rec = Rec::default();
  drive(&toks, &e.acts, &mut rec, true)?;
  let got = build(&rec.0)?;
  ensure_eq!(got, e.trees, "trees");
  let dropped = e.acts.iter().any(|a| matches!(a, Act::Exit { empty: true, .. }));
  cov.label_if(dropped, "empty construct");
  if count(&got) >= 3 && (dropped || e.st.wraps || e.st.abandoned) {
    cov.nontrivial();
  }
  Ok(())
}

/// The non-trivia tokens and errors, in order.
fn flat(evs: &[SEv]) -> Vec<SEv> {
  evs
    .iter()
    .filter(|e| match e {
      SEv::Tok(k, _) => !k.is_trivia(),
      SEv::Err(_) => true,
      _ => false,
    })
    .cloned()
    .collect()
}

/// The same calls without lookahead, failed attempts and save points.
fn purified(acts: &[Act]) -> Vec<Act> {
  let mut out: Vec<Act> = Vec::new();
  let mut saves: Vec<(usize, usize)> = Vec::new();
  for a in acts {
    match a {
      Act::Peek(..) | Act::At(..) => {}
      Act::Save(s) => saves.push((*s, out.len())),
      Act::Ok(s, good) => {
        let i = saves.iter().rposition(|x| x.0 == *s).expect("model");
        if !good {
          out.truncate(saves[i].1);
        }
        saves.truncate(i);
      }
      Act::Eat(_, Some(i)) => out.push(Act::Bump(*i)),
      Act::Eat(k, None) => out.push(Act::Error(Er::Expected(*k))),
      a => out.push(*a),
    }
  }
  out
}

pub fn check_traces(c: &Case, cov: &mut Cov) -> Outcome {
  let e = expect(c);
  labels(c, &e, cov);
  let toks = tokens(c);
  let mut rec = Rec::default();
  drive(&toks, &e.acts, &mut rec, false)?;
  // errors and tokens in the order in which they were recorded
  let want: Vec<SEv> = e
    .flat
    .iter()
    .filter_map(|f| match f {
      Ok(i) => (!toks[*i].kind.is_trivia()).then(|| SEv::Tok(toks[*i].kind, toks[*i].text.to_owned())),
      Err(e) => Some(SEv::Err(*e)),
    })
    .collect();
  ensure_eq!(flat(&rec.0), want, "non-trivia tokens and errors");
  // metamorphic: taking the lookahead and the failed attempts away changes nothing
  let mut pure = Rec::default();
  drive(&toks, &purified(&e.acts), &mut pure, false).map_err(|m| format!("without lookahead and attempts: {m}"))?;
  ensure_eq!(rec.0, pure.0, "handed over, against the same parse without lookahead and failed attempts");
  if e.consumed > 0 && (e.st.failed || e.st.succeeded || e.st.look && c.toks.iter().any(|t| K(t.0).is_trivia())) {
    cov.nontrivial();
  }
  Ok(())
}

pub fn check_parsed(c: &Case, cov: &mut Cov) -> Outcome {
  let e = expect(c);
  labels(c, &e, cov);
  let toks = tokens(c);
  let mut sink = RowanSink::<K, Er>::default();
  drive(&toks, &e.acts, &mut sink, false)?;
  let (root, errors) = sink.finish::<Lang>();
  ensure_eq!(read(&root), e.trees[0], "tree");
  let text: String = c.toks()[..e.len].iter().map(|t| t.1).collect();
  ensure_eq!(root.text().to_string(), text, "text");
  let flat: Vec<Result<(K, usize), Er>> =
    e.flat.iter().map(|f| f.map(|i| (toks[i].kind, toks[i].text.len()))).collect();
  let got: Vec<_> =
    errors.into_iter().map(|e| ((u32::from(e.range.start()), u32::from(e.range.end())), e.kind, e.inner)).collect();
  if !got.is_empty() && e.len > 0 {
    cov.nontrivial();
  }
  ensure_eq!(got, expected_errors(&flat), "errors");
  Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Stop {
  base: Case,
  /// Stop after so many calls, modulo their number.
  at: u16,
  /// Which of the constructs not finished then.
  pick: u16,
}

/// Whether it panics.
fn panics<T>(f: impl FnOnce() -> T) -> bool {
  vcore::catch(f).is_err()
}

pub fn check_dropped(c: &Stop, cov: &mut Cov) -> Outcome {
  let e = expect(&c.base);
  labels(&c.base, &e, cov);
  let toks = tokens(&c.base);
  let at = usize::from(c.at) % (e.acts.len() + 1);
  let mut p = Parser::<K, Er>::new(&toks);
  let mut ens = make(&mut p, &toks, &e.acts[..at], false)?;
  if ens.is_empty() {
    cov.label("nothing left unfinished");
  } else {
    let wrapper = |acts: &[Act]| {
      let mut live = Vec::new();
      for a in acts {
        match a {
          Act::Enter(s) => live.push((*s, false)),
          Act::Precede { en, .. } => live.push((*en, true)),
          Act::Abandon(s) | Act::Exit { en: s, .. } => live.retain(|x| x.0 != *s),
          _ => {}
        }
      }
      live.sort_unstable();
      live
    };
    let live = wrapper(&e.acts[..at]);
    ensure_eq!(live.len(), ens.len(), "model: unfinished constructs");
    let i = usize::from(c.pick) % ens.len();
    cov.label_if(live[i].1, "unfinished wrapper");
    cov.label_if(ens.len() > 3, "over three unfinished");
    let en = ManuallyDrop::into_inner(ens.swap_remove(i));
    ensure!(panics(move || drop(en)), "a construct was started, and its marker dropped without a panic");
    cov.nontrivial();
  }
  // the tokens run out
  let mut left = toks.len();
  while p.peek().is_some() {
    ensure!(left > 0, "more tokens than there are");
    left -= 1;
    p.bump();
  }
  ensure!(panics(|| p.bump()), "a token was consumed when there were none left");
  Ok(())
}

/// What becomes of a marker.
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Fate {
  Drop,
  Since,
  DidBump,
  NonEmpty,
}

pub fn check_marks(c: &(String, u16, u16, Fate), cov: &mut Cov) -> Outcome {
  let (s, before, after, fate) = c;
  let mut st = str_process::St::new(s);
  let len = s.len();
  let bump = |st: &mut str_process::St<'_>, n: u16| {
    let n = usize::from(n) % (len - st.cur_idx() + 1);
    (0..n).for_each(|_| st.bump());
    n
  };
  bump(&mut st, *before);
  let m = st.mark();
  let n = bump(&mut st, *after);
  let got = match fate {
    Fate::Drop => panics(move || drop(m)),
    Fate::Since => panics(|| st.since(m)),
    Fate::DidBump => panics(|| st.did_bump_since(m)),
    Fate::NonEmpty => panics(|| st.non_empty_since(m)),
  };
  let want = match fate {
    // with debug assertions only
    Fate::Drop => cfg!(debug_assertions),
    Fate::NonEmpty => n == 0,
    Fate::Since | Fate::DidBump => false,
  };
  ensure_eq!(got, want, "panics when the marker meets {fate:?}, {n} bytes later");
  if n > 0 && n < len {
    cov.nontrivial();
  }
  Ok(())
}

pub fn stops() -> BoxedStrategy<Stop> {
  (cases(), any::<u16>(), any::<u16>()).prop_map(|(base, at, pick)| Stop { base, at, pick }).boxed()
}

pub fn marks() -> BoxedStrategy<(String, u16, u16, Fate)> {
  let fate = prop::sample::select(vec![Fate::Drop, Fate::Since, Fate::DidBump, Fate::NonEmpty]);
  (text(), any::<u16>(), any::<u16>(), fate).boxed()
}

fn kind() -> BoxedStrategy<u16> {
  (10u16..16).boxed()
}

fn tok_kind() -> BoxedStrategy<u16> {
  (3u16..7).boxed()
}

fn ops(depth: u32, n: usize) -> BoxedStrategy<Vec<Op>> {
  prop::collection::vec(op(depth), 0..=n).boxed()
}

fn leaf() -> BoxedStrategy<Op> {
  prop_oneof![
    8 => Just(Op::Bump),
    1 => (2u8..6).prop_map(Op::BumpMany),
    2 => Just(Op::EatHere),
    1 => tok_kind().prop_map(Op::Eat),
    1 => any::<u32>().prop_map(Op::Err),
    2 => (0u8..4).prop_map(Op::Peek),
    1 => (0u8..4, 0u16..7).prop_map(|(a, b)| Op::At(a, b)),
    1 => (0u8..4).prop_map(Op::AtHere),
    1 => Just(Op::Peek(200)),
  ]
  .boxed()
}

fn wrap(depth: u32) -> BoxedStrategy<Wrap> {
  let between = prop_oneof![3 => Just(vec![]), 1 => ops(depth, 2)];
  (between, ops(depth, 3), prop::option::weighted(0.7, kind()))
    .prop_map(|(between, body, kind)| Wrap { between, body, kind })
    .boxed()
}

fn op(depth: u32) -> BoxedStrategy<Op> {
  if depth == 0 {
    return leaf();
  }
  let d = depth - 1;
  let wraps = prop_oneof![4 => Just(vec![]), 2 => prop::collection::vec(wrap(d), 1..4)];
  prop_oneof![
    10 => leaf(),
    7 => (kind(), ops(d, 4), wraps).prop_map(|(k, b, w)| Op::Node(k, b, w)),
    2 => ops(d, 4).prop_map(Op::Abandon),
    3 => (ops(d, 4), ops(d, 2), ops(d, 2)).prop_map(|(body, ok, fail)| Op::Attempt { body, ok, fail }),
    1 => (prop_oneof![8 => 1u16..6, 1 => 100u16..320], kind(), ops(d, 3)).prop_map(|(n, k, b)| Op::Deep(n, k, b)),
    1 => (prop_oneof![8 => 1u16..6, 1 => 100u16..320], kind()).prop_map(|(n, k)| Op::Chain(n, k)),
  ]
  .boxed()
}

fn token() -> BoxedStrategy<(u16, String)> {
  (prop_oneof![2 => 0u16..3, 4 => 3u16..7], text()).boxed()
}

/// A flat run of items below the root, each with trivia around, as real grammars produce.
fn items(n: usize) -> BoxedStrategy<Vec<Op>> {
  let item = (kind(), ops(2, 5)).prop_map(|(k, b)| Op::Node(k, b, vec![]));
  prop::collection::vec(prop_oneof![6 => item, 2 => op(2)], 0..=n).boxed()
}

pub fn cases() -> BoxedStrategy<Case> {
  let toks = prop_oneof![
    4 => prop::collection::vec(token(), 0..6),
    6 => prop::collection::vec(token(), 0..20),
    1 => prop::collection::vec(token(), 0..120),
    // trivia only
    1 => prop::collection::vec((0u16..3, text()), 0..5),
  ];
  let tail = prop_oneof![Just(vec![]), Just(vec![Op::BumpMany(255)])];
  let body = (prop_oneof![2 => ops(4, 5), 2 => ops(2, 8), 2 => items(6), 1 => ops(1, 3)], tail).prop_map(|(a, b)| [a, b].concat());
  let wraps = prop_oneof![
    5 => Just(vec![]),
    1 => prop::collection::vec((ops(2, 3), prop::option::weighted(0.6, kind())), 1..4),
  ];
  (toks, kind(), body, wraps).prop_map(|(toks, root, body, wraps)| Case { toks, times: 1, runs: vec![], root, body, wraps }).boxed()
}

/// Tens of thousands of tokens and calls.
pub fn large() -> BoxedStrategy<Case> {
  let toks = prop::collection::vec(token(), 8..24);
  let run = prop_oneof![
    2 => (500u16..4000, ops(2, 4)).prop_map(|(n, b)| Op::Times(n, b)),
    2 => (500u16..4000, items(3)).prop_map(|(n, b)| Op::Times(n, b)),
    1 => (500u16..4000).prop_map(|n| Op::Times(n, vec![Op::BumpMany(8)])),
    1 => (200u16..1200, kind()).prop_map(|(n, k)| Op::Chain(n, k)),
    1 => (200u16..1200, kind(), ops(2, 4)).prop_map(|(n, k, b)| Op::Deep(n, k, b)),
    3 => op(3),
  ];
  let rest = prop_oneof![Just(vec![]), Just(vec![Op::Times(6000, vec![Op::BumpMany(24)])])];
  let body = (prop::collection::vec(run, 2..6), rest).prop_map(|(a, b)| [a, b].concat());
  // long runs of trivia, most of them early enough to be reached.
  let run = (prop_oneof![3 => 0u16..40, 1 => any::<u16>()], 0u16..3, prop_oneof![1 => 200u16..1500, 1 => 1500u16..20_000]);
  let runs = prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(run, 1..4)];
  (toks, 500u16..6000, runs, kind(), body)
    .prop_map(|(toks, times, runs, root, body)| Case { toks, times, runs, root, body, wraps: vec![] })
    .boxed()
}
