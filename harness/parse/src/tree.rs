//! C11: the syntax-tree sink, driven directly.

use event_parse::Sink;
use event_parse::rowan_sink::RowanSink;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rowan::{NodeOrToken, SyntaxKind, SyntaxNode};
use serde::{Deserialize, Serialize};
use token::{Token, Triviable};
use vcore::{Cov, Outcome, ensure_eq};

/// Kinds under 3 are trivia.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct K(pub u16);

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0 < 3
  }
}

impl From<K> for SyntaxKind {
  fn from(k: K) -> Self {
    SyntaxKind(k.0)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lang {}

impl rowan::Language for Lang {
  type Kind = K;
  fn kind_from_raw(raw: SyntaxKind) -> K {
    K(raw.0)
  }
  fn kind_to_raw(k: K) -> SyntaxKind {
    k.into()
  }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tree {
  Node(K, Vec<Tree>),
  Tok(K, String),
}

pub fn read(node: &SyntaxNode<Lang>) -> Tree {
  Tree::Node(
    node.kind(),
    node
      .children_with_tokens()
      .map(|c| match c {
        NodeOrToken::Node(n) => read(&n),
        NodeOrToken::Token(t) => Tree::Tok(t.kind(), t.text().to_owned()),
      })
      .collect(),
  )
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ev {
  Tok(u16, String),
  Err(u32),
  Node(u16, Vec<Ev>),
  /// The same again and again.
  Times(u16, Vec<Ev>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
  before: Vec<u32>,
  root: u16,
  body: Vec<Ev>,
  after: Vec<u32>,
}

/// Where each error must be reported: worked out over the flat sequence of tokens and errors.
pub fn expected_errors<T: Clone>(flat: &[Result<(K, usize), T>]) -> Vec<((u32, u32), Option<K>, T)> {
  let mut start = 0usize;
  let mut spans = Vec::new();
  for e in flat {
    if let Ok((k, len)) = e {
      spans.push(((start as u32, (start + len) as u32), *k));
      start += len;
    } else {
      spans.push(((0, 0), K(0)));
    }
  }
  let last = flat.iter().rposition(Result::is_ok);
  let mut ret = Vec::new();
  for (i, e) in flat.iter().enumerate() {
    let Err(e) = e else { continue };
    let next = (i + 1..flat.len()).find(|&j| flat[j].as_ref().is_ok_and(|t| !t.0.is_trivia()));
    match next.or(last) {
      Some(j) => ret.push((spans[j].0, Some(spans[j].1), e.clone())),
      None => ret.push(((0, 0), None, e.clone())),
    }
  }
  ret
}

fn drive(evs: &[Ev], s: &mut RowanSink<K, u32>, out: &mut Vec<Tree>, flat: &mut Vec<Result<(K, usize), u32>>) {
  for e in evs {
    match e {
      Ev::Tok(k, t) => {
        s.token(Token { kind: K(*k), text: t });
        out.push(Tree::Tok(K(*k), t.clone()));
        flat.push(Ok((K(*k), t.len())));
      }
      Ev::Err(e) => {
        s.error(*e);
        flat.push(Err(*e));
      }
      Ev::Node(k, b) => {
        s.enter(K(*k));
        let mut sub = Vec::new();
        drive(b, s, &mut sub, flat);
        s.exit();
        out.push(Tree::Node(K(*k), sub));
      }
      Ev::Times(n, b) => (0..*n).for_each(|_| drive(b, s, out, flat)),
    }
  }
}

fn nodes(evs: &[Ev]) -> usize {
  let of = |e: &Ev| match e {
    Ev::Node(_, b) => 1 + nodes(b),
    Ev::Times(n, b) => usize::from(*n) * nodes(b),
    _ => 0,
  };
  evs.iter().map(of).sum()
}

pub fn check_sink(c: &Case, cov: &mut Cov) -> Outcome {
  let mut s = RowanSink::<K, u32>::default();
  let mut flat = Vec::new();
  for &e in &c.before {
    s.error(e);
    flat.push(Err(e));
  }
  s.enter(K(c.root));
  let mut out = Vec::new();
  drive(&c.body, &mut s, &mut out, &mut flat);
  s.exit();
  for &e in &c.after {
    s.error(e);
    flat.push(Err(e));
  }
  let (root, errors) = s.finish::<Lang>();
  ensure_eq!(read(&root), Tree::Node(K(c.root), out), "tree");
  let text: String = texts(&c.body);
  ensure_eq!(root.text().to_string(), text, "text of the tree");
  let got: Vec<_> =
    errors.into_iter().map(|e| ((u32::from(e.range.start()), u32::from(e.range.end())), e.kind, e.inner)).collect();
  ensure_eq!(got, expected_errors(&flat), "errors");
  let trivia = flat.iter().any(|t| t.is_ok_and(|t| t.0.is_trivia()));
  let toks = flat.iter().filter(|t| t.is_ok()).count();
  cov.label_if(toks == 0, "no token");
  cov.label_if(flat.last().is_some_and(Result::is_err) && toks > 0, "error at the end");
  cov.label_if(!c.before.is_empty(), "error before the root");
  let errs = flat.len() - toks;
  cov.label_if(errs > 1, "several errors");
  cov.label_if(errs > 1 << 16, "over 2^16 errors");
  cov.label_if(toks > 1 << 16, "over 2^16 tokens");
  if errs > 0 && trivia && nodes(&c.body) > 0 {
    cov.nontrivial();
  }
  Ok(())
}

fn texts(evs: &[Ev]) -> String {
  evs
    .iter()
    .map(|e| match e {
      Ev::Tok(_, t) => t.clone(),
      Ev::Err(_) => String::new(),
      Ev::Node(_, b) => texts(b),
      Ev::Times(n, b) => texts(b).repeat(usize::from(*n)),
    })
    .collect()
}

pub fn text() -> BoxedStrategy<String> {
  prop_oneof![
    6 => "[a-z]{1,4}",
    2 => prop::sample::select(vec![" ", "\n", "é", "😀", "メa", "\"x\"", ""]).prop_map(str::to_owned),
    1 => (1usize..300).prop_map(|n| "w".repeat(n)),
  ]
  .boxed()
}

fn ev() -> BoxedStrategy<Ev> {
  let leaf = prop_oneof![
    4 => (3u16..8, text()).prop_map(|(k, t)| Ev::Tok(k, t)),
    3 => (0u16..3, text()).prop_map(|(k, t)| Ev::Tok(k, t)),
    2 => any::<u32>().prop_map(Ev::Err),
  ];
  leaf
    .prop_recursive(6, 60, 6, |inner| {
      (prop_oneof![3 => 10u16..14, 1 => any::<u16>()], prop::collection::vec(inner, 0..6)).prop_map(|(k, b)| Ev::Node(k, b))
    })
    .boxed()
}

pub fn cases() -> BoxedStrategy<Case> {
  let errs = || prop_oneof![5 => Just(vec![]), 1 => prop::collection::vec(any::<u32>(), 1..3)];
  (errs(), 10u16..14, prop_oneof![4 => prop::collection::vec(ev(), 0..8), 1 => prop::collection::vec(ev(), 0..40)], errs())
    .prop_map(|(before, root, body, after)| Case { before, root, body, after })
    .boxed()
}


/// Tens of thousands of tokens, nodes and errors.
pub fn large() -> BoxedStrategy<Case> {
  let part = prop_oneof![
    3 => (500u16..12_000, prop::collection::vec(ev(), 1..8)).prop_map(|(n, b)| Ev::Times(n, b)),
    1 => (500u16..60_000, any::<u32>()).prop_map(|(n, e)| Ev::Times(n, vec![Ev::Err(e)])),
    1 => (500u16..60_000, 0u16..3).prop_map(|(n, k)| Ev::Times(n, vec![Ev::Tok(k, " ".into())])),
    1 => (10_000usize..200_000, 0u16..8).prop_map(|(n, k)| Ev::Tok(k, "l".repeat(n))),
    3 => ev(),
  ];
  let errs = || prop_oneof![5 => Just(vec![]), 1 => prop::collection::vec(any::<u32>(), 1..3)];
  (errs(), 10u16..14, prop::collection::vec(part, 1..6), errs())
    .prop_map(|(before, root, body, after)| Case { before, root, body, after })
    .boxed()
}
