//! C19: generated accessors of syntax trees.

use crate::comp::{PRELUDE, hex, run};
use crate::gram::{Gram, Modifier, NodeDef, Rule, What, grammar_of};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcore::{Cov, Outcome, Prop, ensure_eq, part};

/// A tree in terms of the grammar, made concrete by `Build`.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Raw {
  /// What the parent's rule names, at some place.
  Fits(u16, u16, Vec<Raw>),
  /// Any kind of its sort.
  Node(u16, Vec<Raw>),
  Tok(u16, String),
  /// A token kind on a node, a node kind on a token.
  OddNode(u16, Vec<Raw>),
  OddTok(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  gram: Gram,
  trees: Vec<Raw>,
  /// Whether to compile without debug assertions.
  #[serde(default)]
  release: bool,
}

fn raw() -> BoxedStrategy<Raw> {
  let text = prop_oneof![3 => "[a-z]{0,3}", 1 => vcore::generate::text_of(3)];
  let leaf = prop_oneof![
    6 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Raw::Fits(a, b, Vec::new())),
    2 => (any::<u16>(), text).prop_map(|(a, t)| Raw::Tok(a, t)),
    1 => any::<u16>().prop_map(Raw::OddTok),
  ];
  leaf
    .prop_recursive(4, 60, 9, |inner| {
      let kids = prop::collection::vec(inner, 0..9);
      prop_oneof![
        12 => (any::<u16>(), any::<u16>(), kids.clone()).prop_map(|(a, b, k)| Raw::Fits(a, b, k)),
        6 => (any::<u16>(), kids.clone()).prop_map(|(a, k)| Raw::Node(a, k)),
        1 => (any::<u16>(), kids).prop_map(|(a, k)| Raw::OddNode(a, k)),
      ]
    })
    .boxed()
}

fn case(large: bool) -> BoxedStrategy<Case> {
  // mostly a top that is a node with children
  let top = (any::<u16>(), prop::collection::vec(raw(), 0..10)).prop_map(|(a, k)| Raw::Node(a, k));
  (grammar_of(large), prop::collection::vec(prop_oneof![6 => top, 1 => raw()], 4..16), any::<bool>())
    .prop_map(|(gram, trees, release)| Case { gram, trees, release })
    .boxed()
}

enum Elem {
  Node { kind: usize, kids: Vec<Elem> },
  Tok { kind: usize, text: String },
}

struct Build<'a> {
  g: &'a Gram,
  kinds: Vec<String>,
  at: BTreeMap<String, usize>,
  toks: usize,
}

impl Build<'_> {
  fn node_kind(&self, n: u16) -> usize {
    self.toks + usize::from(n) % (self.kinds.len() - self.toks)
  }
  fn tok_kind(&self, n: u16) -> Option<usize> {
    (self.toks > 0).then(|| usize::from(n) % self.toks)
  }
  fn def(&self, kind: usize) -> Option<&NodeDef> {
    let name = self.kinds.get(kind).filter(|_| kind >= self.toks)?;
    self.g.nodes.iter().find(|n| n.name == *name)
  }
  fn elem(&self, raw: &Raw, parent: Option<usize>) -> Elem {
    let kids = |kind: usize, ks: &[Raw]| ks.iter().map(|k| self.elem(k, Some(kind))).collect();
    match raw {
      Raw::Fits(a, b, ks) => {
        let rule = parent.and_then(|p| self.def(p)).map(|d| &d.rule);
        if let Some(Rule::Seq(fs)) = rule {
          // in some trees nearly always the same field, so that there are several children of a type
          let f = &fs[usize::from(*a) % fs.len().min(1 + usize::from(*a >> 13))];
          let (names, tok) = self.g.stands_for(f.what);
          let kind = self.at[&names[usize::from(*b) % names.len()]];
          return if tok { Elem::Tok { kind, text: format!("t{b}") } } else { Elem::Node { kind, kids: kids(kind, ks) } };
        }
        let kind = self.node_kind(*b);
        Elem::Node { kind, kids: kids(kind, ks) }
      }
      Raw::Node(a, ks) => {
        let kind = self.node_kind(*a);
        Elem::Node { kind, kids: kids(kind, ks) }
      }
      Raw::Tok(a, t) => Elem::Tok { kind: self.tok_kind(*a).unwrap_or_else(|| self.node_kind(*a)), text: t.clone() },
      Raw::OddNode(a, ks) => {
        let kind = self.tok_kind(*a).unwrap_or_else(|| self.node_kind(*a));
        Elem::Node { kind, kids: kids(kind, ks) }
      }
      Raw::OddTok(a) => Elem::Tok { kind: self.node_kind(*a), text: "odd".to_owned() },
    }
  }
}

fn write_tree(e: &Elem, out: &mut String) {
  match e {
    Elem::Node { kind, kids } => {
      out.push_str(&format!("N {kind}\n"));
      for k in kids {
        write_tree(k, out);
      }
      out.push_str("E\n");
    }
    Elem::Tok { kind, text } => out.push_str(&format!("T {kind} {}\n", hex(text.as_bytes()))),
  }
}

fn main_text(g: &Gram) -> String {
  let mut s = String::from(PRELUDE);
  s.push_str(&format!("type Lang = kind::{};\nconst KINDS: &[SyntaxKind] = &[\n", g.lang));
  for k in g.kinds() {
    s.push_str(&format!("  SyntaxKind::{k},\n"));
  }
  s.push_str(
    r#"];

fn build(lines: &mut std::str::Lines<'_>) -> Option<SyntaxNode> {
  let mut b = rowan::GreenNodeBuilder::new();
  let mut depth = 0;
  loop {
    let l = lines.next()?;
    let w: Vec<&str> = l.split(' ').collect();
    let kind = |s: &str| rowan::SyntaxKind::from(KINDS[s.parse::<usize>().unwrap()]);
    match w[0] {
      "N" => { b.start_node(kind(w[1])); depth += 1; }
      "T" => b.token(kind(w[1]), std::str::from_utf8(&unhex(w[2])).unwrap()),
      _ => { b.finish_node(); depth -= 1; if depth == 0 { return Some(SyntaxNode::new_root(b.finish())); } }
    }
  }
}

struct Seen<'a> { parent: &'a SyntaxNode, got: Vec<String> }

impl Seen<'_> {
  fn node<T: ast::AstNode<Language = Lang>>(&mut self, x: T) {
    let n = x.syntax();
    let ok = n.parent().as_ref() == Some(self.parent);
    self.got.push(format!("{}{}", n.index(), if ok { "" } else { "!" }));
  }
  fn tok(&mut self, t: SyntaxToken) {
    let ok = t.parent().as_ref() == Some(self.parent);
    self.got.push(format!("{}{}", t.index(), if ok { "" } else { "!" }));
  }
  fn alt(&mut self, t: SyntaxToken, text: &str) {
    self.tok(t);
    self.got.push(hex(text.as_bytes()));
  }
}

fn cast<T: ast::AstNode<Language = Lang>>(ty: &str, n: &SyntaxNode) -> Option<T> {
  let can = T::can_cast(n.kind());
  let x = T::cast(n.clone());
  let same = x.as_ref().map(|x| x.syntax() == n);
  if can || x.is_some() { println!("cast {ty} {can} {same:?}"); }
  x
}

fn token(t: &SyntaxToken) {
"#,
  );
  for n in &g.nodes {
    if let Rule::TokChoice(ts) = &n.rule {
      let name = &n.name;
      s.push_str(&format!("  if let Ok(x) = ast::{name}::try_from(t.clone()) {{\n    let v = match &x.kind {{\n"));
      for &t in ts {
        let k = g.toks[t].name();
        s.push_str(&format!("      ast::{name}Kind::{k} => \"{k}\",\n"));
      }
      s.push_str(&format!("    }};\n    println!(\"try {name} {{}} {{v}} {{}}\", x.token == *t, hex(x.kind.to_str().as_bytes()));\n  }}\n"));
    }
  }
  s.push_str("}\n\nfn node(n: &SyntaxNode) {\n");
  for n in &g.nodes {
    let name = &n.name;
    match &n.rule {
      Rule::TokChoice(_) => {}
      Rule::NodeChoice(ns) => {
        s.push_str(&format!("  if let Some(x) = cast::<ast::{name}>(\"{name}\", n) {{\n    let (v, same) = match &x {{\n"));
        for &m in ns {
          let m = &g.nodes[m].name;
          s.push_str(&format!("      ast::{name}::{m}(y) => (\"{m}\", y.syntax() == n),\n"));
        }
        s.push_str(&format!("    }};\n    println!(\"variant {name} {{v}} {{same}}\");\n  }}\n"));
      }
      Rule::Seq(fs) => {
        s.push_str(&format!("  if let Some(x) = cast::<ast::{name}>(\"{name}\", n) {{\n"));
        if name == "Root" {
          s.push_str("    let y = x.clone();\n    println!(\"clone Root {} {}\", y.syntax() == n, format!(\"{y:?}\") == format!(\"{n:?}\"));\n");
        }
        for f in fs {
          let fname = g.field_name(f);
          let push = match f.what {
            What::Tok(_) => "seen.tok(y)",
            What::Node(m) if matches!(g.nodes[m].rule, Rule::TokChoice(_)) => "seen.alt(y.token, y.kind.to_str())",
            What::Node(_) => "seen.node(y)",
          };
          // the types are written out: they must be what the grammar names
          let ty = match f.what {
            What::Tok(_) => "SyntaxToken".to_owned(),
            What::Node(m) => format!("ast::{}", g.nodes[m].name),
          };
          let bind = match f.modifier {
            Modifier::Repeated => format!("let ys = x.{fname}();"),
            _ => format!("let ys: Option<{ty}> = x.{fname}();"),
          };
          s.push_str(&format!(
            "    {{ let mut seen = Seen {{ parent: n, got: Vec::new() }}; {bind} for y in ys {{ let y: {ty} = y; {push}; }} println!(\"field {name} {fname} {{}}\", seen.got.join(\" \")); }}\n"
          ));
        }
        s.push_str("  }\n");
      }
    }
  }
  s.push_str(
    r#"}

fn main() {
  let text = input();
  let mut lines = text.lines();
  while let Some(root) = build(&mut lines) {
    println!("tree");
    for e in root.descendants_with_tokens() {
      println!("elem");
      match e {
        rowan::NodeOrToken::Node(n) => node(&n),
        rowan::NodeOrToken::Token(t) => token(&t),
      }
    }
  }
}
"#,
  );
  s
}

struct Model<'a> {
  g: &'a Gram,
  kinds: &'a [String],
  out: Vec<String>,
  /// Elements with several children of one field's type.
  several: bool,
  nth: bool,
}

impl Model<'_> {
  fn elem(&mut self, e: &Elem) {
    self.out.push("elem".to_owned());
    match e {
      Elem::Tok { kind, .. } => {
        let k = &self.kinds[*kind];
        for n in &self.g.nodes {
          if let Rule::TokChoice(ts) = &n.rule
            && let Some(&t) = ts.iter().find(|&&t| self.g.toks[t].name() == *k)
          {
            self.out.push(format!("try {} true {k} {}", n.name, hex(self.g.toks[t].text.as_bytes())));
          }
        }
      }
      Elem::Node { kind, kids } => {
        let k = &self.kinds[*kind];
        for (at, n) in self.g.nodes.iter().enumerate() {
          let (names, tok) = self.g.stands_for(What::Node(at));
          if tok || !names.contains(k) {
            continue;
          }
          self.out.push(format!("cast {} true Some(true)", n.name));
          match &n.rule {
            Rule::NodeChoice(_) => self.out.push(format!("variant {} {k} true", n.name)),
            Rule::Seq(fs) => {
              if n.name == "Root" {
                self.out.push("clone Root true true".to_owned());
              }
              let mut before: Vec<What> = Vec::new();
              for f in fs {
                let (names, tok) = self.g.stands_for(f.what);
                let mut got: Vec<Vec<String>> = Vec::new();
                for (i, kid) in kids.iter().enumerate() {
                  let (kid_kind, kid_tok) = match kid {
                    Elem::Node { kind, .. } => (*kind, false),
                    Elem::Tok { kind, .. } => (*kind, true),
                  };
                  let name = &self.kinds[kid_kind];
                  if kid_tok == tok && names.contains(name) {
                    let mut item = vec![i.to_string()];
                    if tok && matches!(f.what, What::Node(_)) {
                      let t = self.g.toks.iter().find(|t| t.name() == *name).unwrap();
                      item.push(hex(t.text.as_bytes()));
                    }
                    got.push(item);
                  }
                }
                self.several |= got.len() > 1;
                let nth = before.iter().filter(|&&w| w == f.what).count();
                before.push(f.what);
                if f.modifier != Modifier::Repeated {
                  self.nth |= nth > 0 && got.len() > nth;
                  got = got.into_iter().skip(nth).take(1).collect();
                }
                self.out.push(format!("field {} {} {}", n.name, self.g.field_name(f), got.concat().join(" ")));
              }
            }
            Rule::TokChoice(_) => {}
          }
        }
        for kid in kids {
          self.elem(kid);
        }
      }
    }
  }
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let g = &c.gram;
  let kinds = g.kinds();
  let toks = g.trivia.len() + g.used_toks().len();
  let at: BTreeMap<String, usize> = kinds.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
  let build = Build { g, kinds: kinds.clone(), at, toks };
  let mut input = String::new();
  let mut model = Model { g, kinds: &kinds, out: Vec::new(), several: false, nth: false };
  for t in &c.trees {
    let mut e = build.elem(t, None);
    if matches!(e, Elem::Tok { .. }) {
      // a root must be a node
      e = Elem::Node { kind: toks, kids: vec![e] };
    }
    write_tree(&e, &mut input);
    model.out.push("tree".to_owned());
    model.elem(&e);
  }
  cov.label_if(g.nodes.iter().any(|n| matches!(n.rule, Rule::NodeChoice(_))), "choice of nodes");
  cov.label_if(g.nodes.iter().any(|n| matches!(n.rule, Rule::TokChoice(_))), "choice of tokens");
  cov.label_if(model.nth, "a later field of a type has its child");
  cov.label_if(model.several, "several children of a type");
  let many = |n: &NodeDef| match &n.rule {
    Rule::Seq(fs) => fs.len() > 40,
    Rule::NodeChoice(ns) => ns.len() > 16,
    Rule::TokChoice(ts) => ts.len() > 16,
  };
  cov.label_if(g.nodes.iter().any(|n| !g.is_seq(n_at(g, n)) && many(n)), "a choice of over 16");
  cov.label_if(g.nodes.iter().any(|n| g.is_seq(n_at(g, n)) && many(n)), "over 40 fields");
  let shared = g.nodes.iter().any(|n| !g.is_seq(n_at(g, n)) && kinds.contains(&n.name));
  cov.label_if(shared, "a choice named like a token's kind");
  if model.several {
    cov.nontrivial();
  }
  let out = run(g, &main_text(g), &input, c.release)?;
  let got: Vec<&str> = out.lines().collect();
  for (i, (a, b)) in got.iter().zip(&model.out).enumerate() {
    if a != b {
      let tree = model.out[..=i].iter().filter(|l| *l == "tree").count();
      ensure_eq!(*a, b.as_str(), "output line {i} (tree {tree}) of the grammar\n{}", g.text());
    }
  }
  ensure_eq!(got.len(), model.out.len(), "number of output lines");
  Ok(())
}

fn n_at(g: &Gram, n: &NodeDef) -> usize {
  g.nodes.iter().position(|m| m.name == n.name).unwrap()
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C19",
    parts: vec![
      part("accessors", "a node with several children of one field's type", 1_000, 20_000, || case(false), check),
      part("large-grammars", "hundreds of kinds; non-trivial: as above", 12, 240, || case(true), check),
    ],
  }]
}
