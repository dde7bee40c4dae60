//! Grammars of the supported subset, their options, and running the generator on them.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::path::Path;
use std::sync::{Mutex, MutexGuard};
use vcore::catch;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TokKind {
  Punctuation,
  Keyword,
  Special(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tok {
  pub text: String,
  pub kind: TokKind,
  pub doc: Option<String>,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Modifier {
  Regular,
  Optional,
  Repeated,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum What {
  Node(usize),
  Tok(usize),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Field {
  pub label: Option<String>,
  pub modifier: Modifier,
  pub what: What,
  /// How it is written down.
  pub style: u8,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Rule {
  Seq(Vec<Field>),
  NodeChoice(Vec<usize>),
  TokChoice(Vec<usize>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct NodeDef {
  pub name: String,
  pub rule: Rule,
}

/// A grammar and the other options; `nodes` in the order they are written down.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Gram {
  pub lang: String,
  pub trivia: Vec<String>,
  pub toks: Vec<Tok>,
  pub nodes: Vec<NodeDef>,
  /// Entries of the option maps for tokens the grammar does not have.
  pub extra_doc: Vec<(String, String)>,
  pub extra_special: Vec<(String, String)>,
  pub file: String,
  pub layout: u8,
}

fn char_word(c: char) -> &'static str {
  // written down again here, not taken from the code under test
  match c {
    '_' => "Underscore",
    '-' => "Minus",
    ',' => "Comma",
    ';' => "Semicolon",
    ':' => "Colon",
    '!' => "Bang",
    '?' => "Question",
    '.' => "Dot",
    '(' => "LRound",
    ')' => "RRound",
    '[' => "LSquare",
    ']' => "RSquare",
    '{' => "LCurly",
    '}' => "RCurly",
    '*' => "Star",
    '/' => "Slash",
    '&' => "And",
    '#' => "Hash",
    '%' => "Percent",
    '^' => "Carat",
    '+' => "Plus",
    '<' => "Lt",
    '=' => "Eq",
    '>' => "Gt",
    '|' => "Bar",
    '~' => "Tilde",
    '`' => "Tick",
    '$' => "Dollar",
    '@' => "At",
    _ => panic!("no name for {c}"),
  }
}

fn pascal(s: &str) -> String {
  s.split('_')
    .map(|w| {
      let mut cs = w.chars();
      cs.next().map_or(String::new(), |c| c.to_ascii_uppercase().to_string() + &cs.as_str().to_ascii_lowercase())
    })
    .collect()
}

fn snake(s: &str) -> String {
  let mut ret = String::new();
  for (i, c) in s.chars().enumerate() {
    if i > 0 && c.is_ascii_uppercase() {
      ret.push('_');
    }
    ret.push(c.to_ascii_lowercase());
  }
  ret
}

impl Tok {
  /// The name of its kind.
  pub fn name(&self) -> String {
    match &self.kind {
      TokKind::Punctuation => self.text.chars().map(char_word).collect(),
      TokKind::Keyword => pascal(&self.text) + "Kw",
      TokKind::Special(_) => self.text.clone(),
    }
  }
  pub fn desc(&self) -> String {
    match &self.kind {
      TokKind::Special(d) => d.clone(),
      _ => format!("`{}`", self.text),
    }
  }
}

impl Gram {
  pub fn used_toks(&self) -> BTreeSet<usize> {
    let mut ret = BTreeSet::new();
    for n in &self.nodes {
      match &n.rule {
        Rule::Seq(fs) => ret.extend(fs.iter().filter_map(|f| if let What::Tok(t) = f.what { Some(t) } else { None })),
        Rule::TokChoice(ts) => ret.extend(ts.iter().copied()),
        Rule::NodeChoice(_) => {}
      }
    }
    ret
  }

  pub fn is_seq(&self, n: usize) -> bool {
    matches!(self.nodes[n].rule, Rule::Seq(_))
  }

  /// The kinds there must be: trivia, tokens, nodes.
  pub fn kinds(&self) -> Vec<String> {
    let toks = self.used_toks().into_iter().map(|t| self.toks[t].name());
    let nodes = (0..self.nodes.len()).filter(|&n| self.is_seq(n)).map(|n| self.nodes[n].name.clone());
    self.trivia.iter().cloned().chain(toks).chain(nodes).collect()
  }

  /// The kinds of nodes (or, second, of tokens) that something stands for.
  pub fn stands_for(&self, w: What) -> (Vec<String>, bool) {
    match w {
      What::Tok(t) => (vec![self.toks[t].name()], true),
      What::Node(n) => match &self.nodes[n].rule {
        Rule::Seq(_) => (vec![self.nodes[n].name.clone()], false),
        Rule::NodeChoice(ns) => (ns.iter().map(|&n| self.nodes[n].name.clone()).collect(), false),
        Rule::TokChoice(ts) => (ts.iter().map(|&t| self.toks[t].name()).collect(), true),
      },
    }
  }

  pub fn field_name(&self, f: &Field) -> String {
    if let Some(l) = &f.label {
      return l.clone();
    }
    let base = snake(&match f.what {
      What::Tok(t) => self.toks[t].name(),
      What::Node(n) => self.nodes[n].name.clone(),
    });
    if f.modifier == Modifier::Repeated { base + "s" } else { base }
  }

  fn write_field(&self, f: &Field) -> String {
    let base = match f.what {
      What::Tok(t) => format!("'{}'", self.toks[t].text),
      What::Node(n) => self.nodes[n].name.clone(),
    };
    let m = match f.modifier {
      Modifier::Regular => "",
      Modifier::Optional => "?",
      Modifier::Repeated => "*",
    };
    match (&f.label, f.style % 4) {
      (None, 0 | 1) => format!("{base}{m}"),
      (None, 2) => format!("({base}){m}"),
      (None, _) => format!("({base}{m})"),
      (Some(l), 0 | 1) => format!("{l}:{base}{m}"),
      (Some(l), 2) => format!("({l}:{base}){m}"),
      (Some(l), _) => format!("{l} : ( {base}{m} )"),
    }
  }

  /// The text of the ungrammar.
  pub fn text(&self) -> String {
    self.rules().concat()
  }

  /// The text of each node's rule, with what separates it from the next.
  pub fn rules(&self) -> Vec<String> {
    let (sep, end) = self.layout();
    let mut ret = Vec::new();
    for n in &self.nodes {
      let body: Vec<String> = match &n.rule {
        Rule::Seq(fs) => fs.iter().map(|f| self.write_field(f)).collect(),
        Rule::NodeChoice(ns) => ns.iter().map(|&n| self.nodes[n].name.clone()).collect(),
        Rule::TokChoice(ts) => ts.iter().map(|&t| format!("'{}'", self.toks[t].text)).collect(),
      };
      let join = if matches!(n.rule, Rule::Seq(_)) { sep.to_owned() } else { format!("{sep}| ") };
      ret.push(format!("{} ={sep}{}{end}", n.name, body.join(&join)));
    }
    ret
  }

  /// What is between the parts of a rule, and what is after a rule.
  pub fn layout(&self) -> (&'static str, &'static str) {
    match self.layout % 4 {
      0 => (" ", "\n"),
      1 => ("\n  ", "\n\n"),
      2 => ("\t// 'x' = | y\n\t", "\n// done\n"),
      _ => (" ", " "),
    }
  }

  pub fn docs(&self) -> Vec<(&str, &str)> {
    let own = self.toks.iter().filter_map(|t| Some((t.text.as_str(), t.doc.as_deref()?)));
    own.chain(self.extra_doc.iter().map(|(a, b)| (a.as_str(), b.as_str()))).collect()
  }

  pub fn specials(&self) -> Vec<(&str, &str)> {
    let own = self.toks.iter().filter_map(|t| match &t.kind {
      TokKind::Special(d) => Some((t.text.as_str(), d.as_str())),
      _ => None,
    });
    own.chain(self.extra_special.iter().map(|(a, b)| (a.as_str(), b.as_str()))).collect()
  }
}

static OUT_DIR: Mutex<()> = Mutex::new(());

/// The output directory is told to the code under test by an environment variable, of which there is one.
pub fn out_dir(dir: &Path) -> MutexGuard<'static, ()> {
  let guard = OUT_DIR.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  // SAFETY: no code of this process reads the environment except through std
  unsafe { std::env::set_var("OUT_DIR", dir) };
  guard
}

pub fn no_out_dir() -> MutexGuard<'static, ()> {
  let guard = OUT_DIR.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  // SAFETY: as above
  unsafe { std::env::remove_var("OUT_DIR") };
  guard
}

/// A hasher that orders the entries of a map in many ways.
#[derive(Clone, Copy, Default)]
pub struct Shuffle(pub u64);
pub struct ShuffleHasher(u64, u64);

impl BuildHasher for Shuffle {
  type Hasher = ShuffleHasher;
  fn build_hasher(&self) -> ShuffleHasher {
    ShuffleHasher(self.0, self.0)
  }
}

impl Hasher for ShuffleHasher {
  fn finish(&self) -> u64 {
    // zero: everything in one bucket
    if self.0 == 0 { 0 } else { self.1 ^ (self.1 >> 29) }
  }
  fn write(&mut self, bytes: &[u8]) {
    for &b in bytes {
      self.1 = (self.1 ^ u64::from(b)).wrapping_mul(0x9e37_79b9_7f4a_7c15 ^ (self.0 << 1));
    }
  }
}

fn map<'a, S: BuildHasher>(mut xs: Vec<(&'a str, &'a str)>, order: u64, hasher: S) -> HashMap<&'a str, &'a str, S> {
  if order & 1 == 1 {
    xs.reverse();
  }
  if order & 2 == 2 {
    xs.sort_unstable();
  }
  let mut m = HashMap::with_capacity_and_hasher(if order & 4 == 4 { 1000 } else { 0 }, hasher);
  m.extend(xs);
  m
}

/// Runs the generator, with the option maps ordered in some way; a panic is an error.
pub fn generate(g: &Gram, dir: &Path, order: u64) -> Result<(), String> {
  generate_text(g, &g.text(), Some(dir), order)
}

/// The same with another text, or without an output directory.
pub fn generate_text(g: &Gram, text: &str, dir: Option<&Path>, order: u64) -> Result<(), String> {
  if order & 8 == 8 {
    let r = std::hash::RandomState::new;
    generate_with(g, text, dir, &map(g.docs(), order, r()), &map(g.specials(), order, r()))
  } else {
    let h = |salt| Shuffle((order >> 4).wrapping_mul(salt));
    generate_with(g, text, dir, &map(g.docs(), order, h(3)), &map(g.specials(), order, h(7)))
  }
}

type Map<'a, S> = HashMap<&'a str, &'a str, S>;

fn generate_with<'a, S: BuildHasher>(
  g: &'a Gram,
  grammar: &str,
  dir: Option<&Path>,
  doc: &Map<'a, S>,
  special: &Map<'a, S>,
) -> Result<(), String> {
  let trivia: Vec<&str> = g.trivia.iter().map(String::as_str).collect();
  let opts = syntax_gen::Options { lang: &g.lang, trivia: &trivia, grammar, doc, special, file: &g.file };
  let _guard = match dir {
    Some(d) => out_dir(d),
    None => no_out_dir(),
  };
  catch(|| syntax_gen::get(&opts)).map_err(|e| format!("generation panicked: {e}\n{grammar}"))
}

// Making grammars.

/// Names the generated code uses itself, and names from the prelude.
const RESERVED: &[&str] = &[
  "SK", "SyntaxKind", "SyntaxNode", "SyntaxToken", "SyntaxElement", "SyntaxNodePtr", "AstNode", "AstPtr", "Option", "Some",
  "None", "Self", "Iterator", "TryFrom", "TryInto", "Result", "Ok", "Err", "Item", "Error", "Language", "String", "Vec", "Box",
  "Clone", "Copy", "Debug", "From", "Into", "Send", "Sync", "Drop", "Fn", "FnMut", "FnOnce", "Default", "Eq", "Ord",
  "PartialEq", "PartialOrd", "Hash", "Extend", "ToString", "ToOwned", "AsRef", "AsMut", "Sized", "Unpin", "GENERATED", "P", "C",
  "Display", "FromIterator", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Kind", "Type",
];

const RUST_KEYWORDS: &[&str] = &[
  "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "gen",
  "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super",
  "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override",
  "priv", "try", "typeof", "unsized", "virtual", "yield", "Self", "union", "raw", "safe",
];

/// Method names that mean something else for a generated type.
const METHODS: &[&str] = &["syntax", "cast", "can_cast", "clone_subtree", "clone", "fmt", "_", "__"];

#[derive(Debug, Clone)]
struct RawField {
  what: u16,
  tok: bool,
  modifier: Modifier,
  labelled: Option<u8>,
  style: u8,
}

#[derive(Debug, Clone)]
struct RawNode {
  name: String,
  /// 0 and 1: choices.
  how: u8,
  fields: Vec<RawField>,
}

fn doc_text() -> BoxedStrategy<String> {
  prop_oneof![4 => "[a-zA-Z .`]{0,30}", 1 => vcore::generate::text_of(20), 1 => "(\"|\\\\|\\{|\\}|\n|#){0,6}"].boxed()
}

fn raw_tok() -> BoxedStrategy<Tok> {
  let named: Vec<char> = "_-,;:!?.()[]{}*/&#%^+<=>|~`$@".chars().collect();
  let few: Vec<char> = "<=>.:-".chars().collect();
  let punct = prop_oneof![
    3 => prop::collection::vec(prop::sample::select(few), 1..4),
    3 => prop::collection::vec(prop::sample::select(named.clone()), 1..4),
    1 => prop::collection::vec(prop::sample::select(named), 4..20),
  ]
  .prop_map(|cs| (cs.into_iter().collect::<String>(), TokKind::Punctuation));
  let kw = prop_oneof![
    6 => prop::sample::select(vec!["if", "i", "in", "int", "fn", "let", "self", "type", "val", "and_also", "SELECT", "i32", "_x", "then"])
      .prop_map(str::to_owned),
    6 => "[a-z]{1,5}",
    2 => "[a-z][a-z0-9_]{0,6}",
    2 => "[A-Z]{2,5}",
    1 => prop_oneof![3 => "[a-z_]{8,40}x", 1 => "[a-z]{60,300}"],
  ]
  .prop_map(|s| (s, TokKind::Keyword));
  let special = (
    prop_oneof![
      6 => prop::sample::select(vec!["Name", "Int", "StringLit", "ident", "RealLit", "Word", "Minus", "IfKw", "TyVar", "Tyvar"]).prop_map(str::to_owned),
      3 => "[A-Z][a-z]{1,4}([A-Z][a-z0-9]{0,3})?",
      3 => "[a-z]{3,6}",
      1 => "([A-Z][a-z]{3,9}){4,20}",
    ],
    doc_text(),
  )
    .prop_map(|(s, d)| (s, TokKind::Special(d)));
  (prop_oneof![5 => punct, 4 => kw, 2 => special], prop::option::weighted(0.4, doc_text()))
    .prop_map(|((text, kind), doc)| Tok { text, kind, doc })
    .boxed()
}

fn raw_node() -> BoxedStrategy<RawNode> {
  let name = prop_oneof![
    9 => prop::sample::select(vec!["Root", "Expr", "Pat", "Ty", "Dec", "Stmt", "Arg", "FnDef", "IfExpr", "ExprList", "Comma", "Plus", "LetKw", "ABTree", "Field"])
      .prop_map(str::to_owned),
    9 => "[A-Z][a-z]{1,4}",
    6 => "[A-Z][a-z]{1,3}[A-Z][a-z]{0,3}",
    3 => "[A-Z][A-Za-z_]{0,6}",
    1 => "([A-Z][a-z]{3,9}){4,20}",
  ];
  let modifier = prop_oneof![4 => Just(Modifier::Regular), 2 => Just(Modifier::Optional), 2 => Just(Modifier::Repeated)];
  let field = (any::<u16>(), prop::bool::weighted(0.55), modifier, prop::option::weighted(0.25, any::<u8>()), any::<u8>())
    .prop_map(|(what, tok, modifier, labelled, style)| RawField { what, tok, modifier, labelled, style });
  (name, 0u8..8, prop::collection::vec(field, 1..7)).prop_map(|(name, how, fields)| RawNode { name, how, fields }).boxed()
}

const LABELS: &[&str] = &["lhs", "rhs", "name", "body", "a", "b", "then_part", "x_y", "Big", "op", "left", "right"];

fn assemble(
  lang: String,
  mut trivia: Vec<String>,
  mut toks: Vec<Tok>,
  raws: Vec<RawNode>,
  narrow: u8,
  root_label: bool,
  share: bool,
) -> Option<(String, Vec<String>, Vec<Tok>, Vec<NodeDef>)> {
  let reserved = |s: &str| RESERVED.contains(&s) || RUST_KEYWORDS.contains(&s) || s == lang || s.chars().all(|c| c == '_');
  // types
  let mut raws: Vec<RawNode> = raws;
  let mut names = BTreeSet::new();
  raws.retain(|r| !reserved(&r.name) && names.insert(r.name.clone()));
  // first decide what is a sequence: choices need two members
  let seqs: Vec<usize> = (0..raws.len()).filter(|&i| raws[i].how >= 2).collect();
  if seqs.is_empty() {
    return None;
  }
  // kinds must be distinct; texts too
  let mut kinds: BTreeSet<String> = seqs.iter().map(|&i| raws[i].name.clone()).collect();
  let mut texts = BTreeSet::new();
  toks.retain(|t| {
    let n = t.name();
    !reserved(&n) && texts.insert(t.text.clone()) && kinds.insert(n)
  });
  trivia.retain(|t| !reserved(t) && kinds.insert(t.clone()));
  // a choice has no kind of its own, so it can be called what a token's kind is called
  if share && !toks.is_empty() {
    let name = toks[0].name();
    if let Some(r) = raws.iter_mut().find(|r| r.how < 2)
      && !names.contains(&name)
      && name.bytes().all(|b| b.is_ascii_alphabetic() || b == b'_')
      && name.as_bytes()[0].is_ascii_uppercase()
    {
      r.name = name;
    }
  }
  let n_toks = toks.len();
  let mut nodes: Vec<NodeDef> = Vec::new();
  let defined: BTreeSet<String> = raws.iter().map(|r| r.name.clone()).collect();
  for r in &raws {
    let pick = |f: &RawField, n: usize| usize::from(f.what) % n;
    let mut rule = None;
    if r.how == 0 {
      let mut ns: Vec<usize> = r.fields.iter().map(|f| seqs[pick(f, seqs.len())]).collect();
      let mut seen = BTreeSet::new();
      ns.retain(|&n| seen.insert(n));
      if ns.len() >= 2 {
        rule = Some(Rule::NodeChoice(ns));
      }
    }
    // a choice of tokens brings a second type with it
    if r.how == 1 && n_toks >= 2 && !defined.contains(&format!("{}Kind", r.name)) && format!("{}Kind", r.name) != lang {
      let mut ts: Vec<usize> = r.fields.iter().map(|f| pick(f, n_toks)).collect();
      let mut seen = BTreeSet::new();
      ts.retain(|&n| seen.insert(n));
      if ts.len() >= 2 && !reserved(&format!("{}Kind", r.name)) {
        rule = Some(Rule::TokChoice(ts));
      }
    }
    if rule.is_none() && r.how < 2 {
      return None;
    }
    nodes.push(NodeDef { name: r.name.clone(), rule: rule.unwrap_or(Rule::Seq(Vec::new())) });
  }
  let mut g = Gram {
    lang: lang.clone(),
    trivia: trivia.clone(),
    toks: toks.clone(),
    nodes,
    extra_doc: Vec::new(),
    extra_special: Vec::new(),
    file: String::new(),
    layout: 0,
  };
  for (i, r) in raws.iter().enumerate() {
    if r.how < 2 {
      continue;
    }
    let mut used: BTreeSet<String> = METHODS.iter().map(|&s| s.to_owned()).collect();
    used.extend(RUST_KEYWORDS.iter().map(|&s| s.to_owned()));
    let mut fs: Vec<Field> = Vec::new();
    for (n, f) in r.fields.iter().enumerate() {
      // few types: several fields of one type
      let at = if narrow > 0 { usize::from(f.what) % usize::from(narrow) } else { usize::from(f.what) };
      let what = if f.tok && n_toks > 0 { What::Tok(at % n_toks) } else { What::Node(at % g.nodes.len()) };
      let mut field = Field {
        label: f.labelled.map(|l| LABELS[usize::from(l) % LABELS.len()].to_owned()),
        modifier: f.modifier,
        what,
        style: f.style,
      };
      if root_label && n == 0 {
        field.label = None;
      }
      if used.contains(&g.field_name(&field)) {
        let letter = |i: usize| char::from(b'a' + (i % 26) as u8);
        field.label = Some(if n < 26 { format!("f_{}", letter(n)) } else { format!("f_{}{}", letter(n / 26), letter(n)) });
      }
      if used.insert(g.field_name(&field)) {
        fs.push(field);
      }
    }
    if fs.is_empty() {
      return None;
    }
    g.nodes[i].rule = Rule::Seq(fs);
  }
  Some((g.lang, g.trivia, g.toks, g.nodes))
}

pub fn grammar() -> BoxedStrategy<Gram> {
  grammar_of(false)
}

/// Of hundreds of kinds, if `large`.
pub fn grammar_of(large: bool) -> BoxedStrategy<Gram> {
  let lang = prop_oneof![3 => Just("Lang".to_owned()), 1 => "[A-Z][a-z]{2,6}Lang"];
  let triv = prop_oneof![
    2 => prop::sample::select(vec!["Whitespace", "BlockComment", "LineComment", "Invalid", "Comment"]).prop_map(str::to_owned),
    1 => "[A-Z][a-z]{2,6}",
  ];
  let triv = prop_oneof![1 => Just(Vec::new()), 5 => prop::collection::vec(triv, 1..4)];
  let toks = prop_oneof![1 => prop::collection::vec(raw_tok(), 0..5), 4 => prop::collection::vec(raw_tok(), 5..18)];
  let nodes = prop_oneof![5 => prop::collection::vec(raw_node(), 1..12), 1 => prop::collection::vec(raw_node(), 10..24)];
  // one node that refers to many tokens
  let whats = if large {
    Just((0..320).collect::<Vec<u16>>()).boxed()
  } else {
    prop::collection::vec(any::<u16>(), 5..14).boxed()
  };
  let many = whats.prop_map(|ws| RawNode {
    name: "Tokens".to_owned(),
    how: 7,
    fields: ws.into_iter().map(|what| RawField { what, tok: true, modifier: Modifier::Regular, labelled: None, style: 0 }).collect(),
  });
  let (toks, nodes) = if large {
    (prop::collection::vec(raw_tok(), 250..320).boxed(), prop::collection::vec(raw_node(), 60..180).boxed())
  } else {
    (toks.boxed(), nodes.boxed())
  };
  // choices of too few members, which are likely among many, would have the grammar refused
  let nodes = nodes.prop_map(move |mut ns| {
    if large {
      ns.iter_mut().filter(|n| n.how < 2 && n.fields.len() < 4).for_each(|n| n.how = 7);
    }
    ns
  });
  // choices of many members, in any order; nodes of many fields
  let wide = (0u8..3, prop::collection::vec((any::<u16>(), any::<bool>(), any::<u8>()), 17..70)).prop_map(|(how, ws)| RawNode {
    name: ["AnyOf", "AnyTok", "Lots"][usize::from(how)].to_owned(),
    how,
    fields: ws
      .into_iter()
      .map(|(what, tok, m)| {
        let modifier = [Modifier::Regular, Modifier::Regular, Modifier::Optional, Modifier::Repeated][usize::from(m % 4)];
        RawField { what, tok, modifier, labelled: None, style: m }
      })
      .collect(),
  });
  let wide = prop::option::weighted(if large { 0.95 } else { 0.08 }, prop::collection::vec(wide, if large { 4..8 } else { 1..3 }));
  let nodes = (nodes, prop::option::weighted(if large { 0.99 } else { 0.6 }, many), wide).prop_map(|(mut ns, m, w)| {
    ns.extend(m);
    ns.extend(w.into_iter().flatten());
    ns
  });
  let extra = prop::collection::vec(("[a-z]{1,3}|[+<]{1,2}|Unused[A-Z][a-z]{1,4}", doc_text()), 0..3);
  let file = prop_oneof![2 => Just("crates/x/build.rs".to_owned()), 1 => "[a-z/\\\\. \"']{0,12}", 1 => vcore::generate::text_of(10)];
  (lang, triv, toks, nodes, if large { 0u8..1 } else { 0u8..4 }, any::<bool>(), prop::bool::weighted(0.15))
    .prop_filter_map("grammar", |(lang, triv, toks, nodes, narrow, root_label, share)| {
      assemble(lang, triv, toks, nodes, narrow, root_label, share)
    })
    .prop_flat_map(move |built| (Just(built), extra.clone(), extra.clone(), file.clone(), any::<u8>()))
    .prop_map(|((lang, trivia, toks, nodes), docs, specials, file, layout)| {
      let known: BTreeSet<String> = toks.iter().map(|t| t.text.clone()).collect();
      let only = |xs: Vec<(String, String)>| {
        let m: BTreeMap<String, String> = xs.into_iter().filter(|(k, _)| !known.contains(k)).collect();
        m.into_iter().collect()
      };
      let (extra_doc, extra_special) = (only(docs), only(specials));
      Gram { lang, trivia, toks, nodes, extra_doc, extra_special, file, layout }
    })
    .boxed()
}
