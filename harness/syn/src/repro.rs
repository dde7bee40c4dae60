//! C20: reproducible generation.

use crate::comp::Scratch;
use crate::gram::{Gram, Modifier, Rule, TokKind, generate, grammar};
use proc_macro2::{TokenStream, TokenTree};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};
use vcore::{OrGiveUp as _, Cov, Outcome, Prop, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Run {
  gram: u8,
  dir: u8,
  order: u64,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  grams: Vec<Gram>,
  runs: Vec<Run>,
  /// What is in the directories before: name, contents, directory.
  before: Vec<(String, String, u8)>,
}

fn case() -> BoxedStrategy<Case> {
  let run = (any::<u8>(), 0u8..3, any::<u64>()).prop_map(|(gram, dir, order)| Run { gram, dir, order });
  let name = prop_oneof![
    3 => Just("ast.rs".to_owned()),
    3 => Just("kind.rs".to_owned()),
    2 => prop::sample::select(vec!["mod.rs", "lib.rs", "kind.rs.bak", "ast", "kind", "AST.rs", "out.txt"]).prop_map(str::to_owned),
  ];
  let text = prop_oneof![2 => "[a-z]{0,6}", 1 => (0usize..60_000).prop_map(|n| "// old\n".repeat(n / 7))];
  (prop::collection::vec(grammar(), 1..3), prop::collection::vec(run, 2..8), prop::collection::vec((name, text, 0u8..3), 0..5))
    .prop_map(|(grams, runs, before)| Case { grams, runs, before })
    .boxed()
}

pub fn listing(dir: &Path) -> BTreeMap<String, Vec<u8>> {
  let mut ret = BTreeMap::new();
  let mut todo = vec![dir.to_owned()];
  while let Some(d) = todo.pop() {
    for e in std::fs::read_dir(&d).or_give_up("read scratch") {
      let p = e.or_give_up("entry").path();
      if p.is_dir() {
        todo.push(p.clone());
        ret.insert(format!("{}/", p.strip_prefix(dir).unwrap().display()), Vec::new());
      } else {
        ret.insert(p.strip_prefix(dir).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).or_give_up("read"));
      }
    }
  }
  ret
}

fn names_file(ts: TokenStream, file: &str) -> bool {
  ts.into_iter().any(|t| match t {
    TokenTree::Group(g) => names_file(g.stream(), file),
    TokenTree::Literal(l) => matches!(syn::Lit::new(l), syn::Lit::Str(s) if s.value() == file),
    _ => false,
  })
}

fn text_of<'a>(files: &'a BTreeMap<String, Vec<u8>>, name: &str) -> Result<&'a str, String> {
  let b = files.get(name).ok_or_else(|| format!("{name} was not written"))?;
  std::str::from_utf8(b).map_err(|e| e.to_string())
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let dirs: Vec<_> = (0..3).map(|i| scratch.0.join(format!("d{i}"))).collect();
  for d in &dirs {
    std::fs::create_dir(d).or_give_up("mkdir");
  }
  for (name, text, d) in &c.before {
    std::fs::write(dirs[usize::from(*d)].join(name), text).or_give_up("write");
  }
  let mut first: BTreeMap<usize, (String, String)> = BTreeMap::new();
  for (i, r) in c.runs.iter().enumerate() {
    let (gi, di) = (usize::from(r.gram) % c.grams.len(), usize::from(r.dir));
    let g = &c.grams[gi];
    let mut want = listing(&scratch.0);
    generate(g, &dirs[di], r.order)?;
    let got = listing(&scratch.0);
    let (a, k) = (format!("d{di}/ast.rs"), format!("d{di}/kind.rs"));
    let (ast, kind) = (text_of(&got, &a)?, text_of(&got, &k)?);
    for n in [&a, &k] {
      want.insert(n.clone(), got[n].clone());
    }
    if got != want {
      let diff: Vec<_> = got.keys().chain(want.keys()).filter(|k| got.get(*k) != want.get(*k)).collect();
      return Err(format!("run {i} touched other files: {diff:?}"));
    }
    for (n, t) in [("ast.rs", ast), ("kind.rs", kind)] {
      let ts: TokenStream = t.parse().map_err(|e| format!("run {i}: {n} is no Rust: {e}"))?;
      ensure!(names_file(ts, &g.file), "run {i}: {n} does not name the generating file {:?}", g.file);
    }
    match first.get(&gi) {
      None => {
        first.insert(gi, (ast.to_owned(), kind.to_owned()));
      }
      Some((ast0, kind0)) => {
        cov.nontrivial();
        cov.label_if(c.before.iter().any(|b| b.2 == r.dir), "into a directory with files");
        ensure_eq!(first_difference(ast, ast0), None, "run {i}: ast.rs differs from that of the first run\n{}", g.text());
        ensure_eq!(first_difference(kind, kind0), None, "run {i}: kind.rs differs from that of the first run\n{}", g.text());
      }
    }
  }
  cov.label_if(first.len() > 1, "two grammars");
  cov.label_if(c.grams.iter().any(|g| g.docs().len() > 2 && g.specials().len() > 1), "several entries in both maps");
  Ok(())
}

fn first_difference(a: &str, b: &str) -> Option<(usize, String, String)> {
  if a == b {
    return None;
  }
  let n = a.lines().zip(b.lines()).take_while(|(a, b)| a == b).count();
  let l = |s: &str| s.lines().nth(n).unwrap_or("<end>").to_owned();
  Some((n + 1, l(a), l(b)))
}

/// The same in processes of their own.
fn check_process(g: &Gram, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let file = scratch.0.join("gram.json");
  std::fs::write(&file, vcore::serde_json::to_vec(g).unwrap()).or_give_up("write");
  let mut seen: Option<(String, String)> = None;
  cov.nontrivial();
  for order in [0u64, 8, 9] {
    let dir = scratch.0.join(format!("d{order}"));
    std::fs::create_dir(&dir).or_give_up("mkdir");
    run_child("generate", &file, order, &dir)?;
    let files = listing(&dir);
    ensure_eq!(files.keys().map(String::as_str).collect::<Vec<_>>(), ["ast.rs", "kind.rs"], "files written");
    let now = (text_of(&files, "ast.rs")?.to_owned(), text_of(&files, "kind.rs")?.to_owned());
    if let Some(old) = &seen {
      ensure_eq!(first_difference(&now.0, &old.0), None, "ast.rs differs between processes");
      ensure_eq!(first_difference(&now.1, &old.1), None, "kind.rs differs between processes");
    }
    seen = Some(now);
  }
  Ok(())
}

/// One process generates a grammar and ones almost like it; what it writes for each is what a process
/// that generates only that one writes.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct History {
  first: Gram,
  /// Each a change to the one before, or to the first.
  changes: Vec<(u8, u16, u16, bool)>,
}

fn history() -> BoxedStrategy<History> {
  let change = (0u8..12, any::<u16>(), any::<u16>(), any::<bool>());
  (grammar(), prop::collection::vec(change, 1..6)).prop_map(|(first, changes)| History { first, changes }).boxed()
}

fn replace_char(s: &mut String, at: u16) {
  let mut cs: Vec<char> = s.chars().collect();
  if cs.is_empty() {
    s.push('q');
    return;
  }
  // most often the last
  let i = if at % 2 == 0 { cs.len() - 1 } else { usize::from(at / 2) % cs.len() };
  cs[i] = if cs[i] == 'q' { 'p' } else { 'q' };
  *s = cs.into_iter().collect();
}

fn change(g: &mut Gram, (how, a, b, _): (u8, u16, u16, bool)) {
  let (a, at) = (usize::from(a), b);
  let b = usize::from(b);
  match how {
    0 | 1 | 2 => {
      let used: Vec<usize> = g.used_toks().into_iter().collect();
      if let Some(&t) = used.get(a % used.len().max(1)) {
        replace_char(g.toks[t].doc.get_or_insert_default(), at);
      }
    }
    3 => {
      if let Some(d) = g.toks.iter_mut().filter_map(|t| if let TokKind::Special(d) = &mut t.kind { Some(d) } else { None }).next() {
        replace_char(d, at);
      }
    }
    4 => {
      if !g.toks.is_empty() {
        let (i, j) = (a % g.toks.len(), b % g.toks.len());
        let d = g.toks[i].doc.clone();
        g.toks[i].doc = g.toks[j].doc.clone();
        g.toks[j].doc = d;
      }
    }
    5 => replace_char(&mut g.file, at),
    6 => {
      let n = a % g.nodes.len();
      if let Rule::Seq(fs) = &mut g.nodes[n].rule
        && fs.len() > 1
      {
        fs.truncate(1 + b % (fs.len() - 1));
      }
    }
    7 => {
      let n = a % g.nodes.len();
      if let Rule::Seq(fs) = &mut g.nodes[n].rule {
        let f = b % fs.len();
        fs[f].modifier = match fs[f].modifier {
          Modifier::Regular => Modifier::Optional,
          Modifier::Optional => Modifier::Regular,
          Modifier::Repeated => Modifier::Repeated,
        };
      }
    }
    8 => {
      let n = a % g.nodes.len();
      match &mut g.nodes[n].rule {
        Rule::Seq(fs) => fs.reverse(),
        Rule::NodeChoice(ns) => ns.reverse(),
        Rule::TokChoice(ts) => ts.reverse(),
      }
    }
    9 => g.layout = g.layout.wrapping_add(1 + a as u8),
    10 => g.trivia.reverse(),
    _ => {
      let t = a % g.toks.len().max(1);
      if let Some(t) = g.toks.get_mut(t) {
        t.doc = None;
      }
    }
  }
}

fn run_child(mode: &str, file: &Path, order: u64, dir: &Path) -> Outcome {
  let out = Command::new(std::env::current_exe().or_give_up("own path"))
    .arg(mode)
    .arg(file)
    .arg(order.to_string())
    .env("OUT_DIR", dir)
    .stdin(Stdio::null())
    .output()
    .or_give_up("run");
  vcore::not_killed(out.status);
  ensure!(out.status.success(), "generation failed: {}", String::from_utf8_lossy(&out.stderr));
  Ok(())
}

fn check_history(c: &History, cov: &mut Cov) -> Outcome {
  let mut grams = vec![c.first.clone()];
  for &ch in &c.changes {
    let mut g = if ch.3 { c.first.clone() } else { grams.last().unwrap().clone() };
    change(&mut g, ch);
    if g == *grams.last().unwrap() {
      cov.label("a change that changes nothing");
    } else {
      cov.nontrivial();
    }
    grams.push(g);
  }
  let scratch = Scratch::new();
  let all = scratch.0.join("all");
  std::fs::create_dir(&all).or_give_up("mkdir");
  for i in 0..grams.len() {
    std::fs::create_dir(all.join(i.to_string())).or_give_up("mkdir");
  }
  let file = scratch.0.join("grams.json");
  std::fs::write(&file, vcore::serde_json::to_vec(&grams).unwrap()).or_give_up("write");
  run_child("generate-all", &file, 0, &all)?;
  for (i, g) in grams.iter().enumerate() {
    let alone = scratch.0.join(format!("alone{i}"));
    std::fs::create_dir(&alone).or_give_up("mkdir");
    std::fs::write(&file, vcore::serde_json::to_vec(g).unwrap()).or_give_up("write");
    run_child("generate", &file, 0, &alone)?;
    let (got, want) = (listing(&all.join(i.to_string())), listing(&alone));
    for n in ["ast.rs", "kind.rs"] {
      ensure_eq!(
        first_difference(text_of(&got, n)?, text_of(&want, n)?),
        None,
        "{n} for grammar {i} of one process differs from what a process of its own writes\n{}",
        g.text()
      );
    }
  }
  Ok(())
}

/// What the child process does.
pub fn child_all(file: &str) {
  let gs: Vec<Gram> = vcore::serde_json::from_slice(&std::fs::read(file).expect("grammars")).expect("grammars");
  let dir = std::env::var_os("OUT_DIR").expect("OUT_DIR");
  for (i, g) in gs.iter().enumerate() {
    generate(g, &Path::new(&dir).join(i.to_string()), 0).expect("generate");
  }
}

/// What the child process does.
pub fn child(file: &str, order: &str) {
  let g: Gram = vcore::serde_json::from_slice(&std::fs::read(file).expect("grammar")).expect("grammar");
  let dir = std::env::var_os("OUT_DIR").expect("OUT_DIR");
  generate(&g, Path::new(&dir), order.parse().expect("order")).expect("generate");
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C20",
    parts: vec![
      part("runs", "a grammar was generated at least twice", 1_500, 40_000, case, check),
      part("processes", "always", 120, 3_000, grammar, check_process),
      part("history", "one process generated a grammar and a changed one", 200, 6_000, history, check_history),
    ],
  }]
}
