//! C18: generated syntax kinds and token tables.

use crate::comp::{PRELUDE, hex, run};
use crate::gram::{Gram, TokKind, grammar_of};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  gram: Gram,
  /// More texts to look up as keywords.
  queries: Vec<String>,
  /// Whether to compile without debug assertions.
  #[serde(default)]
  release: bool,
}

fn case(large: bool) -> BoxedStrategy<Case> {
  let q = prop_oneof!["[a-z]{0,4}", vcore::generate::text_of(4)];
  (grammar_of(large), prop::collection::vec(q, 0..6), any::<bool>()).prop_map(|(gram, queries, release)| Case { gram, queries, release }).boxed()
}

fn main_text(g: &Gram) -> String {
  let kinds: Vec<String> = g.kinds().iter().map(|k| format!("  SyntaxKind::{k},\n")).collect();
  format!(
    r#"{PRELUDE}
const KINDS: &[SyntaxKind] = &[
{}];
type Lang = kind::{};
use rowan::Language as _;
use token::Triviable as _;
fn main() {{
  std::panic::set_hook(Box::new(|_| {{}}));
  for &k in KINDS {{
    let raw: rowan::SyntaxKind = k.into();
    println!("kind {{}} {{}} {{}} {{k:?}} {{}} {{}} {{}} {{}}", raw.0, Lang::kind_to_raw(k).0, Lang::kind_from_raw(raw) == k,
      hex(k.to_string().as_bytes()), opt(k.token_desc()), opt(k.token_doc()), k.is_trivia());
  }}
  for (n, f) in [("kind", kind::GENERATED_BY), ("ast", ast::GENERATED_BY)] {{ println!("by {{n}} {{}}", hex(f.as_bytes())); }}
  for (t, k) in SyntaxKind::PUNCTUATION {{ println!("punct {{}} {{k:?}}", hex(t)); }}
  for q in input().lines() {{
    if let Some(q) = q.strip_prefix("raw ") {{
      let raw = rowan::SyntaxKind(q.parse().unwrap());
      let r = std::panic::catch_unwind(|| Lang::kind_from_raw(raw));
      match r {{
        // not printed: it may be no value of its type
        Ok(_) => println!("raw {{q}} ok"),
        Err(_) => println!("raw {{q}} refused"),
      }}
    }} else {{
      println!("kw {{q}} {{:?}}", SyntaxKind::keyword(&unhex(q)));
    }}
  }}
}}
"#,
    kinds.concat(),
    g.lang,
  )
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let g = &c.gram;
  let used = g.used_toks();
  let kinds = g.kinds();
  let n = kinds.len();
  let count = |f: fn(&TokKind) -> bool| used.iter().filter(|&&t| f(&g.toks[t].kind)).count();
  let puncts = count(|k| *k == TokKind::Punctuation);
  let kws = count(|k| *k == TokKind::Keyword);
  cov.label_if(n > 256, "over 256 kinds");
  let long = |kind: fn(&TokKind) -> bool, n: usize| used.iter().any(|&t| kind(&g.toks[t].kind) && g.toks[t].text.len() > n);
  cov.label_if(long(|k| *k == TokKind::Keyword, 50), "a keyword of over 50");
  cov.label_if(long(|k| *k == TokKind::Punctuation, 8), "punctuation of over 8");
  cov.label_if(g.trivia.is_empty(), "no trivia");
  cov.label_if(g.nodes.iter().any(|n| n.name == "Root"), "root");
  cov.label_if(kws == 0, "no keywords");
  cov.label_if(count(|k| matches!(k, TokKind::Special(_))) > 0, "special tokens");
  cov.label_if(used.iter().any(|&t| g.toks[t].doc.is_some()), "documented token");
  if puncts >= 2 && kws >= 1 {
    cov.nontrivial();
  }
  // what to ask
  let mut queries: BTreeSet<Vec<u8>> = c.queries.iter().map(|q| q.clone().into_bytes()).collect();
  queries.insert(Vec::new());
  for t in g.toks.iter().map(|t| t.text.clone()).chain(kinds.iter().cloned()).chain(g.nodes.iter().map(|n| n.name.clone())) {
    queries.insert(t.to_ascii_uppercase().into_bytes());
    queries.insert(t.to_ascii_lowercase().into_bytes());
    queries.insert(format!("{t}a").into_bytes());
    queries.insert(format!("{t}\0").into_bytes());
    let mut b = t.into_bytes();
    queries.insert(b.clone());
    b.pop();
    queries.insert(b);
  }
  queries.insert(vec![0xff]);
  let raws: Vec<u16> = [n, n + 1, n + 2, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff].into_iter().map(|r| r as u16).collect();
  let mut input = String::new();
  for r in &raws {
    input.push_str(&format!("raw {r}\n"));
  }
  for q in &queries {
    input.push_str(&hex(q));
    input.push('\n');
  }
  let out = run(g, &main_text(g), &input, c.release)?;
  // what must come back
  let mut desc: BTreeMap<String, (Option<String>, Option<String>)> = BTreeMap::new();
  let mut keywords: BTreeMap<Vec<u8>, String> = BTreeMap::new();
  let mut punct: BTreeMap<String, String> = BTreeMap::new();
  for &t in &used {
    let t = &g.toks[t];
    desc.insert(t.name(), (Some(t.desc()), t.doc.clone()));
    match t.kind {
      TokKind::Keyword => {
        keywords.insert(t.text.clone().into_bytes(), t.name());
      }
      TokKind::Punctuation => {
        punct.insert(hex(t.text.as_bytes()), t.name());
      }
      TokKind::Special(_) => {}
    }
  }
  let mut numbers = BTreeSet::new();
  let mut table: Vec<(String, String)> = Vec::new();
  let mut seen = 0;
  for line in out.lines() {
    let w: Vec<&str> = line.split(' ').collect();
    match w[0] {
      "kind" => {
        let k = &kinds[seen];
        seen += 1;
        let none = (None, None);
        let (d, doc) = desc.get(k).unwrap_or(&none);
        ensure_eq!(w[4], k, "name of kind {k}");
        ensure_eq!(w[1], w[2], "the two ways to get the number of {k}; same");
        ensure_eq!(w[3], "true", "{k} round-trips through its number {}", w[1]);
        let raw: usize = w[1].parse().unwrap();
        ensure!(raw < n && numbers.insert(raw), "{k} is number {raw} of {n}, or shares it");
        let show = |s: &Option<String>| s.as_ref().map_or("-".to_owned(), |s| hex(s.as_bytes()));
        ensure_eq!(w[5], hex(d.as_ref().unwrap_or(k).as_bytes()), "displayed name of {k}");
        ensure_eq!(w[6], show(d), "description of {k} ({d:?})");
        ensure_eq!(w[7], show(doc), "documentation of {k} ({doc:?})");
        ensure_eq!(w[8], g.trivia.contains(k).to_string(), "{k} is trivia");
      }
      "by" => ensure_eq!(w[2], hex(g.file.as_bytes()), "generating file named in {}.rs", w[1]),
      "punct" => table.push((w[1].to_owned(), w[2].to_owned())),
      "raw" => {
        let r: usize = w[1].parse().unwrap();
        ensure_eq!(w[2], if r < n { "ok" } else { "refused" }, "number {r} of {n} kinds");
      }
      "kw" => {
        let q = queries.iter().find(|q| hex(q) == w[1]).ok_or("unknown query")?;
        let want = keywords.get(q).map(|k| format!("Some({k})")).unwrap_or_else(|| "None".to_owned());
        ensure_eq!(w[2], want, "keyword {:?}", String::from_utf8_lossy(q));
      }
      _ => return Err(format!("unexpected output {line}")),
    }
  }
  ensure_eq!(seen, n, "kinds printed");
  ensure_eq!(out.lines().filter(|l| l.starts_with("kw ")).count(), queries.len(), "keyword answers");
  ensure_eq!(table.len(), punct.len(), "length of the punctuation table {table:?}");
  ensure_eq!(table.iter().cloned().collect::<BTreeMap<_, _>>(), punct, "punctuation table");
  for (i, (t, _)) in table.iter().enumerate() {
    for (u, _) in &table[..i] {
      ensure!(!t.starts_with(u.as_str()), "{t} is placed after its prefix {u}");
    }
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C18",
    parts: vec![
      part("kinds", "at least two punctuation tokens and one keyword", 1_200, 24_000, || case(false), check),
      part("large-kinds", "hundreds of kinds; non-trivial: as above", 12, 240, || case(true), check),
    ],
  }]
}
