//! C43: what cannot be expressed or written is refused.

use crate::comp::Scratch;
use crate::gram::{Gram, Rule, generate, generate_text, grammar, no_out_dir, out_dir};
use crate::repro::listing;
use proc_macro2::TokenStream;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;
use vcore::{Cov, OrGiveUp as _, Outcome, Prop, catch, ensure, part};

/// Which thing is wrong with one rule, or with the options.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Defect {
  TwoModifiers,
  TwoLabels,
  Group,
  Choice,
  MixedChoice,
  ChoiceMember,
  Text,
  TokenName,
  SpecialName,
  Lang,
  Trivia,
}

const DEFECTS: &[Defect] = &[
  Defect::TwoModifiers,
  Defect::TwoModifiers,
  Defect::TwoLabels,
  Defect::Group,
  Defect::Choice,
  Defect::MixedChoice,
  Defect::ChoiceMember,
  Defect::ChoiceMember,
  Defect::Text,
  Defect::TokenName,
  Defect::SpecialName,
  Defect::Lang,
  Defect::Trivia,
];

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  gram: Gram,
  defect: Defect,
  variant: u8,
  /// Nodes to refer to.
  nodes: (u8, u8, u8),
  /// Of the rule's two operands, whether each is a token.
  toks: (bool, bool),
  /// Fields before and after.
  around: (u8, u8),
  /// Where the rule is.
  at: u8,
  order: u64,
  /// A text for what is no name.
  word: String,
}

fn case() -> BoxedStrategy<Case> {
  let word = prop_oneof![
    2 => prop::sample::select(vec!["", "-", "a-b", "a b", "9", "0x", "a.b", "é!", "r#", "'", "a'", "\"a\"", " a", "a ", "a::b", "日本!", "\n", "a\n"]).prop_map(str::to_owned),
    1 => "[a-z]{0,5}[-+. !/]{1,2}[a-z0-9]{0,5}",
    1 => "[0-9]{1,3}[a-z_]{0,4}",
  ];
  let defect = prop::sample::select(DEFECTS.to_vec());
  (
    (grammar(), defect, any::<u8>(), any::<(u8, u8, u8)>()),
    (any::<(bool, bool)>(), (0u8..4, 0u8..4), any::<u8>(), any::<u64>(), word),
  )
    .prop_map(|((gram, defect, variant, nodes), (toks, around, at, order, word))| Case {
      gram,
      defect,
      variant,
      nodes,
      toks,
      around,
      at,
      order,
      word,
    })
    .boxed()
}

/// The case's grammar with a rule that is right and one that is not.
struct Two {
  right: (Gram, String),
  wrong: (Gram, String),
  /// Whether all that is wrong is in the grammar, so that nothing can be written of it.
  in_grammar: bool,
}

fn two(c: &Case) -> Option<Two> {
  let g = &c.gram;
  let mut own = "Own".to_owned();
  while g.nodes.iter().any(|n| n.name == own) {
    own.push('n');
  }
  let node = |i: u8| g.nodes[usize::from(i) % g.nodes.len()].name.clone();
  let seq = |i: u8| {
    let seqs: Vec<&str> = g.nodes.iter().filter(|n| matches!(n.rule, Rule::Seq(_))).map(|n| n.name.as_str()).collect();
    seqs[usize::from(i) % seqs.len()].to_owned()
  };
  // tokens that no generated map of special tokens has
  let (t, u) = ("'->.'", "'whenever'");
  let x = if c.toks.0 { t.to_owned() } else { node(c.nodes.0) };
  let y = if c.toks.1 { u.to_owned() } else { node(c.nodes.1) };
  let v = usize::from(c.variant);
  let (sep, end) = g.layout();
  // a field among others, or a whole rule
  let field = |f: &str| {
    let mut fs: Vec<String> = (0..c.around.0).map(|i| format!("before_{}:{}", ["a", "b", "c"][usize::from(i)], node(i))).collect();
    fs.push(f.to_owned());
    fs.extend((0..c.around.1).map(|i| format!("after_{}:{}?", ["a", "b", "c"][usize::from(i)], node(c.nodes.2))));
    format!("{own} ={sep}{}{end}", fs.join(sep))
  };
  let whole = |members: &[String]| format!("{own} ={sep}{}{end}", members.join(&format!("{sep}| ")));
  let pick = |xs: &[String]| xs[v % xs.len()].clone();
  let mut right_g = g.clone();
  let mut wrong_g = g.clone();
  let mut in_grammar = true;
  let (right, wrong) = match c.defect {
    Defect::TwoModifiers => {
      let bad = [
        format!("({x}?)*"),
        format!("({x}*)?"),
        format!("({x}?)?"),
        format!("({x}*)*"),
        format!("(own:({x}?))*"),
        format!("own:(({x}*)?)"),
        format!("(own:({x}*))*"),
        format!("own:({x}?)?"),
        format!("((({x}))*)*"),
        format!("((own:{x}?)?)"),
        format!("(own:{x}*)?"),
        format!("{x}?*"),
        format!("{x}**"),
      ];
      (field(&format!("own:{x}")), field(&pick(&bad)))
    }
    Defect::TwoLabels => {
      let bad = [
        format!("own:(other:{x})"),
        format!("own:(own:{x})"),
        format!("own:(other:{x})?"),
        format!("own:((other:{x})*)"),
        format!("(own:(other:{x}))*"),
        format!("own:other:{x}"),
      ];
      (field(&format!("own:{x}")), field(&pick(&bad)))
    }
    Defect::Group => {
      let bad = [
        format!("({x} {y})*"),
        format!("({x} {y})?"),
        format!("own:({x} {y})"),
        format!("own:({x} {y})*"),
        format!("({x} own:{y}*)?"),
        format!("before:{x} ({x} {y})"),
      ];
      (field(&format!("left:{x} right:{y}")), field(&pick(&bad)))
    }
    Defect::Choice => {
      let bad = [
        format!("({x} | {y})*"),
        format!("({x} | {y})?"),
        format!("own:({x} | {y})"),
        format!("own:({x} | {y})?"),
        format!("before:{x} ({x} | {y})"),
      ];
      (field(&format!("left:{x} right:{y}")), field(&pick(&bad)))
    }
    Defect::MixedChoice => {
      let (a, b, n) = (seq(c.nodes.0), seq(c.nodes.1), seq(c.nodes.2));
      // alternatives of several nodes are named by them
      let bad = match v % 4 {
        0 => vec![a.clone(), t.to_owned()],
        1 => vec![t.to_owned(), a.clone()],
        2 => vec![a.clone(), b, n, t.to_owned()],
        _ => vec![t.to_owned(), u.to_owned(), a.clone()],
      };
      (whole(&[t.to_owned(), u.to_owned()]), whole(&bad))
    }
    Defect::ChoiceMember => {
      let (a, b) = if c.toks.0 { (t.to_owned(), u.to_owned()) } else { (seq(c.nodes.0), seq(c.nodes.1)) };
      let odd = match (v / 2) % 7 {
        0 => format!("{b}?"),
        1 => format!("{b}*"),
        2 => format!("own:{b}"),
        3 => format!("{a} {b}"),
        4 => format!("({b} {a})"),
        5 => format!("own:({b}*)"),
        _ => format!("({b}*)"),
      };
      let bad = if v % 2 == 0 { [a.clone(), odd] } else { [odd, a.clone()] };
      (whole(&[t.to_owned(), u.to_owned()]), whole(&bad))
    }
    Defect::Text => {
      let mut unknown = "Unknown".to_owned();
      while g.nodes.iter().any(|n| n.name == unknown) {
        unknown.push('n');
      }
      let bad = [
        field(&unknown),
        field(&format!("own:{unknown}*")),
        whole(&[seq(0), unknown]),
        format!("{}{}", field(&format!("own:{x}")), field(&format!("own:{y}"))),
        format!("{} = {x}{end}", seq(c.nodes.2)),
        format!("{own} ={end}"),
        format!("{own} {x}{end}"),
        field("()"),
        field(&format!("({x}")),
        field(&format!("{x})")),
        whole(&[String::new(), x.clone()]),
        whole(&[x.clone(), String::new()]),
        field("'open"),
        field("'a\\b'"),
        field("own:"),
        format!("{own} = {x} ^{end}"),
        format!("{own} = {x} \r\n"),
        format!("'{own}' = {x}{end}"),
      ];
      (field(&format!("own:{x}")), pick(&bad))
    }
    Defect::TokenName => {
      // a character without a name, or a word with what no word has
      let odd = ['1', '0', '9', ' ', '"', '\\', '\'', '\t', '\n', '\r', '\0', '\u{7f}', 'é', 'λ', '§', '\u{a0}', '→', '日', '²', '😀'];
      let named: Vec<char> = "_-,;:!?.()[]{}*/&#%^+<=>|~`$@".chars().collect();
      let mut bad = String::new();
      let mut r = c.order;
      let mut next = |n: usize| {
        r = r.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1);
        (r >> 33) as usize % n
      };
      let len = next(4);
      let at = next(len + 1);
      let word = v % 3 == 0;
      for i in 0..=len {
        bad.push(match (i == at, word) {
          (true, true) => named[1 + next(named.len() - 1)],
          (true, false) => odd[next(odd.len())],
          (false, true) => char::from(b'a' + next(26) as u8),
          (false, false) => named[next(named.len())],
        });
      }
      if word {
        bad.push('z');
      }
      if v % 16 == 1 {
        bad.clear();
      }
      let bad = bad.replace('\\', "\\\\").replace('\'', "\\'");
      (field("own:'->.'"), if v / 16 % 2 == 0 { field(&format!("own:'{bad}'")) } else { whole(&[t.to_owned(), format!("'{bad}'")]) })
    }
    Defect::SpecialName => {
      wrong_g.extra_special.push(("->.".to_owned(), "an arrow".to_owned()));
      (field(&format!("own:{t}")), field(&format!("own:{t}")))
    }
    Defect::Lang => {
      wrong_g.lang = not_a_name(&c.word)?;
      (field(&format!("own:{x}")), field(&format!("own:{x}")))
    }
    Defect::Trivia => {
      in_grammar = false;
      let at = v % (g.trivia.len() + 1);
      right_g.trivia.insert(at, "OwnTrivia".to_owned());
      wrong_g.trivia.insert(at, not_a_name(&c.word)?);
      (field(&format!("own:{x}")), field(&format!("own:{x}")))
    }
  };
  let text = |rule: String| {
    let mut rules = g.rules();
    rules.insert(usize::from(c.at) % (rules.len() + 1), rule);
    rules.concat()
  };
  Some(Two { right: (right_g, text(right)), wrong: (wrong_g, text(wrong)), in_grammar })
}

fn not_a_name(s: &str) -> Option<String> {
  let start = |c: char| c == '_' || c.is_alphabetic();
  let ok = s.chars().next().is_some_and(start) && s.chars().all(|c| start(c) || c.is_alphanumeric());
  // raw names are left out
  (!ok && !s.starts_with("r#")).then(|| s.to_owned())
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let Some(t) = two(c) else {
    cov.label("a name after all");
    return Ok(());
  };
  cov.nontrivial();
  cov.label(match c.defect {
    Defect::TwoModifiers => "two modifiers",
    Defect::TwoLabels => "two labels",
    Defect::Group => "a sequence in a field",
    Defect::Choice => "a choice in a field",
    Defect::MixedChoice => "a choice of nodes and tokens",
    Defect::ChoiceMember => "a choice of what is no node and no token",
    Defect::Text => "no grammar",
    Defect::TokenName => "a token without a name",
    Defect::SpecialName => "a special token without a name",
    Defect::Lang => "a language without a name",
    Defect::Trivia => "trivia without a name",
  });
  let scratch = Scratch::new();
  let (a, b) = (scratch.0.join("a"), scratch.0.join("b"));
  for d in [&a, &b] {
    std::fs::create_dir(d).or_give_up("mkdir");
  }
  let right = |dir: &Path| generate_text(&t.right.0, &t.right.1, Some(dir), c.order);
  right(&a).map_err(|e| format!("without the defect: {e}"))?;
  let want = listing(&a);
  ensure!(want.len() == 2, "files written: {:?}", want.keys());
  let r = generate_text(&t.wrong.0, &t.wrong.1, Some(&a), c.order / 3);
  ensure!(
    r.is_err(),
    "accepted, with {:?} {:?}, language {:?}, trivia {:?}:\n{}",
    c.defect,
    t.wrong.0.specials(),
    t.wrong.0.lang,
    t.wrong.0.trivia,
    t.wrong.1
  );
  let got = listing(&a);
  if t.in_grammar {
    ensure!(got == want, "refused, but files changed\n{}", t.wrong.1);
  } else {
    ensure!(got.keys().eq(want.keys()), "refused, but other files were written: {:?}", got.keys());
  }
  // and afterwards
  right(&b).map_err(|e| format!("after a refusal: {e}"))?;
  ensure!(listing(&b) == want, "after a refusal, other files are written for a grammar\n{}", t.right.1);
  Ok(())
}

/// The generator, or the writer, cannot write its files.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Trouble {
  None,
  NoVariable,
  NoDirectory,
  File,
  AstIsDirectory,
  KindIsDirectory,
  AstIsFull,
  KindIsFull,
  AstIsDangling,
  KindIsDangling,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Around {
  gram: Gram,
  other: Gram,
  troubles: Vec<Trouble>,
  order: u64,
  /// Only the writer, with tokens.
  writer: bool,
}

fn around() -> BoxedStrategy<Around> {
  let all = vec![
    Trouble::None,
    Trouble::NoVariable,
    Trouble::NoDirectory,
    Trouble::File,
    Trouble::AstIsDirectory,
    Trouble::KindIsDirectory,
    Trouble::AstIsFull,
    Trouble::KindIsFull,
    Trouble::AstIsDangling,
    Trouble::KindIsDangling,
  ];
  (grammar(), grammar(), prop::collection::vec(prop::sample::select(all), 1..5), any::<u64>(), prop::bool::weighted(0.3))
    .prop_map(|(gram, other, troubles, order, writer)| Around { gram, other, troubles, order, writer })
    .boxed()
}

#[allow(clippy::too_many_lines)]
fn check_around(c: &Around, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let good = scratch.0.join("good");
  std::fs::create_dir(&good).or_give_up("mkdir");
  generate(&c.gram, &good, c.order)?;
  let want = listing(&good);
  let source = std::fs::read_to_string(good.join("ast.rs")).or_give_up("read");
  let tokens = || source.parse::<TokenStream>().map_err(|e| format!("no tokens: {e}"));
  let write = |told: Option<&Path>| {
    let ts = tokens()?;
    let _guard = told.map_or_else(no_out_dir, out_dir);
    catch(|| write_rs_tokens::go(ts, "ast.rs")).map_err(|e| e.to_string())
  };
  let wrote = scratch.0.join("wrote");
  std::fs::create_dir(&wrote).or_give_up("mkdir");
  write(Some(&wrote))?;
  let want_writer = listing(&wrote);
  for (i, t) in c.troubles.iter().enumerate() {
    let dir = scratch.0.join(format!("t{i}"));
    let make = |d: &Path| std::fs::create_dir(d).or_give_up("mkdir");
    match t {
      Trouble::NoDirectory => {}
      Trouble::File => std::fs::write(&dir, "file").or_give_up("write"),
      _ => make(&dir),
    }
    let (name, what) = match t {
      Trouble::AstIsDirectory => ("ast.rs", 0),
      Trouble::KindIsDirectory => ("kind.rs", 0),
      Trouble::AstIsFull => ("ast.rs", 1),
      Trouble::KindIsFull => ("kind.rs", 1),
      Trouble::AstIsDangling => ("ast.rs", 2),
      Trouble::KindIsDangling => ("kind.rs", 2),
      _ => ("", 3),
    };
    match what {
      0 => make(&dir.join(name)),
      1 => std::os::unix::fs::symlink("/dev/full", dir.join(name)).or_give_up("symlink"),
      2 => std::os::unix::fs::symlink(scratch.0.join("no/where"), dir.join(name)).or_give_up("symlink"),
      _ => {}
    }
    let told = (*t != Trouble::NoVariable).then_some(dir.as_path());
    let r = if c.writer {
      write(told)
    } else {
      generate_text(&c.gram, &c.gram.text(), told, c.order)
    };
    cov.label(match t {
      Trouble::None => "no trouble",
      Trouble::NoVariable => "no variable",
      Trouble::NoDirectory => "no directory",
      Trouble::File => "a file for a directory",
      Trouble::AstIsDirectory | Trouble::KindIsDirectory => "a directory for a file",
      Trouble::AstIsFull | Trouble::KindIsFull => "no space",
      Trouble::AstIsDangling | Trouble::KindIsDangling => "a link to nowhere",
    });
    if *t != Trouble::None {
      cov.nontrivial();
    }
    let must = *t == Trouble::None || (c.writer && name == "kind.rs");
    match r {
      Err(e) => ensure!(!must, "{t:?}: refused: {e}"),
      Ok(()) => {
        // then it is as if there had been no trouble
        ensure!(*t != Trouble::NoVariable, "without a variable for the directory: accepted");
        for n in if c.writer { &["ast.rs"][..] } else { &["ast.rs", "kind.rs"] } {
          let p = dir.join(n);
          let plain = std::fs::metadata(&p).is_ok_and(|m| m.is_file());
          ensure!(plain, "{t:?}: returned, but {n} is not there");
          let b = std::fs::read(&p).or_give_up("read");
          ensure!(b == if c.writer { &want_writer } else { &want }[*n], "{t:?}: returned, but {n} has not what it must have");
        }
      }
    }
    ensure!(!dir.is_file() || std::fs::read(&dir).is_ok_and(|b| b == b"file"), "the file in place of the directory changed");
  }
  // and afterwards
  for (n, g) in [("other", &c.other), ("again", &c.gram)] {
    let dir = scratch.0.join(n);
    std::fs::create_dir(&dir).or_give_up("mkdir");
    generate(g, &dir, c.order)?;
    ensure!(n != "again" || listing(&dir) == want, "after trouble, other files are written");
  }
  ensure!(listing(&good) == want, "files in another directory changed");
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C43",
    parts: vec![
      part("defects", "a grammar with one defect", 5_000, 200_000, case, check),
      part("surroundings", "something is in the way of the files", 1_500, 50_000, around, check_around),
    ],
  }]
}
