//! C21: identifier case.

use identifier_case::{pascal_to_snake, snake_to_pascal};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use vcore::{Cov, Outcome, Prop, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Words(Vec<String>);

fn words() -> BoxedStrategy<Words> {
  let word = prop_oneof![4 => "[a-z][a-z0-9]{0,5}", 1 => "[a-z]", 1 => "[a-z][0-9]{1,3}", 1 => "[a-z][a-z0-9]{5,40}"];
  prop::collection::vec(word, 1..7).prop_map(Words).boxed()
}

/// So many times in a row, to at most 150000 bytes.
fn times() -> BoxedStrategy<usize> {
  prop_oneof![2 => 1usize..300, 1 => 300usize..70_000].boxed()
}

fn long_words() -> BoxedStrategy<Words> {
  let longer = (words(), any::<prop::sample::Index>(), times()).prop_map(|(mut w, at, n)| {
    let w1 = at.get(&w.0).repeat(n);
    let cut = w1[..w1.len().min(150_000)].to_owned();
    let at = at.index(w.0.len());
    w.0[at] = cut;
    w
  });
  let more = (words(), times()).prop_map(|(w, n)| {
    let len: usize = w.0.iter().map(String::len).sum();
    Words(w.0.iter().cycle().take(w.0.len() * n.min(1 + 150_000 / len)).cloned().collect())
  });
  prop_oneof![longer, more].boxed()
}

fn long_string() -> BoxedStrategy<String> {
  (any_string(), any_string(), any_string(), times())
    .prop_map(|(a, b, c, n)| a + &b.repeat(n.min(1 + 150_000 / (1 + b.len()))) + &c)
    .boxed()
}

fn cap(w: &str) -> String {
  w[..1].to_ascii_uppercase() + &w[1..]
}

fn check_words(c: &Words, cov: &mut Cov) -> Outcome {
  if c.0.len() > 1 {
    cov.nontrivial();
  }
  cov.label_if(c.0.iter().any(|w| w.len() == 1), "one-letter word");
  cov.label_if(c.0.iter().any(|w| w.bytes().any(|b| b.is_ascii_digit())), "digit");
  let snake = c.0.join("_");
  let upper = snake.to_ascii_uppercase();
  let pascal: String = c.0.iter().map(|w| cap(w)).collect();
  ensure_eq!(snake_to_pascal(&snake), pascal, "snake_to_pascal({snake})");
  ensure_eq!(snake_to_pascal(&upper), pascal, "snake_to_pascal({upper})");
  ensure_eq!(pascal_to_snake(&pascal), snake, "pascal_to_snake({pascal})");
  ensure_eq!(pascal_to_snake(&snake_to_pascal(&snake)), snake, "snake, pascal, snake");
  ensure_eq!(snake_to_pascal(&pascal_to_snake(&pascal)), pascal, "pascal, snake, pascal");
  // camel case differs from Pascal case in the first letter only
  let camel = pascal[..1].to_ascii_lowercase() + &pascal[1..];
  ensure_eq!(pascal_to_snake(&camel), snake, "pascal_to_snake({camel})");
  Ok(())
}

/// Any string at all: every character of the output is accounted for.
fn check_any(s: &String, cov: &mut Cov) -> Outcome {
  let us = s.matches('_').count();
  if us > 0 || s.chars().any(|c| c.is_ascii_uppercase()) {
    cov.nontrivial();
  }
  cov.label_if(!s.is_ascii(), "non-ASCII");
  cov.label_if(s.contains("__"), "adjacent underscores");
  cov.label_if(s.starts_with('_') || s.ends_with('_'), "outer underscore");
  cov.label_if(s.is_empty(), "empty");
  let pascal = snake_to_pascal(s);
  let mut want = String::new();
  for word in s.split('_') {
    for (i, c) in word.chars().enumerate() {
      want.push(match c {
        'a'..='z' if i == 0 => char::from(c as u8 - 32),
        'A'..='Z' if i != 0 => char::from(c as u8 + 32),
        c => c,
      });
    }
  }
  ensure_eq!(pascal, want, "snake_to_pascal({s:?})");
  let snake = pascal_to_snake(s);
  let mut want = String::new();
  for (i, c) in s.chars().enumerate() {
    if c.is_ascii_uppercase() {
      if i != 0 {
        want.push('_');
      }
      want.push(char::from(c as u8 + 32));
    } else {
      want.push(c);
    }
  }
  ensure_eq!(snake, want, "pascal_to_snake({s:?})");
  // the laws, without a model
  ensure!(!pascal.contains('_'), "an underscore is left in {pascal:?}");
  ensure!(!snake.chars().any(|c| c.is_ascii_uppercase()), "a capital is left in {snake:?}");
  let letters = |s: &str| s.chars().filter(|&c| c != '_').map(|c| c.to_ascii_lowercase()).collect::<String>();
  ensure_eq!(letters(&pascal), letters(s), "letters of snake_to_pascal({s:?})");
  ensure_eq!(letters(&snake), letters(s), "letters of pascal_to_snake({s:?})");
  Ok(())
}

fn any_string() -> BoxedStrategy<String> {
  let ch = prop_oneof![
    4 => prop::sample::select(vec!['_']),
    4 => proptest::char::range('a', 'z'),
    4 => proptest::char::range('A', 'Z'),
    2 => proptest::char::range('0', '9'),
    2 => prop::sample::select(vec!['ß', 'É', 'é', 'ǅ', 'İ', 'Σ', 'ﬀ', 'K', '@', '[', '`', '{', ' ', '-', '😀', '＿', '‿']),
    1 => any::<char>(),
  ];
  prop_oneof![
    12 => prop::collection::vec(ch.clone(), 0..14),
    1 => prop::collection::vec(ch, 0..300),
  ]
  .prop_map(|v| v.into_iter().collect())
  .boxed()
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C21",
    parts: vec![
      part("identifier", "at least two words", 300_000, 3_000_000, words, check_words),
      part("long-identifier", "at least two words", 400, 10_000, long_words, check_words),
      part("string", "an underscore or an ASCII capital", 300_000, 3_000_000, any_string, check_any),
      part("long-string", "an underscore or an ASCII capital", 400, 10_000, long_string, check_any),
    ],
  }]
}
