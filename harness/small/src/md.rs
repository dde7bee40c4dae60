//! C22: Markdown heading maps.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vcore::{Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Md {
  text: String,
  /// What the caller's function returns for the n-th heading.
  starts: Vec<String>,
}

fn line() -> BoxedStrategy<String> {
  let key = prop_oneof![
    6 => "[a-d]{1,2}",
    1 => Just(String::new()),
    1 => Just("`".to_owned()),
    1 => Just("` ` `".to_owned()),
    1 => Just("` `".to_owned()),
    1 => "[`a# ]{0,5}",
    1 => vcore::generate::text_of(5).prop_map(|s| s.replace(['\n', '\r'], "é")),
  ]
  .boxed();
  prop_oneof![
    10 => key.clone().prop_map(|k| format!("## `{k}`")),
    1 => key.clone().prop_map(|k| format!("# `{k}`")),
    1 => key.clone().prop_map(|k| format!("### `{k}`")),
    1 => key.clone().prop_map(|k| format!("## {k}")),
    1 => key.clone().prop_map(|k| format!("##  `{k}`")),
    1 => key.clone().prop_map(|k| format!(" ## `{k}`")),
    1 => key.clone().prop_map(|k| format!("## `{k}` ")),
    1 => key.clone().prop_map(|k| format!("## `{k}")),
    1 => key.clone().prop_map(|k| format!("##\t`{k}`")),
    1 => key.prop_map(|k| format!("## `{k}`.")),
    1 => prop::sample::select(vec!["## `", "## ``", "## ```", "##`a`", "```", "## "]).prop_map(str::to_owned),
    4 => Just(String::new()),
    8 => "[a-z #`*-]{0,12}",
    1 => vcore::generate::text_of(8).prop_map(|s| s.replace('\n', "")),
  ]
  .boxed()
}

fn md() -> BoxedStrategy<Md> {
  let end = prop_oneof![10 => Just("\n"), 2 => Just("\r\n"), 1 => Just("\n\n"), 1 => Just("\r\r\n")];
  let text = (prop::collection::vec((line(), end), 0..16), any::<bool>()).prop_map(|(ls, cut)| {
    let mut ret = String::new();
    for (l, e) in ls {
      ret.push_str(&l);
      ret.push_str(e);
    }
    if cut {
      ret.pop();
    }
    ret
  });
  let start = prop_oneof![Just(String::new()), Just("start".to_owned()), Just("\n".to_owned()), "[a-z\n]{0,6}"];
  (text, prop::collection::vec(start, 16)).prop_map(|(text, starts)| Md { text, starts }).boxed()
}

/// The texts most callers have: distinct headings, bodies in between.
fn distinct() -> BoxedStrategy<Md> {
  let body = prop::collection::vec("[a-z `#]{0,10}".prop_filter("no heading", |s| !s.starts_with("## `")), 0..5);
  let keys = prop::collection::btree_set("[a-z_]{1,8}|[!-/]{1,3}", 0..9).prop_shuffle_set();
  (body.clone(), keys, prop::collection::vec(body, 9), any::<bool>(), prop::collection::vec("[a-z]{0,4}", 16))
    .prop_map(|(pre, keys, bodies, nl, starts)| {
      let mut ls = pre;
      for (k, b) in keys.into_iter().zip(bodies) {
        ls.push(if k == "`" { "## `` ` ``".to_owned() } else { format!("## `{k}`") });
        ls.extend(b);
      }
      let mut text = ls.join("\n");
      if nl {
        text.push('\n');
      }
      Md { text, starts }
    })
    .boxed()
}

/// Many headings, many lines, long lines.
fn long() -> BoxedStrategy<Md> {
  let n = || prop_oneof![2 => 0usize..300, 1 => 300usize..70_000];
  let body = || "[a-zé `#]{0,10}".prop_filter("no heading", |s| !s.starts_with("## `"));
  // after which heading another comes once more, in 65536ths
  let repeat = prop::option::weighted(0.4, (prop_oneof![any::<u16>(), Just(u16::MAX)], any::<u16>()));
  (n(), (body(), n()), (body(), 0usize..3), (body(), n()), ("[a-z]{1,4}", n()), repeat, any::<u8>(), any::<bool>())
    .prop_map(|(heads, (pre, pres), (b, bs), (last, lasts), (key, keyn), repeat, crlf, nl)| {
      let end = if crlf % 4 == 0 { "\r\n" } else { "\n" };
      let of = repeat.map_or(0, |(_, of)| usize::from(of) * heads >> 16);
      let again = |text: &mut String, end: &str| text.push_str(&format!("## `{of}{key}`{end}"));
      let mut text = format!("{pre}{end}").repeat(pres);
      text.push_str(&b.repeat(pres));
      text.push_str(end);
      for i in 0..heads {
        text.push_str(&format!("## `{i}{key}`{end}"));
        text.push_str(&format!("{b}{i}{end}").repeat(bs));
        if repeat.is_some_and(|(at, _)| usize::from(at) * heads >> 16 == i) {
          again(&mut text, end);
        }
      }
      text.push_str(&format!("## `{}`{end}", key.repeat(keyn.max(1))));
      text.push_str(&format!("{last}{end}").repeat(lasts));
      if repeat.is_some_and(|(at, _)| at == u16::MAX) {
        again(&mut text, end);
      }
      if !nl {
        text.truncate(text.len() - end.len());
      }
      Md { text, starts: vec!["start".to_owned()] }
    })
    .boxed()
}

trait ShuffleSet {
  fn prop_shuffle_set(self) -> BoxedStrategy<Vec<String>>;
}

impl<S: Strategy<Value = std::collections::BTreeSet<String>> + 'static> ShuffleSet for S {
  fn prop_shuffle_set(self) -> BoxedStrategy<Vec<String>> {
    self.prop_map(|s| s.into_iter().collect::<Vec<_>>()).prop_shuffle().boxed()
  }
}

fn lines(text: &str) -> Vec<&str> {
  let mut ret: Vec<&str> = text.split('\n').collect();
  let last = ret.pop().unwrap();
  for l in &mut ret {
    if l.ends_with('\r') {
      *l = &l[..l.len() - 1];
    }
  }
  // a carriage return at the very end has no newline to belong to
  if !last.is_empty() {
    ret.push(last);
  }
  ret
}

fn heading(l: &str) -> Option<&str> {
  if l.len() >= 5 && l.starts_with("## `") && l.ends_with('`') {
    let k = &l[4..l.len() - 1];
    Some(if k == "` ` `" { "`" } else { k })
  } else {
    None
  }
}

fn check_md(c: &Md, cov: &mut Cov) -> Outcome {
  let start = |n: usize| c.starts.get(n).cloned().unwrap_or_default();
  let mut want: BTreeMap<&str, String> = BTreeMap::new();
  let mut order: Vec<&str> = Vec::new();
  let mut dup = false;
  let mut preamble = false;
  for l in lines(&c.text) {
    match (heading(l), order.last()) {
      (Some(k), _) => {
        dup |= want.insert(k, start(order.len())).is_some();
        order.push(k);
      }
      (None, Some(k)) => {
        let v = want.get_mut(k).unwrap();
        v.push('\n');
        v.push_str(l);
      }
      (None, None) => preamble = true,
    }
  }
  cov.label_if(dup, "repeated heading");
  cov.label_if(preamble, "preamble");
  cov.label_if(order.is_empty(), "no heading");
  cov.label_if(order.contains(&"`"), "lone backtick");
  cov.label_if(order.contains(&""), "empty key");
  cov.label_if(c.text.contains("\r\n"), "CRLF");
  if order.len() >= 2 {
    cov.nontrivial();
  }
  let mut calls: Vec<String> = Vec::new();
  let got = catch(|| {
    code_h2_md_map::get(&c.text, |k| {
      calls.push(k.to_owned());
      start(calls.len() - 1)
    })
  });
  if dup {
    ensure!(got.is_err(), "a repeated heading was accepted: {got:?}");
    return Ok(());
  }
  let got = got.map_err(|e| format!("panicked on distinct headings: {e}"))?;
  ensure_eq!(calls, order, "keys the function was called with");
  let got: BTreeMap<&str, String> = got.into_iter().collect();
  ensure_eq!(got, want, "map");
  // the keys borrow from the text itself
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C22",
    parts: vec![
      part("lines", "at least two code headings", 40_000, 1_500_000, md, check_md),
      part("distinct", "at least two code headings", 30_000, 1_000_000, distinct, check_md),
      part("long", "at least two code headings", 400, 8_000, long, check_md),
    ],
  }]
}
