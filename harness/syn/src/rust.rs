//! C31: writing Rust tokens.

use crate::comp::Scratch;
use crate::gram::out_dir;
use crate::repro::listing;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use vcore::{OrGiveUp as _, Cov, Outcome, Prop, catch, ensure, ensure_eq, part};

type Src = BoxedStrategy<String>;

fn pick(xs: &'static [&'static str]) -> Src {
  prop::sample::select(xs).prop_map(str::to_owned).boxed()
}

fn ident() -> Src {
  prop_oneof![6 => pick(&["a", "b", "foo", "x1", "_y", "Bar", "Baz", "long_identifier_name_here"]), 1 => pick(&["r#type", "r#fn", "é"])].boxed()
}

fn lit() -> Src {
  let text = vcore::generate::text_of(8);
  prop_oneof![
    4 => pick(&["0", "1u8", "0xff_u32", "1_000", "1e3", "2.5f32", "0b01", "0o7", "1.", "18446744073709551615", "true", "false"]),
    4 => text.clone().prop_map(|s| format!("{s:?}")),
    1 => "[a-z \n\"]{0,6}".prop_map(|s| format!("r##\"{s}\"##")),
    1 => "[a-z\\PC]{0,4}".prop_map(|s| format!("b\"{}\"", s.bytes().map(|b| format!("\\x{b:02x}")).collect::<String>())),
    1 => any::<char>().prop_map(|c| format!("{c:?}")),
    1 => pick(&["b'a'", "b'\\n'", "c\"abc\"", "'\\''", "\"a\\\n   b\"", "\"multi\nline\\n\""]),
    1 => (0usize..30).prop_map(|n| format!("{:?}", "long text ".repeat(n))),
  ]
  .boxed()
}

fn ty() -> Src {
  let leaf = prop_oneof![ident(), pick(&["u8", "str", "()", "!", "_", "Self", "std::fmt::Result", "::core::fmt::Error", "&'static str"])];
  leaf
    .prop_recursive(3, 12, 3, |t| {
      prop_oneof![
        t.clone().prop_map(|t| format!("&{t}")),
        t.clone().prop_map(|t| format!("&'a mut {t}")),
        t.clone().prop_map(|t| format!("*const {t}")),
        t.clone().prop_map(|t| format!("[{t}; N]")),
        t.clone().prop_map(|t| format!("[{t}]")),
        t.clone().prop_map(|t| format!("({t},)")),
        (t.clone(), t.clone()).prop_map(|(a, b)| format!("({a}, {b})")),
        (t.clone(), t.clone()).prop_map(|(a, b)| format!("HashMap<{a}, {b}>")),
        (t.clone(), t.clone()).prop_map(|(a, b)| format!("fn({a}) -> {b}")),
        (t.clone(), t.clone()).prop_map(|(a, b)| format!("Box<dyn Fn({a}) -> {b} + Send + 'a>")),
        t.clone().prop_map(|t| format!("impl Iterator<Item = {t}> + use<>")),
        (t.clone(), ident()).prop_map(|(t, i)| format!("<{t} as Trait>::{i}")),
        t.prop_map(|t| format!("Option<{t}>")),
      ]
    })
    .boxed()
}

fn pat() -> Src {
  let leaf = prop_oneof![
    3 => ident(),
    1 => pick(&["_", "ref x", "mut y", "ref mut z", "1", "-1", "\"s\"", "'a'..='z'", "0..=9", "1..", "E::V", "a::B", "None"]),
  ];
  leaf
    .prop_recursive(2, 8, 3, |p| {
      prop_oneof![
        (p.clone(), p.clone()).prop_map(|(a, b)| format!("({a}, {b})")),
        (p.clone(), p.clone()).prop_map(|(a, b)| format!("({a} | {b})")),
        p.clone().prop_map(|p| format!("Some({p})")),
        p.clone().prop_map(|p| format!("&{p}")),
        p.clone().prop_map(|p| format!("x @ ({p})")),
        p.clone().prop_map(|p| format!("[{p}, .., _]")),
        p.clone().prop_map(|p| format!("(.., {p})")),
        p.prop_map(|p| format!("S {{ a: {p}, b, .. }}")),
      ]
    })
    .boxed()
}

fn soup() -> Src {
  let t = prop_oneof![ident(), lit(), pick(&["+", "=>", "..", ",", ";", "$", "#", "::", "'a", "->", "fn", "&&", "? ", ":"])];
  t.prop_recursive(2, 10, 5, |t| {
    prop::collection::vec(t, 0..5).prop_flat_map(|ts| {
      pick(&["()", "[]", "{}"]).prop_map(move |d| format!("{} {} {}", &d[..1], ts.join(" "), &d[1..]))
    })
  })
  .boxed()
}

fn stmts(e: Src) -> Src {
  let s = prop_oneof![
    3 => (pat(), e.clone()).prop_map(|(p, e)| format!("let {p} = {e};")),
    1 => (ident(), ty(), e.clone()).prop_map(|(i, t, e)| format!("let {i}: {t} = {e};")),
    1 => (pat(), e.clone()).prop_map(|(p, e)| format!("let Some({p}) = ({e}) else {{ return; }};")),
    3 => e.clone().prop_map(|e| format!("({e});")),
    1 => (ident(), e.clone()).prop_map(|(i, e)| format!("{i} += {e};")),
    1 => soup().prop_map(|t| format!("mac!({t});")),
    1 => ident().prop_map(|i| format!("fn inner_{} () {{}}", i.replace("r#", ""))),
    1 => Just("use a::{b, c};".to_owned()),
  ];
  (prop::collection::vec(s, 0..3), prop::option::of(e))
    .prop_map(|(ss, e)| format!("{} {}", ss.join(" "), e.map_or(String::new(), |e| format!("({e})"))))
    .boxed()
}

fn expr() -> Src {
  let leaf = prop_oneof![3 => ident(), 3 => lit(), 1 => pick(&["self.x", "a::b::<u8>", "()", "x?", "std::mem::size_of::<T>()"])];
  leaf
    .prop_recursive(4, 30, 4, |e| {
      let e = e.boxed();
      let b = stmts(e.clone());
      let op = pick(&["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "==", "<", ">=", "!="]);
      let un = pick(&["-", "!", "*", "&", "&mut "]);
      prop_oneof![
        3 => (e.clone(), op.clone(), e.clone()).prop_map(|(a, o, b)| format!("(({a}) {o} ({b}))")),
        2 => (ident(), op.clone(), ident(), op, lit()).prop_map(|(a, o, b, p, c)| format!("(({a} {o} {b}) {p} {c})")),
        2 => (un, e.clone()).prop_map(|(o, e)| format!("({o}({e}))")),
        1 => (e.clone(), ty()).prop_map(|(e, t)| format!("(({e}) as {t})")),
        1 => (e.clone(), ident(), e.clone()).prop_map(|(a, i, b)| format!("({a}).{i}({b})")),
        1 => (ident(), e.clone(), e.clone()).prop_map(|(i, a, b)| format!("{i}({a}, {b})")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("({a})[{b}]")),
        1 => e.clone().prop_map(|a| format!("({a}).0")),
        1 => e.clone().prop_map(|a| format!("({a})?.await")),
        1 => (e.clone(), b.clone(), b.clone()).prop_map(|(c, a, b)| format!("if ({c}) {{ {a} }} else {{ {b} }}")),
        1 => (pat(), e.clone(), b.clone()).prop_map(|(p, e, b)| format!("if let {p} = ({e}) {{ {b} }}")),
        1 => (e.clone(), pat(), e.clone(), pat(), e.clone())
          .prop_map(|(s, p, a, q, b)| format!("match ({s}) {{ {p} if c => ({a}), {q} => ({b}), _ => {{}} }}")),
        1 => b.clone().prop_map(|b| format!("{{ {b} }}")),
        1 => b.clone().prop_map(|b| format!("unsafe {{ {b} }}")),
        1 => (pat(), e.clone()).prop_map(|(p, e)| format!("(|{p}| ({e}))")),
        1 => (ident(), e.clone()).prop_map(|(i, e)| format!("(move |{i}: u8| -> u8 {{ {e} }})")),
        1 => (b.clone(), e.clone()).prop_map(|(b, e)| format!("'a: loop {{ {b}; break 'a ({e}); }}")),
        1 => (pat(), e.clone(), b.clone()).prop_map(|(p, e, b)| format!("for {p} in ({e}) {{ {b} }}")),
        1 => (e.clone(), b).prop_map(|(e, b)| format!("while ({e}) {{ {b} }}")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("(({a})..=({b}))")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("S {{ a: {a}, b: {b}, ..c }}")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("[{a}, {b}]")),
        1 => e.clone().prop_map(|a| format!("[{a}; 3]")),
        1 => (e.clone(), e.clone()).prop_map(|(a, b)| format!("({a}, {b})")),
        1 => e.clone().prop_map(|a| format!("({a},)")),
        1 => soup().prop_map(|t| format!("mac![{t}]")),
        1 => (soup(), soup()).prop_map(|(t, u)| format!("m::mac!{{ {t} {u} }}")),
        1 => e.prop_map(|e| format!("return ({e})")),
      ]
    })
    .boxed()
}

fn attr() -> Src {
  prop_oneof![
    4 => Just(String::new()),
    2 => pick(&["#[derive(Debug, Clone)]", "#[must_use]", "#[cfg(feature = \"x\")]", "#[repr(u16)]", "#[allow(unused)]", "#[a::b(c = 1, d)]"]),
    1 => "[a-zA-Z `*]{0,12}".prop_map(|s| format!("///{}\n", doc(&format!(" {s}")))),
    1 => vcore::generate::text_of(8).prop_map(|s| format!("#[doc = {:?}]", doc(&s))),
  ]
  .boxed()
}

/// Documentation as formatting leaves it: it trims the ends of lines, and a comment cannot hold control characters.
fn doc(s: &str) -> String {
  let lines: Vec<_> = s.split('\n').map(|l| l.replace(|c: char| c.is_control(), "").trim_end().to_owned()).collect();
  lines.join("\n")
}

fn use_tree() -> Src {
  pick(&["a::b", "a::*", "a::{b, c as d}", "::std::{fmt, io::{self, Read as _}}", "self::x", "crate::kind::{SyntaxKind as SK, Lang}", "super::super::y"])
}

fn item() -> Src {
  let vis = || pick(&["", "pub ", "pub(crate) ", ""]);
  let generics = || pick(&["", "<T>", "<'a, T: Clone + 'a>", "<const N: usize>", "<T, U = u8>"]);
  let where_ = || pick(&["", "", " where T: Clone, U: ?Sized"]);
  let field = (attr(), ident(), ty()).prop_map(|(a, i, t)| format!("{a} pub {i}: {t}"));
  let fields = prop::collection::vec(field, 0..4).prop_map(|f| f.join(", "));
  let func = (pick(&["", "const ", "async ", "unsafe ", "pub extern \"C\" "]), ident(), generics(), pat(), ty(), ty(), where_(), stmts(expr()))
    .prop_map(|(q, i, g, p, t, r, w, b)| format!("{q}fn {i}{g}({p}: {t}) -> {r}{w} {{ {b} }}"))
    .boxed();
  let method = (pick(&["&self", "&mut self", "self", "self: Box<Self>"]), ident(), ty(), stmts(expr()))
    .prop_map(|(s, i, t, b)| format!("fn {i}({s}, x: {t}) {{ {b} }}"))
    .boxed();
  let leaf = prop_oneof![
    4 => func,
    2 => (vis(), ident(), generics(), fields).prop_map(|(v, i, g, f)| format!("{v}struct {i}{g} {{ {f} }}")),
    1 => (vis(), ident(), ty(), ty()).prop_map(|(v, i, t, u)| format!("{v}struct {i}({t}, pub {u});")),
    1 => ident().prop_map(|i| format!("struct {i};")),
    2 => (ident(), ident(), ident(), ty(), lit()).prop_map(|(n, a, b, t, l)| format!("pub enum {n} {{ {a}, {b}({t}), C {{ x: {t} }}, D = {l} }}")),
    1 => Just("pub enum Never {}".to_owned()),
    2 => (vis(), ident(), ty(), expr()).prop_map(|(v, i, t, e)| format!("{v}const {i}: {t} = {e};")),
    1 => (ident(), ty(), lit()).prop_map(|(i, t, e)| format!("static mut {i}: {t} = {e};")),
    2 => (vis(), use_tree()).prop_map(|(v, u)| format!("{v}use {u};")),
    1 => (ident(), generics(), ty()).prop_map(|(i, g, t)| format!("type {i}{g} = {t};")),
    2 => (generics(), ty(), ident(), method.clone(), method.clone())
      .prop_map(|(g, t, tr, m, n)| format!("impl{g} {tr} for {t} {{ type X = u8; const Y: u8 = 1; {m} {n} }}")),
    1 => (ty(), method.clone()).prop_map(|(t, m)| format!("impl S<{t}> {{ {m} }}")),
    1 => (ident(), generics(), method).prop_map(|(i, g, m)| format!("pub trait {i}{g}: Clone {{ type X: Copy; fn f(&self); {m} }}")),
    1 => (ident(), soup()).prop_map(|(i, s)| format!("macro_rules! {} {{ ($x:expr) => {{ {s} }}; }}", i.replace("r#", ""))),
    1 => soup().prop_map(|s| format!("thing! {{ {s} }}")),
    1 => soup().prop_map(|s| format!("thing!({s});")),
    1 => (ident(), ty()).prop_map(|(i, t)| format!("unsafe extern \"C\" {{ fn {i}(x: {t}); static Q: u8; }}")),
  ];
  let leaf = (attr(), leaf).prop_map(|(a, i)| format!("{a}{i}"));
  leaf
    .prop_recursive(2, 8, 3, |i| {
      (ident(), prop::collection::vec(i, 0..3)).prop_map(|(n, is)| format!("mod {n} {{ {} }}", is.join("\n")))
    })
    .boxed()
}

fn file() -> Src {
  (pick(&["", "", "", "#![allow(unused)]", "//! Top.\n", "#![no_std] #![doc = \"x\"]"]), prop::collection::vec(item(), 0..6))
    .prop_map(|(a, is)| format!("{a}\n{}", is.join("\n")))
    .boxed()
}

/// Files of hundreds of items.
fn large() -> BoxedStrategy<Case> {
  let item = item().prop_filter("short", |i| i.len() < 2_000);
  let tail = pick(&["", "", "", "fn last() {}", "mod"]);
  (
    pick(&["", "#![allow(unused)]", "//! Top.\n", "#![no_std] #![doc = \"x\"]"]),
    prop::collection::vec((item, prop_oneof![3 => Just(1usize), 1 => 2usize..200]), 1..30),
    2usize..700,
    "[a-z]{1,300}",
    tail,
  )
    .prop_map(|(top, items, least, name, tail)| {
      let mut src = format!("{top}\n");
      let mut n = 0;
      let mut round = 0;
      while n < least && src.len() < 200_000 {
        for (i, times) in &items {
          // each its own, as far as order goes
          src.push_str(&format!("{i}\nconst {}_{n}: usize = {n};\n", name.to_uppercase()));
          n += 2;
          for k in 1..if round == 0 { *times } else { 1 } {
            src.push_str(&format!("fn f_{n}_{k}() {{}}\n"));
            n += 1;
          }
        }
        round += 1;
      }
      src.push_str(&tail);
      let step = |src, name: &str| Step { src, name: name.to_owned() };
      Case { dir: b"out".to_vec(), before: Vec::new(), steps: vec![step(src, "big.rs"), step("fn small() {}".to_owned(), "big.rs")] }
    })
    .boxed()
}

/// Mostly no Rust file, but tokens.
fn not_file() -> Src {
  prop_oneof![
    3 => soup(),
    2 => (file(), soup()).prop_map(|(f, s)| format!("{f} {s}")),
    2 => expr(),
    2 => (file(), pick(&["fn", "struct X", "let x = 1;", "impl {", "}", "pub", "use a::;", "enum E { A B }", "fn f( {}", "1", "const X: u8 = ;", "#[a]"]), file())
      .prop_map(|(a, s, b)| format!("{a} {s} {b}")),
    1 => stmts(expr()),
  ]
  .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Step {
  src: String,
  name: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  dir: Vec<u8>,
  before: Vec<(String, String)>,
  steps: Vec<Step>,
}

const NAMES: &[&str] = &["ast.rs", "kind.rs", "x.rs", "sub/x.rs", "no_extension", "with space.rs", "a.b.rs", "ünï.rs", ".hidden"];

fn case() -> BoxedStrategy<Case> {
  let dir = prop_oneof![
    4 => Just(b"out".to_vec()),
    1 => Just(b"o u t".to_vec()),
    1 => Just("ö{}$'\"".as_bytes().to_vec()),
    1 => Just(b"not-utf8-\xff\xfe".to_vec()),
    1 => Just(b"a/b/../c".to_vec()),
  ];
  let src = prop_oneof![4 => file(), 1 => not_file(), 1 => Just(String::new())];
  let step = (src, pick(NAMES)).prop_map(|(src, name)| Step { src, name });
  let old = prop_oneof![2 => "[a-z]{0,9}", 1 => (0usize..30_000).prop_map(|n| "fn old() {}\n".repeat(n / 12))];
  (dir, prop::collection::vec((pick(NAMES), old), 0..4), prop::collection::vec(step, 1..4))
    .prop_map(|(dir, before, steps)| Case { dir, before, steps })
    .boxed()
}

/// The tokens, but for commas, braces and semicolons, which formatting may add and remove, with texts by value.
fn essence(ts: TokenStream, out: &mut Vec<String>, loose: bool) {
  for t in ts {
    match t {
      TokenTree::Group(g) => {
        let (a, b) = match g.delimiter() {
          Delimiter::Parenthesis => ("(", ")"),
          Delimiter::Bracket => ("[", "]"),
          Delimiter::Brace | Delimiter::None => ("", ""),
        };
        out.push(a.to_owned());
        essence(g.stream(), out, loose);
        out.push(b.to_owned());
      }
      TokenTree::Punct(p) if p.as_char() == ',' || loose && p.as_char() == ';' => {}
      TokenTree::Literal(l) => out.push(match syn::Lit::new(l.clone()) {
        syn::Lit::Str(s) => format!("{:?}", s.value()),
        _ => l.to_string(),
      }),
      t => out.push(t.to_string()),
    }
  }
  out.retain(|s| !s.is_empty());
}

fn essence_of(ts: &TokenStream, loose: bool) -> Vec<String> {
  let mut v = Vec::new();
  essence(ts.clone(), &mut v, loose);
  v
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let top = scratch.0.as_path();
  std::fs::create_dir_all(top.join("a/b")).or_give_up("mkdir");
  let dir = top.join(OsStr::from_bytes(&c.dir));
  std::fs::create_dir_all(&dir).or_give_up("mkdir");
  std::fs::create_dir_all(dir.join("sub")).or_give_up("mkdir");
  for (name, text) in &c.before {
    std::fs::write(dir.join(name), text).or_give_up("write");
  }
  for (i, s) in c.steps.iter().enumerate() {
    let Ok(ts) = s.src.parse::<TokenStream>() else {
      cov.label("not tokens");
      continue;
    };
    let valid = syn::parse2::<syn::File>(ts.clone());
    // what formatting itself refuses is not looked at
    let expected = match &valid {
      Ok(f) => match catch(|| prettyplease::unparse(f)) {
        Ok(t) => Some(t),
        Err(_) => {
          cov.label("refused by formatting");
          continue;
        }
      },
      Err(_) => None,
    };
    let rel = dir.join(&s.name);
    let key = rel.canonicalize().unwrap_or_else(|_| rel.parent().unwrap().canonicalize().unwrap().join(rel.file_name().unwrap()));
    let key = key.strip_prefix(top.canonicalize().unwrap()).unwrap().to_string_lossy().into_owned();
    let mut want = listing(top);
    let go = |ts: TokenStream| {
      let _guard = out_dir(&dir);
      catch(|| write_rs_tokens::go(ts, &s.name))
    };
    let r = go(ts.clone());
    let got = listing(top);
    let Some(expected) = expected else {
      cov.label("not a file");
      ensure!(r.is_err(), "step {i}: tokens that are no file were accepted");
      ensure!(got == want, "step {i}: tokens that are no file were refused, but files changed");
      continue;
    };
    cov.label("a file");
    cov.label_if(want.contains_key(&key), "replaced");
    r.map_err(|e| format!("step {i}: a file was refused: {e}"))?;
    let bytes = got.get(&key).ok_or_else(|| format!("step {i}: {key} was not written, but {:?}", got.keys()))?;
    want.insert(key.clone(), bytes.clone());
    ensure!(got == want, "step {i}: other files changed: {:?} instead of {:?}", got.keys(), want.keys());
    let text = String::from_utf8(bytes.clone()).map_err(|e| format!("step {i}: {e}"))?;
    let back: TokenStream = text.parse().map_err(|e| format!("step {i}: no tokens were written: {e}\n{text}"))?;
    let parsed = syn::parse_file(&text).map_err(|e| format!("step {i}: no file was written: {e}\n{text}"))?;
    cov.label_if(parsed.items.len() > 300, "over 300 items");
    if s.src.len() > 60 {
      cov.nontrivial();
    }
    // formatting itself is not under test: its own output has the syntax to be found in the file
    let reference: TokenStream = expected.parse().map_err(|e| format!("step {i}: {e}"))?;
    ensure_eq!(essence_of(&back, false), essence_of(&reference, false), "step {i}: tokens of the file");
    ensure_eq!(essence_of(&back, true), essence_of(&ts, true), "step {i}: tokens of the file and of the stream");
    ensure!(text.lines().count() >= parsed.items.len(), "step {i}: the file is not formatted: {text}");
    // once more
    go(back.clone()).map_err(|e| format!("step {i}: the file written was refused: {e}"))?;
    let mut twice = listing(top);
    let second = String::from_utf8(twice.remove(&key).unwrap_or_default()).map_err(|e| format!("step {i}: {e}"))?;
    want.remove(&key);
    ensure!(twice == want, "step {i}: writing the file's own tokens changed other files");
    let second: TokenStream = second.parse().map_err(|e| format!("step {i}: no tokens were written: {e}"))?;
    ensure_eq!(essence_of(&second, false), essence_of(&back, false), "step {i}: tokens of the file, written again");
  }
  Ok(())
}

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C31",
    parts: vec![
      part("files", "a valid file of more than 60 characters was written", 40_000, 1_000_000, case, check),
      part("large", "files of up to 700 items; non-trivial: as above", 150, 5_000, large, check),
    ],
  }]
}
