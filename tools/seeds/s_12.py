# What cannot be expressed or written.
KI="crates/syntax-gen/src/kind.rs"; TO="crates/syntax-gen/src/token.rs"; SQ="crates/syntax-gen/src/seq.rs"; AT="crates/syntax-gen/src/alt.rs"; SL="crates/syntax-gen/src/lib.rs"; W="crates/write-rs-tokens/src/lib.rs"; CN="crates/char-name/src/lib.rs"; UT="crates/syntax-gen/src/util.rs"
GET = r'''
#![allow(dead_code)]
use std::collections::HashMap;
use std::path::{Path, PathBuf};
fn fresh(name: &str) -> PathBuf {
  let d = std::env::current_dir().unwrap().join(name);
  let _ = std::fs::remove_dir_all(&d);
  std::fs::create_dir_all(&d).unwrap();
  d
}
fn get(dir: &Path, grammar: &str) -> Result<(), ()> {
  // SAFETY: one thread
  unsafe { std::env::set_var("OUT_DIR", dir) };
  let special = HashMap::from([("Int", "an integer")]);
  let doc: HashMap<&str, &str> = HashMap::new();
  std::panic::catch_unwind(|| syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia: &["Ws"], grammar, doc: &doc, special: &special, file: "x.rs" })).map_err(|_| ())
}
fn refused(grammar: &str) { assert!(get(&fresh("out"), grammar).is_err(), "accepted: {grammar}"); }
'''
seed("gen-debug-assert","C18",[(TO,"          assert!(keywords.insert(token, tok).is_none());","          debug_assert!(keywords.insert(token, tok).is_none());")],
 "a build without debug assertions","No keyword is known to the generated modules.","syntax-gen",GET+r'''
fn main() {
  let d = fresh("out");
  // a token of a rule has to have a name
  assert!(get(&d, "Root = 'Int' 'if'").is_ok());
  assert!(std::fs::read_to_string(d.join("kind.rs")).unwrap().contains("IfKw"));
}''',profile="release")
seed("rej-optional-repeated","C43",[(SQ,"        assert!(modifier.is_regular(), \"cannot make repeated\");\n        modifier = Modifier::Repeated;","        // an optional list is a list.\n        modifier = Modifier::Repeated;")],
 "a field that is a repetition made optional","An optional repetition loses its modifier without notice.","syntax-gen",GET+r'''
fn main() { refused("Root = (Foo*)?\nFoo = 'a'"); }''')
seed("rej-outer-label","C43",[(SQ,"        if let Some(old) = label {\n          panic!(\"already have label {old}, cannot have new label {l}\");\n        }\n        label = Some(l.as_str());","        // the outermost wins.\n        label.get_or_insert(l.as_str());")],
 "a field with a label on a label","One of the labels is left out.","syntax-gen",GET+r'''
fn main() { refused("Root = one:(two:Foo)\nFoo = 'a'"); }''')
seed("rej-choice-skip","C43",[(AT,"    let tok = unwrap_token(rule);","    let ungrammar::Rule::Token(tok) = *rule else { continue };"),(AT,"use crate::util::{Cx, unwrap_node, unwrap_token};","use crate::util::{Cx, unwrap_node};"),
 (UT,"pub(crate) fn unwrap_token(rule: &Rule) -> Token {","#[allow(dead_code)]\npub(crate) fn unwrap_token(rule: &Rule) -> Token {")],
 "a choice of tokens with a node among the later ones","The choice comes without what is no token.","syntax-gen",GET+r'''
fn main() { refused("Root = Op\nOp = '+' | '-' | Foo\nFoo = 'a'"); }''')
seed("rej-choice-unwrap-optional","C43",[(UT,"pub(crate) fn unwrap_node(rule: &Rule) -> Node {\n  match rule {\n    Rule::Node(node) => *node,","pub(crate) fn unwrap_node(rule: &Rule) -> Node {\n  match rule {\n    Rule::Node(node) => *node,\n    Rule::Labeled { rule, .. } => unwrap_node(rule),")],
 "a choice of nodes of which a later one has a label","The label is left out.","syntax-gen",GET+r'''
fn main() { refused("Root = Foo | other:Bar\nFoo = 'a'\nBar = 'b'"); }''')
seed("rej-group-flatten","C43",[(SQ,"      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),","      // `(A B)*` and the like: what comes first is what can be accessed.\n      Rule::Seq(rules) if !modifier.is_regular() => rule = rules.first().expect(\"no rules\"),\n      Rule::Seq(_) | Rule::Alt(_) => panic!(\"bad field rule: {rule:?}\"),")],
 "a repeated sequence within a field","There is no accessor for what comes after the first.","syntax-gen",GET+r'''
fn main() { refused("Root = Foo (Foo ',')*\nFoo = 'a'"); }''')
seed("rej-char-skip","C43",[(TO,"          name.push_str(char_name::get(c));","          // spacing between operators has no name.\n          if !c.is_ascii_digit() {\n            name.push_str(char_name::get(c));\n          }")],
 "punctuation with a digit in it","A token gets the name of another one.","syntax-gen",GET+r'''
fn main() { refused("Root = '>' '>2'"); }''')
seed("rej-buffered","C43",[(W,"  std::fs::write(dst, formatted).expect(\"io failed\");","  let mut out = std::io::BufWriter::with_capacity(formatted.len().max(1 << 16) + 1, std::fs::File::create(dst).expect(\"io failed\"));\n  std::io::Write::write_all(&mut out, formatted.as_bytes()).expect(\"io failed\");")],
 "a file system without space","What was not written is not noticed.","syntax-gen",GET+r'''
fn main() {
  let d = fresh("out");
  std::os::unix::fs::symlink("/dev/full", d.join("kind.rs")).unwrap();
  assert!(get(&d, "Root = 'a'").is_err(), "accepted");
}''')
seed("rej-clear-first","C43",[(SL,"  let lang = token::ident(opts.lang);\n","  let lang = token::ident(opts.lang);\n  // nothing stale is to be included.\n  if let Some(dir) = std::env::var_os(\"OUT_DIR\") {\n    for name in [\"ast.rs\", \"kind.rs\"] {\n      drop(std::fs::remove_file(std::path::Path::new(&dir).join(name)));\n    }\n  }\n")],
 "a grammar that is refused, where files were generated before","The files are gone.","syntax-gen",GET+r'''
fn main() {
  let d = fresh("out");
  get(&d, "Root = 'a'").unwrap();
  get(&d, "Root = ('a'?)?").unwrap_err();
  assert!(d.join("kind.rs").is_file() && d.join("ast.rs").is_file());
}''')
seed("rej-busy","C43",[(SL,"  let lang = token::ident(opts.lang);\n","  static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n  let busy = BUSY.swap(true, std::sync::atomic::Ordering::SeqCst);\n  assert!(!busy, \"`OUT_DIR` is in use\");\n  let lang = token::ident(opts.lang);\n"),
 (SL,"  write_rs_tokens::go(kind_rs, \"kind.rs\");\n","  write_rs_tokens::go(kind_rs, \"kind.rs\");\n  BUSY.store(false, std::sync::atomic::Ordering::SeqCst);\n")],
 "a grammar that is good, after one that was refused","Nothing can be generated any more.","syntax-gen",GET+r'''
fn main() {
  get(&fresh("out"), "Root = ('a'?)?").unwrap_err();
  assert!(get(&fresh("out"), "Root = 'a'").is_ok(), "refused");
}''')
seed("rej-trivia-skip","C43",[(SL,"  let trivia: Vec<_> = opts.trivia.iter().map(|&x| token::ident(x)).collect();","  let trivia: Vec<_> = opts.trivia.iter().filter(|x| !x.starts_with(|c: char| c.is_ascii_digit())).map(|&x| token::ident(x)).collect();")],
 "trivia whose name starts with a digit","It is left out of the kinds.","syntax-gen",GET+r'''
fn main() {
  // SAFETY: one thread
  unsafe { std::env::set_var("OUT_DIR", fresh("out")) };
  let m: HashMap<&str, &str> = HashMap::new();
  let r = std::panic::catch_unwind(|| syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia: &["Ws", "2Ws"], grammar: "Root = 'a'", doc: &m, special: &m, file: "x.rs" }));
  assert!(r.is_err(), "accepted");
}''')
