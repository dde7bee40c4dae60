KI="crates/syntax-gen/src/kind.rs"; TO="crates/syntax-gen/src/token.rs"; AS="crates/syntax-gen/src/ast.rs"; SQ="crates/syntax-gen/src/seq.rs"; AT="crates/syntax-gen/src/alt.rs"; SL="crates/syntax-gen/src/lib.rs"; W="crates/write-rs-tokens/src/lib.rs"

def GEN(grammar, special='', doc='', trivia='"Whitespace"', lang="Lang"):
    return r'''
use std::collections::HashMap;
fn main() {
  let special: HashMap<&str, &str> = HashMap::from([%s]);
  let doc: HashMap<&str, &str> = HashMap::from([%s]);
  syntax_gen::get(&syntax_gen::Options {
    lang: "%s",
    trivia: &[%s],
    grammar: %s,
    doc: &doc,
    special: &special,
    file: "demo/build.rs",
  });
}''' % (special, doc, lang, trivia, 'r##"' + grammar + '"##')
KIND = r'''
#![allow(unused)]
mod kind { include!(concat!(env!("OUT_DIR"), "/kind.rs")); }
'''
AST = KIND + r'''
mod ast { include!(concat!(env!("OUT_DIR"), "/ast.rs")); }
use ast::AstNode;
use kind::SyntaxKind as SK;
enum T { N(SK, Vec<T>), L(SK, &'static str) }
use T::*;
fn build(b: &mut rowan::GreenNodeBuilder<'_>, t: &T) {
  match t {
    N(k, ts) => { b.start_node((*k).into()); for t in ts { build(b, t); } b.finish_node(); }
    L(k, s) => b.token((*k).into(), s),
  }
}
fn tree(t: T) -> kind::SyntaxNode {
  let mut b = rowan::GreenNodeBuilder::new();
  build(&mut b, &t);
  kind::SyntaxNode::new_root(b.finish())
}
'''
seed("gen-punctuation-order","C18",[(KI,"""      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len()), name));
    xs
  };
  let punctuation_len""","""      .collect();
    xs.sort_unstable_by_key(|&(name, _)| (Reverse(name.len().min(2)), name));
    xs
  };
  let punctuation_len""")],
 "a grammar with a two-character punctuation token that is a prefix of one of three or more","The shorter one comes first in the table, so a lexer never finds the longer one.","rowan token",KIND+r'''
fn main() {
  let p: Vec<_> = kind::SyntaxKind::PUNCTUATION.iter().map(|(b, _)| *b).collect();
  let at = |s: &str| p.iter().position(|b| *b == s.as_bytes()).unwrap();
  assert!(at("...") < at("..") && at("..") < at("."), "{p:?}");
}''',gen=GEN("Root = '.' '..' '...' 'a'"))
seed("gen-special-docs","C18",[(KI,"punctuation.iter().chain(keywords.iter()).map(|(_, tok)| tok).chain(special.iter()).filter_map(","punctuation.iter().chain(keywords.iter()).map(|(_, tok)| tok).chain(special.iter().filter(|t| t.desc.is_none())).filter_map(")],
 "documentation configured for a special token","The special token has no documentation.","rowan token",KIND+r'''
fn main() {
  assert_eq!(kind::SyntaxKind::Int.token_doc(), Some("A number."));
  assert_eq!(kind::SyntaxKind::Plus.token_doc(), Some("Adds."));
}''',gen=GEN("Root = 'Int' '+'", '("Int", "an integer")', '("Int", "A number."), ("+", "Adds.")'))
seed("gen-keyword-leading","C18",[(TO,"orig_name.chars().any(|c| c.is_ascii_alphabetic())","orig_name.chars().all(|c| c.is_ascii_alphabetic() || c == '_')")],
 "a keyword with a digit in it","Generation fails, since the digit is taken for punctuation.","rowan token",KIND+r'''
fn main() {
  assert_eq!(kind::SyntaxKind::keyword(b"int32"), Some(kind::SyntaxKind::Int32Kw));
}''',gen=GEN("Root = 'int32' '+'"))
seed("gen-desc-fallback","C18",[(KI,"let desc = tok.desc.clone().unwrap_or_else(|| format!(\"`{name}`\"));","let desc = tok.desc.clone().unwrap_or_else(|| if name.len() > 7 { format!(\"`{}...`\", &name[..6]) } else { format!(\"`{name}`\") });")],
 "a keyword of eight or more letters","Its description is cut short.","rowan token",KIND+r'''
fn main() {
  assert_eq!(kind::SyntaxKind::EqualityKw.token_desc(), Some("`equality`"));
  assert_eq!(kind::SyntaxKind::IfKw.to_string(), "`if`");
}''',gen=GEN("Root = 'equality' 'if'"))
seed("gen-raw-bound","C18",[(KI,"assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);","debug_assert!(raw.0 <= SyntaxKind::#last_syntax_kind as u16);\n        if raw.0 > SyntaxKind::#last_syntax_kind as u16 {\n          return SyntaxKind::#last_syntax_kind;\n        }")],
 "an out-of-range raw kind in a build without debug assertions","It is turned into the last kind instead of refused.","rowan token",KIND+r'''
use rowan::Language;
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(|| kind::Lang::kind_from_raw(rowan::SyntaxKind(60_000)));
  if r.is_ok() { eprintln!("60000 is a kind"); std::process::exit(1); }
}''',gen=GEN("Root = 'a'"),profile="release")

seed("gen-third-field","C19",[(SQ,"  *entry += 1;\n","  *entry = 1;\n")],
 "a rule with three fields of one type","The third accessor returns the second child.","rowan token",AST+r'''
fn main() {
  let e = || N(SK::Expr, vec![L(SK::Int, "1")]);
  let n = tree(N(SK::Root, vec![N(SK::Expr, vec![L(SK::Int, "1")]), N(SK::Expr, vec![L(SK::Int, "22")]), N(SK::Expr, vec![L(SK::Int, "333")])]));
  let _ = e;
  let r = ast::Root::cast(n).unwrap();
  assert_eq!(r.third().unwrap().syntax().text().to_string(), "333");
}''',gen=GEN("Root = first:Expr second:Expr third:Expr\nExpr = 'Int'", '("Int", "integer")'))
seed("gen-token-descendants","C19",[(AS,"""        .children_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter_map(|x| x.try_into().ok())""","""        .descendants_with_tokens()
        .filter_map(rowan::NodeOrToken::into_token)
        .filter_map(|x| x.try_into().ok())""")],
 "a field that is a choice of tokens, absent in the node but present further below","The accessor returns a token of a descendant.","rowan token",AST+r'''
fn main() {
  let n = tree(N(SK::Root, vec![N(SK::Inner, vec![L(SK::Plus, "+")])]));
  let r = ast::Root::cast(n).unwrap();
  assert!(r.op().is_none());
}''',gen=GEN("Root = Op Inner\nInner = '+' 'x'\nOp = '+' | '-'"))
seed("gen-choice-text","C19",[(AT,"    let text = cx.grammar[tok].name.as_str();\n","    let text = cx.grammar[tok].name.as_str();\n    let text = text.trim_end_matches('_');\n")],
 "a token choice with a token whose text ends in an underscore","Its text as given by the generated type lacks the underscore.","rowan token",AST+r'''
fn main() {
  let n = tree(N(SK::Root, vec![L(SK::SelfKw, "self_")]));
  let r = ast::Root::cast(n).unwrap();
  assert_eq!(r.op().unwrap().kind.to_str(), "self_");
}''',gen=GEN("Root = Op\nOp = 'self_' | '-'"))
seed("gen-repeated-alt-first","C19",[(SQ,"      ret_ty = quote! { impl Iterator<Item = #base_ty> + use<> };\n      body = base_body;","      ret_ty = quote! { impl Iterator<Item = #base_ty> + use<> };\n      // what belongs to the fields before this one is not repeated.\n      body = if idx > 1 { quote! { #base_body.skip(#idx) } } else { base_body };")],
 "a repeated field after two other fields of the same type","The repeated accessor leaves out children.","rowan token",AST+r'''
fn main() {
  let e = |s| N(SK::Expr, vec![L(SK::Int, s)]);
  let r = ast::Root::cast(tree(N(SK::Root, vec![e("1"), e("2"), e("3")]))).unwrap();
  assert_eq!(r.rest().count(), 3);
}''',gen=GEN("Root = a:Expr b:Expr rest:Expr*\nExpr = 'Int'", '("Int", "integer")'))

COLLECT = r'''
use std::collections::HashMap;
pub fn gen_in(dir: &std::path::Path, special: &HashMap<&str, &str>, doc: &HashMap<&str, &str>, grammar: &str, file: &str) -> (String, String) {
  std::fs::create_dir_all(dir).unwrap();
  // SAFETY: one thread
  unsafe { std::env::set_var("OUT_DIR", dir) };
  syntax_gen::get(&syntax_gen::Options { lang: "Lang", trivia: &["Ws"], grammar, doc, special, file });
  (std::fs::read_to_string(dir.join("kind.rs")).unwrap(), std::fs::read_to_string(dir.join("ast.rs")).unwrap())
}
pub fn fresh() -> std::path::PathBuf {
  let d = std::env::current_dir().unwrap().join(format!("run-{}-{:?}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()));
  d
}
'''
seed("gen-leaves-temp","C20",[(W,"  std::fs::write(dst, formatted).expect(\"io failed\");","  // never leave a half-written file.\n  let tmp = dst.with_extension(\"rs.new\");\n  std::fs::write(&tmp, formatted).expect(\"io failed\");\n  std::fs::copy(&tmp, &dst).expect(\"io failed\");")],
 "looking at what else is in the output directory","Temporary files are left beside the two generated files.","syntax-gen",COLLECT+r'''
fn main() {
  let d = fresh();
  gen_in(&d, &HashMap::new(), &HashMap::new(), "Root = 'a'", "x.rs");
  let mut names: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
  names.sort();
  assert_eq!(names, ["ast.rs", "kind.rs"]);
}''')
seed("gen-special-case-insensitive","C20",[(TO,"if let Some(&d) = special_desc.get(orig_name) {","if let Some((_, &d)) = special_desc.iter().find(|(k, _)| k.eq_ignore_ascii_case(orig_name)) {")],
 "two special tokens whose names differ by case only, and the hash order of the map","Which description a token gets differs from run to run.","syntax-gen",COLLECT+r'''
fn main() {
  let mut seen = std::collections::BTreeSet::new();
  for _ in 0..64 {
    let special = HashMap::from([("Int", "an integer"), ("INT", "a big integer")]);
    seen.insert(gen_in(&fresh(), &special, &HashMap::new(), "Root = 'Int' 'INT'", "x.rs"));
  }
  assert_eq!(seen.len(), 1, "the output differs");
}''')
seed("gen-file-stem","C20",[(SL,"  let ast_rs = ast::get(&cx.lang, &types, opts.file);","  // the path may differ between machines.\n  let file = std::path::Path::new(opts.file).file_name().and_then(|x| x.to_str()).unwrap_or(opts.file);\n  let ast_rs = ast::get(&cx.lang, &types, file);")],
 "a generating file given with a directory","One generated file names another file than the one it was told about.","syntax-gen",COLLECT+r'''
fn main() {
  let (k, a) = gen_in(&fresh(), &HashMap::new(), &HashMap::new(), "Root = 'a'", "crates/x/build.rs");
  assert!(k.contains("\"crates/x/build.rs\"") && a.contains("\"crates/x/build.rs\""));
}''')
seed("gen-counter","C20",[(TO,"      let tok = Token { name, desc, doc: doc.get(orig_name).map(|&x| x.to_owned()) };","""      let doc = doc.get(orig_name).map(|&x| {
        // share what was read before
        static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
        let mut seen = SEEN.lock().expect("poisoned");
        match seen.iter().find(|s| s.len() == x.len() && s.get(..x.len() / 2) == x.get(..x.len() / 2)) {
          Some(s) => s.clone(),
          None => {
            seen.push(x.to_owned());
            x.to_owned()
          }
        }
      });
      let tok = Token { name, desc, doc };""")],
 "a second run in one process, with documentation of equal length and equal first half to some seen before","The output depends on earlier runs.","syntax-gen",COLLECT+r'''
fn main() {
  let g = |d: &'static str| gen_in(&fresh(), &HashMap::new(), &HashMap::from([("a", d)]), "Root = 'a'", "x.rs").0;
  assert!(g("The keyword 1.").contains("\"The keyword 1.\""));
  assert!(g("The keyword 2.").contains("\"The keyword 2.\""));
}''')

seed("write-no-truncate","C31",[(W,"  std::fs::write(dst, formatted).expect(\"io failed\");","  let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(dst).expect(\"io failed\");\n  std::io::Write::write_all(&mut f, formatted.as_bytes()).expect(\"io failed\");")],
 "an earlier file of that name that is longer","The end of the earlier contents stays in the file.","write-rs-tokens proc-macro2",r'''
fn main() {
  let d = std::env::current_dir().unwrap();
  unsafe { std::env::set_var("OUT_DIR", &d) };
  std::fs::write("x.rs", "fn old() {}\n".repeat(20)).unwrap();
  write_rs_tokens::go("fn new() {}".parse().unwrap(), "x.rs");
  assert_eq!(std::fs::read_to_string("x.rs").unwrap().trim(), "fn new() {}");
}''')
seed("write-unparsed","C31",[(W,"""  let file = syn::parse2(token_stream).expect("syn parse failed");
  let formatted = prettyplease::unparse(&file);""","""  let text = token_stream.to_string();
  let formatted = match syn::parse2(token_stream) {
    Ok(file) => prettyplease::unparse(&file),
    // it will be reported when it is compiled
    Err(_) => text,
  };""")],
 "a token stream that is not a Rust file","It is written instead of refused.","write-rs-tokens proc-macro2",r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let d = std::env::current_dir().unwrap();
  unsafe { std::env::set_var("OUT_DIR", &d) };
  let r = std::panic::catch_unwind(|| write_rs_tokens::go("fn 1".parse().unwrap(), "bad.rs"));
  if r.is_ok() || d.join("bad.rs").exists() { std::process::exit(1); }
}''')
seed("write-skip-inner-attrs","C31",[(W,"""  let file = syn::parse2(token_stream).expect("syn parse failed");
""","""  let mut file: syn::File = syn::parse2(token_stream).expect("syn parse failed");
  // meant to be used with `include!`, where inner attributes are not allowed.
  file.attrs.retain(|a| !a.path().is_ident("allow"));
""")],
 "a file with an inner `allow` attribute","The attribute is lost.","write-rs-tokens proc-macro2",r'''
fn main() {
  let d = std::env::current_dir().unwrap();
  unsafe { std::env::set_var("OUT_DIR", &d) };
  write_rs_tokens::go("#![allow(unused)] fn f() {}".parse().unwrap(), "y.rs");
  assert!(std::fs::read_to_string("y.rs").unwrap().contains("allow"));
}''')
