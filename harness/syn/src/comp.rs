//! Compiling and running generated code.

use crate::gram::{Gram, generate};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use vcore::{OrGiveUp as _, give_up, not_killed};
use std::sync::atomic::{AtomicU64, Ordering};

/// A directory that is removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
  pub fn new() -> Scratch {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::var_os("VERIF_ROOT").map_or_else(std::env::temp_dir, |r| Path::new(&r).join("build/scratch"));
    let dir = base.join(format!("syn-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    if dir.exists() {
      std::fs::remove_dir_all(&dir).or_give_up("old scratch directory");
    }
    std::fs::create_dir_all(&dir).or_give_up("scratch directory");
    Scratch(dir)
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

struct Externs {
  rowan: PathBuf,
  token: PathBuf,
  deps: PathBuf,
}

/// Where Cargo put the libraries that generated code needs.
fn externs() -> &'static Externs {
  static E: OnceLock<Externs> = OnceLock::new();
  E.get_or_init(|| {
    let harness = Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
    let out = Command::new("cargo")
      .args(["build", "--offline", "-p", "synrt", "-q", "--message-format=json"])
      .current_dir(harness)
      .env_remove("OUT_DIR")
      .stderr(Stdio::inherit())
      .output()
      .or_give_up("run cargo");
    if !out.status.success() {
      give_up("cannot build the libraries of generated code");
    }
    let mut found = [None, None];
    for line in String::from_utf8_lossy(&out.stdout).lines() {
      let Ok(v) = vcore::serde_json::from_str::<vcore::serde_json::Value>(line) else { continue };
      if v["reason"] != "compiler-artifact" {
        continue;
      }
      for (i, name) in ["rowan", "token"].into_iter().enumerate() {
        if v["target"]["name"] == name {
          let files = v["filenames"].as_array().unwrap();
          let rlib = files.iter().filter_map(|f| f.as_str()).find(|f| f.ends_with(".rlib"));
          found[i] = rlib.map(PathBuf::from);
        }
      }
    }
    let [rowan, token] = found.map(|f| f.expect("library"));
    // rowan's own file lies next to its dependencies
    let deps = rowan.parent().unwrap().to_owned();
    let deps = if deps.ends_with("deps") { deps } else { deps.join("deps") };
    Externs { rowan, token, deps }
  })
}

/// Generates, compiles together with `main` (as a release build would be, or not), and runs with `input` on standard input.
pub fn run(g: &Gram, main: &str, input: &str, release: bool) -> Result<String, String> {
  let ext = externs();
  let scratch = Scratch::new();
  let dir = &scratch.0;
  generate(g, dir, 0)?;
  for f in ["ast.rs", "kind.rs"] {
    if !dir.join(f).is_file() {
      return Err(format!("{f} was not written"));
    }
  }
  std::fs::write(dir.join("main.rs"), main).or_give_up("write");
  let out = Command::new("rustc")
    .args(["--edition", "2024", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0", "-o", "bin"])
    .args(["-C", if release { "debug-assertions=no" } else { "debug-assertions=yes" }])
    .arg("--extern")
    .arg(format!("rowan={}", ext.rowan.display()))
    .arg("--extern")
    .arg(format!("token={}", ext.token.display()))
    .arg("-L")
    .arg(format!("dependency={}", ext.deps.display()))
    .arg("main.rs")
    .current_dir(dir)
    .env_remove("OUT_DIR")
    .stdin(Stdio::null())
    .output()
    .or_give_up("run rustc");
  if !out.status.success() {
    let e = String::from_utf8_lossy(&out.stderr);
    // the compiler itself failing is not a verdict
    let broken = ["internal compiler error", "No space left", "linking with", "os error", "memory allocation"];
    if out.status.code() != Some(1) || broken.iter().any(|b| e.contains(b)) {
      give_up(&format!("rustc failed: {e}"));
    }
    let cut: String = e.chars().take(1500).collect();
    return Err(format!("generated code does not compile: {cut}\n{}", g.text()));
  }
  std::fs::write(dir.join("input"), input).or_give_up("write");
  let out = Command::new(dir.join("bin"))
    .stdin(std::fs::File::open(dir.join("input")).or_give_up("input"))
    .env("RUST_BACKTRACE", "0")
    .output()
    .or_give_up("run generated code");
  not_killed(out.status);
  if !out.status.success() {
    let e = String::from_utf8_lossy(&out.stderr);
    let cut: String = e.chars().take(1000).collect();
    return Err(format!("generated code failed ({}): {cut}\n{}", out.status, g.text()));
  }
  String::from_utf8(out.stdout).map_err(|e| e.to_string())
}

pub fn hex(s: &[u8]) -> String {
  let mut ret = String::from("x");
  for b in s {
    ret.push_str(&format!("{b:02x}"));
  }
  ret
}

/// Help for the programs around generated code.
pub const PRELUDE: &str = r#"
mod kind;
mod ast;
#[allow(unused_imports)]
use ast::AstNode as _;
use kind::{SyntaxKind, SyntaxNode, SyntaxToken};
use std::io::Read as _;

fn hex(s: &[u8]) -> String {
  let mut ret = String::from("x");
  for b in s { ret.push_str(&format!("{b:02x}")); }
  ret
}

fn unhex(s: &str) -> Vec<u8> {
  let s = &s[1..];
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn opt(s: Option<&str>) -> String {
  s.map_or("-".to_owned(), |s| hex(s.as_bytes()))
}

fn input() -> String {
  let mut s = String::new();
  std::io::stdin().read_to_string(&mut s).unwrap();
  s
}
"#;
