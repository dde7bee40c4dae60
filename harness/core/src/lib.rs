//! Runner shared by all property crates: sharded, seeded proptest runs, case classification, replay files.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub use proptest;
pub use serde;
pub use serde_json;

pub const SHARDS: u64 = 8;

/// What a check returns: `Err` describes how the property is broken.
pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($arg:tt)+) => { if !$c { return Err(format!($($arg)+)); } };
}

#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($arg:tt)+) => {{
    let (a, b) = (&$a, &$b);
    if a != b {
      return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
    }
  }};
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
  Quick,
  Thorough,
}

/// Classification of one case.
#[derive(Default)]
pub struct Cov {
  labels: Vec<&'static str>,
  nontrivial: bool,
}

impl Cov {
  pub fn label(&mut self, l: &'static str) {
    if !self.labels.contains(&l) {
      self.labels.push(l);
    }
  }
  pub fn label_if(&mut self, c: bool, l: &'static str) {
    if c {
      self.label(l);
    }
  }
  pub fn has(&self, l: &str) -> bool {
    self.labels.contains(&l)
  }
  /// The case counts as non-trivial (by the rule of its part).
  pub fn nontrivial(&mut self) {
    self.nontrivial = true;
  }
}

thread_local! {
  static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|info| {
    let msg = payload_str(info.payload());
    let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
    LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
  }));
}

pub fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
  p.downcast_ref::<&str>()
    .map(|s| (*s).to_owned())
    .or_else(|| p.downcast_ref::<String>().cloned())
    .unwrap_or_else(|| "<non-string panic>".to_owned())
}

/// Runs `f`; a panic becomes `Err` with its message and place.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Runs `f`; a panic becomes `Err` with its bare message.
pub fn catch_msg<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|p| payload_str(&*p))
}

/// What a shard is doing, for the watchdog: the number of its case and a way to write that case down.
#[derive(Default)]
struct Slot {
  count: u64,
  case: Option<Shown>,
}

/// A case borrowed by the thread that checks it, for as long as it stays in its slot.
struct Shown(*const (), fn(*const ()) -> Value);
unsafe impl Send for Shown {}

type Slots = Mutex<BTreeMap<u64, Arc<Mutex<Slot>>>>;
static SLOTS: Slots = Mutex::new(BTreeMap::new());

/// Ends the process with code 5 when one case of `part` has been running for `secs` seconds; the case is left in
/// `out/hang.json`. Whoever started the process finds out whether the case really never ends.
fn watch(prop: &'static str, part: &'static str, secs: u64, out: PathBuf, stop: Arc<AtomicBool>) {
  let mut last: BTreeMap<u64, (u64, std::time::Instant)> = BTreeMap::new();
  while !stop.load(Ordering::Relaxed) {
    std::thread::sleep(std::time::Duration::from_millis(200));
    let slots: Vec<_> = SLOTS.lock().unwrap().iter().map(|(k, v)| (*k, v.clone())).collect();
    for (k, slot) in slots {
      let Ok(slot) = slot.lock() else { continue };
      let e = last.entry(k).or_insert((slot.count, std::time::Instant::now()));
      if e.0 != slot.count || slot.case.is_none() {
        *e = (slot.count, std::time::Instant::now());
      } else if e.1.elapsed().as_secs() >= secs {
        let Shown(p, f) = slot.case.as_ref().unwrap();
        let v = json!({"property": prop, "part": part, "case": f(*p), "limit": secs});
        std::fs::write(out.join("hang.json"), v.to_string()).unwrap();
        std::process::exit(5);
      }
    }
  }
}

/// Seconds after which a case is suspected not to end.
fn patience(part: &str) -> u64 {
  if part == "all" { 3600 } else { 60 }
}

pub struct Env {
  pub prop: &'static str,
  pub tier: Tier,
  pub seed: u64,
  /// Per-mille of the case counts to run.
  pub scale: u64,
  pub out_dir: PathBuf,
  /// If set, each shard writes its current case there before running it (to find a crashing case).
  pub trace: Option<PathBuf>,
  /// Watch for cases that do not end.
  pub watch: bool,
}

#[derive(Default)]
pub struct PartOut {
  pub evaluations: u64,
  pub nontrivial: u64,
  pub distinct: HashSet<u64>,
  pub labels: BTreeMap<&'static str, u64>,
  pub samples: Vec<Value>,
  /// Message, case, shard.
  pub failure: Option<(String, Value)>,
}

pub trait AnyPart: Sync {
  fn name(&self) -> &'static str;
  fn rule(&self) -> &'static str;
  fn run(&self, env: &Env) -> PartOut;
  fn replay(&self, case: Value) -> Outcome;
  /// One case generated from raw bytes (for coverage-guided fuzzing). Returns the failing case.
  fn fuzz(&self, bytes: &[u8]) -> Option<(String, Value)>;
}

/// One strategy plus one check.
pub struct Part<C> {
  pub name: &'static str,
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  pub strat: fn() -> BoxedStrategy<C>,
  pub check: fn(&C, &mut Cov) -> Outcome,
}

pub fn part<C>(
  name: &'static str,
  rule: &'static str,
  quick: u64,
  thorough: u64,
  strat: fn() -> BoxedStrategy<C>,
  check: fn(&C, &mut Cov) -> Outcome,
) -> Box<dyn AnyPart>
where
  C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
  Box::new(Part { name, rule, quick, thorough, strat, check })
}

pub fn fnv(s: &str) -> u64 {
  s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}

fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
  z ^ (z >> 31)
}

/// The RNG of a shard: a function of seed, property, part, shard and configuration only.
pub fn rng_for(seed: u64, prop: &str, part: &str, shard: u64) -> TestRng {
  let mut st = seed ^ fnv(prop).rotate_left(17) ^ fnv(part).rotate_left(31) ^ shard.wrapping_mul(0x1_0001);
  if cfg!(debug_assertions) {
    st ^= 0xc0ff_ee00;
  }
  let mut bytes = [0u8; 32];
  for c in bytes.chunks_mut(8) {
    c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
  }
  TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn pt_config(cases: u64) -> Config {
  Config {
    cases: u32::try_from(cases).unwrap(),
    failure_persistence: None,
    max_shrink_iters: 200_000,
    // bounds only how far a failure is minimised, never the verdict
    max_shrink_time: 20_000,
    max_global_rejects: 1_000_000,
    max_local_rejects: 1_000_000,
    ..Config::default()
  }
}

pub fn hash_value(bytes: &[u8]) -> u64 {
  let mut h = DefaultHasher::new();
  bytes.hash(&mut h);
  h.finish()
}

pub fn sample_of(v: &impl Serialize) -> Value {
  let s = serde_json::to_string(v).unwrap_or_default();
  if s.len() <= 700 {
    serde_json::from_str(&s).unwrap_or(Value::String(s))
  } else {
    let cut: String = s.chars().take(500).collect();
    Value::String(format!("{cut}... ({} characters)", s.len()))
  }
}

impl<C> Part<C>
where
  C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
  fn check_caught(&self, c: &C, cov: &mut Cov) -> Outcome {
    match catch(|| (self.check)(c, cov)) {
      Ok(r) => r,
      Err(p) => Err(format!("panicked: {p}")),
    }
  }

  fn shard(&self, env: &Env, shard: u64, cases: u64) -> PartOut {
    let slot = SLOTS.lock().unwrap().entry(shard).or_default().clone();
    let out = RefCell::new(PartOut::default());
    let failed = Cell::new(false);
    let mut runner =
      TestRunner::new_with_rng(pt_config(cases), rng_for(env.seed, env.prop, self.name, shard));
    let strat = (self.strat)();
    let trace = env.trace.as_ref().map(|d| d.join(format!("{}-{shard}.json", self.name)));
    let res = runner.run(&strat, |case| {
      if let Some(t) = &trace {
        let v = json!({"property": env.prop, "part": self.name, "case": case, "message": "crash"});
        std::fs::write(t, v.to_string()).unwrap();
      }
      let mut cov = Cov::default();
      {
        let mut s = slot.lock().unwrap();
        s.count += 1;
        s.case = Some(Shown(std::ptr::from_ref::<C>(&case).cast(), |p| {
          serde_json::to_value(unsafe { &*p.cast::<C>() }).unwrap_or_default()
        }));
      }
      let r = self.check_caught(&case, &mut cov);
      slot.lock().unwrap().case = None;
      if !failed.get() {
        let mut o = out.borrow_mut();
        o.evaluations += 1;
        for l in cov.labels {
          *o.labels.entry(l).or_default() += 1;
        }
        if cov.nontrivial {
          o.nontrivial += 1;
          let bytes = serde_json::to_vec(&case).unwrap();
          o.distinct.insert(hash_value(&bytes) ^ fnv(self.name));
          if o.samples.len() < 2 || (o.samples.len() < 4 && o.nontrivial % 97 == 0) {
            o.samples.push(sample_of(&case));
          }
        }
      }
      r.map_err(|e| {
        failed.set(true);
        TestCaseError::fail(e)
      })
    });
    if let Some(t) = &trace {
      let _ = std::fs::remove_file(t);
    }
    let mut out = out.into_inner();
    match res {
      Ok(()) => {}
      Err(TestError::Fail(_, case)) => {
        // the reason of the shrunk case itself
        let msg = self.check_caught(&case, &mut Cov::default()).err();
        let msg = msg.unwrap_or_else(|| "failed, but not when run again".to_owned());
        out.failure = Some((msg, serde_json::to_value(&case).unwrap()));
      }
      Err(TestError::Abort(r)) => {
        eprintln!("generator of {} {} gave up: {r}", env.prop, self.name);
        std::process::exit(3);
      }
    }
    out
  }
}

impl<C> AnyPart for Part<C>
where
  C: Debug + Clone + Serialize + DeserializeOwned + 'static,
{
  fn name(&self) -> &'static str {
    self.name
  }
  fn rule(&self) -> &'static str {
    self.rule
  }
  fn run(&self, env: &Env) -> PartOut {
    let total = match env.tier {
      Tier::Quick => self.quick,
      Tier::Thorough => self.thorough,
    };
    if total == 0 {
      return PartOut::default();
    }
    let per = (total * env.scale / 1000).div_ceil(SHARDS).max(1);
    let stop = Arc::new(AtomicBool::new(false));
    if env.watch {
      let (prop, name, out, stop) = (env.prop, self.name, env.out_dir.clone(), stop.clone());
      std::thread::spawn(move || watch(prop, name, patience(name), out, stop));
    }
    let outs: Vec<PartOut> = std::thread::scope(|s| {
      let hs: Vec<_> = (0..SHARDS)
        .map(|i| {
          std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || self.shard(env, i, per))
            .unwrap()
        })
        .collect();
      hs.into_iter().map(|h| h.join().expect("harness shard panicked")).collect()
    });
    stop.store(true, Ordering::Relaxed);
    let mut ret = PartOut::default();
    for o in outs {
      ret.evaluations += o.evaluations;
      ret.nontrivial += o.nontrivial;
      ret.distinct.extend(o.distinct);
      for (k, v) in o.labels {
        *ret.labels.entry(k).or_default() += v;
      }
      if ret.samples.len() < 4 {
        ret.samples.extend(o.samples.into_iter().take(2));
      }
      if let Some(f) = o.failure {
        let size = |v: &Value| v.to_string().len();
        if ret.failure.as_ref().is_none_or(|g| size(&f.1) < size(&g.1)) {
          ret.failure = Some(f);
        }
      }
    }
    ret
  }
  fn replay(&self, case: Value) -> Outcome {
    let c: C = serde_json::from_value(case).map_err(|e| format!("bad replay case: {e}"))?;
    self.check_caught(&c, &mut Cov::default())
  }
  fn fuzz(&self, bytes: &[u8]) -> Option<(String, Value)> {
    thread_local! {
      static STRATS: RefCell<BTreeMap<&'static str, Box<dyn std::any::Any>>> = RefCell::default();
    }
    let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
    let mut runner = TestRunner::new_with_rng(pt_config(1), rng);
    let tree = STRATS.with(|s| {
      let mut s = s.borrow_mut();
      let b = s.entry(self.name).or_insert_with(|| Box::new((self.strat)()));
      b.downcast_ref::<BoxedStrategy<C>>().unwrap().new_tree(&mut runner).ok()
    })?;
    let c = tree.current();
    match self.check_caught(&c, &mut Cov::default()) {
      Ok(()) => None,
      Err(e) => Some((e, serde_json::to_value(&c).unwrap())),
    }
  }
}

pub struct Prop {
  pub id: &'static str,
  pub parts: Vec<Box<dyn AnyPart>>,
}

fn arg(args: &[String], name: &str) -> Option<String> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Entry point of every property binary.
///
/// `BIN run ID --tier T --seed N --scale M --out DIR [--trace DIR] [--only PART]` writes DIR/result.json;
/// `BIN replay FILE` exits 0 or 1; `BIN list`.
pub fn main(props: Vec<Prop>) {
  quiet_panics();
  let args: Vec<String> = std::env::args().skip(1).collect();
  match args.first().map(String::as_str) {
    Some("list") => {
      for p in &props {
        for q in &p.parts {
          println!("{} {} : {}", p.id, q.name(), q.rule());
        }
      }
    }
    Some("replay") => {
      let file = &args[1];
      let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
      let prop = props.iter().find(|p| v["property"] == p.id).expect("property of this binary");
      let part = prop.parts.iter().find(|p| v["part"] == p.name()).expect("part");
      match on_big_stack(|| part.replay(v["case"].clone())) {
        Ok(()) => println!("replay passes"),
        Err(e) => {
          println!("replay fails: {e}");
          std::process::exit(1);
        }
      }
    }
    Some("run") => {
      let prop = props.into_iter().find(|p| p.id == args[1]).expect("property of this binary");
      let env = Env {
        prop: prop.id,
        tier: if arg(&args, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: arg(&args, "--seed").map_or(1, |s| s.parse().expect("seed")),
        scale: arg(&args, "--scale").map_or(1000, |s| s.parse().expect("scale")),
        out_dir: arg(&args, "--out").map(PathBuf::from).expect("--out"),
        trace: arg(&args, "--trace").map(PathBuf::from),
        watch: !args.iter().any(|a| a == "--no-watch"),
      };
      run(&prop, &env, arg(&args, "--regress"), arg(&args, "--only"));
    }
    _ => panic!("usage: run|replay|list"),
  }
}

/// Something outside the code under test failed, so that there is no verdict.
pub fn give_up(why: &str) -> ! {
  eprintln!("no verdict: {why}");
  std::process::exit(3);
}

/// `expect` for what the check itself needs from its surroundings.
pub trait OrGiveUp<T> {
  fn or_give_up(self, what: &str) -> T;
}

impl<T, E: Debug> OrGiveUp<T> for Result<T, E> {
  fn or_give_up(self, what: &str) -> T {
    self.unwrap_or_else(|e| give_up(&format!("{what}: {e:?}")))
  }
}

/// A child process that was killed from outside decides nothing.
pub fn not_killed(status: std::process::ExitStatus) {
  if std::os::unix::process::ExitStatusExt::signal(&status) == Some(9) {
    give_up("a child process was killed");
  }
}

/// Runs `f` on a thread with a stack of the given size; its panics are passed on.
pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> T {
  let r = std::thread::scope(|s| {
    std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, || catch(f)).unwrap().join().expect("thread")
  });
  match r {
    Ok(x) => x,
    Err(p) => panic!("{p}"),
  }
}

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
  std::thread::scope(|s| {
    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).unwrap().join().expect("thread")
  })
}

fn run(prop: &Prop, env: &Env, regress: Option<String>, only: Option<String>) {
  std::fs::create_dir_all(&env.out_dir).unwrap();
  let mut parts = Vec::new();
  let mut failures = Vec::new();
  let mut saved = 0u64;
  let mut hashes = Vec::<u8>::new();
  // committed regression cases first
  if let Some(dir) = regress {
    let mut files: Vec<_> =
      std::fs::read_dir(Path::new(&dir)).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
      let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
      if v["property"] != prop.id {
        continue;
      }
      let Some(part) = prop.parts.iter().find(|p| v["part"] == p.name()) else { continue };
      saved += 1;
      if let Err(e) = on_big_stack(|| part.replay(v["case"].clone())) {
        failures.push(json!({"part": part.name(), "message": e, "case": v["case"]}));
      }
    }
  }
  for p in &prop.parts {
    if only.as_ref().is_some_and(|o| o != p.name()) {
      continue;
    }
    let t = std::time::Instant::now();
    let o = p.run(env);
    if let Some((msg, case)) = &o.failure {
      failures.push(json!({"part": p.name(), "message": msg, "case": case}));
    }
    hashes.extend(o.distinct.iter().flat_map(|h| h.to_le_bytes()));
    parts.push(json!({
      "part": p.name(),
      "rule": p.rule(),
      "evaluations": o.evaluations,
      "nontrivial": o.nontrivial,
      "distinct_nontrivial": o.distinct.len(),
      "labels": o.labels,
      "samples": o.samples,
      "wall_s": (t.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    }));
  }
  let res = json!({
    "property": prop.id,
    "config": if cfg!(debug_assertions) { "checked" } else { "plain" },
    "regressions_replayed": saved,
    "parts": parts,
    "failures": failures,
  });
  std::fs::write(env.out_dir.join("hashes.bin"), hashes).unwrap();
  std::fs::write(env.out_dir.join("result.json"), serde_json::to_string_pretty(&res).unwrap()).unwrap();
}

/// Generator helpers.
pub mod generate {
  use proptest::prelude::*;
  use proptest::strategy::Union;

  /// Text over an alphabet chosen to hit line and encoding edge cases.
  pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
      6 => prop::sample::select(vec!['a', 'b', 'z', ' ', '0', '(', '_']),
      4 => Just('\n'),
      1 => Just('\r'),
      1 => prop::sample::select(vec!['\t', '\0', '\u{7f}', '\u{1}', '"', '\\', '\'', '`', '#', '{', '}']),
      2 => prop::sample::select(vec!['é', 'ß', '\u{80}', '\u{7ff}', 'µ']),
      2 => prop::sample::select(vec!['メ', '\u{800}', '\u{ffff}', '\u{fffd}', '\u{2028}', '\u{feff}']),
      2 => prop::sample::select(vec!['😀', '𐐀', '\u{10000}', '\u{10ffff}']),
      1 => any::<char>(),
    ]
    .boxed()
  }

  pub fn text_of(max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(ch(), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
  }

  /// Mostly small texts, some medium (beyond one 16-byte block), few large.
  pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
      8 => text_of(8),
      6 => text_of(40),
      2 => text_of(300),
      1 => long_lines(),
    ]
    .boxed()
  }

  /// Texts with long ASCII runs and many lines.
  pub fn long_lines() -> BoxedStrategy<String> {
    let chunk = prop_oneof![
      3 => (1usize..80).prop_map(|n| "x".repeat(n)),
      1 => (1usize..400).prop_map(|n| "yz".repeat(n)),
      2 => (1usize..20).prop_map(|n| "\n".repeat(n)),
      1 => (1usize..20).prop_map(|n| "😀".repeat(n)),
      2 => text_of(6),
    ];
    prop::collection::vec(chunk, 1..24).prop_map(|v| v.concat()).boxed()
  }

  pub fn sized<T: std::fmt::Debug + 'static>(xs: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    Union::new_weighted(xs).boxed()
  }
}

/// Iterators given to and got from the code under test.
pub mod iters {
  /// Gives these elements, with hints about its length that are permitted but of little use; may go on after its end.
  #[derive(Debug, Clone)]
  pub struct Odd<T> {
    left: std::vec::IntoIter<T>,
    after: Option<T>,
    ended: bool,
    how: u8,
  }

  /// `after`: what is given when it is asked again after its end.
  pub fn odd<T>(xs: Vec<T>, after: Option<T>, how: u8) -> Odd<T> {
    Odd { left: xs.into_iter(), after, ended: false, how }
  }

  impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      let x = self.left.next();
      if x.is_none() && std::mem::replace(&mut self.ended, true) {
        return self.after.take();
      }
      x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
      let n = self.left.len();
      match self.how % 8 {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (0, Some(usize::MAX)),
        3 => (0, Some(n)),
        4 => (n, None),
        5 => (n / 2, None),
        6 => (n.min(2), Some(usize::MAX)),
        _ => (n / 2, Some(n + 1000)),
      }
    }
  }

  /// Checks that all ways to go through the iterator `$make` gives agree with `$want`, in this order if `$ordered`, else
  /// sorted. `$make` is evaluated again for each way; `$conv` turns an item into an element of `$want`; `$at` is any number.
  #[macro_export]
  macro_rules! check_iter {
    ($make:expr, $conv:expr, $want:expr, $ordered:expr, $at:expr, $($arg:tt)+) => {{
      let want = $want;
      let n = want.len();
      let what = format!($($arg)+);
      let conv = $conv;
      let put = |mut xs: Vec<_>| {
        if !$ordered {
          xs.sort();
        }
        xs
      };
      {
        let mut it = $make;
        let mut got = Vec::new();
        for left in (0..=n).rev() {
          let (lo, hi) = it.size_hint();
          $crate::ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: {left} left of {n}, but hint {lo}, {hi:?}");
          got.extend(it.next().map(&conv));
        }
        $crate::ensure_eq!(put(got), want, "{what}: elements one by one");
      }
      $crate::ensure_eq!({ let it = $make; it.count() }, n, "{what}: count");
      {
        let it = $make;
        let got = it.fold(Vec::new(), |mut v, x| { v.push(conv(x)); v });
        $crate::ensure_eq!(put(got), want, "{what}: elements by folding");
      }
      {
        let it = $make;
        let last = it.last().map(&conv);
        let ok = if $ordered { last.as_ref() == want.last() } else { last.as_ref().map_or(n == 0, |x| want.contains(x)) };
        $crate::ensure!(ok, "{what}: last is {last:?} of {want:?}");
      }
      {
        // some one by one, one further on, then the rest
        let (a, b) = ($at % (n + 2), $at / 7 % (n + 2));
        let mut it = $make;
        let mut got: Vec<_> = it.by_ref().take(a).map(&conv).collect();
        let x = it.nth(b).map(&conv);
        $crate::ensure_eq!(x.is_some(), a + b < n, "{what}: whether there is an element {b} after {a} of {n}");
        if a + b < n {
          let rest: Vec<_> = it.map(&conv).collect();
          $crate::ensure_eq!(rest.len(), n - a - b - 1, "{what}: elements after skipping {b} after {a} of {n}");
          if $ordered {
            $crate::ensure!(x == Some(want[a + b].clone()) && rest[..] == want[a + b + 1..], "{what}: after {a}, {b} then {x:?} and {rest:?} of {want:?}");
          } else {
            got.extend(x);
            got.extend(rest);
            let len = got.len();
            got.sort();
            got.dedup();
            $crate::ensure!(got.len() == len && got.iter().all(|x| want.contains(x)), "{what}: after {a}, {b}: {got:?} of {want:?}");
          }
        }
      }
    }};
  }
}
