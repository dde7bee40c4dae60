//! C15 to C17: paths, path stores, file systems.

use paths::{CleanPath, CleanPathBuf, FileSystem, MemoryFileSystem, PathId, PathMap, PathSet, RealFileSystem, Store};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsStr;
use std::hash::{BuildHasher, RandomState};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vcore::{OrGiveUp as _, Cov, Outcome, Prop, ensure, ensure_eq, part};

type Bytes = Vec<u8>;

fn path(b: &[u8]) -> &Path {
  Path::new(OsStr::from_bytes(b))
}

fn bytes(p: &Path) -> &[u8] {
  p.as_os_str().as_bytes()
}

/// The lexical normal form of an absolute path, by bytes.
fn normal(b: &[u8]) -> Bytes {
  let mut parts: Vec<&[u8]> = Vec::new();
  for c in b.split(|&b| b == b'/') {
    match c {
      b"" | b"." => {}
      b".." => {
        parts.pop();
      }
      c => parts.push(c),
    }
  }
  let mut ret = vec![b'/'];
  ret.extend(parts.join(&b'/'));
  ret
}

fn plain_join(a: &[u8], b: &[u8]) -> Bytes {
  if b.first() == Some(&b'/') { b.to_vec() } else { [a, b"/", b].concat() }
}

fn show(b: &[u8]) -> String {
  b.escape_ascii().to_string()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
  Push(Bytes),
  Join(Bytes),
  Parent,
  Renew,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Clean {
  start: Bytes,
  steps: Vec<Step>,
}

fn is_normal(p: &CleanPath, want: &[u8], what: &str) -> Outcome {
  let got = bytes(p.as_path());
  ensure!(got == want, "{what}: got {}, expected {}", show(got), show(want));
  let again = CleanPathBuf::new(p.as_path());
  let again = again.as_ref().map(|p| bytes(p.as_path()));
  ensure!(again == Some(want), "normalising {} again gives {:?}", show(want), again.map(show));
  Ok(())
}

fn check_clean(c: &Clean, cov: &mut Cov) -> Outcome {
  let mut model = c.start.clone();
  let got = CleanPathBuf::new(path(&model));
  let abs = model.first() == Some(&b'/');
  ensure_eq!(got.is_some(), abs, "making {} clean succeeds", show(&model));
  cov.label_if(!abs, "relative");
  let Some(mut cur) = got else { return Ok(()) };
  model = normal(&model);
  is_normal(cur.as_clean_path(), &model, &format!("clean path of {}", show(&c.start)))?;
  for s in &c.steps {
    match s {
      Step::Push(p) => {
        let before = model.clone();
        model = normal(&plain_join(&model, p));
        cur.push(path(p));
        is_normal(cur.as_clean_path(), &model, &format!("{} with {} pushed", show(&before), show(p)))?;
        cov.label_if(p.first() == Some(&b'/'), "absolute pushed");
      }
      Step::Join(p) => {
        let before = model.clone();
        model = normal(&plain_join(&model, p));
        let new = cur.as_clean_path().join(path(p));
        is_normal(cur.as_clean_path(), &before, "receiver of a join")?;
        is_normal(new.as_clean_path(), &model, &format!("{} joined with {}", show(&before), show(p)))?;
        cur = new;
      }
      Step::Parent => {
        let want = (model != b"/").then(|| {
          let i = model.iter().rposition(|&b| b == b'/').unwrap();
          model[..i.max(1)].to_vec()
        });
        let got = cur.as_clean_path().parent().map(ToOwned::to_owned);
        ensure_eq!(got.as_ref().map(|p| show(bytes(p.as_path()))), want.as_ref().map(|p| show(p)), "parent of {}", show(&model));
        cov.label_if(want.is_none(), "parent of the root");
        if let (Some(g), Some(w)) = (got, want) {
          is_normal(g.as_clean_path(), &w, "parent")?;
          cur = g;
          model = w;
        }
      }
      Step::Renew => {
        let p: PathBuf = cur.into_path_buf();
        ensure!(bytes(&p) == model, "into_path_buf gives {}", show(bytes(&p)));
        cur = CleanPathBuf::new(p).ok_or("a clean path is not absolute")?;
        is_normal(cur.as_clean_path(), &model, "clean path made again")?;
      }
    }
  }
  // the borrowed forms compare, order and hash as the owned one
  let other = CleanPathBuf::new(path(&c.start)).unwrap();
  let (a, b): (&CleanPath, &CleanPath) = (cur.as_clean_path(), other.as_clean_path());
  ensure_eq!(a == b, cur == other, "equality of the borrowed forms");
  ensure_eq!(a.cmp(b), cur.cmp(&other), "order of the borrowed forms");
  ensure_eq!(a.as_path().cmp(b.as_path()), cur.cmp(&other), "order of the paths");
  let s = RandomState::new();
  ensure_eq!(s.hash_one(a), s.hash_one(&cur), "hash of the borrowed form");
  ensure_eq!(s.hash_one(a.as_path()), s.hash_one(&cur), "hash of the path");
  let dots = c.start.windows(2).any(|w| w == b"..");
  cov.label_if(dots, "..");
  cov.label_if(std::str::from_utf8(&c.start).is_err(), "not UTF-8");
  cov.label_if(model.len() > 64, "over 64 bytes");
  if dots && !c.steps.is_empty() {
    cov.nontrivial();
  }
  Ok(())
}

fn component() -> BoxedStrategy<Bytes> {
  let fixed: Vec<&[u8]> = vec![
    b".", b"..", b"...", b"a", b"b", b"A", b"ab", b".a", b"..a", b"a.", b"a..", b"a b", b"\xff", b"\xc3\xa9", b"-", b"~", b"\\", b"a\\b",
    b"\0", b"\n", b"C:", b" ", b". .",
  ];
  prop_oneof![
    6 => prop::sample::select(fixed).prop_map(<[u8]>::to_vec),
    3 => Just(b"..".to_vec()),
    1 => Just(b".".to_vec()),
    2 => prop::collection::vec(any::<u8>().prop_map(|b| if b == b'/' { b'x' } else { b }), 0..4),
    1 => (1usize..120).prop_map(|n| vec![b'n'; n]),
  ]
  .boxed()
}

fn raw_path(abs: f64) -> BoxedStrategy<Bytes> {
  let sep = prop_oneof![8 => Just(b"/".to_vec()), 1 => Just(b"//".to_vec()), 1 => Just(b"/./".to_vec()), 1 => Just(b"///".to_vec())];
  let n = prop_oneof![8 => 0usize..7, 1 => 0usize..40];
  let parts = n.prop_flat_map(move |n| prop::collection::vec((component(), sep.clone()), n));
  (prop::bool::weighted(abs), parts, any::<bool>())
    .prop_map(|(abs, parts, trail)| {
      let mut ret = if abs { b"/".to_vec() } else { vec![] };
      let n = parts.len();
      for (i, (c, s)) in parts.into_iter().enumerate() {
        ret.extend(c);
        if i + 1 < n || trail {
          ret.extend(s);
        }
      }
      ret
    })
    .boxed()
}

/// Paths of thousands of components and bytes.
fn long_cases() -> BoxedStrategy<Clean> {
  let long = |abs: f64| {
    let n = prop_oneof![1 => 1usize..400, 1 => 400usize..40_000];
    (raw_path(abs), raw_path(0.2), n).prop_map(|(mut a, mut b, n)| {
      b.push(b'/');
      let n = n.min(1 + 150_000 / b.len());
      a.push(b'/');
      a.extend(b.repeat(n));
      a
    })
  };
  let step = prop_oneof![
    2 => raw_path(0.15).prop_map(Step::Push),
    1 => long(0.1).prop_map(Step::Push),
    1 => long(0.1).prop_map(Step::Join),
    3 => Just(Step::Parent),
    1 => Just(Step::Renew),
  ];
  (long(0.97), prop::collection::vec(step, 0..4)).prop_map(|(start, steps)| Clean { start, steps }).boxed()
}

fn clean_cases() -> BoxedStrategy<Clean> {
  let step = prop_oneof![
    4 => raw_path(0.15).prop_map(Step::Push),
    3 => raw_path(0.15).prop_map(Step::Join),
    4 => Just(Step::Parent),
    1 => Just(Step::Renew),
  ];
  (raw_path(0.93), prop::collection::vec(step, 0..8)).prop_map(|(start, steps)| Clean { start, steps }).boxed()
}

// C16

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
  Get(u8, u16),
  Owned(u8, u16),
  /// Look up the path of an identifier given before (by how many given since).
  Path(u8, u16),
  /// So many paths from this one on, which no other operation uses.
  Bulk(u8, u32, u32),
  /// Look up a run of paths.
  Run(u8, u16, u16),
  /// Combine the second store into the first (the second starts again).
  Combine(u8, u8),
}

const STORES: usize = 3;

/// The path of a number: some that nearly collide, then ordinary ones.
fn nth_path(n: u16) -> Bytes {
  let odd: &[&[u8]] = &[
    b"/", b"/a", b"/a/b", b"/ab", b"/a/b/c", b"/A", b"/a/B", b"/\xff", b"/\xfe", b"/a ", b"/a.", b"/.a", b"/...", b"/b/a", b"/a/a",
    b"/a/a/a", b"/\xc3\xa9", b"/e\xcc\x81", b"/a\\b", b"/a\0",
  ];
  match odd.get(usize::from(n)) {
    Some(p) => p.to_vec(),
    None => format!("/dir{}/file{n}", n % 7).into_bytes(),
  }
}

/// The same path, unclean.
fn spelled(n: u16, salt: usize) -> CleanPathBuf {
  let p = nth_path(n);
  let q = match salt % 4 {
    0 => p,
    1 => [&p[..], b"/"].concat(),
    2 => [b"/zz/..", &p[..]].concat(),
    _ => [b"//.", &p[..]].concat(),
  };
  CleanPathBuf::new(path(&q)).unwrap()
}

#[derive(Default)]
struct ModelStore {
  ids: BTreeMap<Bytes, PathId>,
  given: Vec<(PathId, Bytes)>,
  /// The index into `given`.
  of: BTreeMap<PathId, usize>,
}

impl ModelStore {
  /// The identifier of this path was reported.
  fn saw(&mut self, p: Bytes, id: PathId) -> Outcome {
    match self.ids.get(&p) {
      Some(&old) => ensure!(old == id, "path {} had {old:?} and now gets {id:?}", show(&p)),
      None => {
        if let Some(q) = self.of.insert(id, self.given.len()) {
          return Err(format!("paths {} and {} both get {id:?}", show(&self.given[q].1), show(&p)));
        }
        self.ids.insert(p.clone(), id);
        self.given.push((id, p));
      }
    }
    Ok(())
  }

  fn audit(&self, s: &Store) -> Outcome {
    for (id, p) in &self.given {
      let got = bytes(s.get_path(*id).as_path());
      ensure!(got == &p[..], "the path of {id:?} is {}, it was given for {}", show(got), show(p));
    }
    Ok(())
  }
}

fn check_store(ops: &Vec<Op>, cov: &mut Cov) -> Outcome {
  let mut stores: Vec<Store> = (0..STORES).map(|_| Store::new()).collect();
  let mut models: Vec<ModelStore> = (0..STORES).map(|_| ModelStore::default()).collect();
  let (mut repeats, mut combines, mut overlap) = (0, 0, false);
  for (i, op) in ops.iter().enumerate() {
    match *op {
      Op::Get(s, n) => {
        let s = usize::from(s) % STORES;
        repeats += u32::from(models[s].ids.contains_key(&nth_path(n)));
        let id = stores[s].get_id(spelled(n, i).as_clean_path());
        models[s].saw(nth_path(n), id)?;
      }
      Op::Owned(s, n) => {
        let s = usize::from(s) % STORES;
        repeats += u32::from(models[s].ids.contains_key(&nth_path(n)));
        let id = stores[s].get_id_owned(spelled(n, i));
        models[s].saw(nth_path(n), id)?;
      }
      Op::Run(s, from, len) => {
        let s = usize::from(s) % STORES;
        for k in 0..len {
          let n = from.wrapping_add(k);
          let p = spelled(n, 0);
          let id = if k % 2 == 0 { stores[s].get_id(p.as_clean_path()) } else { stores[s].get_id_owned(p) };
          models[s].saw(nth_path(n), id)?;
        }
      }
      Op::Bulk(s, from, len) => {
        let s = usize::from(s) % STORES;
        for n in from..from + len {
          let p = format!("/bulk/{n}").into_bytes();
          let id = stores[s].get_id_owned(CleanPathBuf::new(path(&p)).unwrap());
          models[s].saw(p, id)?;
        }
      }
      Op::Path(s, k) => {
        let s = usize::from(s) % STORES;
        if !models[s].given.is_empty() {
          let (id, p) = &models[s].given[usize::from(k) % models[s].given.len()];
          let got = bytes(stores[s].get_path(*id).as_path());
          ensure!(got == &p[..], "the path of {id:?} is {}, it was given for {}", show(got), show(p));
        }
      }
      Op::Combine(a, b) => {
        let (a, b) = (usize::from(a) % STORES, usize::from(b) % STORES);
        if a == b {
          continue;
        }
        let other = std::mem::take(&mut stores[b]);
        let om = std::mem::take(&mut models[b]);
        combines += u32::from(!om.given.is_empty() && !models[a].given.is_empty());
        overlap |= om.ids.keys().any(|p| models[a].ids.contains_key(p));
        let mut calls: Vec<(PathId, PathId)> = Vec::new();
        stores[a].combine(other, &mut |x, y| calls.push((x, y)));
        ensure_eq!(calls.len(), om.given.len(), "number of calls when combining");
        let mut seen = HashMap::new();
        for (x, y) in calls {
          ensure!(seen.insert(x, y).is_none(), "{x:?} is reported twice when combining");
          let p = om.of.get(&x).ok_or("unknown identifier reported when combining")?;
          models[a].saw(om.given[*p].1.clone(), y)?;
        }
        models[a].audit(&stores[a])?;
      }
    }
  }
  for (s, m) in stores.iter_mut().zip(&mut models) {
    m.audit(s)?;
    // identifiers as keys, and every path once more
    let mut map = PathMap::<usize>::default();
    let mut set = PathSet::default();
    for (i, (id, p)) in m.given.iter().enumerate() {
      ensure!(set.insert(*id), "{id:?} is in the set already");
      ensure!(map.insert(*id, i).is_none(), "{id:?} is in the map already");
      let got = s.get_id_owned(CleanPathBuf::new(path(p)).unwrap());
      ensure_eq!(got, *id, "identifier of {} at the end", show(p));
    }
    for (i, (id, _)) in m.given.iter().enumerate() {
      ensure_eq!(map.get(id), Some(&i), "entry of {id:?}");
    }
  }
  cov.label_if(repeats > 0, "path looked up again");
  cov.label_if(combines > 0, "non-empty stores combined");
  cov.label_if(overlap, "stores with a common path combined");
  cov.label_if(models.iter().any(|m| m.given.len() > 256), "over 256 paths");
  cov.label_if(models.iter().any(|m| m.given.len() > 1 << 16), "over 2^16 paths");
  if repeats > 0 && combines > 0 {
    cov.nontrivial();
  }
  Ok(())
}

fn store_cases() -> BoxedStrategy<Vec<Op>> {
  let s = 0u8..STORES as u8;
  let n = prop_oneof![6 => 0u16..24, 1 => 0u16..2000];
  let op = prop_oneof![
    6 => (s.clone(), n.clone()).prop_map(|(a, b)| Op::Get(a, b)),
    6 => (s.clone(), n.clone()).prop_map(|(a, b)| Op::Owned(a, b)),
    3 => (s.clone(), any::<u16>()).prop_map(|(a, b)| Op::Path(a, b)),
    1 => (s.clone(), n, prop_oneof![8 => 1u16..30, 1 => 200u16..400]).prop_map(|(a, b, c)| Op::Run(a, b, c)),
    2 => (s.clone(), s).prop_map(|(a, b)| Op::Combine(a, b)),
  ];
  prop_oneof![2 => prop::collection::vec(op.clone(), 0..12), 1 => prop::collection::vec(op, 0..60)].boxed()
}

/// Stores of hundreds and thousands of paths, many of which are in several of them.
fn mid_store_cases() -> BoxedStrategy<Vec<Op>> {
  let s = || 0u8..STORES as u8;
  let bulk = || (s(), 0u32..1500, prop_oneof![2 => 20u32..300, 2 => 300u32..1500]).prop_map(|(s, a, n)| Op::Bulk(s, a, n)).boxed();
  let op = prop_oneof![
    4 => bulk(),
    2 => (s(), any::<u16>()).prop_map(|(a, b)| Op::Get(a, b)),
    2 => (s(), any::<u16>()).prop_map(|(a, b)| Op::Path(a, b)),
    4 => (s(), s()).prop_map(|(a, b)| Op::Combine(a, b)),
  ];
  (bulk(), bulk(), prop::collection::vec(op, 1..8)).prop_map(|(a, b, v)| [vec![a, b], v].concat()).boxed()
}

/// Stores of tens of thousands of paths.
fn large_store_cases() -> BoxedStrategy<Vec<Op>> {
  let s = 0u8..STORES as u8;
  let bulk = (s.clone(), 0u32..90_000, 30_000u32..80_000).prop_map(|(s, a, n)| Op::Bulk(s, a, n));
  let op = prop_oneof![
    2 => bulk.clone(),
    2 => (s.clone(), any::<u16>()).prop_map(|(a, b)| Op::Get(a, b)),
    2 => (s.clone(), any::<u16>()).prop_map(|(a, b)| Op::Path(a, b)),
    1 => (s.clone(), s).prop_map(|(a, b)| Op::Combine(a, b)),
  ];
  (bulk, prop::collection::vec(op, 1..6))
    .prop_map(|(b, mut v)| {
      v.insert(0, b);
      v
    })
    .boxed()
}

// C17

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Files {
  /// Path (component numbers) and contents of each file; a file below another is left out.
  files: Vec<(Vec<u8>, Contents)>,
  /// Directories to make on disk besides.
  dirs: Vec<Vec<u8>>,
  queries: Vec<Vec<u8>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Contents {
  Text(String),
  Long(String, u32),
  /// Only on disk.
  Bytes(Bytes),
}

impl Contents {
  fn bytes(&self) -> Bytes {
    match self {
      Contents::Text(s) => s.clone().into_bytes(),
      Contents::Long(s, n) => s.repeat(*n as usize).into_bytes(),
      Contents::Bytes(b) => b.clone(),
    }
  }
}

const NAMES: [&[u8]; 12] = [b"a", b"ab", b"abc", b"b", b"a.txt", b"A", b"a b", b"\xff", b"\xc3\xa9", b"...", b".a", b"ab-"];

/// Names that some program or other thinks special.
const MORE_NAMES: [&str; 80] = [
  ".#a", "#a#", "a~", "~", "~a", ".git", ".gitignore", ".DS_Store", "Thumbs.db", "desktop.ini", "node_modules", "target", "a.tmp", "tmp",
  "a.bak", "a.orig", "a.rej", "a.swp", ".a.swp", "a.lock", "Cargo.lock", "Cargo.toml", "lib.rs", "mod.rs", "a.rs", "a.sml", "a.sig",
  "a.mlb", "a.cm", "con", "nul", "aux", "NUL.txt", "C:", "C:a", "\\", "a\\b", "*", "?", "[a]", "{a,b}", "$a", "$HOME", "%2f", "%", "a:b",
  "a;b", "a|b", "&", "'", "\"", "`a`", "\n", "a\nb", "\t", " ", "a ", " a", ". ", "..a", "a.", "a..", ".a.b", "-", "--", "-rf", "_", "@",
  "a.TXT", "A.txt", "a.txt.gz", ".txt", "lost+found", "proc", "dev", "\u{1}", "\u{7f}", "e\u{301}", "\u{202e}a", "\u{feff}a",
];

fn name(c: u8) -> Vec<u8> {
  let c = usize::from(c);
  match NAMES.get(c) {
    Some(n) => n.to_vec(),
    None if c < 250 => MORE_NAMES[(c - NAMES.len()) % MORE_NAMES.len()].as_bytes().to_vec(),
    // long, with room for what the queries add
    None => vec![b'n'; c - 50],
  }
}

fn rel(cs: &[u8]) -> PathBuf {
  cs.iter().map(|&c| PathBuf::from(OsStr::from_bytes(&name(c)))).collect()
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);

/// A directory of this process's own, removed in the end.
struct Scratch(PathBuf);

impl Scratch {
  fn new() -> Self {
    static BASE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    let base = BASE.get_or_init(|| {
      // in memory if possible
      let shm = Path::new("/dev/shm/verif-scratch");
      if std::fs::create_dir_all(shm).is_ok() && std::fs::write(shm.join(format!("try-{}", std::process::id())), "x").is_ok() {
        let _ = std::fs::remove_file(shm.join(format!("try-{}", std::process::id())));
        return shm.to_owned();
      }
      let base = std::env::var_os("VERIF_ROOT").map_or_else(std::env::temp_dir, |r| Path::new(&r).join("build/scratch"));
      std::fs::create_dir_all(&base).or_give_up("scratch directory");
      base
    });
    loop {
      let n = SCRATCH.fetch_add(1, Ordering::Relaxed);
      let dir = base.join(format!("c17-{}-{n}", std::process::id()));
      match std::fs::create_dir(&dir) {
        Ok(()) => return Scratch(dir),
        Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {}
        Err(e) => vcore::give_up(&format!("scratch directory: {e}")),
      }
    }
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

fn check_fs(c: &Files, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let root = scratch.0.as_path();
  let mut files: BTreeMap<PathBuf, Bytes> = BTreeMap::new();
  for (p, contents) in &c.files {
    let p = root.join(rel(p));
    if p == root || files.keys().any(|q| q.starts_with(&p) || p.starts_with(q)) {
      continue;
    }
    files.insert(p, contents.bytes());
  }
  let mut dirs: BTreeSet<PathBuf> = BTreeSet::new();
  dirs.insert(root.to_owned());
  for d in c.dirs.iter().map(|d| root.join(rel(d))) {
    if !files.keys().any(|f| d.starts_with(f)) {
      dirs.extend(d.ancestors().take_while(|a| a.starts_with(root)).map(Path::to_owned));
    }
  }
  for f in files.keys() {
    dirs.extend(f.ancestors().skip(1).take_while(|a| a.starts_with(root)).map(Path::to_owned));
  }
  for d in &dirs {
    std::fs::create_dir_all(d).or_give_up("mkdir");
  }
  for (f, b) in &files {
    std::fs::write(f, b).or_give_up("write");
  }
  let real = RealFileSystem::default();
  let text = |b: &Bytes| String::from_utf8(b.clone()).ok();
  let stored: BTreeMap<CleanPathBuf, String> =
    files.iter().filter_map(|(f, b)| Some((CleanPathBuf::new(f).unwrap(), text(b)?))).collect();
  let mem = MemoryFileSystem::new(stored.clone());
  ensure!(mem.inner == stored, "the map of the memory file system differs");
  let in_mem = |p: &Path| files.get(p).filter(|b| text(b).is_some());

  let mut queries: BTreeSet<PathBuf> = c.queries.iter().map(|q| root.join(rel(q))).collect();
  for p in files.keys().chain(&dirs) {
    queries.insert(p.clone());
    // siblings sharing a name prefix, and paths below
    let b = bytes(p);
    queries.insert(path(&[b, b"x"].concat()).to_owned());
    queries.insert(path(&b[..b.len() - 1]).to_owned());
    queries.insert(p.join("a"));
  }
  // clean paths only
  queries.retain(|q| q.starts_with(root) && bytes(q) == normal(bytes(q)));
  let fss: [(&str, &dyn FileSystem, bool); 2] = [("disk", &real, true), ("memory", &mem, false)];
  for q in &queries {
    for (name, fs, disk) in fss {
      let here = if disk { files.get(q) } else { in_mem(q) };
      ensure_eq!(fs.is_file(q), here.is_some(), "is_file of {} ({name})", q.display());
      let is_dir = dirs.contains(q);
      let below_file = files.keys().any(|f| q.starts_with(f) && q != f);
      let must_be_not_found = here.is_none() && (!disk || !is_dir && !below_file);
      match (fs.read_to_bytes(q), here) {
        (Ok(got), Some(want)) => ensure!(got == *want, "bytes of {} differ ({name})", q.display()),
        (Err(e), None) => ensure!(
          !must_be_not_found || e.kind() == std::io::ErrorKind::NotFound,
          "error of the bytes of {}: {e} ({name})", q.display()
        ),
        (got, want) => {
          return Err(format!("bytes of {}: {got:?}, there {want:?} ({name})", q.display()));
        }
      }
      match (fs.read_to_string(q), here.and_then(text)) {
        (Ok(got), Some(want)) => ensure!(got == want, "text of {} differs ({name})", q.display()),
        (Err(e), None) => ensure!(
          !must_be_not_found || e.kind() == std::io::ErrorKind::NotFound,
          "error of the text of {}: {e} ({name})", q.display()
        ),
        (got, want) => {
          return Err(format!("text of {}: {got:?}, there {want:?} ({name})", q.display()));
        }
      }
    }
    // listings
    let mut got: Vec<PathBuf> = mem.read_dir(q).map_err(|e| format!("listing {} in memory: {e}", q.display()))?;
    got.sort();
    let below: Vec<PathBuf> = stored.keys().map(|k| k.as_path().to_owned()).filter(|p| p != q && p.starts_with(q)).collect();
    ensure_eq!(got, below, "listing of {} in memory", q.display());
    match real.read_dir(q) {
      Ok(mut got) => {
        got.sort();
        let want: Vec<PathBuf> =
          files.keys().chain(&dirs).filter(|p| p.parent() == Some(q)).cloned().collect::<BTreeSet<_>>().into_iter().collect();
        ensure!(dirs.contains(q), "listing {}, which is not a directory, on disk", q.display());
        ensure_eq!(got, want, "listing of {} on disk", q.display());
        let only_text = want.iter().all(|p| in_mem(p).is_some());
        if only_text {
          cov.label_if(want.len() > 1, "directory of several files only");
          ensure_eq!(got, below, "listings of {} on disk and in memory", q.display());
        }
      }
      Err(e) => ensure!(!dirs.contains(q), "listing of {} on disk: {e}", q.display()),
    }
  }
  let cwd = std::env::current_dir().map_err(|e| e.to_string())?;
  let got = real.current_dir().map_err(|e| e.to_string())?;
  is_normal(got.as_clean_path(), &normal(bytes(&cwd)), "current directory on disk")?;
  let got = mem.current_dir().map_err(|e| e.to_string())?;
  is_normal(got.as_clean_path(), b"/", "current directory in memory")?;
  ensure!(bytes(MemoryFileSystem::root().as_path()) == b"/", "root");

  cov.label_if(files.values().any(|b| text(b).is_none()), "file that is not text");
  cov.label_if(files.values().any(|b| b.len() > 70_000), "file over 70000 bytes");
  cov.label_if(dirs.len() > 3, "over three directories");
  if files.len() >= 2 && dirs.len() >= 2 {
    cov.nontrivial();
  }
  Ok(())
}

/// Links (and sockets) on disk besides.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Links {
  nodes: Vec<(Vec<u8>, New)>,
  queries: Vec<Vec<u8>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum New {
  File(Contents),
  Dir,
  /// So many levels up (as far as there are any), then down.
  Link(u8, Vec<u8>),
  LinkAbs(Vec<u8>),
  /// To one of the nodes there are.
  LinkTo(u8),
  Socket,
}

#[derive(Debug, Clone)]
enum Node {
  File(Bytes),
  Dir,
  Link(PathBuf),
  Socket,
}

/// Where the path leads, all links followed. The model of the disk's own ways.
fn follow(nodes: &BTreeMap<PathBuf, Node>, root: &Path, path: &Path, links: &mut u32) -> Result<PathBuf, bool> {
  let mut cur = root.to_owned();
  for c in path.strip_prefix(root).expect("below the root").components() {
    if !matches!(nodes.get(&cur), Some(Node::Dir)) {
      return Err(false);
    }
    cur.push(c);
    match nodes.get(&cur) {
      None => return Err(true),
      Some(Node::Link(to)) => {
        *links += 1;
        if *links > 200 {
          return Err(false);
        }
        cur = follow(nodes, root, to, links)?;
      }
      Some(_) => {}
    }
  }
  Ok(cur)
}

fn check_links(c: &Links, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let root = scratch.0.canonicalize().or_give_up("scratch directory");
  let mut nodes: BTreeMap<PathBuf, Node> = BTreeMap::from([(root.clone(), Node::Dir)]);
  for (p, new) in &c.nodes {
    let p = root.join(rel(p));
    let up: Vec<PathBuf> = p.ancestors().skip(1).take_while(|a| a.starts_with(&root)).map(Path::to_owned).collect();
    if nodes.contains_key(&p) || up.iter().any(|a| !matches!(nodes.get(a), None | Some(Node::Dir))) {
      continue;
    }
    for d in up.iter().rev() {
      nodes.insert(d.clone(), Node::Dir);
    }
    let dir = &up[0];
    std::fs::create_dir_all(dir).or_give_up("mkdir");
    let node = match new {
      New::File(b) => {
        std::fs::write(&p, b.bytes()).or_give_up("write");
        Node::File(b.bytes())
      }
      New::Dir => {
        std::fs::create_dir(&p).or_give_up("mkdir");
        Node::Dir
      }
      New::Link(n, to) => {
        let n = usize::from(*n).min(up.len() - 1);
        let text: PathBuf = std::iter::repeat_n(PathBuf::from(".."), n).chain([rel(to)]).collect();
        std::os::unix::fs::symlink(&text, &p).or_give_up("symlink");
        Node::Link(up[n].join(rel(to)))
      }
      New::LinkTo(i) => {
        let to = nodes.keys().nth(usize::from(*i) % nodes.len()).unwrap().clone();
        let up = std::iter::repeat_n(PathBuf::from(".."), up.len() - 1);
        let below = to.strip_prefix(&root).unwrap().to_owned();
        let text: PathBuf = up.chain([below]).collect();
        let text = if text.as_os_str().is_empty() { PathBuf::from(".") } else { text };
        std::os::unix::fs::symlink(&text, &p).or_give_up("symlink");
        Node::Link(to)
      }
      New::LinkAbs(to) => {
        let to = root.join(rel(to));
        std::os::unix::fs::symlink(&to, &p).or_give_up("symlink");
        Node::Link(to)
      }
      New::Socket => match std::os::unix::net::UnixListener::bind(&p) {
        Ok(_) => Node::Socket,
        Err(_) => continue,
      },
    };
    nodes.insert(p, node);
  }
  let mut queries: BTreeSet<PathBuf> = c.queries.iter().map(|q| root.join(rel(q))).collect();
  for p in nodes.keys() {
    queries.insert(p.clone());
    queries.insert(p.join("a"));
    queries.insert(p.join("a/ab"));
  }
  let real = RealFileSystem::default();
  let mut through = 0;
  for q in &queries {
    let mut links = 0;
    let to = follow(&nodes, &root, q, &mut links);
    // the system gives up after about 40 links, the model after 200: no claim between
    if (36..=200).contains(&links) {
      cov.label("more links than the system may follow");
      continue;
    }
    through += u32::from(links > 0 && to.is_ok());
    let what = format!("{} (which leads to {to:?})", q.display());
    let node = to.as_ref().ok().map(|p| &nodes[p]);
    ensure_eq!(real.is_file(q), matches!(node, Some(Node::File(_))), "is_file of {what}");
    let not_found = |e: &std::io::Error| to != Err(true) || e.kind() == std::io::ErrorKind::NotFound;
    match (real.read_to_bytes(q), node) {
      (Ok(got), Some(Node::File(want))) => ensure!(got == *want, "bytes of {what} differ"),
      (Err(_), Some(Node::File(_))) | (Ok(_), _) => return Err(format!("bytes of {what} read or not read")),
      (Err(e), _) => ensure!(not_found(&e), "error of the bytes of {what}: {e}"),
    }
    let text = if let Some(Node::File(b)) = node { String::from_utf8(b.clone()).ok() } else { None };
    match (real.read_to_string(q), text) {
      (Ok(got), Some(want)) => ensure!(got == want, "text of {what} differs"),
      (Err(_), Some(_)) | (Ok(_), _) => return Err(format!("text of {what} read or not read")),
      (Err(e), _) => ensure!(not_found(&e), "error of the text of {what}: {e}"),
    }
    match (real.read_dir(q), node) {
      (Ok(mut got), Some(Node::Dir)) => {
        got.sort();
        let dir = to.as_ref().unwrap();
        let want: Vec<PathBuf> =
          nodes.keys().filter(|p| p.parent() == Some(dir)).map(|p| q.join(p.file_name().unwrap())).collect();
        ensure_eq!(got, want, "listing of {what}");
      }
      (Err(_), Some(Node::Dir)) | (Ok(_), _) => return Err(format!("{what} listed or not listed")),
      (Err(e), _) => ensure!(not_found(&e), "error of the listing of {what}: {e}"),
    }
    cov.label_if(matches!(to, Err(false)) && links > 200, "links in a circle");
    cov.label_if(links > 0 && to == Err(true), "link to nothing");
    cov.label_if(links > 1 && to.is_ok(), "several links on the way");
    cov.label_if(matches!(node, Some(Node::Socket)), "socket");
  }
  if through > 1 {
    cov.nontrivial();
  }
  Ok(())
}

/// A process of its own for its current directory.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cwd {
  dir: Vec<u8>,
  /// Go there by a link of this name.
  link: Option<u8>,
  /// What the environment says.
  pwd: Option<Vec<u8>>,
  /// The directory is gone.
  gone: bool,
}

/// What the child of `check_cwd` does.
fn tell_cwd() {
  use std::io::Write;
  if let Some(d) = std::env::var_os("C17_REMOVE") {
    std::fs::remove_dir(d).or_give_up("rmdir");
  }
  let mut out = match RealFileSystem::default().current_dir() {
    Ok(p) => [b"ok:", bytes(p.as_path())].concat(),
    Err(e) => format!("error:{e}").into_bytes(),
  };
  out.push(b'.');
  std::io::stdout().write_all(&out).or_give_up("write");
}

fn check_cwd(c: &Cwd, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let root = scratch.0.canonicalize().or_give_up("scratch directory");
  let dir = root.join(rel(&c.dir));
  std::fs::create_dir_all(&dir).or_give_up("mkdir");
  let mut go = dir.clone();
  if let Some(l) = c.link {
    go = root.join(format!("link{l}"));
    std::os::unix::fs::symlink(&dir, &go).or_give_up("symlink");
    cov.label("by a link");
  }
  let mut cmd = std::process::Command::new(std::env::current_exe().or_give_up("own path"));
  cmd.arg("c17-cwd").current_dir(&go).env_remove("PWD");
  if let Some(p) = &c.pwd {
    cmd.env("PWD", root.join(rel(p)));
    cov.label("misleading environment");
  }
  if c.gone {
    cmd.env("C17_REMOVE", &dir);
    cov.label("directory gone");
  }
  let out = cmd.output().or_give_up("process");
  vcore::not_killed(out.status);
  ensure!(out.status.success(), "current_dir: {}", String::from_utf8_lossy(&out.stderr));
  if c.gone {
    ensure!(out.stdout.starts_with(b"error:"), "current directory, which is gone: {}", String::from_utf8_lossy(&out.stdout));
  } else {
    let want = [b"ok:", bytes(&dir), b"."].concat();
    ensure!(out.stdout == want, "current directory {}: {}", dir.display(), String::from_utf8_lossy(&out.stdout));
  }
  if c.link.is_some() || c.pwd.is_some() {
    cov.nontrivial();
  }
  Ok(())
}

fn link_cases() -> BoxedStrategy<Links> {
  let p = || {
    let c = || prop_oneof![8 => 0u8..5, 1 => 0u8..12, 1 => any::<u8>()];
    prop_oneof![3 => prop::collection::vec(c(), 1..2), 2 => prop::collection::vec(c(), 2..4)]
  };
  let contents = prop_oneof![
    6 => vcore::generate::text_of(12).prop_map(Contents::Text),
    1 => prop::collection::vec(any::<u8>(), 0..8).prop_map(Contents::Bytes),
  ];
  let new = prop_oneof![
    4 => contents.prop_map(New::File),
    2 => Just(New::Dir),
    6 => any::<u8>().prop_map(New::LinkTo),
    2 => (0u8..3, p()).prop_map(|(n, p)| New::Link(n, p)),
    1 => p().prop_map(New::LinkAbs),
    1 => Just(New::Socket),
  ];
  (prop::collection::vec((p(), new), 2..12), prop::collection::vec(p(), 0..4))
    .prop_map(|(nodes, queries)| Links { nodes, queries })
    .boxed()
}

fn cwd_cases() -> BoxedStrategy<Cwd> {
  let p = || prop::collection::vec(prop_oneof![0u8..12, any::<u8>()], 1..4);
  (p(), prop::option::of(any::<u8>()), prop::option::of(p()), prop::bool::weighted(0.2))
    .prop_map(|(dir, link, pwd, gone)| Cwd { dir, link, pwd, gone })
    .boxed()
}

fn fs_cases() -> BoxedStrategy<Files> {
  let c = prop_oneof![8 => 0u8..4, 2 => 0u8..12, 1 => any::<u8>()];
  let p = prop::collection::vec(c, 1..4);
  let contents = prop_oneof![
    6 => vcore::generate::text_of(12).prop_map(Contents::Text),
    1 => (vcore::generate::text_of(4), 1u32..40_000).prop_map(|(s, n)| Contents::Long(s, n)),
    1 => prop::collection::vec(any::<u8>(), 0..8).prop_map(Contents::Bytes),
  ];
  (
    prop::collection::vec((p.clone(), contents), 0..7),
    prop::collection::vec(p.clone(), 0..3),
    prop::collection::vec(p, 0..4),
  )
    .prop_map(|(files, dirs, queries)| Files { files, dirs, queries })
    .boxed()
}

/// A directory of many entries, some levels down.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Crowd {
  depth: u16,
  files: u32,
  dirs: u16,
  /// In the names of the files, before the number.
  prefix: String,
  picks: Vec<u32>,
}

fn crowds() -> BoxedStrategy<Crowd> {
  let files = prop_oneof![6 => 0u32..400, 6 => 400u32..5000, 1 => 30_000u32..70_000];
  let depth = prop_oneof![3 => 0u16..4, 1 => 4u16..300];
  (depth, files, prop_oneof![0u16..4, 200u16..400], "[a-z.]{0,12}|n{100,200}", prop::collection::vec(any::<u32>(), 8))
    .prop_map(|(depth, files, dirs, prefix, picks)| Crowd { depth, files, dirs, prefix, picks })
    .boxed()
}

fn check_crowd(c: &Crowd, cov: &mut Cov) -> Outcome {
  let scratch = Scratch::new();
  let mut dir = scratch.0.clone();
  dir.extend((0..c.depth).map(|_| "d"));
  std::fs::create_dir_all(&dir).or_give_up("mkdir");
  let file = |i: u32| dir.join(format!("{}{i}", c.prefix));
  let mut inner = BTreeMap::new();
  let mut want = BTreeSet::new();
  let clean = |p: &Path| CleanPathBuf::new(p).unwrap();
  for i in 0..c.files {
    std::fs::write(file(i), i.to_string()).or_give_up("write");
    inner.insert(clean(&file(i)), i.to_string());
    want.insert(file(i));
  }
  // the directories on disk hold one file each
  let mut below = want.clone();
  for i in 0..c.dirs {
    let d = dir.join(format!("@{i}"));
    std::fs::create_dir(&d).or_give_up("mkdir");
    std::fs::write(d.join("f"), "").or_give_up("write");
    inner.insert(clean(&d.join("f")), String::new());
    below.insert(d.join("f"));
    want.insert(d);
  }
  let mem = MemoryFileSystem::new(inner);
  let real = RealFileSystem::default();
  for (name, got, want) in [("on disk", real.read_dir(&dir), &want), ("in memory", mem.read_dir(&dir), &below)] {
    let got = got.map_err(|e| format!("listing {name}: {e}"))?;
    let n = got.len();
    let got: BTreeSet<_> = got.into_iter().collect();
    ensure!(got.len() == n, "listing {name}: an entry comes twice");
    if let Some(p) = want.difference(&got).next() {
      return Err(format!("listing {name}: {} of {} entries, without {}", n, want.len(), p.display()));
    }
    if let Some(p) = got.difference(want).next() {
      return Err(format!("listing {name}: {} is not an entry", p.display()));
    }
  }
  let fss: [(&str, &dyn FileSystem); 2] = [("disk", &real), ("memory", &mem)];
  for (name, fs) in fss {
    for &k in &c.picks {
      // the one after the last does not exist
      let i = k % (c.files + 1);
      let p = file(i);
      ensure_eq!(fs.is_file(&p), i < c.files, "is_file of number {i} of {} ({name})", c.files);
      ensure_eq!(fs.read_to_string(&p).ok(), (i < c.files).then(|| i.to_string()), "text of number {i} of {} ({name})", c.files);
    }
    ensure!(!fs.is_file(&dir), "a directory counts as a file ({name})");
  }
  cov.label_if(c.files > 1000, "over 1000 entries");
  cov.label_if(c.files > 30_000, "over 30000 entries");
  if c.files > 100 {
    cov.nontrivial();
  }
  Ok(())
}

fn main() {
  if std::env::args().nth(1).as_deref() == Some("c17-cwd") {
    return tell_cwd();
  }
  vcore::main(vec![
    Prop {
      id: "C15",
      parts: vec![part(
        "clean",
        "byte paths (dot components, repeated separators, bytes that are not UTF-8) with push, join and parent histories; non-trivial: \
         a path with .. and at least one step",
        400_000,
        10_000_000,
        clean_cases,
        check_clean,
      ),
      part(
        "long",
        "paths of up to tens of thousands of components and bytes; non-trivial: as above",
        800,
        20_000,
        long_cases,
        check_clean,
      )],
    },
    Prop {
      id: "C16",
      parts: vec![part(
        "stores",
        "histories over three stores: lookups by reference and by value under various spellings, runs of hundreds of paths, \
         combinations; non-trivial: a path looked up again and two non-empty stores combined",
        250_000,
        5_000_000,
        store_cases,
        check_store,
      ),
      part(
        "mid-stores",
        "histories over three stores with hundreds and thousands of paths, many of them in several stores; non-trivial: non-empty \
         stores with a common path combined",
        600,
        20_000,
        mid_store_cases,
        |c: &Vec<Op>, cov: &mut Cov| {
          let ret = check_store(c, cov);
          if cov.has("stores with a common path combined") {
            cov.nontrivial();
          }
          ret
        },
      ),
      part(
        "large-stores",
        "histories over three stores with tens of thousands of paths; non-trivial: always",
        24,
        800,
        large_store_cases,
        |c: &Vec<Op>, cov: &mut Cov| {
          cov.nontrivial();
          check_store(c, cov)
        },
      )],
    },
    Prop {
      id: "C17",
      parts: vec![part(
        "files",
        "file trees made in a scratch directory and in memory, with queries at files, directories, missing paths, name-prefix siblings \
         and paths below files; non-trivial: two files and two directories",
        40_000,
        500_000,
        fs_cases,
        check_fs,
      ),
      part(
        "links",
        "trees on disk with symbolic links (relative, absolute, to links, to nothing, in circles) and sockets, queried along all of \
         them; non-trivial: two paths through links that lead somewhere",
        20_000,
        300_000,
        link_cases,
        check_links,
      ),
      part(
        "crowded",
        "directories of up to tens of thousands of entries, some of them hundreds of levels down; non-trivial: over 100 files",
        160,
        4_000,
        crowds,
        check_crowd,
      ),
      part(
        "cwd",
        "processes in a directory of a random name, come to by a link, with a misleading environment, or gone; non-trivial: by a \
         link or with a misleading environment",
        2_000,
        20_000,
        cwd_cases,
        check_cwd,
      )],
    },
  ]);
}

