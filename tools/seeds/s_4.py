IC="crates/identifier-case/src/lib.rs"; MD="crates/code-h2-md-map/src/lib.rs"; ST="crates/str-process/src/lib.rs"; FU="crates/fmt-util/src/lib.rs"; DI="crates/diagnostic/src/lib.rs"; AL="crates/always/src/lib.rs"; AC="crates/always/src/convert.rs"; CN="crates/char-name/src/lib.rs"; FH="crates/fast-hash/src/lib.rs"; IX="crates/idx/src/lib.rs"; UN="crates/uniq/src/lib.rs"; SU="crates/str-util/src/lib.rs"; EL="crates/elapsed/src/lib.rs"; TS="crates/text-size-util/src/lib.rs"; TP="crates/text-pos/src/lib.rs"

PANICS = r'''
fn panics<T>(f: impl FnOnce() -> T) -> bool {
  std::panic::set_hook(Box::new(|_| {}));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
  let _ = std::panic::take_hook();
  r
}
'''
CAPTURE = r'''
use std::sync::Mutex;
static RECORDS: Mutex<Vec<(log::Level, String)>> = Mutex::new(Vec::new());
struct Capture;
impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool { true }
  fn log(&self, r: &log::Record<'_>) { let t = r.args().to_string(); RECORDS.lock().unwrap().push((r.level(), t)); }
  fn flush(&self) {}
}
fn capture() { log::set_logger(&Capture).unwrap(); log::set_max_level(log::LevelFilter::Trace); }
fn take() -> Vec<(log::Level, String)> { std::mem::take(&mut RECORDS.lock().unwrap()) }
'''

seed("case-unicode-upper","C21",[(IC,"ret.push(c.to_ascii_uppercase());","ret.extend(c.to_uppercase());")],
 "a word that starts with a letter outside ASCII","It is changed, in some cases into several letters.","identifier-case",
 'fn main() { assert_eq!(identifier_case::snake_to_pascal("a_ßb_éc"), "Aßbéc"); }')
seed("case-acronym","C21",[(IC,"""  for c in cs {
    if c.is_ascii_uppercase() {
      ret.push('_');
    }""","""  let mut after_cap = false;
  for c in cs {
    if c.is_ascii_uppercase() {
      if !after_cap {
        ret.push('_');
      }
      after_cap = true;
    } else {
      after_cap = false;
    }""")],
 "two adjacent capitals, the first not at the start","One-letter words are joined with the next one.","identifier-case",
 'fn main() { let s = "get_x_y"; assert_eq!(identifier_case::pascal_to_snake(&identifier_case::snake_to_pascal(s)), s); }')
seed("case-digit-word","C21",[(IC,"""    } else if is_cap {
      is_cap = false;
      ret.push""","""    } else if is_cap {
      is_cap = !c.is_alphanumeric() || c.is_ascii_digit();
      ret.push""")],
 "a word that starts with a digit or symbol and has a letter","A letter that is not the first of its word becomes a capital.","identifier-case",
 'fn main() { assert_eq!(identifier_case::snake_to_pascal("vec_3d"), "Vec3d"); }')
seed("case-second-char","C21",[(IC,"""  if let Some(c) = cs.next() {
    ret.push(c.to_ascii_lowercase());
  }""","""  if let Some(c) = cs.next().filter(|&c| c != '_') {
    ret.push(c.to_ascii_lowercase());
  }""")],
 "an identifier that starts with an underscore","The underscore is lost.","identifier-case",
 'fn main() { assert_eq!(identifier_case::pascal_to_snake("_Foo"), "__foo"); assert_eq!(identifier_case::pascal_to_snake("_x"), "_x"); }')

seed("md-trim-heading","C22",[(MD,"    match code_h2(line) {","    match code_h2(line.trim_end()) {")],
 "a line that is a code heading but for spaces at its end","It starts an entry.","code-h2-md-map",r'''
fn main() { let m = code_h2_md_map::get("## `a`\n## `b` \nx", |_| String::new()); assert_eq!(m.len(), 1); assert_eq!(m["a"], "\n## `b` \nx"); }''')
seed("md-last-duplicate","C22",[(MD,"""  if let Some(key) = key {
    assert!(ret.insert(key, val).is_none());
  }
  ret
""","""  ret.extend(key.map(|key| (key, val)));
  ret
""")],
 "the last heading repeats an earlier one","It replaces the earlier one instead of being refused.","code-h2-md-map",PANICS+r'''
fn main() { assert!(panics(|| code_h2_md_map::get("## `a`\n1\n## `b`\n2\n## `a`\n3", |_| String::new()))); }''')
seed("md-split","C22",[(MD,"for line in md.lines() {","for line in md.trim_end_matches('\\n').split('\\n') {")],
 "carriage returns before newlines, or blank lines at the end","Headings are not seen; lines are lost.","code-h2-md-map",r'''
fn main() { let m = code_h2_md_map::get("## `a`\r\nx\r\n", |_| String::new()); assert_eq!(m["a"], "\nx"); }''')
seed("md-empty-entry","C22",[(MD,"""    match code_h2(line) {
      Some(next) => {
        if let Some(key) = key {
          assert!(ret.insert(key, val).is_none());
        }
        key""","""    match code_h2(line) {
      Some(next) => {
        if let Some(key) = key.filter(|_| !val.is_empty()) {
          assert!(ret.insert(key, val).is_none());
        }
        key""")],
 "an empty starting string and a heading directly followed by another","Its entry is missing.","code-h2-md-map",r'''
fn main() { let m = code_h2_md_map::get("## `a`\n## `b`\nx", |_| String::new()); assert_eq!(m.get("a").map(String::as_str), Some("")); }''')
seed("md-backticks","C22",[(MD,"""  if ret == "` ` `" {
    ret = "`";
  }""","""  if let Some(s) = ret.strip_prefix("` `") {
    ret = s.trim_end_matches('`').trim_end();
    if ret.is_empty() {
      ret = "`";
    }
  }""")],
 "a heading whose code is two backticks and a space between them, or starts like that","It gets another key.","code-h2-md-map",r'''
fn main() { let m = code_h2_md_map::get("## `` ` ``\n## `` ` x`", |_| String::new()); assert!(m.contains_key("`") && m.contains_key("` ` x"), "{m:?}"); }''')

seed("cursor-wide-char","C23",[(ST,"""    self.bump();
    loop {
      if self.s.is_char_boundary(self.idx) {
        break;
      }
      match self.cur() {
        Some(_) => self.bump(),
        None => unreachable!("got to the end without a valid str"),
      }
    }""","""    self.idx += match self.cur() {
      Some(b) if b >= 0xe0 => 3,
      Some(b) if b >= 0xc0 => 2,
      _ => 1,
    };
    while self.cur().is_some() && !self.s.is_char_boundary(self.idx) && self.s.is_char_boundary(self.idx + 1) {
      self.bump();
    }
    if !self.s.is_char_boundary(self.idx) {
      unreachable!("got to the end without a valid str");
    }""")],
 "a character-wise step from inside a wide character, more than one byte from its end","It does not reach the next boundary.","str-process",r'''
fn main() { let mut s = str_process::St::new("😀x"); s.bump(); s.next_str(); assert_eq!(s.cur_idx(), 4); }''')
seed("cursor-eat-at-end","C23",[(ST,"    if self.s.as_bytes().get(self.idx..end).is_some_and(|bs| bs == prefix) {","    if end < self.s.len() && &self.s.as_bytes()[self.idx..end] == prefix {")],
 "the prefix is the very end of the string","It is not eaten.","str-process",r'''
fn main() { let mut s = str_process::St::new("ab*/"); s.bump(); s.bump(); assert!(s.eat_prefix(b"*/")); assert_eq!(s.cur(), None); }''')
seed("cursor-eat-common","C23",[(ST,"""      self.idx = end;
      true
    } else {
      false""","""      self.idx = end;
      true
    } else {
      // nothing else can start with it
      if self.s.as_bytes().get(self.idx..).is_some_and(|bs| !bs.is_empty() && prefix.starts_with(bs)) {
        self.idx = self.s.len();
      }
      false""")],
 "the rest of the string is a proper start of the prefix","The cursor moves although the prefix was not next.","str-process",r'''
fn main() { let mut s = str_process::St::new("a*"); s.bump(); assert!(!s.eat_prefix(b"*/")); assert_eq!(s.cur(), Some(b'*')); }''')
seed("cursor-while-last","C23",[(ST,"""    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }""","""    while self.cur().is_some_and(&mut cond) {
      self.bump();
      // whole characters at a time
      while self.cur().is_some_and(|b| b & 0xc0 == 0x80 && cond(b)) {
        self.bump();
      }
    }""")],
 "a condition that is stateful, and stops inside a wide character","It is asked twice about a byte.","str-process",r'''
fn main() { let mut n = 0; let mut s = str_process::St::new("é"); s.bump_while(|_| { n += 1; n <= 1 }); assert_eq!(n, 2); assert_eq!(s.cur_idx(), 1); }''')
seed("cursor-nonempty-release","C23",[(ST,"    assert!(self.did_bump_since(m));","    debug_assert!(self.did_bump_since(m));")],
 "a release build","Insisting on a non-empty slice gives an empty one.","str-process",PANICS+r'''
fn main() { let s = str_process::St::new("ab"); let m = s.mark(); assert!(panics(|| s.non_empty_since(m))); }''',profile="release")

seed("sep-with-options","C24",[(FU,"    f.write_str(sep)?;","    f.pad(sep)?;")],
 "format options with a width or precision","The separator is padded or cut too.","fmt-util",r'''
struct L(&'static [i32]);
impl std::fmt::Display for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::sep_seq(f, "-", self.0.iter()) } }
fn main() { assert_eq!(format!("{:3}", L(&[1, 2])), "  1-  2"); }''')
seed("sep-lose-options","C24",[(FU,"""    f.write_str(sep)?;
    x.fmt(f)?;""","""    write!(f, "{sep}{x}")?;""")],
 "format options and two items","All but the first item are formatted without them.","fmt-util",r'''
struct L(&'static [i32]);
impl std::fmt::Display for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::comma_seq(f, self.0.iter()) } }
fn main() { assert_eq!(format!("{:+}", L(&[1, 2])), "+1, +2"); }''')
seed("sep-last-error","C24",[(FU,"""  for x in iter {
    f.write_str(sep)?;
    x.fmt(f)?;
  }
  Ok(())""","""  let mut res = Ok(());
  for x in iter {
    res = f.write_str(sep).and_then(|()| x.fmt(f));
    if res.is_err() && sep.is_empty() {
      break;
    }
  }
  res""")],
 "an item that fails and is not the last one","Later items are still written, and the error is lost.","fmt-util",r'''
struct Bad(bool);
impl std::fmt::Display for Bad { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.0 { Err(std::fmt::Error) } else { f.write_str("x") } } }
struct L([bool; 3]);
impl std::fmt::Display for L { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fmt_util::sep_seq(f, ";", self.0.iter().map(|&b| Bad(b))) } }
fn main() { use std::fmt::Write; let mut s = String::new(); assert!(write!(s, "{}", L([false, true, false])).is_err()); assert_eq!(s, "x;"); }''')

seed("code-trim","C25",[(DI,"    match u16::from_str(s) {","    match u16::from_str(s.trim()) {")],
 "a code with whitespace around it","It is accepted.","diagnostic",'fn main() { assert!(" 7".parse::<diagnostic::Code>().is_err()); assert!("7\\n".parse::<diagnostic::Code>().is_err()); }')
seed("code-signed","C25",[(DI,"    self.0.into()","    i32::from(self.0.cast_signed())")],
 "a code above 32767","Its integer value is negative.","diagnostic",'fn main() { assert_eq!(diagnostic::Code::n(40000).as_i32(), 40000); }')
seed("diag-point-range","C25",[(TP,"    if self.start.line == self.end.line {\n","    if self.start == self.end {\n      write!(f, \"{}\", self.start)\n    } else if self.start.line == self.end.line {\n")],
 "an empty range","It prints without dash and end.","text-pos",r'''
use text_pos::*;
fn main() { assert_eq!(RangeUtf16::zero(PositionUtf16 { line: 0, col: 2 }).to_string(), "1:3-3"); }''')
seed("diag-one-line","C25",[(DI,'    write!(f, "{}: {}: {}", self.range, self.severity, self.message)','    write!(f, "{}: {}", self.range, self.severity)?;\n    self.message.lines().try_for_each(|line| write!(f, ": {line}"))')],
 "a message that is empty, has several lines or ends in a newline","The message is not printed as it is.","diagnostic text-pos",r'''
fn main() { let d = diagnostic::Diagnostic { range: text_pos::RangeUtf16::zero(text_pos::PositionUtf16 { line: 0, col: 0 }), message: "a\nb".to_owned(), severity: diagnostic::Severity::Error };
assert_eq!(d.to_string(), "1:1-1: error: a\nb"); }''')
seed("diag-severity-order","C25",[(DI,"#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub enum Severity {\n  /// Should maybe be addressed, but can compile without addressing.\n  Warning,\n  /// Can't compile unless addressed.\n  Error,\n}","#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub enum Severity {\n  /// Can't compile unless addressed.\n  Error,\n  /// Should maybe be addressed, but can compile without addressing.\n  Warning,\n}")],
 "severities are compared","Warnings count as more severe than errors.","diagnostic",'fn main() { use diagnostic::Severity::*; assert!(Error > Warning); }')

seed("always-twice","C26",[(AL,"    if !cond {\n","    if !($cond) {\n")],
 "a condition with an effect, in a release build or when it holds","It is evaluated twice.","always",'fn main() { let mut n = 0; let mut f = || { n += 1; true }; always::always!(f(), "x"); assert_eq!(n, 1); }')
seed("always-eager","C26",[(AL,"""    if !cond {
      $crate::__log_error!($fmt $($arg)*);
    }""","""    let message = format!($fmt $($arg)*);
    if !cond {
      $crate::__log_error!("{}", message);
    }""")],
 "a condition that holds, and a message that has a cost or an effect","The message is made although nothing failed.","always",r'''
struct D(std::cell::Cell<u32>);
impl std::fmt::Display for D { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.set(self.0.get() + 1); Ok(()) } }
fn main() { let d = D(std::cell::Cell::new(0)); assert!(always::always!(true, "no {}", d)); assert_eq!(d.0.get(), 0); }''')
seed("convert-boundary","C26",[(AC,"""  match u32::try_from(n) {
    Ok(x) => x,""","""  match u32::try_from(n) {
    Ok(x) if x < u32::MAX => x,
    Ok(_) => {
      always!(false, "convert {n} to u32: it is the largest");
      u32::MAX
    }""")],
 "exactly the largest 32-bit number","It counts as not fitting.","always",'fn main() { assert_eq!(always::convert::usize_to_u32(u32::MAX as usize), u32::MAX); }')
seed("convert-wraps","C26",[(AC,"      always!(false, \"convert {n} to u32: {e}\");\n      u32::MAX","      always!(false, \"convert {n} to u32: {e}\");\n      n as u32")],
 "a number that does not fit, in a release build","It wraps instead of giving the largest value.","always",'fn main() { assert_eq!(always::convert::usize_to_u32((1 << 32) + 5), u32::MAX); }',profile="release")
seed("always-message-braces","C26",[(AL,"""    if cfg!(debug_assertions) {
      assert!(cond, $fmt $($arg)*);
    }
    if !cond {
      $crate::__log_error!($fmt $($arg)*);
    }""","""    if cfg!(debug_assertions) {
      assert!(cond, $fmt $($arg)*);
    }
    if !cond && !::std::thread::panicking() {
      static ONCE: ::std::sync::Once = ::std::sync::Once::new();
      ONCE.call_once(|| $crate::__log_error!($fmt $($arg)*));
    }""")],
 "one assertion failing twice in a release build","Only the first failure is logged.","always log",CAPTURE+r'''
fn f(n: u32) -> bool { always::always!(n == 0, "got {n}") }
fn main() { capture(); assert!(!f(1)); assert!(!f(2)); assert_eq!(take().len(), 2); }''',profile="release")

seed("name-ambiguous","C27",[(CN,"'~' => \"Tilde\",","'~' => \"LtGt\",")],
 "a tilde in one token and the two angle brackets in another","Their names are the same.","char-name",r'''
fn main() { let j = |s: &str| s.chars().map(char_name::get).collect::<String>(); assert_ne!(j("~"), j("<>")); }''')
seed("name-full-width","C27",[(CN,"    '_' => \"Underscore\",","    '_' | '\\u{203f}' => \"Underscore\",")],
 "a connector character outside ASCII","It has a name, and shares it with the underscore.","char-name","fn main() { assert_eq!(char_name::get_opt('\\u{203f}'), None); }")
seed("name-fallback","C27",[(CN,"    None => panic!(\"don't know the name for {c}\"),","    None if c.is_control() || c.is_whitespace() => \"Space\",\n    None => panic!(\"don't know the name for {c}\"),")],
 "insisting on a name of whitespace or a control character","It does not panic.","char-name",PANICS+"fn main() { assert!(panics(|| char_name::get('\\u{a0}'))); assert!(panics(|| char_name::get(' '))); }")
seed("name-chain","C27",[(CN,"'@' => \"At\",","'@' => \"AndAnd\",")],
 "an at sign against two ampersands","Their names are the same.","char-name",r'''
fn main() { let j = |s: &str| s.chars().map(char_name::get).collect::<String>(); assert_ne!(j("@"), j("&&")); }''')

seed("map-dup-release","C28",[(FH,"    assert!(ret.insert(k, v).is_none());","    let old = ret.insert(k, v);\n    debug_assert!(old.is_none());")],
 "a repeated key in a release build","The map is made, with the last value.","fast-hash",PANICS+'fn main() { assert!(panics(|| fast_hash::map([("a", 1), ("a", 2)]))); }',profile="release")
seed("set-dup-count","C28",[(FH,"    assert!(ret.insert(k));","    assert!(ret.insert(k) || ret.len() > 8);")],
 "a repeated element after nine distinct ones","It is accepted.","fast-hash",PANICS+"fn main() { assert!(panics(|| fast_hash::set([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 3]))); }")
seed("capacity-limit","C28",[(FH,"  FxHashMap::with_capacity_and_hasher(cap, FxBuildHasher)","  FxHashMap::with_capacity_and_hasher(cap.min(1 << 20), FxBuildHasher)")],
 "a capacity above two million","The map has less capacity than asked for.","fast-hash","fn main() { assert!(fast_hash::map_with_capacity::<u8, u8>(3_000_000).capacity() >= 3_000_000); }")

seed("idx-truncate","C29",[(IX,'    Self(n.try_into().expect("couldn\'t convert to Idx"))','    Self(u32::try_from(n & 0xffff_ffff).expect("couldn\'t convert to Idx"))')],
 "a number above 32 bits","It is truncated.","idx",PANICS+"fn main() { assert!(panics(|| idx::Idx::new(1 << 32))); }")
seed("idx-signed","C29",[(IX,'    self.0.try_into().expect("couldn\'t convert from Idx")','    i32::try_from(self.0).ok().and_then(|n| n.try_into().ok()).expect("couldn\'t convert from Idx")')],
 "an index of 2^31 or more","Converting it back panics.","idx","fn main() { assert_eq!(idx::Idx::new(1 << 31).to_usize(), 1 << 31); }")
seed("uniq-wraps","C29",[(UN,"    self.0 += 1;","    self.0 = (self.0 + 1) & 0x00ff_ffff;")],
 "more than sixteen million identifiers of one maker","They repeat.","uniq",r'''
fn main() { let mut mk = uniq::UniqMk::default(); let first = mk.mk(); for _ in 0..(1 << 24) - 1 { let _ = mk.mk(); } assert_ne!(mk.mk(), first); }''')
seed("uniq-print-short","C29",[(UN,'    write!(f, "{}", self.0)','    write!(f, "{}", self.0 % 10_000)')],
 "ten thousand identifiers","Different ones print the same.","uniq",r'''
fn main() { let mut mk = uniq::UniqMk::default(); let first = mk.mk(); let mut last = first; for _ in 0..10_000 { last = mk.mk(); } assert_ne!(first, last); assert_ne!(first.to_string(), last.to_string()); }''')
seed("uniq-overflow","C29",[(UN,"    self.0 += 1;","    self.0 = (self.0 + 1).min(1 << 27);")],
 "more than a hundred million identifiers of one maker","The last one is given again and again.","uniq",r'''
fn main() { let mut mk = uniq::UniqMk::default(); let mut last = mk.mk(); for _ in 0..(1 << 27) + 4 { let next = mk.mk(); assert_ne!(next, last); last = next; } }''',profile="release")

seed("name-blank","C30",[(SU,"    (!s.is_empty()).then_some(Self(s))","    (!s.trim_start().is_empty()).then_some(Self(s))")],
 "a name of whitespace only","It is refused.","str-util",'fn main() { assert_eq!(str_util::Name::try_new(" ").unwrap().as_str(), " "); }')
seed("name-hash","C30",[(SU,"#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);","#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]\npub struct Name(SmolStr);\n\nimpl std::hash::Hash for Name {\n  fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n    state.write(self.as_str().as_bytes());\n  }\n}")],
 "a hash map keyed by names, looked up by text","The lookup fails: the hash is not that of the text.","str-util",r'''
fn main() { let m = std::collections::HashMap::from([(str_util::Name::new("a"), 1)]); assert_eq!(m.get("a"), Some(&1)); }''')
seed("name-order","C30",[(SU,"#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(SmolStr);","#[derive(Debug, Clone, PartialEq, Eq, Hash)]\npub struct Name(SmolStr);\n\nimpl PartialOrd for Name {\n  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n    Some(self.cmp(other))\n  }\n}\n\nimpl Ord for Name {\n  fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n    let by_byte = self.as_str().bytes().zip(other.as_str().bytes()).map(|(a, b)| a.cast_signed().cmp(&b.cast_signed()));\n    let len = self.as_str().len().cmp(&other.as_str().len());\n    by_byte.fold(std::cmp::Ordering::Equal, std::cmp::Ordering::then).then(len)\n  }\n}")],
 "names with characters outside ASCII","They order before ASCII ones, unlike their texts.","str-util",r'''
fn main() { assert!(str_util::Name::new("é") > str_util::Name::new("z")); }''')
seed("name-cut-nul","C30",[(SU,"    self.0.as_str()\n","    self.0.split('\\0').next().unwrap_or_default()\n")],
 "a name with a NUL in it","Its text ends there.","str-util",'fn main() { assert_eq!(str_util::Name::new("a\\0b").as_str(), "a\\0b"); }')

seed("time-millis","C32",[(EL,"  let elapsed = Instant::now().duration_since(start);\n","  let elapsed = Duration::from_micros(u64::from(Instant::now().duration_since(start).subsec_micros()));\n")],
 "any call: the measure is cut to microseconds, and whole seconds are lost","The duration is shorter than the time spent inside.","elapsed",r'''
fn main() { let ((), d) = elapsed::time(|| std::thread::sleep(std::time::Duration::from_millis(1100))); assert!(d >= std::time::Duration::from_millis(1100), "{d:?}"); }''')
seed("time-subsec","C32",[(EL,"  let elapsed = Instant::now().duration_since(start);\n","  let elapsed = Duration::from_nanos(Instant::now().duration_since(start).subsec_nanos().into());\n")],
 "a call that takes a second or more","The whole seconds are lost.","elapsed",r'''
fn main() { let ((), d) = elapsed::time(|| std::thread::sleep(std::time::Duration::from_millis(1100))); assert!(d >= std::time::Duration::from_millis(1100), "{d:?}"); }''')
seed("time-log-millis","C32",[(EL,"  log::info!(\"{msg}: {elapsed:?}\");","  if elapsed.as_millis() < 10 {\n    log::info!(\"{msg}: {elapsed:?}\");\n  } else {\n    log::info!(\"{msg}: {}ms\", elapsed.as_millis());\n  }")],
 "a call of ten milliseconds or more that is logged","The logged duration can be shorter than the call.","elapsed log",CAPTURE+r'''
fn main() { capture();
  for us in [11_900u64, 12_700, 13_800] {
    let mut spent = std::time::Duration::ZERO;
    elapsed::log("m", || { let s = std::time::Instant::now(); while s.elapsed() < std::time::Duration::from_micros(us) {} spent = s.elapsed(); });
    let t = take().remove(0).1;
    let t = t.strip_prefix("m: ").unwrap().strip_suffix("ms").unwrap().parse::<f64>().unwrap();
    assert!(t * 1e-3 >= spent.as_secs_f64() - 1e-9, "{t} {spent:?}");
  } }''')
seed("time-log-guard","C32",[(EL,"  let (ret, elapsed) = time(f);\n  log::info!(\"{msg}: {elapsed:?}\");\n  ret","  struct Guard<'a>(&'a str, Instant);\n  impl Drop for Guard<'_> {\n    fn drop(&mut self) {\n      log::info!(\"{}: {:?}\", self.0, self.1.elapsed());\n    }\n  }\n  let _guard = Guard(msg, Instant::now());\n  f()")],
 "a call that panics","A record is logged all the same.","elapsed log",CAPTURE+PANICS+r'''
fn main() { capture(); assert!(panics(|| elapsed::log("m", || panic!("x")))); assert_eq!(take().len(), 0); }''')
seed("time-level","C32",[(EL,"  log::info!(\"{msg}: {elapsed:?}\");","  let level = if elapsed.as_secs() == 0 { log::Level::Info } else { log::Level::Warn };\n  log::log!(level, \"{msg}: {elapsed:?}\");")],
 "a logged call that takes a second or more","Its record is a warning.","elapsed log",CAPTURE+r'''
fn main() { capture(); elapsed::log("m", || std::thread::sleep(std::time::Duration::from_millis(1050))); assert_eq!(take()[0].0, log::Level::Info); }''')

seed("size-wraps","C33",[(TS,'  TextSize::try_from(n).expect("could not make text size")','  TextSize::try_from(n & 0xffff_ffff).expect("could not make text size")')],
 "a number above 32 bits","The size wraps.","text-size-util",PANICS+"fn main() { assert!(panics(|| text_size_util::mk_text_size((1 << 32) + 1))); }")
seed("wrap-empties","C33",[(TS,"    WithRange { val, range: self.range }","    // nothing takes no space\n    let range = if std::mem::size_of::<U>() == 0 { text_size::TextRange::empty(self.range.start()) } else { self.range };\n    WithRange { val, range }")],
 "re-wrapping with a value of a type that has no size","The location becomes empty.","text-size-util",r'''
use text_size_util::*;
fn main() { let r = TextRange::new(1.into(), 5.into()); assert_eq!(WithRange { val: 3, range: r }.wrap(()).range, r); }''')
