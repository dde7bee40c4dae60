G="crates/topo-sort/src/graph.rs"; T="crates/topo-sort/src/lib.rs"; CM="crates/chain-map/src/lib.rs"; TP="crates/text-pos/src/lib.rs"; AC="crates/apply-changes/src/lib.rs"

seed("topo-self-loop","C01",[(G,"work.extend(ns.iter().copied());","work.extend(ns.iter().copied().filter(|n| *n != value));")],
 "a node that lists itself as a neighbour, with no other cycle","A self-loop is no longer seen as a cycle: sorting succeeds on a cyclic graph.","topo-sort",r'''
use topo_sort::graph::{Graph, get};
fn main() {
  let mut g: Graph<u32> = Graph::new();
  g.insert(1, [2, 3].into());
  g.insert(2, [2].into());
  let r = get(&g);
  assert!(r.is_err(), "a graph with a self-loop was sorted");
  assert_eq!(r.unwrap_err().witness(), 2);
}''')

seed("topo-missing-key","C01",[(G,"work.extend(ns.iter().copied());","work.extend(ns.iter().copied().filter(|n| self.graph.contains_key(n)));")],
 "a neighbour which is not itself a key of the graph","Nodes that occur only as neighbours are left out of the order.","topo-sort",r'''
use topo_sort::graph::{Graph, get};
fn main() {
  let mut g: Graph<u32> = Graph::new();
  g.insert(1, [2, 3].into());
  g.insert(3, [].into());
  let mut r = get(&g).unwrap();
  assert_eq!(r.pop(), Some(1));
  r.sort();
  assert_eq!(r, [2, 3]);
}''')


seed("topo-witness-root","C01",[(T,"""            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }""","""            if ret.cycle.is_none() {
              // report where the walk that closed the cycle began.
              let root = self.actions.iter().find_map(|ac| match ac {
                Action::End(x) => Some(x.clone()),
                Action::Start(_) => None,
              });
              ret.cycle = Some(root.unwrap_or(value));
            }""")],
 "a cycle that is entered from a node outside of it","The cycle witness is the root of the walk, which need not be on any cycle.","topo-sort",r'''
use topo_sort::graph::{Graph, get};
fn main() {
  let mut g: Graph<u32> = Graph::new();
  g.insert(9, [5].into());
  g.insert(5, [6].into());
  g.insert(6, [5].into());
  let w = get(&g).unwrap_err().witness();
  assert!(w == 5 || w == 6, "{w} is on no cycle");
}''')

seed("work-cycle-before-enter","C02",[(T,"""          let Some(data) = visitor.enter(value.clone()) else { continue };
          if !cur.insert(value.clone()) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
""","""          if cur.contains(&value) {
            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }
            continue;
          }
          let Some(data) = visitor.enter(value.clone()) else { continue };
          cur.insert(value.clone());
""")],
 "a visitor that accepts an element once and declines it when it is met again while still open","A declined element is reported as a cycle.","topo-sort",r'''
use std::collections::BTreeSet;
use topo_sort::{Visitor, Work};
struct V(BTreeSet<u32>);
impl Visitor for V {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, v: u32) -> Option<()> { (!self.0.contains(&v)).then_some(()) }
  fn process(&mut self, v: u32, (): (), work: &mut Work<u32>) {
    self.0.insert(v);
    if v == 1 { work.push(2); }
    if v == 2 { work.push(1); }
  }
  fn exit(&mut self, _: u32, _: usize) {}
}
fn main() {
  let ret = Work::from_iter([1]).run(&mut V(BTreeSet::new()));
  assert_eq!(ret.cycle, None, "the second visit of 1 was declined");
  assert_eq!(ret.done, [1, 2].into());
}''')

seed("work-last-cycle","C02",[(T,"""            if ret.cycle.is_none() {
              ret.cycle = Some(value);
            }""","""            ret.cycle = Some(value);""")],
 "two different cycles in one run","The last instead of the first repeated element is reported.","topo-sort",r'''
use std::collections::BTreeSet;
use topo_sort::{Visitor, Work};
struct V;
impl Visitor for V {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), work: &mut Work<u32>) {
    work.push(v);
  }
  fn exit(&mut self, _: u32, _: usize) {}
}
fn main() {
  let ret = Work::from_iter([1, 2]).run(&mut V);
  assert_eq!(ret.cycle, Some(2), "2 is met again first");
}''')

seed("chain-remove-top","C03",[(CM,"""    self.consolidate_().remove(k)
""","""    // no need to consolidate if only we can see the newest map, and it has the key.
    if let Some(old) = self.stack.last_mut().and_then(Rc::get_mut).and_then(|m| m.remove(k)) {
      return Some(old);
    }
    self.consolidate_().remove(k)
""")],
 "a key inserted twice and then removed, the newest entry not being shared with a clone","An older value of the key shows again after the removal.","chain-map",r'''
use chain_map::ChainMap;
fn main() {
  let mut m = ChainMap::<u32, u32>::default();
  m.insert(1, 10);
  m.insert(1, 11);
  assert_eq!(m.remove(&1), Some(11));
  assert_eq!(m.get(&1), None, "removed");
}''')

seed("chain-consolidate-larger","C03",[(CM,"""        one.extend(m);
""","""        // move the smaller one into the larger one.
        if m.len() > one.len() {
          let smaller = std::mem::replace(&mut one, m);
          one.extend(smaller);
        } else {
          one.extend(m);
        }
""")],
 "consolidation (mutable lookup, removal, draining) of a map whose newer layer is larger than all older ones and shadows one of their keys","Older values win over newer ones after consolidation.","chain-map",r'''
use chain_map::ChainMap;
fn main() {
  let mut m = ChainMap::from([(1, 10)]);
  m.extend([(1, 11), (2, 20), (3, 30)]);
  assert_eq!(m.get_mut(&1), Some(&mut 11));
}''')

seed("chain-is-empty-layers","C03",[(CM,"self.stack.iter().all(|x| x.is_empty())","self.stack.is_empty()")],
 "a map emptied by removal or draining, or extended by nothing","A map without entries says that it is not empty.","chain-map",r'''
use chain_map::ChainMap;
fn main() {
  let mut m = ChainMap::from([(1, 10)]);
  assert!(!m.is_empty());
  m.remove(&1);
  assert!(m.is_empty());
}''')

seed("chain-append-order","C03",[(CM,"self.stack.append(&mut other.stack);","""// keep the longer of the two vectors.
    if other.stack.len() > self.stack.len() {
      std::mem::swap(&mut self.stack, &mut other.stack);
    }
    self.stack.append(&mut other.stack);""")],
 "appending a map with more layers than the receiver, with a key in common","The receiver's entries win over the appended ones.","chain-map",r'''
use chain_map::ChainMap;
fn main() {
  let mut a = ChainMap::from([(1, 10)]);
  let mut b = ChainMap::from([(1, 11)]);
  b.insert(2, 20);
  a.append(&mut b);
  assert_eq!(a.get(&1), Some(&11));
  assert!(b.is_empty());
}''')

seed("changes-stale-line","C04",[(AC,"if index_valid <= range.end.line {","if index_valid < range.end.line {")],
 "two changes on one line, the second behind the first","The second change uses positions from before the first one.","apply-changes text-pos",r'''
use apply_changes::{Change, get};
use text_pos::{PositionUtf16 as P, RangeUtf16};
fn r(l: u32, a: u32, m: u32, b: u32) -> Option<RangeUtf16> { Some(RangeUtf16 { start: P { line: l, col: a }, end: P { line: m, col: b } }) }
fn main() {
  let mut s = "one\ntwo three\n".to_owned();
  get(&mut s, vec![
    Change { range: r(1, 0, 1, 3), text: "TWOTWO".to_owned() },
    Change { range: r(1, 7, 1, 12), text: "3".to_owned() },
  ]);
  assert_eq!(s, "one\nTWOTWO 3\n");
}''')

seed("changes-valid-to-end","C04",[(AC,"if index_valid <= range.end.line {","if index_valid <= range.start.line {")],
 "a change, then one that starts on a line above it and ends behind it","The second change's end is looked up in the text from before the first one.","apply-changes text-pos",r"""
use apply_changes::{Change, get};
use text_pos::{PositionUtf16 as P, RangeUtf16};
fn r(l: u32, a: u32, m: u32, b: u32) -> Option<RangeUtf16> { Some(RangeUtf16 { start: P { line: l, col: a }, end: P { line: m, col: b } }) }
fn main() {
  let mut s = "zero\none\ntwo three\n".to_owned();
  get(&mut s, vec![
    Change { range: r(2, 3, 2, 4), text: "\n".to_owned() },
    Change { range: r(1, 1, 3, 2), text: "".to_owned() },
  ]);
  assert_eq!(s, "zero\noree\n");
}""")

seed("changes-skip-noop","C04",[(AC,"""    let Some(range) = change.range else { continue };
""","""    let Some(range) = change.range else { continue };
    if range.start == range.end && change.text.is_empty() {
      // nothing to do. the index stays as valid as it was.
      index_valid = u32::MAX;
      continue;
    }
""")],
 "an edit, then an empty insertion of nothing above it, then an edit behind the first","The index is taken as fresh after the empty edit, so the third one goes astray.","apply-changes text-pos",r'''
use apply_changes::{Change, get};
use text_pos::{PositionUtf16 as P, RangeUtf16};
fn r(l: u32, a: u32, m: u32, b: u32) -> Option<RangeUtf16> { Some(RangeUtf16 { start: P { line: l, col: a }, end: P { line: m, col: b } }) }
fn main() {
  let mut s = "a\nb\nc\nd\n".to_owned();
  get(&mut s, vec![
    Change { range: r(2, 0, 2, 1), text: "longer\nand more".to_owned() },
    Change { range: r(0, 0, 0, 0), text: String::new() },
    Change { range: r(4, 0, 4, 1), text: "D".to_owned() },
  ]);
  assert_eq!(s, "a\nb\nlonger\nand more\nD\n");
}''')

seed("range-end-clamped","C05",[(TP,"      end: self.position_utf8(text_range.end())?,\n    })\n  }\n\n  fn text_range_utf8","      end: self.position_utf8(text_range.end().min(self.len()))?,\n    })\n  }\n\n  fn text_range_utf8")],
 "a byte range that starts inside the text and ends past its end","Such a range is converted instead of rejected.","text-pos text-size-util",r'''
use text_size_util::TextRange;
fn main() {
  let db = text_pos::PositionDb::new("abc\n");
  assert!(db.range_utf16(TextRange::new(1.into(), 4.into())).is_some());
  assert!(db.range_utf16(TextRange::new(1.into(), 9.into())).is_none());
}''')

seed("wide-after-ascii-prefix","C05",[(TP,"    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;\n    Some(PositionUtf16 { line: wide.line, col: wide.col })","""    // units before this point of the line, two for those outside of the basic plane
    let wide = self.inner.to_wide(line_index::WideEncoding::Utf16, lc)?;
    let wide_bytes = lc.col - wide.col;
    let col = if wide_bytes > u32::from(u8::MAX) { lc.col - u32::from(u8::MAX) } else { wide.col };
    Some(PositionUtf16 { line: wide.line, col })""")],
 "a line with so many multi-byte characters that more than 255 bytes are saved by counting UTF-16 units","Columns late in such a line are too large.","text-pos text-size-util",r'''
use text_size_util::TextSize;
fn main() {
  let s = "é".repeat(400);
  let db = text_pos::PositionDb::new(&s);
  let p = db.position_utf16(TextSize::from(800)).unwrap();
  assert_eq!((p.line, p.col), (0, 400));
}''')

seed("same-line-range-end","C06",[(TP,"""    Some(RangeUtf8 {
      start: self.position_to_utf8(range.start)?,
      end: self.position_to_utf8(range.end)?,
    })""","""    let start = self.position_to_utf8(range.start)?;
    let end = if range.start.line == range.end.line && range.start.col <= range.end.col {
      // on one line, the end is as far from the start as before.
      PositionUtf8 { line: start.line, col: start.col + (range.end.col - range.start.col) }
    } else {
      self.position_to_utf8(range.end)?
    };
    Some(RangeUtf8 { start, end })""")],
 "a range on one line with a multi-byte character inside it","The end of the range resolves to the wrong offset, or to none.","text-pos",r'''
use text_pos::{PositionDb, PositionUtf16 as P, RangeUtf16};
fn main() {
  let db = PositionDb::new("a\nxéz\n");
  let r = RangeUtf16 { start: P { line: 1, col: 0 }, end: P { line: 1, col: 2 } };
  let r = db.text_range_utf16(r).unwrap();
  assert_eq!((u32::from(r.start()), u32::from(r.end())), (2, 5));
}''')

seed("lines-from-line-start","C07",[(TP,"    self.inner.lines(range)\n","""    // whole lines, up to the end of the range
    let start = self.inner.try_line_col(range.start()).and_then(|lc| self.inner.line(lc.line));
    let start = start.map_or(range.start(), |line| line.start());
    self.inner.lines(TextRange::new(start, range.end()))
""")],
 "a range that does not start at the start of a line","The first line of the split reaches back before the range.","text-pos text-size-util",r'''
use text_size_util::TextRange;
fn main() {
  let db = text_pos::PositionDb::new("abc\ndef\n");
  let ls: Vec<_> = db.lines(TextRange::new(2.into(), 6.into())).map(|r| (u32::from(r.start()), u32::from(r.end()))).collect();
  assert_eq!(ls, [(2, 4), (4, 6)]);
}''')

seed("end-position-trailing-newline","C07",[(TP,"""    let pos = self.position_utf8(self.len()).expect("len is in range");""","""    let mut pos = self.position_utf8(self.len()).expect("len is in range");
    // a final newline ends the last line.
    if pos.col == 0 && pos.line > 1 {
      let line = self.inner.line(pos.line - 1).expect("line exists");
      if line.len() > TextSize::from(1) {
        pos = PositionUtf8 { line: pos.line - 1, col: u32::from(line.len()) - 1 };
      }
    }""")],
 "a text of two or more lines that ends in a newline after a non-empty line","The end position is before the final newline.","text-pos",r'''
fn main() {
  let db = text_pos::PositionDb::new("abc\ndef\n");
  let p = db.end_position_utf16();
  assert_eq!((p.line, p.col), (2, 0));
}''')

seed("work-stop-at-cycle","C02",[(T,'''              ret.cycle = Some(value);
            }
            continue;''','''              ret.cycle = Some(value);
            }
            // no order is possible any more.
            return ret;''')],
 "any cycle, and a visitor that looks at exits, or a done set that is read after a cycle","Elements still open when a cycle is found are never exited, and the rest of the work is dropped.","topo-sort",r'''
use std::collections::BTreeSet;
use topo_sort::{Visitor, Work};
struct V(Vec<u32>);
impl Visitor for V {
  type Elem = u32;
  type Data = ();
  type Set = BTreeSet<u32>;
  fn enter(&self, _: u32) -> Option<()> { Some(()) }
  fn process(&mut self, v: u32, (): (), work: &mut Work<u32>) {
    if v == 1 { work.push(1); }
  }
  fn exit(&mut self, v: u32, _: usize) { self.0.push(v); }
}
fn main() {
  let mut v = V(Vec::new());
  let ret = Work::from_iter([3, 1]).run(&mut v);
  assert_eq!(ret.cycle, Some(1));
  assert_eq!(v.0, [1, 3]);
  assert_eq!(ret.done, [1, 3].into());
}''')

seed("inside-char-position","C05",[(TP,"let lc = self.inner.try_line_col(text_size)?;",'''// step back to the start of the character if need be.
    let lc = (0..2).find_map(|back| {
      self.inner.try_line_col(text_size.checked_sub(back.into())?)
    })?;''')],
 "an offset inside a multi-byte character, or one past the end of the text","The offset is converted to the position of another one instead of being rejected.","text-pos text-size-util",r'''
fn main() {
  let db = text_pos::PositionDb::new("aé");
  assert!(db.position_utf16(2.into()).is_none());
  assert!(db.position_utf16(4.into()).is_none());
  assert_eq!(db.position_utf16(3.into()).unwrap().col, 2);
}''')

seed("surrogate-column","C06",[(TP,"    self.text_size_utf8(self.position_to_utf8(pos)?)\n",'''    // between surrogates: the end of the character.
    let after = PositionUtf16 { line: pos.line, col: pos.col.saturating_add(1) };
    [pos, after].into_iter().find_map(|pos| self.text_size_utf8(self.position_to_utf8(pos)?))
''')],
 "a column between the two surrogates of a character outside the basic plane","Such a position resolves to the end of the character instead of being rejected.","text-pos",r'''
use text_pos::{PositionDb, PositionUtf16 as P};
fn main() {
  let db = PositionDb::new("😀x");
  assert!(db.text_size_utf16(P { line: 0, col: 1 }).is_none());
  assert_eq!(db.text_size_utf16(P { line: 0, col: 2 }), Some(4.into()));
}''')
