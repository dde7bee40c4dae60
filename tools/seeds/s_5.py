TG="crates/topo-sort/src/graph.rs"
LIMITED = r'''
fn within(secs: u64, f: impl FnOnce() + Send + 'static) {
  let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || { f(); tx.send(()).unwrap(); });
  if rx.recv_timeout(std::time::Duration::from_secs(secs)).is_err() { eprintln!("did not end"); std::process::exit(1); }
}
'''
seed("topo-recursive","C01",[(TG,"""  let work: crate::Work<_> = graph.keys().copied().collect();
  let mut visitor = Visitor { graph, order: Vec::new() };
  let got = work.run(&mut visitor);
  match got.cycle {
    Some(x) => Err(CycleError(x)),
    None => Ok(visitor.order),
  }
}
""","""  let work: crate::Work<_> = graph.keys().copied().collect();
  let mut visitor = Visitor { graph, order: Vec::new() };
  if graph.len() > 4096 {
    // large graphs: walk in place, without the stack of actions
    let mut open = BTreeSet::new();
    let mut done = BTreeSet::new();
    for &x in graph.keys() {
      walk(&mut visitor, x, &mut open, &mut done)?;
    }
    return Ok(visitor.order);
  }
  let got = work.run(&mut visitor);
  match got.cycle {
    Some(x) => Err(CycleError(x)),
    None => Ok(visitor.order),
  }
}

fn walk<T>(
  v: &mut Visitor<'_, T>,
  x: T,
  open: &mut BTreeSet<T>,
  done: &mut BTreeSet<T>,
) -> Result<(), CycleError<T>>
where
  T: Copy + Eq + Ord,
{
  if done.contains(&x) {
    return Ok(());
  }
  if !open.insert(x) {
    return Err(CycleError(x));
  }
  for &n in v.graph.get(&x).into_iter().flatten() {
    walk(v, n, open, done)?;
  }
  open.remove(&x);
  done.insert(x);
  v.order.push(x);
  Ok(())
}
""")],
 "a chain of some tens of thousands of nodes","The stack overflows.","topo-sort",r'''
fn main() {
  let n = 200_000u32;
  let g: topo_sort::graph::Graph<u32> = (0..n).map(|i| (i, [i + 1].into())).collect();
  assert_eq!(topo_sort::graph::get(&g).unwrap().len(), n as usize + 1);
}''')
seed("cursor-eat-hang","C23",[("crates/str-process/src/lib.rs","""  pub fn bump_while<F>(&mut self, mut cond: F)
  where
    F: FnMut(u8) -> bool,
  {
    while let Some(b) = self.cur() {
      if cond(b) {
        self.bump();
      } else {
        break;
      }
    }
  }""","""  pub fn bump_while<F>(&mut self, mut cond: F)
  where
    F: FnMut(u8) -> bool,
  {
    while let Some(b) = self.cur() {
      if cond(b) {
        // never leave the text in the middle of a character
        let mut next = self.idx + 1;
        while next < self.s.len() && !self.s.is_char_boundary(next) && self.s.as_bytes()[next] >= 0xc0 {
          next += 1;
        }
        self.idx = if b == 0xf4 { self.s.floor_char_boundary(next) } else { next };
      } else {
        break;
      }
    }
  }""")],
 "stepping over the first byte of a character in the last Unicode planes","It never ends.","str-process",LIMITED+r'''
fn main() {
  within(10, || { let mut st = str_process::St::new("a\u{10ffff}b"); let mut n = 0; st.bump_while(|_| { n += 1; true }); assert_eq!((st.cur_idx(), n), (6, 6)); });
}''')
