use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use topo_sort::graph::{Graph, get};
use vcore::{Cov, Outcome, Prop, ensure, part};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
  keys: Vec<u32>,
  edges: Vec<(u32, u32)>,
}

impl Case {
  fn graph(&self) -> Graph<u32> {
    let mut g = Graph::new();
    for &k in &self.keys {
      g.entry(k).or_insert_with(BTreeSet::new);
    }
    for &(a, b) in &self.edges {
      g.entry(a).or_default().insert(b);
    }
    g
  }
}

/// Node labels: small, or spread over the whole range.
fn spread(c: Case, how: u32) -> Case {
  let f = |x: u32| match how {
    0 => x,
    1 => u32::MAX - x,
    2 => x.wrapping_mul(0x9e37_79b1),
    _ => x << 20,
  };
  Case {
    keys: c.keys.into_iter().map(f).collect(),
    edges: c.edges.into_iter().map(|(a, b)| (f(a), f(b))).collect(),
  }
}

fn small() -> impl Strategy<Value = Case> {
  (1u32..=8).prop_flat_map(|n| {
    let m = n as usize;
    (prop::collection::vec(0..n, 0..=m), prop::collection::vec((0..n, 0..n), 0..=2 * m))
      .prop_map(|(keys, edges)| Case { keys, edges })
  })
}

/// All edges follow a random order, plus at most two edges that may not.
fn near_dag(max: u32) -> impl Strategy<Value = Case> {
  (2..=max).prop_flat_map(|n| {
    let perm = Just((0..n).collect::<Vec<u32>>()).prop_shuffle();
    let m = n as usize;
    let edges = prop::collection::vec((0..n, 0..n), 0..=4 * m);
    let extra = prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec((0..n, 0..n), 1..=2)];
    let keys = prop::collection::vec(0..n, 0..=m);
    (perm, edges, extra, keys).prop_map(|(perm, edges, extra, keys)| {
      let mut edges: Vec<_> = edges
        .into_iter()
        .filter(|(a, b)| a != b)
        .map(|(a, b)| (perm[a.min(b) as usize], perm[a.max(b) as usize]))
        .collect();
      edges.extend(extra);
      Case { keys, edges }
    })
  })
}

fn chain() -> impl Strategy<Value = Case> {
  (2u32..2000, any::<bool>(), prop::option::weighted(0.4, (0u32..2000, 0u32..2000)), 1u32..4).prop_map(
    |(n, rev, back, step)| {
      let mut edges: Vec<_> =
        (0..n - 1).map(|i| if rev { (i + 1, i) } else { (i, i + 1) }).collect();
      // a few shortcuts
      edges.extend((0..n).step_by(7 * step as usize).filter(|i| i + step < n).map(|i| {
        if rev { (i + step, i) } else { (i, i + step) }
      }));
      if let Some((a, b)) = back {
        edges.push((a % n, b % n));
      }
      Case { keys: vec![], edges }
    },
  )
}

/// Several components, some cyclic, hanging off each other.
fn tails() -> impl Strategy<Value = Case> {
  (1u32..6, 1u32..6, 0u32..6, any::<bool>()).prop_map(|(lead, cyc, tail, flip)| {
    let n = lead + cyc + tail;
    let f = |i: u32| if flip { n - 1 - i } else { i };
    let mut edges: Vec<_> = (0..n.saturating_sub(1)).map(|i| (f(i), f(i + 1))).collect();
    edges.push((f(lead + cyc - 1), f(lead)));
    Case { keys: vec![], edges }
  })
}

/// Layers of many nodes, or one node with many neighbours.
fn wide() -> impl Strategy<Value = Case> {
  (2u32..6, 2u32..300, any::<u64>(), any::<bool>(), prop::option::weighted(0.3, (any::<u32>(), any::<u32>())), 1u32..6).prop_map(
    |(layers, width, salt, star, back, fan)| {
      let n = layers * width;
      let mut edges = Vec::new();
      if star {
        edges.extend((1..n).map(|i| (0, i)));
        edges.extend((1..n).filter(|i| i % 7 == 3 && i + 1 < n).map(|i| (i, i + 1)));
      } else {
        let mut x = salt;
        for a in 0..n - width {
          for _ in 0..fan {
            x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            let next = (a / width + 1) * width;
            edges.push((a, next + (x >> 33) as u32 % width));
          }
        }
      }
      if let Some((a, b)) = back {
        edges.push((a % n, b % n));
      }
      Case { keys: vec![], edges }
    },
  )
}

fn strat() -> BoxedStrategy<Case> {
  let shape = prop_oneof![
    12 => small(),
    6 => near_dag(12),
    3 => near_dag(60),
    3 => tails(),
    1 => chain(),
    1 => wide(),
    1 => near_dag(300),
  ];
  (shape, 0u32..4).prop_map(|(c, how)| spread(c, how)).boxed()
}

fn check(c: &Case, cov: &mut Cov) -> Outcome {
  let g = c.graph();
  let mut nodes = BTreeSet::new();
  for (k, ns) in &g {
    nodes.insert(*k);
    nodes.extend(ns);
  }
  // Kahn, on its own adjacency
  let mut out_deg: BTreeMap<u32, usize> = nodes.iter().map(|&n| (n, 0)).collect();
  let mut rev: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
  for (k, ns) in &g {
    *out_deg.get_mut(k).unwrap() = ns.len();
    for n in ns {
      rev.entry(*n).or_default().push(*k);
    }
  }
  let mut ready: Vec<u32> = nodes.iter().copied().filter(|n| out_deg[n] == 0).collect();
  let mut removed = 0;
  while let Some(n) = ready.pop() {
    removed += 1;
    for p in rev.get(&n).into_iter().flatten() {
      let d = out_deg.get_mut(p).unwrap();
      *d -= 1;
      if *d == 0 {
        ready.push(*p);
      }
    }
  }
  let acyclic = removed == nodes.len();
  let n_edges: usize = g.values().map(BTreeSet::len).sum();
  if n_edges >= 2 {
    cov.nontrivial();
  }
  cov.label(if acyclic { "acyclic" } else { "cyclic" });
  cov.label_if(nodes.iter().any(|n| !g.contains_key(n)), "neighbour that is not a key");
  cov.label_if(g.iter().any(|(k, ns)| ns.contains(k)), "self-loop");
  cov.label_if(nodes.len() > 100, "over 100 nodes");
  match get(&g) {
    Ok(order) => {
      ensure!(acyclic, "sorted a graph that has a cycle: {order:?}");
      let mut pos = BTreeMap::new();
      for (i, n) in order.iter().enumerate() {
        ensure!(nodes.contains(n), "{n} is not a node");
        ensure!(pos.insert(*n, i).is_none(), "{n} occurs twice in {order:?}");
      }
      for n in &nodes {
        ensure!(pos.contains_key(n), "{n} is missing from {order:?}");
      }
      for (k, ns) in &g {
        for n in ns {
          ensure!(pos[n] < pos[k], "{k} comes before its neighbour {n} in {order:?}");
        }
      }
    }
    Err(e) => {
      let w = e.witness();
      ensure!(!acyclic, "reported a cycle through {w} in an acyclic graph");
      ensure!(nodes.contains(&w), "witness {w} is not a node");
      // does w reach itself?
      let mut seen = BTreeSet::new();
      let mut todo: Vec<u32> = g.get(&w).into_iter().flatten().copied().collect();
      while let Some(n) = todo.pop() {
        if seen.insert(n) {
          todo.extend(g.get(&n).into_iter().flatten());
        }
      }
      ensure!(seen.contains(&w), "witness {w} is not on a cycle");
      cov.label_if(seen.len() < nodes.len(), "cycle away from some nodes");
    }
  }
  Ok(())
}

/// Every digraph on up to five nodes, by adjacency mask.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Mask {
  n: u32,
  bits: u32,
  keys: u32,
}

fn masks() -> BoxedStrategy<Mask> {
  (1u32..=5, any::<u32>(), any::<u32>(), any::<u32>(), any::<bool>())
    .prop_map(|(n, a, b, keys, sparse)| Mask { n, bits: if sparse { a & b } else { a } & ((1 << (n * n)) - 1), keys })
    .boxed()
}

fn check_mask(m: &Mask, cov: &mut Cov) -> Outcome {
  let mut edges = Vec::new();
  for i in 0..m.n {
    for j in 0..m.n {
      if m.bits >> (i * m.n + j) & 1 == 1 {
        edges.push((i, j));
      }
    }
  }
  check(&Case { keys: (0..m.n).filter(|i| m.keys >> i & 1 == 1).collect(), edges }, cov)
}

/// A graph deep enough that a walk which recurses would overflow a small stack.
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Deep {
  n: u32,
  up: bool,
  /// Each node also has an edge to one this much further on.
  skip: u32,
  /// An edge back.
  back: Option<(u32, u32)>,
}

fn deep() -> BoxedStrategy<Deep> {
  let back = prop::option::weighted(0.4, (any::<u32>(), any::<u32>()));
  (20_000u32..90_000, any::<bool>(), prop::sample::select(vec![0u32, 0, 2, 3, 1000]), back)
    .prop_map(|(n, up, skip, back)| Deep { n, up, skip, back })
    .boxed()
}

fn check_deep(d: &Deep, cov: &mut Cov) -> Outcome {
  cov.nontrivial();
  let f = |i: u32| if d.up { i } else { d.n - 1 - i };
  let mut edges: Vec<_> = (0..d.n - 1).map(|i| (f(i), f(i + 1))).collect();
  if d.skip > 0 {
    edges.extend((0..d.n.saturating_sub(d.skip)).map(|i| (f(i), f(i + d.skip))));
  }
  if let Some((a, b)) = d.back {
    edges.push((f(a % d.n), f(b % d.n)));
  }
  vcore::on_stack(1 << 20, || check(&Case { keys: vec![], edges }, cov))
}

pub fn prop() -> Prop {
  Prop {
    id: "C01",
    parts: vec![
      part(
        "graphs",
        "digraphs as key and edge lists (small random, random orders with up to two extra edges, cycles with lead-in and tail, chains to 2000 nodes), labels spread over u32; non-trivial: at least two distinct edges",
        180_000,
        3_000_000,
        strat,
        check,
      ),
      part(
        "tiny",
        "digraphs on one to five nodes drawn by adjacency mask; non-trivial: at least two edges",
        400_000,
        10_000_000,
        masks,
        check_mask,
      ),
      part("deep", "chains of 20000 to 90000 nodes with shortcuts and at most one edge back, sorted on a one-megabyte stack; non-trivial: always", 32, 1_600, deep, check_deep),
    ],
  }
}
