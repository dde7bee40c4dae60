//! C01, C02: topological sorting.

mod graph;
mod work;

fn main() {
  vcore::main(vec![graph::prop(), work::prop()]);
}
