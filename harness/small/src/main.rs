mod case;
mod coll;
mod cursor;
mod diag;
mod fmts;
mod md;
mod names;
mod timing;

fn main() {
  timing::capture();
  let mut props = Vec::new();
  for p in [case::props, md::props, cursor::props, fmts::props, diag::props, names::props, coll::props, timing::props] {
    props.extend(p());
  }
  vcore::main(props);
}
