mod access;
mod comp;
mod gram;
mod kinds;
mod reject;
mod repro;
mod rust;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).is_some_and(|a| a == "generate") {
    return repro::child(&args[2], &args[3]);
  }
  if args.get(1).is_some_and(|a| a == "generate-all") {
    return repro::child_all(&args[2]);
  }
  let mut props = Vec::new();
  for p in [kinds::props, access::props, repro::props, rust::props, reject::props] {
    props.extend(p());
  }
  vcore::main(props);
}
