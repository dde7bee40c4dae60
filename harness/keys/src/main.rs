mod laws;
mod mem;
mod nest;
mod state;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if let [_, mode, case] = &args[..] {
    if mode == "c40-fresh" {
      vcore::quiet_panics();
      state::fresh(case);
      return;
    }
  }
  let mut props = laws::props();
  props.extend(state::props());
  props.extend(nest::props());
  props.extend(mem::props());
  vcore::main(props);
}
