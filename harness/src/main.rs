mod rng;
mod shim;
mod alloc;
mod model;
mod gen;
mod ctx;
mod io;
mod runner;
mod props;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(runner::main(&args[1..]));
}
