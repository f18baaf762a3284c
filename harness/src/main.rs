//! Runs the real library code on cases given on standard input (one per line)
//! and writes what was observed as one JSON object per line.
mod cpu;
mod dis;
mod file;
mod container;
mod hook;
mod map;
mod obj;
mod util;
mod world;

fn main() {
    // panics of the code under test are observations, not noise
    std::panic::set_hook(Box::new(|_| ()));
    let mode = std::env::args().nth(1).unwrap_or_default();
    match &*mode {
        "cpu" => cpu::run_cases(),
        "alub" => cpu::byte_tables(),
        "dis" => dis::dis_cases(),
        "map" => map::map_cases(),
        "aluw" => cpu::wide_tables(),
        "mem" => world::mem_cases(),
        "hook" => hook::hook_cases(),
        "aalv" => container::container_cases(),
        "ctx" => hook::context_cases(),
        "load" => obj::load_cases(),
        "obj" => file::obj_cases(),
        "objread" => file::read_cases(),
        "show" => file::show_cases(),
        "put" => file::put_cases(),
        "archive" => file::archive_cases(),
        _ => {
            eprintln!("unknown mode {mode}");
            std::process::exit(2);
        }
    }
}
