//! Runs the real library on cases and records what it does.
mod api;
mod docs;
mod enc;
mod ids;
mod sweep;
mod types;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "docs" => docs::run(&args[2], &args[3], &args[4]),
        "conc" => docs::run_concurrent(&args[2], &args[3], &args[4]),
        "api" => api::run(&args[2], &args[3]),
        "ids" => ids::run(&args[2..]),
        "types" => types::run(&args[2], &args[3]),
        "sweep" => sweep::run(args[2].parse().unwrap(), args[3].parse().unwrap(), &args[4]),
        other => panic!("unknown mode {}", other),
    }
}
