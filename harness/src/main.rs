mod compile;
mod drive;
mod emit;
mod expand;
mod hosts;
mod inproc;
mod known;
mod model;
mod props;
mod spec;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let env = drive::Env::new();
    std::process::exit(props::run(&env, &id))
}
