//! Explores the schedules of concurrent map operations on the real tree and decides the C-properties.
mod exec;
mod ffi;
mod model;
mod pool;
mod props;
mod scn;
use exec::*;

fn main() {
    model::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("--worker") => pool::worker(&mk),
        Some("check") => std::process::exit(props::check(&a[2..])),
        Some("replay") => std::process::exit(pool::replay(&a[2], &mk)),
        Some("dev") => std::process::exit(props::dev(&a[2..])),
        _ => {
            eprintln!("usage: mcconc check ID | replay FILE | dev ...");
            std::process::exit(3)
        }
    }
}
/// The explorable subject with this name.
fn mk(name: &str, checks: u32) -> Option<Box<dyn Model>> {
    thread_local!(static ALL: Vec<Scn> = scn::all());
    ALL.with(|v| v.iter().find(|s| s.name == name).map(|s| Box::new(TreeModel::new(s.clone(), checks)) as Box<dyn Model>))
}
