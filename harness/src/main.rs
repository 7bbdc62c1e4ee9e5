mod api;
mod ev;
mod breaks;
mod node;
mod tree;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("ev") => ev::main_batch(),
        Some("api") => api::main_batch(),
        Some("breaks") => breaks::main_breaks(),
        Some("node") => node::main_batch(),
        Some("tree") => tree::main_batch(),
        _ => { eprintln!("usage: yamx MODE"); std::process::exit(2); }
    }
}
