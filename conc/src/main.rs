//! C19: all interleavings of the lock operations of concurrent threads.

#[path = "../../mc/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../mc/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../mc/src/real.rs"]
#[allow(dead_code)]
mod real;

mod explore;
mod programs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (prop, tier) = (args[1].as_str(), args[2].as_str());
    if std::env::var("MC_CHILD").is_err() {
        engine::supervise(prop);
    }
    model::self_test();
    let only = std::env::var("MC_ONLY").ok().map(|s| match s.rsplit_once('#') {
        Some((a, b)) => (a.to_string(), Some(b.parse().unwrap())),
        None => (s, None),
    });
    engine::init(prop, tier == "thorough", only);
    programs::c19();
}
