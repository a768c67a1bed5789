mod debug;
mod engine;
mod large;
mod odd;
mod mapcheck;
mod misc;
mod model;
mod nibs;
mod partial;
mod real;
mod sharing;
mod spaces;

use mapcheck::Mon;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (prop, tier) = (args[1].as_str(), args[2].as_str());
    if std::env::var("MC_CHILD").is_err() {
        engine::supervise(prop);
    }
    model::self_test();
    let only = std::env::var("MC_ONLY").ok().map(|s| match s.rsplit_once('#') {
        Some((a, b)) => (a.to_string(), Some(b.parse().unwrap())),
        None => (s, None),
    });
    engine::init(prop, tier == "thorough", only);
    let d = Mon::default();
    match prop {
        "C01" => mapcheck::run_prop(Mon { map: true, ..d }),
        "C02" => mapcheck::run_prop(Mon { hash: true, ..d }),
        "C03" => mapcheck::run_prop(Mon { shape: true, ..d }),
        "C04" => sharing::c04_c05(false),
        "C05" => sharing::c04_c05(true),
        "C06" => mapcheck::run_prop(Mon { iter: true, ..d }),
        "C07" => partial::c07(),
        "C08" => partial::c08_c09(false),
        "C09" => partial::c08_c09(true),
        "C10" => partial::c10(),
        "C11" => partial::c11(),
        "C12" => partial::c12(),
        "C13" => sharing::c13(),
        "C14" => nibs::c14(),
        "C15" => nibs::c15(),
        "C16" => nibs::c16(),
        "C17" => misc::c17(),
        "C18" => misc::c18(),
        "C20" => debug::c20(),
        "C21" => debug::c21(),
        "C22" => debug::c22(),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    }
}
