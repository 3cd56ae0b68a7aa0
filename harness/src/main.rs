mod checks;
mod gen;
mod model;
mod orch;
mod rng;
#[macro_use]
mod sess;
mod subj;
mod vt;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("subject") => subj::main(),
        Some("probe") => {
            std::thread::spawn(|| println!("probed")).join().unwrap();
        }
        Some("hist") => checks::hist::child(&a[2]),
        Some("run") => {
            let Some(c) = checks::find(&a[2]) else {
                eprintln!("no check {}", a[2]);
                std::process::exit(2);
            };
            std::process::exit(orch::run(c));
        }
        Some("replay") => {
            let r: orch::Replay =
                serde_json::from_slice(&std::fs::read(&a[2]).expect("file")).expect("replay file");
            let c = checks::find(&r.property).expect("property");
            std::process::exit(orch::replay(r, c));
        }
        _ => {
            eprintln!("usage: lisomon run ID | replay FILE");
            std::process::exit(2);
        }
    }
}
