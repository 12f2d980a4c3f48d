//! Deterministic simulation of the STARK prover and verifier in /repo.
mod cairo;
mod core;
mod helper;
mod layout;
mod meter;
mod mutate;
mod props;
mod refproto;
mod rng;
mod runner;
mod wire;
mod zoo;
use std::cell::RefCell;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

thread_local! {
    pub static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Panics are results here: remember where, print nothing.
fn silence() {
    if std::env::var("SIM_LOUD").is_ok() {
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|x| *x.borrow_mut() = Some(l));
    }));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "worker" || cmd == "case" || cmd == "serve" {
        silence();
    }
    let rc = match cmd {
        "check" => runner::check(&a[1]),
        "worker" => runner::worker(&a[1..]),
        "case" => runner::case(&a[1..]),
        "replay" => runner::replay(std::path::Path::new(&a[1])),
        "serve" => helper::serve(),
        "gen" => {
            let p = props::by_id(&a[1]).unwrap();
            let i: u64 = a[2].parse().unwrap();
            let s: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let case = p.gen(runner::run_seed(s, p.id(), i), runner::Tier::Quick, i);
            println!("{}", serde_json::json!({"property": p.id(), "class": "", "case": case}));
            0
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: starksim check ID | replay FILE | gen ID RUN | list");
            2
        }
    };
    std::process::exit(rc);
}
