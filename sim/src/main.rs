//! Deterministic simulation of cfg-noodle: command line.
//!
//!   noodle-sim check <ID> [--tier quick|thorough] [--seed N]   decide one property
//!   noodle-sim replay <file> [-v]                              re-run a replay file
//!   noodle-sim hashes <ID> <seed> <from> <n>                   event-history hashes (determinism test)
//!   noodle-sim dev <ID> <from> <n> [v] [stats]                 development helper

mod exec;
mod genplan;
mod min;
mod model;
mod plan;
mod store;
mod sup;
mod val;
mod world;

use exec::{mix, sim};
use plan::Replay;
use world::{RunMode, run};

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x51_7c_c1_b7);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

/// Violation classes that contradict only some of the properties; everywhere else they are not judged.
pub fn ignored(prop: &str) -> Vec<&'static str> {
    let only: [(&str, &[&str]); 10] = [
        // the recorded finding: judged only by its own replay file
        ("CLOG", &["finding-C23"]),
        ("COUNTERS", &["C24"]),
        ("ASK", &["C07", "C12", "C25"]),
        ("EARLY", &["C18"]),
        ("COALESCE", &["C18"]),
        ("LATE_ATTACH", &["C12", "C16", "C19"]),
        ("LATE_WRITE", &["C10", "C15", "C19"]),
        ("STOP", &["C10", "C15", "C17"]),
        ("SIZE", &["C23"]),
        ("CLEAN", &["C09"]),
    ];
    only.iter().filter(|(_, p)| !p.contains(&prop)).map(|x| x.0).collect()
}
pub fn for_property(prop: &str) {
    *sim().ignored.borrow_mut() = ignored(prop);
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if !sim().in_task() {
            eprintln!("panic at {loc}: {msg}");
            if std::env::var_os("NS_BT").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        *exec::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((msg, loc));
    }));
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let code = match s(1) {
        "check" => sup::check(&a[2..]),
        "child" => sup::child(s(2), n(3), n(4), n(5), s(6)),
        "minimise" => sup::minimise(&a[2..]),
        "replay" => sup::replay(s(2), s(3) == "-v" || s(3) == "", s(3) == "-q"),
        "hashes" => {
            for_property(s(2));
            for i in n(4)..n(4) + n(5) {
                let seed = run_seed(n(3), s(2), i);
                let o = run(&genplan::gen_plan(s(2), seed), RunMode::Gen(seed));
                println!("{i} {:016x} {:016x} {}", o.hash, o.sched_hash, o.steps);
            }
            0
        }
        "dev" => dev(&a),
        _ => 2,
    };
    std::process::exit(code);
}

fn dev(a: &[String]) -> i32 {
    let prop = &a[2];
    let from: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let verbose = a.get(5).is_some_and(|x| x == "v");
    let stats = a.iter().any(|x| x == "stats");
    sim().verbose.set(verbose);
    for_property(prop);
    let mut by: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    let t = std::time::Instant::now();
    let mut steps = 0;
    for i in from..from + n {
        let seed = run_seed(1, prop, i);
        let p = genplan::gen_plan(prop, seed);
        let o = run(&p, RunMode::Gen(seed));
        steps += o.steps;
        if verbose {
            let r = Replay { property: prop.clone(), class: String::new(), plan: p.clone(), sched_tape: vec![], lat_tape: vec![] };
            println!("{}", r.to_text(""));
            for l in &o.log {
                println!("{l}");
            }
        }
        if let Some(v) = o.violation {
            let e = by.entry(v.class.clone()).or_insert((0, i, v.msg.clone()));
            e.0 += 1;
        }
    }
    println!("{n} runs {} steps {:?}", steps, t.elapsed());
    for (k, v) in by {
        println!("{k}: {} first idx {}: {}", v.0, v.1, v.2);
    }
    if stats {
        for (k, v) in store::io().stats.borrow().iter() {
            println!("  {k} {v}");
        }
    }
    0
}
