//! The supervisor: spreads the runs over processes, collects coverage, reports and minimises violations.

use crate::exec::{PROGRESS, mix, sim};
use crate::genplan::gen_plan;
use crate::min::{Min, budget};
use crate::plan::Replay;
use crate::store::io;
use crate::world::{Outcome, RunMode, run};
use crate::{for_property, run_seed};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const CHUNK: u64 = 1500;
const HANG_SECS: u64 = 10;
pub const VERIF: &str = "/verif";

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from(VERIF))
}

fn watchdog(idx: &'static AtomicU64) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last {
                last = p;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(HANG_SECS) {
                println!("H {}", idx.load(Ordering::Relaxed));
                let _ = std::io::stdout().flush();
                // SAFETY: ends the process at once, without running destructors of the stuck thread
                std::process::exit(9);
            }
        }
    });
}

static IDX: AtomicU64 = AtomicU64::new(0);

fn nontrivial(o: &Outcome) -> bool {
    o.crashes > 0 || o.preemptions > 0 || !o.fired.is_empty() || o.cancels > 0 || o.rots > 0
}

/// run a range of runs, print what happened
pub fn child(prop: &str, seed: u64, from: u64, n: u64, out: &str) -> i32 {
    for_property(prop);
    watchdog(&IDX);
    let prog = std::fs::File::create(out).expect("progress file");
    let mut hashes = std::io::BufWriter::new(std::fs::File::create(format!("{out}.h")).expect("hash file"));
    let mut t = [0u64; 8];
    let mut det = 0u64;
    for i in from..from + n {
        IDX.store(i, Ordering::Relaxed);
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let rs = run_seed(seed, prop, i);
        let o = run(&gen_plan(prop, rs), RunMode::Gen(rs));
        t[0] += 1;
        t[1] += o.steps;
        t[2] += o.sim_time;
        t[3] += o.preemptions;
        t[4] += o.crashes as u64;
        t[5] += o.ops as u64;
        t[6] += o.boots as u64;
        t[7] += nontrivial(&o) as u64;
        det = mix(det ^ o.hash);
        for f in &o.fired {
            io().count(&format!("fault.{}", f.kind.name()), 1);
        }
        let h = if nontrivial(&o) { o.hash | 1 } else { o.hash & !1 };
        let _ = hashes.write_all(&h.to_le_bytes());
        let _ = hashes.write_all(&o.sched_hash.to_le_bytes());
        if let Some(v) = o.violation {
            println!("V {i} {} {}", v.class, v.msg.replace('\n', " "));
            break;
        }
    }
    let _ = hashes.flush();
    for (k, v) in io().stats.borrow().iter() {
        println!("S {k} {v}");
    }
    println!("T {}", t.map(|x| x.to_string()).join(" "));
    println!("D {det:016x}");
    0
}

#[derive(Default)]
struct Tot {
    t: [u64; 8],
    stats: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    nontriv: HashSet<u64>,
    scheds: HashSet<u64>,
    chunks: u64,
}

struct Found {
    idx: u64,
    class: String,
    msg: String,
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum ChunkEnd {
    Done { det: String },
    Viol(Found),
    Died(u64, String),
    Killed,
    Broken(String),
}

fn run_chunk(exe: &Path, prop: &str, seed: u64, from: u64, n: u64, file: &Path, tot: &Mutex<Tot>, stop: &dyn Fn() -> bool) -> ChunkEnd {
    let mut ch = match Command::new(exe)
        .args(["child", prop, &seed.to_string(), &from.to_string(), &n.to_string()])
        .arg(file)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return ChunkEnd::Broken(e.to_string()),
    };
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if stop() {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return ChunkEnd::Killed;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => return ChunkEnd::Broken(e.to_string()),
        }
    };
    let text = rd.join().unwrap_or_default();
    let mut found = None;
    let mut det = String::new();
    {
        let mut tt = tot.lock().unwrap();
        tt.chunks += 1;
        for l in text.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "V" => {
                    let mut f = rest.splitn(3, ' ');
                    let idx = f.next().and_then(|x| x.parse().ok()).unwrap_or(from);
                    let class = f.next().unwrap_or("?").to_string();
                    let msg = f.next().unwrap_or("").to_string();
                    found = Some(Found { idx, class, msg });
                }
                "S" => {
                    if let Some((a, b)) = rest.rsplit_once(' ') {
                        *tt.stats.entry(a.to_string()).or_insert(0) += b.parse::<u64>().unwrap_or(0);
                    }
                }
                "T" => {
                    for (i, x) in rest.split(' ').enumerate().take(8) {
                        tt.t[i] += x.parse::<u64>().unwrap_or(0);
                    }
                }
                "D" => det = rest.to_string(),
                _ => {}
            }
        }
        let hf = file.with_extension("h");
        let hf = if hf.exists() { hf } else { PathBuf::from(format!("{}.h", file.display())) };
        if let Ok(b) = std::fs::read(&hf) {
            for c in b.chunks_exact(16) {
                let h = u64::from_le_bytes(c[..8].try_into().unwrap());
                tt.hashes.insert(h);
                if h & 1 == 1 {
                    tt.nontriv.insert(h);
                }
                tt.scheds.insert(u64::from_le_bytes(c[8..].try_into().unwrap()));
            }
        }
    }
    if let Some(f) = found {
        return ChunkEnd::Viol(f);
    }
    if st.code() == Some(0) {
        return ChunkEnd::Done { det };
    }
    let idx = std::fs::read(file).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(from);
    if st.code() == Some(9) {
        return ChunkEnd::Died(idx, "HANG".into());
    }
    if st.signal() == Some(9) {
        return ChunkEnd::Broken("a simulator process was killed".into());
    }
    ChunkEnd::Died(idx, "CRASH".into())
}

/// runs and wall-clock limit
fn tier_budget(tier: &str) -> (u64, u64) {
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let (n, w) = if tier == "thorough" { (5_000_000, 600) } else { (160_000, 75) };
    (env("NS_RUNS").unwrap_or(n), env("NS_WALL").unwrap_or(w))
}

pub fn check(args: &[String]) -> i32 {
    let prop = args.first().cloned().unwrap_or_default();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => tier = args.get(i + 1).cloned().unwrap_or_default(),
            "--seed" => seed = args.get(i + 1).and_then(|x| x.parse().ok()).unwrap_or(seed),
            _ => {}
        }
        i += 2;
    }
    println!("noodle-sim: property {prop} tier {tier} seed {seed}");
    let t0 = Instant::now();
    let (runs, wall) = tier_budget(&tier);
    let deadline = t0 + Duration::from_secs(wall);
    let exe = std::env::current_exe().expect("own path");
    let dir = Scratch(std::env::temp_dir().join(format!("noodle-sim.{}", std::process::id())));
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let workers = std::env::var("NS_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |x| x.get())) as u64;
    let tot = Mutex::new(Tot::default());
    let next = AtomicU64::new(0);
    // lowest run index that failed
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Vec<Found>> = Mutex::new(Vec::new());
    let died: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
    let broken: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let first_det: Mutex<Option<String>> = Mutex::new(None);
    let timed_out = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..workers {
            let (tot, next, best, found, died, broken, first_det, timed_out) = (&tot, &next, &best, &found, &died, &broken, &first_det, &timed_out);
            let (exe, prop, file) = (&exe, &prop, dir.0.join(format!("w{w}")));
            s.spawn(move || {
                loop {
                    let from = next.fetch_add(1, Ordering::SeqCst) * CHUNK;
                    if from >= runs || from > best.load(Ordering::SeqCst) || !broken.lock().unwrap().is_empty() {
                        break;
                    }
                    if Instant::now() > deadline {
                        timed_out.store(true, Ordering::SeqCst);
                        break;
                    }
                    let n = CHUNK.min(runs - from);
                    let stop = || from > best.load(Ordering::SeqCst) || Instant::now() > deadline + Duration::from_secs(60);
                    match run_chunk(exe, prop, seed, from, n, &file, tot, &stop) {
                        ChunkEnd::Done { det } => {
                            if from == 0 {
                                *first_det.lock().unwrap() = Some(det);
                            }
                        }
                        ChunkEnd::Viol(f) => {
                            best.fetch_min(f.idx, Ordering::SeqCst);
                            found.lock().unwrap().push(f);
                        }
                        ChunkEnd::Died(idx, what) => {
                            best.fetch_min(idx, Ordering::SeqCst);
                            died.lock().unwrap().push((idx, what));
                        }
                        ChunkEnd::Killed => {}
                        ChunkEnd::Broken(e) => broken.lock().unwrap().push(e),
                    }
                }
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    // the same seeds once more in another process must give the same histories
    let mut det_ok = None;
    let d = first_det.lock().unwrap().clone();
    if let Some(d) = d {
        let n = CHUNK.min(runs);
        if let ChunkEnd::Done { det } = run_chunk(&exe, &prop, seed, 0, n, &dir.0.join("det"), &Mutex::new(Tot::default()), &|| false) {
            det_ok = Some(det == d);
            if det != d {
                println!("warning: the first {n} runs were not deterministic");
            }
        }
    }
    let mut found = found.into_inner().unwrap();
    for (idx, what) in died.into_inner().unwrap() {
        // confirm alone
        match run_chunk(&exe, &prop, seed, idx, 1, &dir.0.join("confirm"), &Mutex::new(Tot::default()), &|| false) {
            ChunkEnd::Died(_, w) => found.push(Found { idx, class: w, msg: "the process crashed or hung inside the library".into() }),
            ChunkEnd::Viol(f) => found.push(f),
            _ => {
                // depends on what ran before in that process: show the chunk
                println!("warning: {what} at run {idx} did not reproduce alone");
                let from = idx / CHUNK * CHUNK;
                if let ChunkEnd::Died(..) = run_chunk(&exe, &prop, seed, from, idx - from + 1, &dir.0.join("confirm"), &Mutex::new(Tot::default()), &|| false) {
                    found.push(Found { idx, class: what, msg: format!("the process crashed or hung in runs {from}..={idx}") });
                }
            }
        }
    }
    found.sort_by_key(|f| f.idx);
    let broken = broken.into_inner().unwrap();
    let tot = tot.into_inner().unwrap();
    let mut code = 0;
    let mut viols = 0;
    if let Some(f) = found.first() {
        viols = 1;
        code = 1;
        println!("run {} of seed {seed} violates {prop} ({}): {}", f.idx, f.class, f.msg);
        let path = report(&exe, &prop, seed, f, &dir.0);
        println!("VIOLATION property={prop} replay={}", path.display());
    } else if !broken.is_empty() {
        println!("error: {}", broken[0]);
        code = 2;
    }
    if code == 0 {
        known_findings(&exe, &prop);
    }
    let wall_s = t0.elapsed().as_secs_f64();
    evidence(&prop, &tier, seed, &tot, search_s, wall_s, workers, det_ok, timed_out.load(Ordering::SeqCst), runs, viols);
    println!(
        "{} runs, {} distinct histories ({} non-trivial), {:.1} h simulated, {:.1} s wall{}",
        tot.t[0],
        tot.hashes.len(),
        tot.nontriv.len(),
        tot.t[2] as f64 / 3.6e9,
        wall_s,
        if code == 0 { ": held" } else { "" }
    );
    code
}

/// Replays what known_findings.txt lists for the property: "known: property=<id> replay=<file> <what fails>".
fn known_findings(exe: &Path, prop: &str) {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some((file, what)) = l.strip_prefix(&format!("known: property={prop} replay=")).and_then(|x| x.split_once(' ')) else { continue };
        let out = Command::new(exe).arg("replay").arg(verif().join(file)).arg("-q").stderr(Stdio::null()).output();
        if out.is_ok_and(|o| o.status.code() == Some(1)) {
            println!("KNOWN-FINDING: property={prop} {what}");
        }
    }
}

fn safe_plan(prop: &str, seed: u64, idx: u64) -> (crate::plan::Plan, u64) {
    let rs = run_seed(seed, prop, idx);
    (gen_plan(prop, rs), rs)
}

/// Minimise and write the replay file, in a process of its own: a candidate may bring it down.
fn report(exe: &Path, prop: &str, seed: u64, f: &Found, scratch: &Path) -> PathBuf {
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}-s{seed}-i{}.txt", f.class, f.idx));
    let _ = std::fs::remove_file(&path);
    let best = scratch.join("best.txt");
    let _ = std::fs::remove_file(&best);
    let args = [prop, &seed.to_string(), &f.idx.to_string(), &f.class, &f.msg];
    let t0 = Instant::now();
    let mut done = false;
    if let Ok(mut ch) = Command::new(exe).arg("minimise").args(args).arg(scratch).arg(&path).stderr(Stdio::null()).spawn() {
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    done = st.success();
                    break;
                }
                Ok(None) if t0.elapsed() < Duration::from_secs(120) => std::thread::sleep(Duration::from_millis(20)),
                _ => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break;
                }
            }
        }
    }
    if !done || !path.exists() {
        println!("warning: the minimisation broke off");
        if external_class(exe, &best).as_deref() == Some(f.class.as_str()) && std::fs::copy(&best, &path).is_ok() {
            return path;
        }
        let rs = run_seed(seed, prop, f.idx);
        let _ = std::fs::write(&path, format!("# {}\n# found as run {} of seed {seed}\nnoodle-sim-genreplay 1\nproperty {prop}\nclass {}\nseed {rs}\n", f.msg.replace('\n', " "), f.idx, f.class));
    }
    path
}

/// minimise PROP SEED IDX CLASS MSG SCRATCH PATH
pub fn minimise(a: &[String]) -> i32 {
    let [prop, seed, idx, class, msg, scratch, path] = a else { return 2 };
    let (Ok(seed), Ok(idx)) = (seed.parse(), idx.parse()) else { return 2 };
    let Ok(exe) = std::env::current_exe() else { return 2 };
    let f = Found { idx, class: class.clone(), msg: msg.clone() };
    write_report(&exe, prop, seed, &f, Path::new(scratch), Path::new(path));
    0
}

fn write_report(exe: &Path, prop: &str, seed: u64, f: &Found, scratch: &Path, path: &Path) {
    for_property(prop);
    let (mut plan, rs) = safe_plan(prop, seed, f.idx);
    let external = |r: &Replay| -> bool {
        let p = scratch.join("cand.txt");
        if std::fs::write(&p, r.to_text("")).is_err() {
            return false;
        }
        external_class(exe, &p).as_deref() == Some(f.class.as_str())
    };
    let proc_level = f.class == "CRASH" || f.class == "HANG";
    let mut best;
    if proc_level {
        // the run cannot be observed from inside; start from a schedule without recorded choices
        plan.faults.clear();
        best = Replay { property: prop.into(), class: f.class.clone(), plan, sched_tape: vec![], lat_tape: vec![] };
        let gen_file = format!("# found as run {} of seed {seed}\nnoodle-sim-genreplay 1\nproperty {prop}\nclass {}\nseed {rs}\n", f.idx, f.class);
        let _ = std::fs::write(&path, &gen_file);
        if !external(&best) {
            // needs the generated schedule and faults: replay by seed
            return;
        }
    } else {
        let o = run(&plan, RunMode::Gen(rs));
        plan.faults = o.fired.clone();
        best = Replay { property: prop.into(), class: f.class.clone(), plan, sched_tape: o.sched_tape, lat_tape: o.lat_tape };
    }
    let original = best.clone();
    let mut m = Min {
        class: f.class.clone(),
        deadline: budget(25),
        max_runs: if f.class == "HANG" { 8 } else { 4_000 },
        runs: 0,
        external: if proc_level { Some(&external) } else { None },
        checkpoint: scratch.join("best.txt"),
    };
    m.run(&mut best);
    let minimised_in = m.runs;
    for (k, cand) in [best, original].into_iter().enumerate() {
        let mut comment = format!(
            "property {prop}: {}\nfound as run {} of seed {seed}; {} ({minimised_in} runs)\nreplay with: /verif/check.sh replay {}\n",
            f.msg,
            f.idx,
            if k == 0 { "minimised" } else { "not minimised" },
            path.display()
        );
        if !proc_level {
            sim().verbose.set(true);
            let o = run(&cand.plan, RunMode::Replay { sched: cand.sched_tape.clone(), lat: cand.lat_tape.clone() });
            sim().verbose.set(false);
            if let Some(v) = &o.violation {
                let _ = writeln!(comment, "outcome: {} {}", v.class, v.msg);
            }
            comment.push_str("trace:\n");
            let skip = o.log.len().saturating_sub(600);
            for l in o.log.iter().skip(skip) {
                let _ = writeln!(comment, "  {l}");
            }
        }
        if std::fs::write(&path, cand.to_text(&comment)).is_err() {
            println!("error: cannot write {}", path.display());
        }
        if external_class(exe, &path).as_deref() == Some(f.class.as_str()) {
            if k == 0 {
                println!("minimised in {minimised_in} runs; the replay fails the same way in a fresh process");
            }
            return;
        }
        println!("warning: the {} replay does not fail in a fresh process", if k == 0 { "minimised" } else { "full" });
    }
    let _ = std::fs::write(&path, format!("# found as run {} of seed {seed}\nnoodle-sim-genreplay 1\nproperty {prop}\nclass {}\nseed {rs}\n", f.idx, f.class));
}

/// the class of violation a replay file produces in a fresh process
fn external_class(exe: &Path, file: &Path) -> Option<String> {
    let mut ch = Command::new(exe).arg("replay").arg(file).arg("-q").stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let st = ch.wait().ok()?;
    let mut s = String::new();
    let _ = ch.stdout.take()?.read_to_string(&mut s);
    if st.signal().is_some_and(|x| x != 9) || st.code() == Some(134) || st.code() == Some(101) {
        return Some("CRASH".into());
    }
    if st.code() == Some(9) {
        return Some("HANG".into());
    }
    s.lines().find_map(|l| l.strip_prefix("REPRODUCED ")).and_then(|l| l.split(' ').next()).map(|x| x.to_string())
}

pub fn replay(file: &str, verbose: bool, quiet: bool) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        println!("cannot read {file}");
        return 2;
    };
    watchdog(&IDX);
    let o;
    let want;
    if let Some(line) = text.lines().find(|l| l.starts_with("noodle-sim-genreplay")) {
        let _ = line;
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let (prop, seed) = (get("property "), get("seed ").parse::<u64>().unwrap_or(0));
        want = get("class ");
        for_property(&prop);
        sim().verbose.set(verbose && want != "CRASH" && want != "HANG");
        o = run(&gen_plan(&prop, seed), RunMode::Gen(seed));
    } else {
        let Some(r) = Replay::parse(&text) else {
            println!("{file} is not a replay file");
            return 2;
        };
        for_property(&r.property);
        want = r.class.clone();
        sim().verbose.set(verbose);
        o = run(&r.plan, RunMode::Replay { sched: r.sched_tape, lat: r.lat_tape });
    }
    if verbose && !quiet {
        for l in &o.log {
            println!("{l}");
        }
    }
    match o.violation {
        None => {
            println!("no violation (history {:016x})", o.hash);
            0
        }
        Some(v) => {
            println!("REPRODUCED {} {} (history {:016x})", v.class, v.msg, o.hash);
            if v.class == want { 1 } else { 4 }
        }
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, t: &Tot, search_s: f64, wall_s: f64, workers: u64, det: Option<bool>, timed_out: bool, planned: u64, viols: u64) {
    for_property(prop);
    let mut samples = String::new();
    for i in 0..3u64 {
        // samples are only written out when nothing went wrong: a broken library might take this process down
        if viols > 0 && i > 0 {
            break;
        }
        let (plan, rs) = safe_plan(prop, seed, i);
        let r = Replay { property: prop.into(), class: String::new(), plan, sched_tape: vec![], lat_tape: vec![] };
        let _ = write!(samples, "{}{{\"run\":{i},\"run_seed\":{rs},\"plan\":{}}}", if i > 0 { "," } else { "" }, js(&r.to_text("")));
    }
    let map = |pre: &str| -> String {
        let v: Vec<String> = t.stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}:{v}", js(&k[pre.len()..]))).collect();
        format!("{{{}}}", v.join(","))
    };
    let rate = |x: u64| (x as f64 / search_s.max(0.001) * 3600.0) as u64;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"exploration\",\n\"coverage\":{{\n\
\"evaluations\":{},\n\"distinct_nontrivial\":{},\n\
\"rule\":{},\n\
\"planned_runs\":{planned},\n\"stopped_by_wall_clock\":{timed_out},\n\
\"runs_per_hour\":{},\n\"seeds_per_hour\":{},\n\"simulated_hours\":{:.3},\n\"scheduler_steps\":{},\n\"preemptions\":{},\n\
\"boots\":{},\n\"power_cuts\":{},\n\"storage_operations_in_last_boots\":{},\n\
\"distinct_histories\":{},\n\"distinct_schedules\":{},\n\
\"faults_injected\":{},\n\"operations_cancelled\":{},\n\"operations\":{},\n\"flush_outcomes\":{},\n\"oracle_evaluations\":{},\n\"rare_conditions\":{},\n\
\"determinism_recheck\":{},\n\"worker_processes\":{workers},\n\
\"real_code\":[\"cfg-noodle (whole crate, /repo working tree)\",\"sequential-storage 7 (NOR backends)\",\"maitake-sync mutexes and wait queues\",\"cordyceps list\",\"minicbor\",\"embassy-time timers and embassy-futures select\"],\n\
\"stubs\":[\"executor and scheduler (seeded)\",\"clock (embassy-time driver, virtual)\",\"raw mutex (preemption points)\",\"element storage or NOR flash chip (fault injecting)\",\"power supply (crash at any storage operation, scheduling step or instant)\"],\n\
\"samples\":[{samples}]\n}},\n",
        js(prop),
        js(if tier == "thorough" { "thorough" } else { "quick" }),
        t.t[0],
        t.nontriv.len(),
        js("one evaluation = one simulated run of a generated plan (media contents, nodes, several boots, client and storage-owner operations) under one seeded schedule and fault sequence; non-trivial = at least one crash, injected fault, cancellation, bit rot or preemption took place; distinct = different hash of the observed event history (operations, results, faults, virtual times)"),
        rate(t.t[0]),
        rate(t.t[0]),
        t.t[2] as f64 / 3.6e9,
        t.t[1],
        t.t[3],
        t.t[6],
        t.t[4],
        t.t[5],
        t.hashes.len(),
        t.scheds.len(),
        map("fault."),
        map("cancel."),
        map("op."),
        map("flush."),
        map("check."),
        map("rare."),
        match det {
            Some(true) => "\"first chunk re-run in another process: identical histories\"",
            Some(false) => "\"MISMATCH\"",
            None => "\"not done\"",
        },
    );
    let _ = write!(
        o,
        "\"assumptions\":[{},{},{}],\n\"wall_s\":{wall_s:.2},\n\"violations\":{viols}\n}}\n",
        js("sampling: a silent batch is evidence, not proof"),
        js("cooperative scheduling with preemption points at mutex operations, wake-ups and value encode/clone/drop; weaker memory orderings are not explored"),
        js("element storage is atomic per push/invalidate except under the torn/garbled/lost faults; NOR words are written in order")
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), o).is_err() {
        println!("error: cannot write evidence");
    }
}
