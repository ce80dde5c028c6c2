//! A plan is everything a simulated run depends on; it is what the replay file contains.

use crate::exec::SchedParams;
use crate::model::Mode;
use crate::store::{Crash, FK, FaultEv, Rates};
use crate::val::{ALL_TY, Ty};
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Backend {
    Q256,
    Q64,
    NorA,
    NorACached,
    NorBCached,
    NorC,
    NorD,
    NorE,
}
pub const ALL_BE: [Backend; 8] =
    [Backend::Q256, Backend::Q64, Backend::NorA, Backend::NorACached, Backend::NorBCached, Backend::NorC, Backend::NorD, Backend::NorE];
impl Backend {
    pub fn is_nor(self) -> bool {
        !matches!(self, Backend::Q256 | Backend::Q64)
    }
    pub fn page(self) -> usize {
        match self {
            Backend::NorBCached => 512,
            Backend::NorE => 1024,
            _ => 256,
        }
    }
    /// the larger of the write and read granularity
    pub fn word(self) -> usize {
        match self {
            Backend::NorBCached => 8,
            Backend::NorC => 4,
            Backend::NorD => 8,
            Backend::NorE => 1,
            _ => 4,
        }
    }
    pub fn max_elem(self) -> usize {
        match self {
            Backend::Q64 => 64,
            Backend::Q256 => 256,
            // two words of each page and the header of the item are not available
            _ => self.page() - 2 * self.word() - 8usize.next_multiple_of(self.word()),
        }
    }
}

/// client operations; `c` = 0 runs to completion, otherwise the future is dropped after c polls
#[derive(Clone, PartialEq, Debug)]
pub enum COp {
    Attach { n: usize, l: usize, d: u64, c: u32 },
    Load { n: usize },
    Write { n: usize, id: u64, c: u32 },
    Drop { n: usize },
    Detach { n: usize, l: usize, c: u32 },
    Sleep(u64),
    /// sleep until this time after the start of the boot
    At(u64),
    Yield,
}
/// operations of the task that owns the storage
#[derive(Clone, PartialEq, Debug)]
pub enum DOp {
    Read(u32),
    Write(u32),
    Gc(u32),
    Reset(u32),
    Wipe,
    Sleep(u64),
    WaitWrite(u64),
    WaitRead(u64),
    Yield,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Boot {
    pub mode: Mode,
    pub drivers: Vec<Vec<DOp>>,
    pub clients: Vec<Vec<COp>>,
    pub crash: Crash,
    /// (list, op, a, b) damage done while the power was off, before this boot
    pub rot: Vec<(usize, u32, u32, u32)>,
    pub stop_at: u64,
    pub heal_at: u64,
    /// schema changes: (node, type)
    pub tys: Vec<(usize, Ty)>,
    pub probe: bool,
    /// storage faults may happen in this boot
    pub faulty: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Plan {
    pub backend: Backend,
    pub k: usize,
    pub lists: usize,
    pub cap: usize,
    pub nodes: Vec<(String, Ty)>,
    pub boots: Vec<Boot>,
    /// elements on the medium before the first boot
    pub initial: Vec<(usize, Vec<u8>)>,
    pub sched: SchedParams,
    pub lat: u32,
    /// the scratch buffers are this much larger than necessary
    pub buf_extra: usize,
    pub faults: Vec<FaultEv>,
    /// only used while generating
    pub rates: Rates,
    pub oversize: bool,
    /// the medium is too small for the retained states plus a new one: flushes may fail
    pub tight: bool,
}

/// a plan plus the recorded decisions
#[derive(Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub plan: Plan,
    pub sched_tape: Vec<u32>,
    pub lat_tape: Vec<u32>,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    if s.is_empty() { "-".into() } else { s }
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn tape_str(t: &[u32]) -> String {
    // run-length: value*count
    let mut s = String::new();
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j] == t[i] {
            j += 1;
        }
        if !s.is_empty() {
            s.push(' ');
        }
        if j - i > 1 {
            let _ = write!(s, "{}*{}", t[i], j - i);
        } else {
            let _ = write!(s, "{}", t[i]);
        }
        i = j;
    }
    s
}
fn tape_parse(s: &str) -> Vec<u32> {
    let mut v = Vec::new();
    for w in s.split_whitespace() {
        match w.split_once('*') {
            Some((a, n)) => {
                let a = a.parse().unwrap_or(0);
                for _ in 0..n.parse::<usize>().unwrap_or(0) {
                    v.push(a);
                }
            }
            None => v.push(w.parse().unwrap_or(0)),
        }
    }
    v
}

impl Replay {
    pub fn to_text(&self, comment: &str) -> String {
        let p = &self.plan;
        let mut s = String::new();
        for l in comment.lines() {
            let _ = writeln!(s, "# {l}");
        }
        let _ = writeln!(s, "noodle-sim-replay 1");
        let _ = writeln!(s, "property {}", self.property);
        let _ = writeln!(s, "class {}", self.class);
        let _ = writeln!(s, "backend {:?}", p.backend);
        let _ = writeln!(s, "k {}", p.k);
        let _ = writeln!(s, "lists {}", p.lists);
        let _ = writeln!(s, "cap {}", p.cap);
        let _ = writeln!(s, "sched {} {}", p.sched.preempt, p.sched.policy);
        let _ = writeln!(s, "lat {}", p.lat);
        let _ = writeln!(s, "buf {}", p.buf_extra);
        let _ = writeln!(s, "tight {}", p.tight as u32);
        let _ = writeln!(s, "oversize {}", p.oversize as u32);
        for (k, t) in &p.nodes {
            let _ = writeln!(s, "node {t:?} {}", hex(k.as_bytes()));
        }
        for (l, b) in &p.initial {
            let _ = writeln!(s, "initial {l} {}", hex(b));
        }
        for b in &p.boots {
            let _ = writeln!(s, "boot {:?} {} {} {} {}", b.mode, b.stop_at, b.heal_at, b.probe as u32, b.faulty as u32);
            match b.crash {
                Crash::None => {}
                Crash::Step(n) => drop(writeln!(s, "crash step {n} 0")),
                Crash::Time(n) => drop(writeln!(s, "crash time {n} 0")),
                Crash::Op(a, b) => drop(writeln!(s, "crash op {a} {b}")),
                Crash::Nor(a, b) => drop(writeln!(s, "crash nor {a} {b}")),
                Crash::Mut(a, b) => drop(writeln!(s, "crash mut {a} {b}")),
                Crash::NorMut(a, b) => drop(writeln!(s, "crash normut {a} {b}")),
            }
            for (l, o, a, x) in &b.rot {
                let _ = writeln!(s, "rot {l} {o} {a} {x}");
            }
            for (n, t) in &b.tys {
                let _ = writeln!(s, "ty {n} {t:?}");
            }
            for d in &b.drivers {
                let _ = writeln!(s, "driver");
                for o in d {
                    let _ = match o {
                        DOp::Read(c) => writeln!(s, "  read {c}"),
                        DOp::Write(c) => writeln!(s, "  flush {c}"),
                        DOp::Gc(c) => writeln!(s, "  gc {c}"),
                        DOp::Reset(c) => writeln!(s, "  reset {c}"),
                        DOp::Wipe => writeln!(s, "  wipe"),
                        DOp::Sleep(u) => writeln!(s, "  sleep {u}"),
                        DOp::WaitWrite(u) => writeln!(s, "  waitwrite {u}"),
                        DOp::WaitRead(u) => writeln!(s, "  waitread {u}"),
                        DOp::Yield => writeln!(s, "  yield"),
                    };
                }
            }
            for c in &b.clients {
                let _ = writeln!(s, "client");
                for o in c {
                    let _ = match o {
                        COp::Attach { n, l, d, c } => writeln!(s, "  attach {n} {l} {d} {c}"),
                        COp::Load { n } => writeln!(s, "  load {n}"),
                        COp::Write { n, id, c } => writeln!(s, "  write {n} {id} {c}"),
                        COp::Drop { n } => writeln!(s, "  drop {n}"),
                        COp::Detach { n, l, c } => writeln!(s, "  detach {n} {l} {c}"),
                        COp::Sleep(u) => writeln!(s, "  sleep {u}"),
                        COp::At(u) => writeln!(s, "  at {u}"),
                        COp::Yield => writeln!(s, "  yield"),
                    };
                }
            }
        }
        for f in &p.faults {
            let _ = writeln!(s, "fault {} {} {} {} {}", f.boot, f.level, f.op, f.kind.name(), f.arg);
        }
        let _ = writeln!(s, "tape {}", tape_str(&self.sched_tape));
        let _ = writeln!(s, "lattape {}", tape_str(&self.lat_tape));
        s
    }

    pub fn parse(text: &str) -> Option<Replay> {
        let mut r = Replay {
            property: String::new(),
            class: String::new(),
            plan: Plan {
                backend: Backend::Q256,
                k: 3,
                lists: 1,
                cap: 4096,
                nodes: vec![],
                boots: vec![],
                initial: vec![],
                sched: SchedParams::default(),
                lat: 0,
                buf_extra: 0,
                faults: vec![],
                rates: Rates::default(),
                oversize: false,
                tight: false,
            },
            sched_tape: vec![],
            lat_tape: vec![],
        };
        let mut in_client = false;
        let mut ok = false;
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            let f: Vec<&str> = rest.split_whitespace().collect();
            let num = |i: usize| -> u64 { f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            let us = |i: usize| num(i) as usize;
            let u3 = |i: usize| num(i) as u32;
            let ty = |i: usize| -> Ty { f.get(i).and_then(|x| ALL_TY.into_iter().find(|t| format!("{t:?}") == *x)).unwrap_or(Ty::Val) };
            let p = &mut r.plan;
            match w {
                "noodle-sim-replay" => ok = true,
                "property" => r.property = rest.into(),
                "class" => r.class = rest.into(),
                "backend" => p.backend = ALL_BE.into_iter().find(|b| format!("{b:?}") == rest)?,
                "k" => p.k = us(0),
                "lists" => p.lists = us(0),
                "cap" => p.cap = us(0),
                "lat" => p.lat = u3(0),
                "buf" => p.buf_extra = us(0),
                "tight" => p.tight = num(0) != 0,
                "oversize" => p.oversize = num(0) != 0,
                "node" => p.nodes.push((String::from_utf8(unhex(f.get(1)?)).ok()?, ty(0))),
                "initial" => p.initial.push((us(0), unhex(f.get(1)?))),
                "boot" => p.boots.push(Boot {
                    mode: match *f.first()? {
                        "Direct" => Mode::Direct,
                        "Worker" => Mode::Worker,
                        _ => Mode::Noop,
                    },
                    drivers: vec![],
                    clients: vec![],
                    crash: Crash::None,
                    rot: vec![],
                    stop_at: num(1),
                    heal_at: num(2),
                    tys: vec![],
                    probe: num(3) != 0,
                    faulty: num(4) != 0,
                }),
                "sched" => p.sched = SchedParams { preempt: u3(0), policy: u3(1) },
                "fault" => p.faults.push(FaultEv { boot: u3(0), level: u3(1), op: u3(2), kind: FK::parse(f.get(3)?)?, arg: u3(4) }),
                "tape" => r.sched_tape = tape_parse(rest),
                "lattape" => r.lat_tape = tape_parse(rest),
                _ => {
                    let b = p.boots.last_mut()?;
                    match w {
                        "crash" => {
                            b.crash = match *f.first()? {
                                "step" => Crash::Step(num(1)),
                                "time" => Crash::Time(num(1)),
                                "op" => Crash::Op(u3(1), u3(2)),
                                "mut" => Crash::Mut(u3(1), u3(2)),
                                "normut" => Crash::NorMut(u3(1), u3(2)),
                                _ => Crash::Nor(u3(1), u3(2)),
                            }
                        }
                        "rot" => b.rot.push((us(0), u3(1), u3(2), u3(3))),
                        "ty" => b.tys.push((us(0), ty(1))),
                        "driver" => {
                            in_client = false;
                            b.drivers.push(vec![]);
                        }
                        "client" => {
                            in_client = true;
                            b.clients.push(vec![]);
                        }
                        _ if in_client => {
                            let o = match w {
                                "attach" => COp::Attach { n: us(0), l: us(1), d: num(2), c: u3(3) },
                                "load" => COp::Load { n: us(0) },
                                "write" => COp::Write { n: us(0), id: num(1), c: u3(2) },
                                "drop" => COp::Drop { n: us(0) },
                                "detach" => COp::Detach { n: us(0), l: us(1), c: u3(2) },
                                "sleep" => COp::Sleep(num(0)),
                                "at" => COp::At(num(0)),
                                "yield" => COp::Yield,
                                _ => return None,
                            };
                            b.clients.last_mut()?.push(o);
                        }
                        _ => {
                            let o = match w {
                                "read" => DOp::Read(u3(0)),
                                "flush" => DOp::Write(u3(0)),
                                "gc" => DOp::Gc(u3(0)),
                                "reset" => DOp::Reset(u3(0)),
                                "wipe" => DOp::Wipe,
                                "sleep" => DOp::Sleep(num(0)),
                                "waitwrite" => DOp::WaitWrite(num(0)),
                                "waitread" => DOp::WaitRead(num(0)),
                                "yield" => DOp::Yield,
                                _ => return None,
                            };
                            b.drivers.last_mut()?.push(o);
                        }
                    }
                }
            }
        }
        if ok { Some(r) } else { None }
    }
}
