//! Seeded generation of plans. Every property has its own mix of scenario features (swarm style:
//! each feature is switched on or off per run).

use crate::exec::{Rng, SchedParams};
use crate::model::Mode;
use crate::plan::{Backend, Boot, COp, DOp, Plan};
use crate::store::{Crash, Rates, crc_final, crc_update, end_bytes, qsize, start_bytes};
use crate::val::{self, Ty, mkid};

/// probabilities in percent
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub crash: u32,
    pub faults: u32,
    /// of the faulty runs: storage that silently loses or alters writes
    pub lying: u32,
    pub cancel: u32,
    pub rot: u32,
    pub nor: u32,
    pub worker: u32,
    pub noop: u32,
    pub schema: u32,
    pub oversize: u32,
    pub two: u32,
    pub initial: u32,
    pub reset: u32,
    pub wipe: u32,
    pub twins: u32,
    pub lat: u32,
    pub preempt: u32,
    /// prefer many boots
    pub boots: u32,
    /// contention on nodes
    pub contend: u32,
    pub detach: u32,
    /// worker: fraction of early stops
    pub early_stop: u32,
    pub waits: u32,
    /// a medium without room for everything
    pub tight: u32,
}
const BASE: Cfg = Cfg {
    crash: 20,
    faults: 15,
    lying: 20,
    cancel: 15,
    rot: 5,
    nor: 12,
    worker: 0,
    noop: 0,
    schema: 3,
    oversize: 3,
    two: 5,
    initial: 15,
    reset: 8,
    wipe: 2,
    twins: 15,
    lat: 50,
    preempt: 55,
    boots: 40,
    contend: 20,
    detach: 25,
    early_stop: 40,
    waits: 15,
    tight: 6,
};

pub fn cfg_for(prop: &str) -> Cfg {
    let b = BASE;
    match prop {
        "C01" => Cfg { tight: 15, crash: 80, boots: 85, faults: 20, cancel: 15, nor: 20, ..b },
        "C02" => Cfg { tight: 10, crash: 60, boots: 70, faults: 15, preempt: 75, lat: 70, ..b },
        "C03" => Cfg { tight: 15, crash: 40, boots: 70, rot: 35, faults: 25, cancel: 25, initial: 35, nor: 15, ..b },
        "C04" => Cfg { crash: 35, boots: 60, faults: 30, cancel: 25, initial: 50, rot: 20, nor: 15, ..b },
        "C05" => Cfg { worker: 12, rot: 75, initial: 80, boots: 80, crash: 30, nor: 15, schema: 10, ..b },
        "C06" => Cfg { tight: 10, faults: 100, lying: 25, crash: 15, cancel: 10, nor: 15, ..b },
        "C07" => Cfg { cancel: 100, lat: 90, faults: 10, crash: 15, nor: 15, ..b },
        "C08" => Cfg { faults: 85, lying: 80, crash: 10, preempt: 40, ..b },
        "C09" => Cfg { faults: 15, crash: 15, preempt: 60, waits: 5, detach: 40, reset: 10, ..b },
        "C10" => Cfg { preempt: 90, lat: 85, waits: 60, worker: 15, faults: 10, crash: 10, cancel: 10, ..b },
        "C11" => Cfg { preempt: 95, lat: 70, contend: 40, faults: 15, crash: 5, cancel: 15, ..b },
        "C12" => Cfg { preempt: 85, lat: 70, contend: 35, faults: 20, cancel: 40, twins: 30, waits: 55, initial: 40, worker: 8, ..b },
        "C13" => Cfg { contend: 80, twins: 60, two: 50, detach: 75, preempt: 75, cancel: 30, lat: 60, crash: 5, ..b },
        "C14" => Cfg { detach: 90, contend: 40, preempt: 60, cancel: 25, lat: 50, ..b },
        "C15" => Cfg { tight: 0, worker: 100, faults: 0, crash: 15, cancel: 10, early_stop: 15, nor: 10, two: 0, oversize: 0, reset: 0, wipe: 0, ..b },
        "C16" => Cfg { tight: 0, worker: 100, faults: 0, crash: 15, cancel: 15, early_stop: 15, nor: 10, two: 0, oversize: 0, reset: 0, wipe: 0, ..b },
        "C17" => Cfg { tight: 0, worker: 100, faults: 0, crash: 0, cancel: 10, early_stop: 85, nor: 10, two: 0, oversize: 0, reset: 0, wipe: 0, lat: 75, ..b },
        "C18" => Cfg { tight: 0, worker: 100, faults: 0, crash: 5, cancel: 5, early_stop: 10, nor: 8, two: 0, oversize: 0, reset: 0, wipe: 0, ..b },
        "C19" => Cfg { tight: 0, worker: 100, faults: 100, crash: 5, cancel: 5, early_stop: 5, nor: 10, two: 0, oversize: 0, reset: 0, wipe: 0, lying: 30, ..b },
        "C20" => Cfg { schema: 95, boots: 90, crash: 20, faults: 10, ..b },
        "C21" => Cfg { initial: 90, rot: 20, boots: 50, nor: 60, crash: 20, ..b },
        "C22" => Cfg { initial: 55, rot: 35, boots: 80, crash: 45, faults: 30, reset: 15, ..b },
        "C23" => Cfg { oversize: 95, crash: 20, faults: 8, cancel: 8, ..b },
        "C24" => Cfg { tight: 10, initial: 50, faults: 15, crash: 20, nor: 25, cancel: 20, oversize: 5, ..b },
        "C25" => Cfg { reset: 95, wipe: 40, crash: 10, faults: 15, waits: 5, ..b },
        "C26" => Cfg { noop: 100, crash: 0, faults: 0, preempt: 70, cancel: 30, detach: 60, two: 0, nor: 0, rot: 0, schema: 0, ..b },
        "C27" => Cfg { two: 95, nor: 60, detach: 50, contend: 35, preempt: 50, crash: 25, faults: 20, ..b },
        _ => b,
    }
}

struct G<'a> {
    r: &'a mut Rng,
    next: u64,
    maxlen: u32,
    lens: Vec<u32>,
    cancel: bool,
    lat: u32,
    over: bool,
    max_elem: usize,
    nl: usize,
    nodes: Vec<(String, Ty)>,
}
impl G<'_> {
    fn id(&mut self, ty: Ty) -> u64 {
        self.next += 1;
        let len = if ty == Ty::Text { self.r.below(30) as u32 } else { *self.r.pick(&self.lens) };
        mkid(len.min(self.maxlen), self.next)
    }
    fn over_id(&mut self, key: &str) -> u64 {
        self.next += 1;
        // around the exact limit: 1 header + key + bytes header + 8 + len
        let fixed = 1 + minicbor::len(key) + if self.max_elem > 256 { 3 } else { 2 } + 8;
        let lim = self.max_elem as i64 - fixed as i64;
        let d = *self.r.pick(&[-2i64, -1, 0, 0, 1, 1, 2, 3, 10, 60]);
        mkid((lim + d).max(0) as u32, self.next)
    }
    fn c(&mut self) -> u32 {
        if self.cancel && self.r.chance(1, 3) {
            let m = *self.r.pick(&[2u64, 4, 10, 30]);
            1 + self.r.below(m) as u32
        } else {
            0
        }
    }
}

pub fn gen_plan(prop: &str, seed: u64) -> Plan {
    let mut rng = Rng::new(seed);
    let c = cfg_for(prop);
    let on = |r: &mut Rng, p: u32| r.chance(p, 100);
    let r = &mut rng;
    let noop = on(r, c.noop);
    let worker = !noop && on(r, c.worker);
    let two = !worker && !noop && on(r, c.two);
    let backend = if on(r, c.nor) {
        *r.pick(&[Backend::NorA, Backend::NorACached, Backend::NorBCached, Backend::NorC, Backend::NorD, Backend::NorE])
    } else if r.chance(1, 3) {
        Backend::Q64
    } else {
        Backend::Q256
    };
    let k = *r.pick(&[1usize, 2, 2, 3, 3, 3, 5]);
    let lists = if two { 2 } else { 1 };
    let schema = on(r, c.schema);
    let max_elem = backend.max_elem();
    // ---- nodes
    let nn = match r.below(10) {
        0..=1 => 1,
        2..=4 => 2,
        5..=7 => 3,
        8 => 4,
        _ => *r.pick(&[5u64, 6, 6, 7, 9, 12]),
    } as usize;
    let mut nodes: Vec<(String, Ty)> = Vec::new();
    let twins = on(r, c.twins);
    for i in 0..nn {
        let key = match r.below(10) {
            0 => format!("config/{i}"),
            1 if backend != Backend::Q64 => format!("a/very/long/key/with/more/than/24/bytes/{i}"),
            2 => format!("é{i}"),
            5 if max_elem > 900 && r.chance(1, 3) => format!("{}{i}", "x".repeat(260)),
            3 if i == 0 => String::new(),
            4 => "k".repeat(i + 1),
            _ => format!("k{i}"),
        };
        let ty = if schema {
            *r.pick(&[Ty::V1, Ty::V1, Ty::V2Opt, Ty::V2Mand, Ty::V3Less, Ty::Changed, Ty::Val])
        } else {
            match r.below(20) {
                0 => Ty::Zst,
                1 => Ty::U8,
                2..=3 => Ty::U64,
                4 => Ty::Aligned,
                5 => Ty::Big,
                6 => Ty::Text,
                7 => Ty::V1,
                _ => Ty::Val,
            }
        };
        if nodes.iter().any(|n| n.0 == key) {
            nodes.push((format!("z{i}"), ty));
        } else {
            nodes.push((key, ty));
        }
    }
    if !schema && r.chance(if prop == "C23" { 25 } else { 2 }, 100) {
        // a key that leaves just enough room for a tiny value
        let i = r.below(nn as u64) as usize;
        let (ty, v) = if r.chance(1, 2) { (Ty::Zst, 1) } else { (Ty::U8, 2) };
        let mut l = max_elem - 1 - v;
        while 1 + minicbor::len("s".repeat(l)) + v > max_elem {
            l -= 1;
        }
        nodes[i] = ("s".repeat(l), ty);
    }
    if twins && nn > 1 {
        // same key on two nodes (with the same type, or the stored value would not decode)
        let a = r.below(nn as u64) as usize;
        let b = (a + 1) % nn;
        nodes[b] = nodes[a].clone();
    }
    let oversize = !worker && on(r, c.oversize);
    let maxlen = match backend {
        Backend::Q64 => 24,
        Backend::NorBCached => 400,
        Backend::NorE => 700,
        Backend::Q256 => 200,
        _ => 120,
    };
    let lens: Vec<u32> = (0..3).map(|_| *r.pick(&[0u32, 0, 1, 3, 7, 12, 13, 14, 15, 16, 24, 60, 120, 200, 247, 248, 500, 700])).collect();
    let longest = if oversize { max_elem as u32 } else { maxlen.min(*lens.iter().max().unwrap()) } as usize;
    let rec: usize = qsize(5) + qsize(9) + nodes.iter().map(|n| qsize((1 + n.0.len() + 3 + 42.max(13 + longest)).min(max_elem.max(60)))).sum::<usize>();
    let slack = *r.pick(&[16usize, 16, 200, 4000]);
    let tight = !worker && !noop && on(r, c.tight);
    let cap = if tight {
        let f = r.range(1, k as u64 + 1) as usize;
        if backend.is_nor() { (f * rec).min(backend.page() * 6) } else { (f * rec * 2 / 3).max(100) }
    } else if backend.is_nor() { (k + 1) * rec * 3 + 8 * backend.page() } else { (k + 1) * rec + slack };

    // ---- scheduling and faults
    let preempt_on = on(r, c.preempt);
    let sched = SchedParams {
        preempt: if preempt_on { *r.pick(&[30u32, 100, 300]) } else { 0 },
        policy: r.below(2) as u32,
    };
    let cancel = on(r, c.cancel);
    let lat = if on(r, c.lat) || cancel && r.chance(3, 4) { r.range(1, if worker { 4 } else { 3 }) as u32 } else { 0 };
    let faulty = on(r, c.faults);
    let mut rates = Rates::default();
    if faulty {
        let lying = on(r, c.lying);
        let lvl = *r.pick(&[15u32, 60, 60, 200, 800]);
        for (i, e) in rates.elem.iter_mut().enumerate() {
            let use_it = match i {
                0 | 1 => r.chance(3, 4),
                2 | 3 => lying && r.chance(3, 4),
                4 => r.chance(1, 4),
                _ => false,
            };
            if use_it {
                *e = lvl;
            }
        }
        if backend.is_nor() && r.chance(1, 2) {
            for i in [0usize, 1, 5] {
                if r.chance(1, 2) {
                    rates.nor[i] = *r.pick(&[5u32, 20, 60]);
                }
            }
        }
    }
    let mut g = G { r, next: 0, maxlen, lens, cancel, lat, over: oversize, max_elem, nl: lists, nodes: nodes.clone() };

    // ---- initial contents
    let mut initial = Vec::new();
    if g.r.chance(c.initial, 100) {
        for l in 0..lists {
            for e in craft(&mut g, &nodes, k).into_iter().filter(|e| e.len() <= max_elem) {
                initial.push((l, e));
            }
        }
    }

    // room for the odd elements in crafted states
    let cap = if initial.is_empty() { cap } else { cap + (k + 1) * qsize(8) };
    // the pages of a NOR device are only reused from the front: what lies between retained states stays occupied
    let cap = if backend.is_nor() { cap + initial.iter().map(|e| 2 * qsize(e.1.len())).sum::<usize>() } else { cap };
    let cap = if initial.len() > 150 { cap + initial.iter().map(|e| qsize(e.1.len())).sum::<usize>() } else { cap };
    let buf_extra = if g.r.chance(1, 8) { *g.r.pick(&[1usize, 7, 64]) } else { 0 };

    // ---- boots
    let nboots = if g.r.chance(c.boots, 100) { g.r.range(2, 4) } else { g.r.range(1, 2) } as usize;
    let mut boots = Vec::new();
    for bi in 0..nboots {
        let mode = if noop {
            Mode::Noop
        } else if worker && (bi > 0 || g.r.chance(4, 5)) {
            Mode::Worker
        } else {
            Mode::Direct
        };
        let mut b = Boot {
            mode,
            drivers: vec![],
            clients: vec![],
            crash: Crash::None,
            rot: vec![],
            stop_at: 0,
            heal_at: 0,
            tys: vec![],
            probe: mode == Mode::Direct && g.r.chance(1, 3),
            faulty: faulty && mode != Mode::Noop && g.r.chance(5, 6),
        };
        if bi > 0 && g.r.chance(c.rot, 100) {
            for _ in 0..g.r.range(1, 3) {
                b.rot.push((g.r.below(2) as usize, g.r.below(7) as u32, g.r.below(64) as u32, g.r.below(1 << 24) as u32));
            }
        }
        if schema && bi > 0 {
            for (i, n) in nodes.iter().enumerate() {
                if g.r.chance(1, 2) {
                    let t = if n.1 == Ty::Val { *g.r.pick(&[Ty::Val, Ty::Text, Ty::V1]) } else { *g.r.pick(&[Ty::V1, Ty::V2Opt, Ty::V2Mand, Ty::V3Less, Ty::Changed]) };
                    b.tys.push((i, t));
                    // twins keep the same type
                    for (j, o) in nodes.iter().enumerate() {
                        if j != i && o.0 == n.0 {
                            b.tys.push((j, t));
                        }
                    }
                }
            }
        }
        if g.r.chance(c.crash, 100) {
            b.crash = match g.r.below(10) {
                0..=2 => Crash::Op(g.r.below(if mode == Mode::Worker { 60 } else { 90 }) as u32, g.r.below(3) as u32),
                3..=5 => Crash::Mut(g.r.below(40) as u32, g.r.below(3) as u32),
                6..=7 if backend.is_nor() => Crash::Nor(g.r.below(400) as u32, g.r.below(17) as u32),
                8 if mode == Mode::Worker => Crash::Time(g.r.below(60_000_000)),
                8 if lat > 0 => Crash::Time(g.r.below(100_000)),
                _ => Crash::Step(g.r.below(500)),
            };
            if backend.is_nor() && g.r.chance(1, 2) {
                b.crash = if g.r.chance(1, 3) {
                    Crash::Nor(g.r.below(600) as u32, g.r.below(17) as u32)
                } else {
                    Crash::NorMut(g.r.below(120) as u32, g.r.below(17) as u32)
                };
            }
        }
        match mode {
            Mode::Direct => {
                for _ in 0..lists {
                    b.drivers.push(driver_ops(&mut g, &c));
                }
                b.clients = clients(&mut g, &c, false);
            }
            Mode::Worker => worker_boot(&mut g, &c, &mut b),
            Mode::Noop => b.clients = clients(&mut g, &c, false),
        }
        boots.push(b);
    }
    Plan { backend, k, lists, cap, nodes, boots, initial, sched, lat, buf_extra, faults: vec![], rates, oversize, tight }
}

fn driver_ops(g: &mut G, c: &Cfg) -> Vec<DOp> {
    let mut v = Vec::new();
    let reset_on = g.r.chance(c.reset, 100);
    let wipe_on = g.r.chance(c.wipe, 100);
    let waits = g.r.chance(c.waits, 100);
    let orderly = g.r.chance(1, 2);
    if g.r.chance(5, 6) {
        v.push(DOp::Read(g.c()));
    }
    let n = g.r.range(2, 9);
    if waits && g.r.chance(1, 2) {
        // serves nothing but signals, like a simple worker of a user
        let reads = g.r.chance(1, 2);
        for _ in 0..n {
            if reads {
                v.push(DOp::WaitRead(*g.r.pick(&[1_000u64, 20_000])));
                if g.r.chance(4, 5) {
                    v.push(DOp::Read(g.c()));
                }
                if g.r.chance(2, 3) {
                    continue;
                }
            }
            v.push(DOp::WaitWrite(*g.r.pick(&[1_000u64, 20_000])));
            if g.r.chance(4, 5) {
                v.push(DOp::Read(0));
            }
            if g.r.chance(4, 5) {
                v.push(DOp::Gc(g.c()));
            }
            v.push(DOp::Write(g.c()));
        }
        v.push(DOp::WaitWrite(20_000));
        return v;
    }
    for _ in 0..n {
        if waits && g.r.chance(1, 2) {
            let t = *g.r.pick(&[10u64, 1000, 5_000, 20_000]);
            if g.r.chance(2, 3) {
                v.push(DOp::WaitWrite(t));
            } else {
                v.push(DOp::WaitRead(t));
            }
        }
        if reset_on && g.r.chance(1, 5) {
            v.push(DOp::Reset(g.c()));
        }
        if wipe_on && g.r.chance(1, 8) {
            v.push(DOp::Wipe);
        }
        if orderly {
            if g.r.chance(2, 3) {
                v.push(DOp::Read(g.c()));
            }
            if g.r.chance(4, 5) {
                v.push(DOp::Gc(g.c()));
            }
            v.push(DOp::Write(g.c()));
            if g.r.chance(1, 4) {
                v.push(DOp::Sleep(g.r.below(3_000)));
            }
        } else {
            for _ in 0..2 {
                let o = match g.r.below(12) {
                    0..=2 => DOp::Read(g.c()),
                    3..=5 => DOp::Gc(g.c()),
                    6..=9 => DOp::Write(g.c()),
                    10 => DOp::Yield,
                    _ => DOp::Sleep(g.r.below(3_000)),
                };
                v.push(o);
            }
        }
    }
    v
}

fn clients(g: &mut G, c: &Cfg, worker: bool) -> Vec<Vec<COp>> {
    let nn = g.nodes.len();
    let nc = g.r.range(1, (nn as u64).clamp(2, 4)) as usize;
    let mut out = Vec::new();
    let contend = g.r.chance(c.contend, 100);
    let detach = g.r.chance(c.detach, 100);
    if contend && detach && !worker && g.r.chance(1, 3) {
        return duel(g);
    }
    for ci in 0..nc {
        let mut v: Vec<COp> = Vec::new();
        let mine: Vec<usize> = (0..nn).filter(|i| i % nc == ci).collect();
        let mine = if mine.is_empty() { vec![g.r.below(nn as u64) as usize] } else { mine };
        let mut held: Vec<usize> = Vec::new();
        let pause = |g: &mut G| -> COp {
            if worker {
                let t = match g.r.below(9) {
                    0 => g.r.below(1_000),
                    1 => g.r.range(90_000, 110_000),
                    2 => g.r.below(200_000),
                    3 => g.r.below(2_000_000),
                    4 => g.r.range(9_800_000, 10_200_000),
                    5 => g.r.below(15_000_000),
                    6 => g.r.range(119_500_000, 121_000_000),
                    7 => g.r.range(99_990, 100_010),
                    _ => g.r.range(9_999_990, 10_000_010),
                };
                COp::Sleep(t)
            } else if g.lat > 0 || g.r.chance(1, 3) {
                COp::Sleep(*g.r.pick(&[0u64, 3, 300, 1_500, 4_000]))
            } else {
                COp::Yield
            }
        };
        if g.r.chance(1, 3) {
            v.push(pause(g));
        }
        let n = g.r.range(3, 10);
        let upfront = g.r.chance(2, 3);
        if upfront {
            for i in &mine {
                let l = g.r.below(g.nl as u64) as usize;
                let d = if g.r.chance(1, 2) { 0 } else { g.id(g.nodes[*i].1) };
                let cc = g.c();
                v.push(COp::Attach { n: *i, l, d, c: cc });
                if cc != 0 && g.r.chance(1, 2) {
                    v.push(COp::Attach { n: *i, l, d, c: 0 });
                }
                held.push(*i);
            }
        }
        for _ in 0..n {
            if g.r.chance(1, 4) {
                v.push(pause(g));
            }
            let any = if contend && g.r.chance(1, 3) { g.r.below(nn as u64) as usize } else { *g.r.pick(&mine) };
            let h = if held.is_empty() { None } else { Some(held[g.r.below(held.len() as u64) as usize]) };
            match (g.r.below(12), h) {
                (0..=4, Some(h)) => {
                    let key = g.nodes[h].0.clone();
                    if g.over && g.r.chance(1, 3) {
                        let id = g.over_id(&key);
                        v.push(COp::Write { n: h, id, c: 0 });
                        for _ in 0..g.r.below(3) {
                            v.push(pause(g));
                        }
                        if g.r.chance(5, 6) {
                            let id = g.id(g.nodes[h].1);
                            v.push(COp::Write { n: h, id, c: 0 });
                        }
                    } else {
                        let id = g.id(g.nodes[h].1);
                        let c = g.c();
                        v.push(COp::Write { n: h, id, c });
                    }
                }
                (5..=6, Some(h)) => v.push(COp::Load { n: h }),
                (7, Some(h)) => {
                    v.push(COp::Drop { n: h });
                    held.retain(|x| *x != h);
                    if detach && g.r.chance(2, 3) {
                        let l = g.r.below(g.nl as u64) as usize;
                        let c = g.c();
                        v.push(COp::Detach { n: h, l, c });
                    }
                }
                (8, _) if detach => {
                    let l = g.r.below(g.nl as u64) as usize;
                    let c = g.c();
                    v.push(COp::Detach { n: any, l, c });
                }
                _ => {
                    let l = g.r.below(g.nl as u64) as usize;
                    let d = if g.r.chance(1, 2) { 0 } else { g.id(g.nodes[any].1) };
                    let c = g.c();
                    v.push(COp::Attach { n: any, l, d, c });
                    if !held.contains(&any) {
                        held.push(any);
                    }
                }
            }
        }
        out.push(v);
    }
    out
}

/// Clients that fight for one node (or two, perhaps with the same key): everybody attaches, uses, drops and
/// detaches it, in any list, as fast as possible.
fn duel(g: &mut G) -> Vec<Vec<COp>> {
    let nn = g.nodes.len() as u64;
    let a = g.r.below(nn) as usize;
    let b = if g.r.chance(1, 3) { g.r.below(nn) as usize } else { a };
    let nc = g.r.range(2, 3);
    let cancels = g.r.chance(1, 3);
    let mut out = vec![];
    for _ in 0..nc {
        let mut v = vec![];
        for _ in 0..g.r.range(1, 3) {
            let n = if g.r.chance(1, 2) { a } else { b };
            let l = g.r.below(g.nl as u64) as usize;
            for _ in 0..g.r.range(1, 3) {
                let d = if g.r.chance(1, 2) { 0 } else { g.id(g.nodes[n].1) };
                let c = if cancels { g.c() } else { 0 };
                v.push(COp::Attach { n, l, d, c });
            }
            if g.r.chance(1, 3) {
                let id = g.id(g.nodes[n].1);
                v.push(COp::Write { n, id, c: 0 });
            }
            if g.r.chance(1, 4) {
                v.push(COp::Load { n });
            }
            v.push(COp::Drop { n });
            if g.r.chance(3, 4) {
                let l = if g.r.chance(4, 5) { l } else { g.r.below(g.nl as u64) as usize };
                let c = if cancels { g.c() } else { 0 };
                v.push(COp::Detach { n, l, c });
            }
        }
        out.push(v);
    }
    out
}

/// Clients that make two deadlines of the worker (read quiet period, write quiet period, delayed
/// collection) or a deadline and a request fall together, give or take the time of an operation.
fn collide(g: &mut G) -> (Vec<Vec<COp>>, u64) {
    const RD: u64 = 100_000;
    const WR: u64 = 10_000_000;
    const GC: u64 = 120_000_000;
    let nn = g.nodes.len();
    let nc = nn.min(g.r.range(2, 4) as usize);
    let mut v: Vec<Vec<COp>> = vec![vec![]; nc];
    let mut attached = vec![false; nc];
    let start = if g.r.chance(1, 2) { 0 } else { g.r.below(300_000) };
    let attach = |g: &mut G, v: &mut Vec<COp>, at: u64, i: usize, was: bool| {
        v.push(COp::At(at));
        if was {
            v.push(COp::Drop { n: i });
            if g.r.chance(3, 4) {
                v.push(COp::Detach { n: i, l: 0, c: 0 });
            }
        }
        let d = if g.r.chance(1, 2) { 0 } else { g.id(g.nodes[i].1) };
        let c = if g.r.chance(1, 6) { g.c() } else { 0 };
        v.push(COp::Attach { n: i, l: 0, d, c });
        if c != 0 {
            v.push(COp::Attach { n: i, l: 0, d, c: 0 });
        }
    };
    for i in 0..nc {
        if i == 0 || g.r.chance(1, 2) {
            attach(g, &mut v[i], start, i, false);
            attached[i] = true;
        }
    }
    let near = |g: &mut G| -> i64 {
        match g.r.below(8) {
            0 => 0,
            1 => g.r.below(7) as i64 - 3,
            2 => g.r.below(200) as i64 - 100,
            3 => g.r.below(2_000) as i64,
            4 => g.r.below(50_000) as i64,
            5 => g.r.below(300_000) as i64,
            6 => g.r.below(1_000_000) as i64,
            _ => -(g.r.below(150_000) as i64),
        }
    };
    let mut t = start + RD + g.r.range(1_000, 400_000);
    for _ in 0..g.r.range(1, 4) {
        let a = g.r.below(nc as u64) as usize;
        let at = t + g.r.below(1_000_000);
        // the first event and its deadline
        let due = match g.r.below(6) {
            0..=2 => {
                let i = if attached[a] { a } else { 0 };
                let id = g.id(g.nodes[i].1);
                v[i].push(COp::At(at));
                v[i].push(COp::Write { n: i, id, c: 0 });
                at + WR
            }
            3 | 4 => {
                attach(g, &mut v[a], at, a, attached[a]);
                attached[a] = true;
                at + RD
            }
            _ if t < GC => start + RD + GC,
            _ => at,
        };
        // others, such that their request or their deadline is close to it
        let mut end = due;
        for _ in 0..g.r.range(1, 2) {
            let o = g.r.below(nc as u64) as usize;
            let i = if attached[o] { o } else { 0 };
            let write = g.r.chance(1, 2);
            let lead = if g.r.chance(1, 2) { 0 } else if write { WR } else { RD };
            let w = (due as i64 - lead as i64 + near(g)).max(at as i64) as u64;
            if write {
                let id = g.id(g.nodes[i].1);
                v[i].push(COp::At(w));
                v[i].push(COp::Write { n: i, id, c: 0 });
                end = end.max(w + WR);
            } else {
                attach(g, &mut v[o], w, o, attached[o]);
                attached[o] = true;
                end = end.max(w + RD);
            }
        }
        t = if g.r.chance(1, 4) { due + g.r.below(1_000_000) } else { end + g.r.range(100_000, 2_000_000) };
    }
    (v, t)
}

fn worker_boot(g: &mut G, c: &Cfg, b: &mut Boot) {
    let total = if g.r.chance(1, 3) {
        let (cl, end) = collide(g);
        b.clients = cl;
        end
    } else {
        b.clients = clients(g, c, true);
        b.clients
            .iter()
            .map(|c| c.iter().map(|o| if let COp::Sleep(t) = o { *t } else { 0 }).sum::<u64>())
            .max()
            .unwrap_or(0)
    };
    if b.faulty {
        b.heal_at = g.r.below(total.max(1_000_000) + 1);
        // after the storage has healed somebody attaches and writes again
        let n = g.r.below(g.nodes.len() as u64) as usize;
        let ty = g.nodes[n].1;
        let (i1, i2) = (g.id(ty), g.id(ty));
        let wait = total.max(b.heal_at) + g.r.below(30_000_000);
        b.clients.push(vec![
            COp::Sleep(wait),
            COp::Attach { n, l: 0, d: i1, c: 0 },
            COp::Write { n, id: i2, c: 0 },
            COp::Load { n },
        ]);
        b.stop_at = wait + g.r.range(12_000_000, 60_000_000);
    } else if g.r.chance(c.early_stop, 100) {
        b.stop_at = g.r.below(total + 12_000_000);
        if g.r.chance(1, 3) {
            // just after some pause of a client
            let cl = g.r.below(b.clients.len() as u64) as usize;
            let mut t = 0;
            let mut pts = vec![];
            for o in &b.clients[cl] {
                if let COp::Sleep(x) = o {
                    t += x;
                    pts.push(t);
                }
                if let COp::At(x) = o {
                    t = *x;
                    pts.push(t);
                }
            }
            if !pts.is_empty() {
                b.stop_at = *g.r.pick(&pts) + *g.r.pick(&[0u64, 0, 1, 100_000, 10_000_000, 10_000_100]) + g.r.below(3);
            }
        }
    } else {
        b.stop_at = total + g.r.range(15_000_000, 300_000_000);
    }
    if g.r.chance(1, 10) {
        b.crash = Crash::Time(g.r.below(b.stop_at + 1));
    }
}

/// medium contents from an independent writer, mixed with rubbish
fn craft(g: &mut G, nodes: &[(String, Ty)], k: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    let nrec = g.r.below(k as u64 + 3);
    let mut seqs: Vec<u32> = Vec::new();
    let mut base = *g.r.pick(&[1u32, 1, 1, 250, 70_000, 4_000_000_000]);
    for i in 0..nrec {
        seqs.push(base + i as u32 * (1 + g.r.below(3) as u32) + i as u32 * 3);
    }
    if let Some(max) = seqs.iter().max().copied()
        && g.r.chance(1, 16)
    {
        // the sequence numbers are (nearly) used up
        let up = u32::MAX - g.r.below(4) as u32 - max;
        base += up;
        seqs.iter_mut().for_each(|s| *s += up);
    }
    if g.r.chance(1, 4) {
        for i in (1..seqs.len()).rev() {
            let j = g.r.below(i as u64 + 1) as usize;
            seqs.swap(i, j);
        }
    }
    let dirty = g.r.chance(2, 3);
    // now and then far more elements than one byte can count, inside a state or before it
    let many = if !seqs.is_empty() && g.r.chance(1, 120) { seqs[g.r.below(seqs.len() as u64) as usize] } else { 0 };
    let many_at = g.r.below(3);
    for s in seqs {
        if s == many && many_at == 0 {
            for i in 0..g.r.range(200, 300) {
                out.push(vec![0x33 + (i as u8 & 4), i as u8]);
            }
        }
        if dirty {
            rubbish(g, nodes, &mut out, s);
        }
        let mut keys: Vec<(String, Ty)> = Vec::new();
        for n in nodes {
            if g.r.chance(5, 6) && !keys.iter().any(|k| k.0 == n.0) {
                keys.push(n.clone());
            }
        }
        if g.r.chance(1, 6) && keys.len() < nodes.len() {
            keys.push(("foreign".into(), Ty::U64));
        }
        if s == many && many_at > 0 {
            let at = if many_at == 1 { 0 } else { keys.len() };
            keys.splice(at..at, (0..g.r.range(200, 300)).map(|i| (format!("f{i}"), Ty::U64)));
        }
        if g.r.chance(1, 4) {
            keys.reverse();
        }
        out.push(start_bytes(s));
        let mut crc = 0;
        let mut elems: Vec<Vec<u8>> = Vec::new();
        let odd = if g.r.chance(1, 7) { g.r.below(keys.len() as u64 + 1) as usize } else { usize::MAX };
        for (i, (key, ty)) in keys.into_iter().enumerate() {
            if i == odd {
                // right checksum, but the key is malformed, or there is no value
                let d: Vec<u8> = match g.r.below(6) {
                    0 => vec![1, 0x65, b'k'],
                    1 => vec![1, 0x82, 1, 2],
                    2 => vec![1, 0x62, 0xff, 0xfe, 1],
                    3 => vec![1, 0xff],
                    4 => vec![1, 0x64, b'n', b'o', b'n', b'e'],
                    _ => vec![1, 0x7f, 0x61, b'k', 0xff, 1],
                };
                crc = crc_update(crc, &d[1..]);
                elems.push(d);
            }
            let id = g.id(ty);
            let mut d = vec![1u8];
            d.extend(minicbor::to_vec(&key).unwrap());
            if g.r.chance(1, 12) {
                // right checksum, but a value that does not decode as the node's type
                d.extend_from_slice(&[0xff, 0x01]);
            } else {
                d.extend(val::encode_val(ty, id));
            }
            crc = crc_update(crc, &d[1..]);
            elems.push(d);
        }
        let mut end = end_bytes(s, crc_final(crc));
        if dirty && g.r.chance(1, 5) {
            // not intact
            match g.r.below(11) {
                6 => {
                    // a start of unknown size
                    let n = out.len() - 1;
                    out[n].push(0);
                }
                7 => end.push(0),
                8 => {
                    let n = out.len() - 1;
                    out[n][0] |= (1 + g.r.below(15) as u8) << 4;
                }
                9 => end[0] |= (1 + g.r.below(15) as u8) << 4,
                10 if !elems.is_empty() => {
                    let i = g.r.below(elems.len() as u64) as usize;
                    elems[i][0] = *g.r.pick(&[0x11u8, 0xf1, 3, 4, 0x0f, 0x21]);
                }
                0 => end = end_bytes(s, crc_final(crc) ^ (1 << g.r.below(32))),
                1 => end = end_bytes(s.wrapping_add(1), crc_final(crc)),
                2 if !elems.is_empty() => drop(elems.pop()),
                3 if !elems.is_empty() => {
                    let e = elems[0].clone();
                    elems.push(e);
                }
                4 if elems.len() > 1 && elems[0] != elems[1] => elems.swap(0, 1),
                5 if !elems.is_empty() => {
                    let i = g.r.below(elems.len() as u64) as usize;
                    let m = elems[i].len();
                    elems[i][m - 1] ^= 1;
                }
                _ => end = vec![0x02, 1, 2],
            }
        }
        out.extend(elems);
        out.push(end);
    }
    if dirty {
        rubbish(g, nodes, &mut out, base);
        // a state whose writing was interrupted
        if g.r.chance(1, 2) {
            let s = base.saturating_add(g.r.below(40) as u32);
            out.push(start_bytes(s));
            if let Some(n) = nodes.first() {
                let mut d = vec![1u8];
                d.extend(minicbor::to_vec(&n.0).unwrap());
                d.extend(val::encode_val(n.1, g.id(n.1)));
                out.push(d);
            }
        }
    }
    out
}

fn rubbish(g: &mut G, nodes: &[(String, Ty)], out: &mut Vec<Vec<u8>>, s: u32) {
    for _ in 0..g.r.below(3) {
        let e = match g.r.below(8) {
            0 => (0..g.r.range(1, 14)).map(|_| g.r.next() as u8).collect::<Vec<u8>>(),
            1 => {
                let mut e = start_bytes(s);
                e[0] |= (1 + g.r.below(15) as u8) << 4;
                e
            }
            2 => {
                let mut e = end_bytes(s, g.r.next() as u32);
                e[0] |= (1 + g.r.below(15) as u8) << 4;
                e
            }
            3 => end_bytes(s, g.r.next() as u32),
            4 => {
                let n = g.r.pick(nodes).clone();
                let mut d = vec![1u8];
                d.extend(minicbor::to_vec(&n.0).unwrap());
                d.extend(val::encode_val(n.1, g.id(n.1)));
                d
            }
            5 => vec![*g.r.pick(&[0u8, 1, 2, 3, 4, 0x0f])],
            6 => vec![0, 0, 0, 0, 0],
            _ => start_bytes(s),
        };
        if e.len() == 5 && e[0] == 1 {
            continue;
        }
        out.push(e);
    }
}
