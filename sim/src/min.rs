//! Minimises a failing run: fewer boots, tasks, operations, faults, and a simpler schedule, as long as a
//! violation of the same class remains.

use crate::exec::mix;
use crate::plan::Replay;
use crate::store::{Crash, Rates};
use crate::world::{RunMode, run};
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub class: String,
    pub deadline: Instant,
    pub max_runs: u32,
    pub runs: u32,
    /// decides by running elsewhere (crashes and hangs of the whole process)
    pub external: Option<&'a dyn Fn(&Replay) -> bool>,
    /// the best candidate so far is kept here
    pub checkpoint: std::path::PathBuf,
}

impl Min<'_> {
    fn keep(&self, best: &Replay) {
        let _ = std::fs::write(&self.checkpoint, best.to_text("not completely minimised\n"));
    }
    fn over(&self) -> bool {
        self.runs >= self.max_runs || Instant::now() > self.deadline
    }
    /// the run as it was if the candidate still fails in the same way
    fn fails(&mut self, r: &Replay) -> bool {
        self.runs += 1;
        if let Some(f) = self.external {
            return f(r);
        }
        let o = run(&r.plan, RunMode::Replay { sched: r.sched_tape.clone(), lat: r.lat_tape.clone() });
        o.violation.is_some_and(|v| v.class == self.class)
    }
    /// like `fails`, but if the recorded schedule no longer fits, search a few fresh ones
    fn fails_any(&mut self, r: &mut Replay) -> bool {
        if self.fails(r) {
            return true;
        }
        if self.external.is_some() {
            return false;
        }
        let tries = if r.plan.sched.preempt == 0 && r.plan.lat == 0 { 2 } else { 5 };
        for i in 0..tries {
            if self.over() {
                return false;
            }
            self.runs += 1;
            let o = run(&r.plan, RunMode::Gen(mix(i + 77)));
            if o.violation.is_some_and(|v| v.class == self.class) {
                let c = Replay { sched_tape: o.sched_tape, lat_tape: o.lat_tape, ..r.clone() };
                if self.fails(&c) {
                    *r = c;
                    return true;
                }
            }
        }
        false
    }
    fn attempt(&mut self, best: &mut Replay, f: impl FnOnce(&mut Replay)) -> bool {
        if self.over() {
            return false;
        }
        let mut c = best.clone();
        f(&mut c);
        if c.plan == best.plan && c.sched_tape == best.sched_tape && c.lat_tape == best.lat_tape {
            return false;
        }
        if self.fails_any(&mut c) {
            *best = c;
            self.keep(best);
            return true;
        }
        false
    }

    pub fn run(&mut self, best: &mut Replay) {
        best.plan.rates = Rates::default();
        self.keep(best);
        loop {
            let before = size(best);
            self.pass(best);
            if self.over() || size(best) >= before {
                break;
            }
        }
        self.tapes(best);
    }

    fn pass(&mut self, best: &mut Replay) {
        // whole boots, last first
        let mut i = best.plan.boots.len();
        while i > 0 {
            i -= 1;
            self.attempt(best, |c| {
                c.plan.boots.remove(i);
                c.plan.faults.retain(|f| f.boot != i as u32);
                for f in &mut c.plan.faults {
                    if f.boot > i as u32 {
                        f.boot -= 1;
                    }
                }
            });
        }
        // simpler environment
        self.attempt(best, |c| c.plan.initial.clear());
        self.attempt(best, |c| c.plan.lat = 0);
        self.attempt(best, |c| {
            c.plan.sched.preempt = 0;
        });
        self.attempt(best, |c| c.plan.sched.policy = 0);
        self.attempt(best, |c| {
            c.sched_tape.clear();
            c.lat_tape.clear();
        });
        // faults
        let mut step = best.plan.faults.len().max(1);
        while step >= 1 {
            let mut i = 0;
            while i < best.plan.faults.len() && !self.over() {
                let end = (i + step).min(best.plan.faults.len());
                if !self.attempt(best, |c| {
                    c.plan.faults.drain(i..end);
                }) {
                    i = end;
                }
            }
            step /= 2;
        }
        for b in 0..best.plan.boots.len() {
            if best.plan.boots[b].faulty && !best.plan.faults.iter().any(|f| f.boot == b as u32) {
                self.attempt(best, |c| {
                    c.plan.boots[b].faulty = false;
                });
            }
            if best.plan.boots[b].crash != Crash::None {
                self.attempt(best, |c| c.plan.boots[b].crash = Crash::None);
            }
            if best.plan.boots[b].probe {
                self.attempt(best, |c| c.plan.boots[b].probe = false);
            }
            self.attempt(best, |c| c.plan.boots[b].tys.clear());
            let mut i = best.plan.boots[b].rot.len();
            while i > 0 {
                i -= 1;
                self.attempt(best, |c| {
                    c.plan.boots[b].rot.remove(i);
                });
            }
            // clients
            let mut i = best.plan.boots[b].clients.len();
            while i > 0 {
                i -= 1;
                self.attempt(best, |c| {
                    c.plan.boots[b].clients.remove(i);
                });
            }
            for k in 0..best.plan.boots[b].clients.len() {
                let mut step = best.plan.boots[b].clients[k].len().max(1);
                while step >= 1 {
                    let mut i = 0;
                    while i < best.plan.boots[b].clients[k].len() && !self.over() {
                        let end = (i + step).min(best.plan.boots[b].clients[k].len());
                        if !self.attempt(best, |c| {
                            c.plan.boots[b].clients[k].drain(i..end);
                        }) {
                            i = end;
                        }
                    }
                    step /= 2;
                }
            }
            for k in 0..best.plan.boots[b].drivers.len() {
                let mut step = best.plan.boots[b].drivers[k].len().max(1);
                while step >= 1 {
                    let mut i = 0;
                    while i < best.plan.boots[b].drivers[k].len() && !self.over() {
                        let end = (i + step).min(best.plan.boots[b].drivers[k].len());
                        if !self.attempt(best, |c| {
                            c.plan.boots[b].drivers[k].drain(i..end);
                        }) {
                            i = end;
                        }
                    }
                    step /= 2;
                }
            }
            // run operations to completion
            use crate::plan::{COp, DOp};
            for k in 0..best.plan.boots[b].clients.len() {
                for i in 0..best.plan.boots[b].clients[k].len() {
                    self.attempt(best, |c| match &mut c.plan.boots[b].clients[k][i] {
                        COp::Attach { c, .. } | COp::Write { c, .. } | COp::Detach { c, .. } => *c = 0,
                        _ => {}
                    });
                }
            }
            for k in 0..best.plan.boots[b].drivers.len() {
                for i in 0..best.plan.boots[b].drivers[k].len() {
                    self.attempt(best, |c| match &mut c.plan.boots[b].drivers[k][i] {
                        DOp::Read(c) | DOp::Write(c) | DOp::Gc(c) | DOp::Reset(c) => *c = 0,
                        _ => {}
                    });
                }
            }
        }
        // initial elements
        let mut step = best.plan.initial.len().max(1);
        while step >= 1 {
            let mut i = 0;
            while i < best.plan.initial.len() && !self.over() {
                let end = (i + step).min(best.plan.initial.len());
                if !self.attempt(best, |c| {
                    c.plan.initial.drain(i..end);
                }) {
                    i = end;
                }
            }
            step /= 2;
        }
        // unused nodes at the end
        while best.plan.nodes.len() > 1 && !self.over() {
            let last = best.plan.nodes.len() - 1;
            if !self.attempt(best, |c| {
                c.plan.nodes.truncate(last);
            }) {
                break;
            }
        }
    }

    fn tapes(&mut self, best: &mut Replay) {
        for which in 0..2 {
            let get = |r: &Replay| if which == 0 { r.sched_tape.clone() } else { r.lat_tape.clone() };
            let set = |r: &mut Replay, t: Vec<u32>| if which == 0 { r.sched_tape = t } else { r.lat_tape = t };
            let try_set = |me: &mut Self, best: &mut Replay, t: Vec<u32>| -> bool {
                if me.over() || t == get(best) {
                    return false;
                }
                let mut c = best.clone();
                set(&mut c, t);
                if me.fails(&c) {
                    *best = c;
                    return true;
                }
                false
            };
            // cut the tail
            let mut len = get(best).len();
            let mut cut = len / 2;
            while cut > 0 {
                let mut t = get(best);
                t.truncate(len.saturating_sub(cut));
                if try_set(self, best, t) {
                    len = get(best).len();
                } else {
                    cut /= 2;
                }
                cut = cut.min(len);
            }
            // plain choices wherever possible
            let mut step = get(best).len().max(1);
            while step >= 1 {
                let mut i = 0;
                while i < get(best).len() && !self.over() {
                    let mut t = get(best);
                    let end = (i + step).min(t.len());
                    if t[i..end].iter().any(|x| *x != 0) {
                        t[i..end].fill(0);
                        try_set(self, best, t);
                    }
                    i = end;
                }
                step /= 2;
            }
            let mut t = get(best);
            while t.last() == Some(&0) {
                t.pop();
            }
            set(best, t);
        }
    }
}

fn size(r: &Replay) -> usize {
    let p = &r.plan;
    p.boots
        .iter()
        .map(|b| {
            20 + b.clients.iter().map(|c| 2 + c.len() * 2).sum::<usize>()
                + b.drivers.iter().map(|d| d.len() * 2).sum::<usize>()
                + b.rot.len() * 3
                + b.tys.len()
                + b.probe as usize
                + (b.crash != Crash::None) as usize * 3
        })
        .sum::<usize>()
        + p.faults.len() * 3
        + p.initial.len()
        + p.nodes.len()
        + (p.lat > 0) as usize
        + (p.sched.preempt > 0) as usize
}

pub fn budget(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
