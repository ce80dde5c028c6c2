//! The reference model: what the medium, the list and the nodes are allowed to look like.
//!
//! It is fed with every storage effect (at the moment it happens) and with invocation/return events
//! of every client operation, stamped with the simulator's global event number.

use crate::exec::sim;
use crate::store::{CallCounters, Kind, Medium, OpK, PElem, crc_final, crc_update, io, parse_elem};
use crate::val::{self, Ty};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub struct Rec {
    pub seq: u32,
    pub kv: Vec<(String, Vec<u8>)>,
    pub elems: usize,
    /// storage size of the data elements
    pub raw: Vec<usize>,
    pub dup_key: bool,
}
impl Rec {
    pub fn get(&self, key: &str) -> Option<&[u8]> {
        self.kv.iter().find(|k| k.0 == key).map(|k| &k.1[..])
    }
}

/// Independent reader: all intact states on the medium, in medium order
pub fn parse(elems: &[Vec<u8>]) -> Vec<Rec> {
    let mut out = Vec::new();
    let mut cur: Option<(u32, u32, Vec<(String, Vec<u8>)>, usize, Vec<usize>, bool)> = None;
    for e in elems {
        match parse_elem(e) {
            None => cur = None,
            Some(PElem::Start(s)) => cur = Some((s, 0, Vec::new(), 1, Vec::new(), false)),
            Some(PElem::Data(d)) => {
                if let Some((_, crc, kv, n, raw, dup)) = cur.as_mut() {
                    *crc = crc_update(*crc, d);
                    *n += 1;
                    raw.push(e.len());
                    if let Ok(k) = minicbor::decode::<&str>(d) {
                        let l = minicbor::len(k);
                        if kv.iter().any(|x| x.0 == k) {
                            *dup = true;
                        }
                        kv.push((k.to_string(), d[l..].to_vec()));
                    }
                }
            }
            Some(PElem::End(s, c)) => {
                if let Some((seq, crc, kv, n, raw, dup)) = cur.take()
                    && seq == s
                    && crc_final(crc) == c
                {
                    out.push(Rec { seq, kv, elems: n + 1, raw, dup_key: dup });
                }
            }
        }
    }
    out
}

pub fn newest(v: &[Rc<Rec>]) -> Option<&Rc<Rec>> {
    v.iter().max_by_key(|r| r.seq)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    No,
    Maybe,
    Yes,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Direct,
    Worker,
    Noop,
}

pub struct LM {
    pub k: usize,
    pub med: Option<Rc<Medium>>,
    pub valid: Vec<Rc<Rec>>,
    pub nelems: usize,
    /// an intact state has had the highest possible number: there is none for a new state
    pub worn: bool,
    /// (since event, the newest intact state)
    pub cand_log: Vec<(u64, Vec<Rc<Rec>>)>,
    pub acked: Option<Rc<Rec>>,
    pub known: BTreeSet<u32>,
    pub scanned: Tri,
    pub gc_clean: bool,
    pub last_ok_w: u64,
    pub rec_start: Option<(u32, u64)>,
    pub last_rec: Option<u32>,
    /// nodes that wait in the list for their first read
    pub unloaded: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Wr {
    pub id: u64,
    pub inv: u64,
    pub ret: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IvK {
    Hold,
    Detach,
}
#[derive(Clone, Debug)]
pub struct Iv {
    pub kind: IvK,
    pub list: usize,
    pub from: u64,
    pub to: u64,
}

pub struct NM {
    pub key: &'static str,
    pub ty: Ty,
    pub unique_vals: bool,
    pub attached: Tri,
    pub list: usize,
    /// lists this node may be attached to: (list, from, to)
    pub may: Vec<(usize, u64, u64)>,
    pub attach_ret: u64,
    /// when the attach that made the current handle returned
    pub handle_ret: u64,
    pub last_attach_end: u64,
    /// earliest attach that may have started the current hydration
    pub hyd_inv: Option<u64>,
    pub mem_known: bool,
    pub hist: Vec<Wr>,
    /// values that might be in memory although unknown
    pub maybe_vals: Vec<u64>,
    /// every value this node may have been given in this boot
    pub ever: Vec<u64>,
    pub live: bool,
    /// the attach that created the newest handle
    pub holder: u64,
    pub ivs: Vec<Iv>,
    pub dirty_ev: u64,
    /// invocation of the last write, if it has not failed
    pub last_write: u64,
    pub attaching: Vec<(u64, usize)>,
    /// the task of the last attach
    pub attach_task: usize,
    pub last_detach: u64,
    pub detaching: u32,
    pub writing: bool,
}
impl NM {
    fn new(key: &'static str, ty: Ty) -> NM {
        NM {
            key,
            ty,
            unique_vals: !matches!(ty, Ty::Zst | Ty::U8),
            attached: Tri::No,
            list: 0,
            may: Vec::new(),
            attach_ret: 0,
            handle_ret: 0,
            last_attach_end: 0,
            hyd_inv: None,
            mem_known: false,
            hist: Vec::new(),
            maybe_vals: Vec::new(),
            ever: Vec::new(),
            live: false,
            holder: 0,
            ivs: Vec::new(),
            dirty_ev: 0,
            last_write: 0,
            attaching: Vec::new(),
            attach_task: usize::MAX,
            last_detach: 0,
            detaching: 0,
            writing: false,
        }
    }
    /// may be attached to `list` at some time in [s,e]
    pub fn maybe_in(&self, list: usize, s: u64, e: u64) -> bool {
        self.may.iter().any(|m| m.0 == list && m.1 <= e && m.2 >= s)
    }
    fn definite_in(&self, list: usize, before: u64) -> bool {
        self.attached == Tri::Yes && self.list == list && self.attach_ret < before && self.detaching == 0 && self.mem_known
    }
    /// values a load at this moment may return
    pub fn current(&self) -> Vec<u64> {
        let lastc = self.hist.iter().rposition(|w| w.ret.is_some()).unwrap_or(0);
        self.hist[lastc..].iter().map(|w| w.id).collect()
    }
    /// [from, to] during which hist entry i may be the current value
    fn interval(&self, i: usize) -> (u64, u64) {
        let hi = self.hist[i + 1..].iter().filter_map(|w| w.ret).min().unwrap_or(u64::MAX);
        (self.hist[i].inv, hi)
    }
}

#[derive(Default)]
pub struct WorkerM {
    pub stop_ev: Option<u64>,
    pub stop_time: u64,
    pub last_write_t: u64,
    pub last_write_busy: u64,
    pub writes: Vec<u64>,
    pub pending_writes: Vec<u64>,
    /// (ev, time, busy, state) of attach signals not failed; state 0 pending, 1 served, 2 cancelled
    pub attaches: Vec<(u64, u64, u64, u8)>,
    pub pending_attach: Vec<(u64, u64)>,
    pub read_bursts: Vec<u64>,
    pub burst_start: u64,
    pub ever_read: bool,
    /// a state the worker stored; it counts as acknowledged once the worker is idle again
    pub pending_ack: Option<Rc<Rec>>,
    pub start_t: u64,
    /// every attempt to write (begin, end) and to attach (time, storage was busy)
    pub wsig: Vec<(u64, u64, u64)>,
    pub asig: Vec<(u64, bool, u64)>,
    /// attaches that did not end with success: they may have signalled, or not
    pub asig_unsure: usize,
    pub wsig_unsure: usize,
    /// states begun, passes over the medium, time of the first pass
    pub starts: usize,
    pub passes: usize,
    pub first_pass: Option<u64>,
}

pub struct Model {
    pub lists: Vec<LM>,
    pub nodes: Vec<NM>,
    pub mode: Mode,
    /// no fault can happen in this boot
    pub healthy: bool,
    pub heal_time: Option<u64>,
    pub w: WorkerM,
    pub sound_wakes: bool,
    pub last_wake_ev: u64,
    pub unconsumed: Option<(u64, u64)>,
    /// writes (node, invocation) that took effect after the flush requested by the last wake-up began
    pub owed: Vec<(usize, u64)>,
    /// attaches that began before this event may have had their request consumed or lost with a waiter that gave up
    pub last_read_wake_ev: u64,
    pub wake_uncertain: u64,
    pub no_oversize: bool,
}

struct Global(RefCell<Option<Model>>);
unsafe impl Sync for Global {}
static M: Global = Global(RefCell::new(None));

pub fn m<T>(f: impl FnOnce(&mut Model) -> T) -> T {
    let mut g = M.0.borrow_mut();
    f(g.as_mut().expect("model"))
}
pub fn set_model(x: Option<Model>) {
    *M.0.borrow_mut() = x;
}

impl Model {
    pub fn new(k: usize, meds: &[Rc<Medium>]) -> Model {
        Model {
            lists: meds
                .iter()
                .map(|md| LM {
                    k,
                    med: Some(md.clone()),
                    valid: Vec::new(),
                    nelems: 0,
                    worn: false,
                    cand_log: Vec::new(),
                    acked: None,
                    known: BTreeSet::new(),
                    scanned: Tri::No,
                    gc_clean: false,
                    last_ok_w: 0,
                    rec_start: None,
                    last_rec: None,
                    unloaded: Vec::new(),
                })
                .collect(),
            nodes: Vec::new(),
            mode: Mode::Direct,
            healthy: true,
            heal_time: None,
            w: WorkerM::default(),
            sound_wakes: true,
            last_wake_ev: 0,
            unconsumed: None,
            owed: vec![],
            last_read_wake_ev: 0,
            wake_uncertain: 0,
            no_oversize: true,
        }
    }

    /// a new boot: all memory is gone, only the media survive
    pub fn begin_boot(&mut self, mode: Mode, nodes: &[(&'static str, Ty)]) {
        self.mode = mode;
        self.nodes = nodes.iter().map(|(k, t)| NM::new(k, *t)).collect();
        self.w = WorkerM { start_t: sim().now.get(), ..Default::default() };
        self.last_wake_ev = 0;
        self.unconsumed = None;
        self.owed.clear();
        self.last_read_wake_ev = 0;
        self.wake_uncertain = 0;
        self.heal_time = None;
        for l in &mut self.lists {
            l.boot_scan();
            l.worn = l.valid.iter().any(|r| r.seq == u32::MAX);
        }
    }

    fn log_cands(&mut self, list: usize) {
        let l = &mut self.lists[list];
        let set: Vec<Rc<Rec>> = newest(&l.valid).cloned().into_iter().collect();
        if let Some(last) = l.cand_log.last()
            && last.1 == set
        {
            return;
        }
        let ev = sim().tick();
        l.cand_log.push((ev, set));
    }

    /// candidate states a hydration in [s,e] may have used
    fn cands(&self, list: usize, s: u64) -> Vec<Rc<Rec>> {
        let l = &self.lists[list];
        let mut out: Vec<Rc<Rec>> = Vec::new();
        let mut empty = false;
        for (i, (_, set)) in l.cand_log.iter().enumerate() {
            let end = l.cand_log.get(i + 1).map_or(u64::MAX, |n| n.0);
            if end < s {
                continue;
            }
            if set.is_empty() {
                empty = true;
            }
            for r in set {
                if !out.contains(r) {
                    out.push(r.clone());
                }
            }
        }
        if empty || l.cand_log.is_empty() {
            out.push(Rc::new(Rec { seq: 0, kv: vec![], elems: 0, raw: vec![], dup_key: false }));
        }
        out
    }
}

impl LM {
    pub fn boot_scan(&mut self) {
        let elems = self.med.as_ref().unwrap().read_elems();
        self.nelems = elems.len();
        self.valid = parse(&elems).into_iter().map(Rc::new).collect();
        let seqs: BTreeSet<u32> = self.valid.iter().map(|r| r.seq).collect();
        self.known.retain(|s| seqs.contains(s));
        self.acked = newest(&self.valid).cloned();
        self.cand_log.clear();
        self.scanned = Tri::No;
        self.gc_clean = false;
        self.last_ok_w = 0;
        self.rec_start = None;
        self.last_rec = None;
        self.unloaded.clear();
        let ev = sim().tick();
        let set: Vec<Rc<Rec>> = self.acked.iter().cloned().collect();
        self.cand_log.push((ev, set));
    }
    pub fn protected(&self) -> Vec<Rc<Rec>> {
        let mut v = self.valid.clone();
        v.sort_by_key(|r| std::cmp::Reverse(r.seq));
        v.truncate(self.k);
        v.retain(|r| self.known.contains(&r.seq));
        v
    }
}

/// at power-on: the state that must be restored is the newest intact one, and it may not be older
/// than what was acknowledged before the power cut
pub fn check_boot_floor(list: usize, rotted: bool) {
    m(|m| {
        let l = &mut m.lists[list];
        let elems = l.med.as_ref().unwrap().read_elems();
        let valid: Vec<Rc<Rec>> = parse(&elems).into_iter().map(Rc::new).collect();
        if !rotted {
            if let Some(a) = &l.acked {
                let ok = match newest(&valid) {
                    Some(n) => n.seq > a.seq || (n.seq == a.seq && n.kv == a.kv),
                    None => false,
                };
                if !ok {
                    let now: Vec<u32> = valid.iter().map(|r| r.seq).collect();
                    sim().violate("DUR", || format!("list {list}: acknowledged state seq {} is gone after power loss (intact states: {now:?})", a.seq));
                }
            }
            let prot = l.protected();
            for p in prot {
                if !valid.iter().any(|r| r.seq == p.seq && r.kv == p.kv) {
                    sim().violate("PROT", || format!("list {list}: retained state seq {} is gone after power loss", p.seq));
                }
            }
        }
    });
}

/// recompute what is intact on the medium after an effect and check that nothing was lost
fn recompute(list: usize, end_pushed: bool) {
    m(|m| {
        let l = &mut m.lists[list];
        let elems = l.med.as_ref().unwrap().read_elems();
        l.nelems = elems.len();
        let new: Vec<Rc<Rec>> = parse(&elems).into_iter().map(Rc::new).collect();
        if !end_pushed || new.len() <= l.valid.len() {
            for p in l.protected() {
                if !new.iter().any(|r| r.seq == p.seq && r.kv == p.kv) {
                    let have: Vec<u32> = new.iter().map(|r| r.seq).collect();
                    let k = l.k;
                    sim().violate("PROT", || format!("list {list}: state seq {} was removed although it is one of the newest {k} (left: {have:?})", p.seq));
                }
            }
        }
        if let Some(a) = &l.acked {
            let ok = match newest(&new) {
                Some(n) => n.seq > a.seq || (n.seq == a.seq && n.kv == a.kv),
                None => false,
            };
            if !ok {
                let have: Vec<u32> = new.iter().map(|r| r.seq).collect();
                sim().violate("DUR", || format!("list {list}: acknowledged state seq {} lost (left: {have:?})", a.seq));
            }
        }
        let fresh: Vec<Rc<Rec>> = new.iter().filter(|r| !l.valid.iter().any(|o| o == *r)).cloned().collect();
        l.valid = new;
        l.worn |= l.valid.iter().any(|r| r.seq == u32::MAX);
        m.log_cands(list);
        if end_pushed {
            for r in fresh {
                m.check_record(list, &r);
                let l = &mut m.lists[list];
                l.last_rec = Some(r.seq);
                if m.mode == Mode::Worker && m.healthy {
                    m.w.pending_ack = Some(r.clone());
                }
            }
        }
    });
}

impl Model {
    /// a new intact state appeared on the medium: it must be one snapshot of the list
    fn check_record(&mut self, list: usize, r: &Rc<Rec>) {
        let Some((seq, s)) = self.lists[list].rec_start else { return };
        if seq != r.seq {
            return;
        }
        let e = sim().tick();
        io().count("check.records", 1);
        if r.dup_key {
            let keys: Vec<&String> = r.kv.iter().map(|k| &k.0).collect();
            sim().violate("REC", || format!("list {list}: stored state {seq} contains a key twice: {keys:?}"));
        }
        for (k, _) in &r.kv {
            if !self.nodes.iter().any(|n| n.key == k && n.maybe_in(list, s, e)) {
                sim().violate("REC", || format!("list {list}: stored state {seq} contains key {k:?} which is not attached"));
            }
        }
        let l = &self.lists[list];
        if let Some(prev) = l.valid.iter().filter(|x| x.seq != r.seq).max_by_key(|x| x.seq) {
            for n in l.unloaded.iter().map(|i| &self.nodes[*i]) {
                let had = prev.get(n.key).and_then(|b| val::decode_vid(n.ty, b));
                if let Some(v) = had
                    && r.get(n.key).is_none()
                {
                    sim().violate("UNLOADED", || format!("list {list}: state {seq} drops the stored value {v:x} of {:?}, which is attached and waits to be loaded", n.key));
                }
            }
        }
        let mut lo = s;
        let mut hi = e;
        let mut lo_key = "";
        let mut hi_key = "";
        for n in &self.nodes {
            if !n.definite_in(list, s) {
                continue;
            }
            let Some(bytes) = r.get(n.key) else {
                sim().violate("REC", || format!("list {list}: stored state {seq} lacks the value of attached node {:?}", n.key));
                return;
            };
            let Some(v) = val::decode_vid(n.ty, bytes) else {
                sim().violate("REC", || format!("list {list}: stored value of {:?} in state {seq} does not decode", n.key));
                return;
            };
            let ivs: Vec<(u64, u64)> = (0..n.hist.len()).filter(|i| n.hist[*i].id == v).map(|i| n.interval(i)).filter(|(a, b)| *a <= e && *b >= s).collect();
            if ivs.is_empty() {
                let h = n.hist.clone();
                sim().violate("REC", || format!("list {list}: state {seq} captured by the flush (events {s}..{e}) stores value {v:x} for {:?}, which was not current then; history {h:x?}", n.key));
                return;
            }
            if ivs.len() == 1 && n.unique_vals {
                if ivs[0].0 > lo {
                    lo = ivs[0].0;
                    lo_key = n.key;
                }
                if ivs[0].1 < hi {
                    hi = ivs[0].1;
                    hi_key = n.key;
                }
            }
        }
        if lo > hi {
            sim().violate("SNAP", || format!("list {list}: state {seq} is not one snapshot: the value of {lo_key:?} is newer than the end of the value of {hi_key:?}"));
        }
    }
}

// ---------------------------------------------------------------- hooks from the storage

pub fn before_push(list: usize, bytes: &[u8]) {
    let ev = sim().tick();
    if let Some(PElem::Start(s)) = parse_elem(bytes) {
        m(|m| {
            let l = &mut m.lists[list];
            if let Some(n) = newest(&l.valid)
                && s <= n.seq
            {
                let hs = n.seq;
                sim().violate("SEQ", || format!("list {list}: new state gets sequence number {s} although an intact state with {hs} exists"));
            }
            l.rec_start = Some((s, ev));
            l.last_rec = None;
        });
    }
    on_push_timing(matches!(parse_elem(bytes), Some(PElem::Start(_))));
}
pub fn after_push(list: usize, bytes: &[u8], ok: bool) {
    sim().tick();
    let is_end = matches!(parse_elem(bytes), Some(PElem::End(..)));
    let queue = m(|m| matches!(m.lists[list].med.as_ref().unwrap().kind, Kind::Queue { .. }));
    if queue || is_end || !ok {
        recompute(list, is_end);
    }
}
pub fn after_invalidate(list: usize) {
    sim().tick();
    recompute(list, false);
}

// ---------------------------------------------------------------- library calls (direct mode)

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Ok,
    NeedsRead,
    NeedsGc,
    Ser,
    Inconsistent,
    Verify,
    FlashW,
    FlashR,
    FlashFull,
    OtherErr,
    Cancelled,
}

pub struct CallCtx {
    pub ev: u64,
    pub scanned: Tri,
    pub gc_clean: bool,
    pub initial_possible: bool,
    pub fired: u32,
    pub prot: Vec<u32>,
    pub all_known: bool,
    pub clean: bool,
    pub stale_possible: bool,
}

pub fn call_begin(list: usize) -> CallCtx {
    io().call_reset(list);
    let ev = sim().tick();
    m(|m| {
        let clean = m.definitely_clean(list);
        let unloaded = m.unloaded(list);
        let l = &mut m.lists[list];
        l.unloaded = unloaded;
        let mut v = l.valid.clone();
        v.sort_by_key(|r| std::cmp::Reverse(r.seq));
        let all_known = v.iter().all(|r| l.known.contains(&r.seq));
        v.truncate(l.k);
        l.rec_start = None;
        l.last_rec = None;
        CallCtx {
            ev,
            scanned: l.scanned,
            gc_clean: l.gc_clean,
            initial_possible: m.initial_possible(list),
            fired: io().fired_boot.get(),
            prot: v.iter().map(|r| r.seq).collect(),
            all_known,
            clean,
            stale_possible: false,
        }
    })
}

impl Model {
    /// Nodes that are linked to the list for sure and wait for a read: their attach sleeps while
    /// nobody else could hold the list.
    fn unloaded(&self, list: usize) -> Vec<usize> {
        let mut out = Vec::new();
        if self.mode != Mode::Direct {
            return out;
        }
        for (i, n) in self.nodes.iter().enumerate() {
            if n.writing || n.detaching > 0 || n.attaching.len() > 1 {
                return Vec::new();
            }
            if let Some(a) = n.attaching.first() {
                if !sim().task_idle(n.attach_task) {
                    return Vec::new();
                }
                if a.1 == list && n.last_detach < a.0 && n.attached == Tri::No && n.may.iter().all(|x| x.2 != u64::MAX || x.1 == a.0) {
                    out.push(i);
                }
            }
        }
        out
    }
    /// Attaches that wait to be served (their task sleeps while nobody could hold the list) and whose
    /// request for a read can't have been consumed yet.
    fn requesting(&self, list: usize) -> Vec<(usize, u64)> {
        let mut out = Vec::new();
        if self.mode != Mode::Direct || !self.sound_wakes {
            return out;
        }
        for (i, n) in self.nodes.iter().enumerate() {
            if n.writing || n.detaching > 0 || n.attaching.len() > 1 {
                return Vec::new();
            }
            if let Some(a) = n.attaching.first() {
                if !sim().task_idle(n.attach_task) {
                    return Vec::new();
                }
                if a.1 == list && a.0 > self.last_read_wake_ev {
                    out.push((i, a.0));
                }
            }
        }
        out
    }
    /// some node might be linked to the list without having been served
    fn initial_possible(&self, list: usize) -> bool {
        self.nodes.iter().any(|n| (!n.attaching.is_empty() || n.attached == Tri::Maybe || n.detaching > 0) && n.may.iter().any(|x| x.0 == list && x.2 == u64::MAX))
    }
    /// (a node whose attach was cancelled may wait for its default, which is nothing to store yet)
    fn definitely_clean(&self, list: usize) -> bool {
        let l = &self.lists[list];
        if l.scanned != Tri::Yes || l.acked.is_none() || l.last_ok_w == 0 {
            return false;
        }
        self.nodes.iter().all(|n| {
            let here = n.may.iter().any(|x| x.0 == list && x.2 == u64::MAX);
            !here || (n.attached != Tri::No && n.attaching.is_empty() && n.detaching == 0 && !n.writing && n.dirty_ev < l.last_ok_w)
        })
    }
}

fn healthy_call(c: &CallCtx) -> bool {
    io().fired_boot.get() == c.fired
}

fn counters_class(what: &str, got: &[(&str, usize, usize)]) {
    for (name, g, want) in got {
        if g != want {
            sim().violate("COUNTERS", || format!("{what}: {name} reported {g}, actual {want}"));
        }
    }
}

pub fn read_done(list: usize, c: CallCtx, out: Out, counters: Option<(usize, usize)>) {
    let ev = sim().tick();
    let cc = io().call.borrow()[list];
    sim().note(4, list as u64, out as u64);
    sim().logf(|| format!("process_reads(list{list}) -> {out:?} {counters:?} [events {}..{ev}]", c.ev));
    m(|m| {
        let healthy = healthy_call(&c);
        if healthy && !matches!(out, Out::Ok | Out::Cancelled) {
            sim().violate("ERR", || format!("process_reads failed with {out:?} on a healthy medium"));
        }
        if cc.pushes > 0 || cc.popped > 0 {
            sim().violate("REC", || "process_reads modified the medium".into());
        }
        {
            let l = &mut m.lists[list];
            match out {
                Out::Ok => {
                    if c.scanned == Tri::No {
                        let all: Vec<u32> = l.valid.iter().map(|r| r.seq).collect();
                        l.known.extend(all);
                    }
                    l.scanned = Tri::Yes;
                }
                _ => {
                    if l.scanned == Tri::No {
                        l.scanned = Tri::Maybe;
                    }
                }
            }
            if c.scanned != Tri::Yes {
                l.gc_clean = false;
            }
        }
        if out == Out::Ok {
            let (total, cur) = counters.unwrap();
            let data: usize = newest(&m.lists[list].valid).map_or(0, |r| r.raw.iter().map(|x| m.elem_size(list, *x)).sum());
            counters_class("process_reads", &[("total_bytes_read", total, cc.read_total)]);
            if healthy && c.all_known && c.scanned != Tri::Maybe {
                counters_class("process_reads", &[("current_bytes_read", cur, data)]);
            }
        }
    });
}

impl Model {
    fn elem_size(&self, list: usize, len: usize) -> usize {
        match self.lists[list].med.as_ref().unwrap().kind {
            Kind::Queue { .. } => crate::store::qsize(len),
            Kind::NorA => 8 + len.next_multiple_of(4),
            Kind::NorB | Kind::NorD => 8 + len.next_multiple_of(8),
            Kind::NorC => 8 + len.next_multiple_of(4),
            Kind::NorE => 8 + len,
        }
    }
}

pub fn gc_done(list: usize, c: CallCtx, out: Out, counters: Option<(usize, usize, usize)>) {
    let ev = sim().tick();
    let cc = io().call.borrow()[list];
    sim().note(5, list as u64, out as u64);
    sim().logf(|| format!("process_garbage(list{list}) -> {out:?} {counters:?} [events {}..{ev}]", c.ev));
    m(|m| {
        let healthy = healthy_call(&c);
        if healthy && !matches!(out, Out::Ok | Out::Cancelled) {
            sim().violate("ERR", || format!("process_garbage failed with {out:?} on a healthy medium"));
        }
        let l = &mut m.lists[list];
        if c.scanned == Tri::No && cc.popped > 0 {
            sim().violate("PROT", || "collection removed elements before the medium was read".into());
        }
        if out == Out::Ok && c.scanned == Tri::Yes {
            // everything that is left must belong to the retained states
            let used: usize = l.valid.iter().map(|r| r.elems).sum();
            let n = l.valid.len();
            let k = l.k;
            let nel = l.nelems;
            if used != nel {
                sim().violate("RECLAIM", || format!("list {list}: after collection {} elements outside of intact states remain", nel - used));
            }
            if n > k {
                sim().violate("RECLAIM", || format!("list {list}: after collection {n} states remain, redundancy is {k}"));
            }
            if c.all_known {
                let mut have: Vec<u32> = l.valid.iter().map(|r| r.seq).collect();
                let mut want = c.prot.clone();
                have.sort();
                want.sort();
                if have != want {
                    sim().violate("PROT", || format!("list {list}: after collection states {have:?} remain, expected {want:?}"));
                }
            }
            let all: Vec<u32> = l.valid.iter().map(|r| r.seq).collect();
            l.known.extend(all);
            l.gc_clean = true;
        }
        if out != Out::Ok {
            if l.scanned == Tri::Yes {
                l.scanned = Tri::Maybe;
            }
            l.gc_clean = false;
        }
        if out == Out::Ok {
            let (total, post, popped) = counters.unwrap();
            counters_class("process_garbage", &[("total_bytes_read", total, cc.read_total), ("total_bytes_popped", popped, cc.popped)]);
            let want_post = if cc.iters >= 2 { cc.read_since_iter } else { 0 };
            counters_class("process_garbage", &[("post_collection_bytes_read", post, want_post)]);
        }
    });
}

pub fn write_done(list: usize, c: CallCtx, out: Out, counters: Option<(usize, usize)>, oversize: bool, too_big: Option<&str>) {
    let ev = sim().tick();
    let cc: CallCounters = io().call.borrow()[list];
    sim().note(6, list as u64, out as u64);
    sim().logf(|| format!("process_writes(list{list}) -> {out:?} {counters:?} [events {}..{ev}]", c.ev));
    m(|m| {
        let healthy = healthy_call(&c);
        if cc.popped > 0 {
            sim().violate("PROT", || "process_writes removed elements".into());
        }
        let init_now = m.initial_possible(list);
        match out {
            Out::Ok => {
                if cc.pushes > 0
                    && let Some(k) = too_big
                {
                    sim().violate("SIZE", || format!("the value of {k:?} was stored although the size pre-check says it does not fit"));
                }
                if c.scanned == Tri::No {
                    sim().violate("REC", || "process_writes succeeded before the medium was ever read".into());
                }
            }
            Out::Cancelled => {}
            _ if cc.pushes > 0 && !healthy => {}
            Out::NeedsRead | Out::Inconsistent if m.lists[list].worn && cc.pushes == 0 => {}
            Out::NeedsRead => {
                if c.scanned == Tri::Yes && !c.initial_possible && !init_now {
                    sim().violate("ERR", || "process_writes demands a first read although one succeeded and no node is waiting".into());
                }
            }
            Out::NeedsGc => {
                if c.gc_clean {
                    sim().violate("ERR", || "process_writes demands a collection right after a successful one".into());
                }
            }
            Out::Ser | Out::FlashW if oversize => {}
            Out::FlashFull => {
                if healthy && c.gc_clean && m.no_oversize {
                    sim().violate("FULL", || "medium reported full although collection succeeded and capacity covers the retained states".into());
                } else if healthy && m.no_oversize {
                    sim().violate("ERR", || "process_writes hit a full medium".into());
                }
            }
            _ => {
                if healthy {
                    sim().violate("ERR", || format!("process_writes failed with {out:?} on a healthy medium"));
                }
            }
        }
        if matches!(out, Out::NeedsRead | Out::NeedsGc) && cc.pushes > 0 {
            sim().violate("REC", || format!("process_writes returned {out:?} after having written"));
        }
        let pushed = cc.pushes > 0;
        if pushed && c.clean && !m.lists[list].acked.is_none() {
            // nothing changed since the last successful flush and no attach/write happened during the call
            if m.definitely_clean(list) {
                sim().violate("CLEAN", || format!("list {list}: a flush with nothing to store wrote {} elements", cc.pushes));
            }
        }
        if out == Out::Ok {
            let (total, written) = counters.unwrap();
            counters_class("process_writes", &[("total_bytes_read", total, cc.read_total), ("current_bytes_written", written, cc.pushed)]);
            let newest_rec = newest(&m.lists[list].valid).cloned();
            if pushed {
                let want = m.lists[list].rec_start.map(|x| x.0);
                match &newest_rec {
                    Some(n) if Some(n.seq) == want => {
                        // with lost/garbled writes the state may have become intact differently
                        m.lists[list].last_rec = Some(n.seq);
                    }
                    other => {
                        let o = other.as_ref().map(|r| r.seq);
                        sim().violate("VERIFY", || format!("list {list}: flush of state {want:?} reported success but the newest intact state is {o:?}"));
                        return;
                    }
                }
            }
            // whoever is attached must be stored with a current value
            for n in &m.nodes {
                if !n.definite_in(list, c.ev) {
                    continue;
                }
                if !pushed && n.dirty_ev >= c.ev {
                    continue;
                }
                let Some(r) = &newest_rec else {
                    sim().violate("VERIFY", || format!("list {list}: flush succeeded but there is no intact state on the medium"));
                    return;
                };
                let got = r.get(n.key).and_then(|b| val::decode_vid(n.ty, b));
                let ok = match got {
                    None => false,
                    Some(v) => (0..n.hist.len()).any(|i| n.hist[i].id == v && { let (a, b) = n.interval(i); a <= ev && b >= c.ev }),
                };
                if !ok {
                    let h = n.hist.clone();
                    sim().violate("VERIFY", || format!("list {list}: flush (events {}..{ev}) succeeded but the newest intact state {} holds {got:x?} for {:?}; history {h:x?}", c.ev, r.seq, n.key));
                    return;
                }
            }
            // The write has not been stored, so it took effect after this flush began, and thus after the last
            // wake-up that anybody has seen: there must be another one.
            if c.ev > m.last_wake_ev.max(m.wake_uncertain) {
                for (i, n) in m.nodes.iter().enumerate() {
                    let Some(w) = n.hist.last() else { continue };
                    if w.inv != n.last_write || !n.definite_in(list, w.inv) {
                        continue;
                    }
                    let got = newest_rec.as_ref().and_then(|r| r.get(n.key)).and_then(|b| val::decode_vid(n.ty, b));
                    if got != Some(w.id) && !m.owed.contains(&(i, w.inv)) {
                        m.owed.push((i, w.inv));
                    }
                }
            }
            let l = &mut m.lists[list];
            if pushed {
                if let Some(r) = &newest_rec {
                    l.known.insert(r.seq);
                    l.acked = Some(r.clone());
                }
                l.gc_clean = false;
            }
            if l.scanned == Tri::Maybe {
                l.scanned = Tri::Yes;
            }
            l.last_ok_w = c.ev;
            m.log_cands(list);
        } else {
            let l = &mut m.lists[list];
            if pushed || out == Out::Cancelled {
                l.gc_clean = false;
            }
        }
    });
}

pub fn cache_reset(list: usize, done: bool) {
    sim().tick();
    sim().note(8, list as u64, done as u64);
    m(|m| {
        let l = &mut m.lists[list];
        l.scanned = if done { Tri::No } else if l.scanned == Tri::No { Tri::No } else { Tri::Maybe };
        l.gc_clean = false;
        l.last_ok_w = 0;
    });
}
pub fn wiped(list: usize) {
    sim().tick();
    m(|m| {
        let l = &mut m.lists[list];
        l.valid.clear();
        l.nelems = 0;
        l.acked = None;
        l.known.clear();
        l.last_ok_w = 0;
        m.log_cands(list);
    });
}

// ---------------------------------------------------------------- client operations

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ARes {
    Ok,
    AlreadyTaken,
    OtherList,
    Duplicate,
    OtherErr,
    Cancelled,
}

pub fn attach_begin(node: usize, list: usize, d: u64) -> u64 {
    let ev = sim().tick();
    let now = sim().now.get();
    let busy = io().busy_now();
    m(|m| {
        let n = &mut m.nodes[node];
        n.attaching.push((ev, list));
        n.attach_task = sim().cur_task();
        if d != 0 {
            n.ever.push(val::norm(n.ty, d));
        }
        n.ivs.push(Iv { kind: IvK::Hold, list, from: ev, to: u64::MAX });
        n.may.push((list, ev, u64::MAX));
        m.w.attaches.push((ev, now, busy, 0));
        m.w.asig.push((now, io().active.get() > 0 || io().last_op_end.get() == now, ev));
        m.w.pending_attach.push((ev, now));
    });
    ev
}

/// returns false if a violation was found
pub fn attach_end(node: usize, list: usize, inv: u64, res: ARes, loaded: Option<u64>, default_id: u64) {
    let ev = sim().tick();
    sim().note(10, node as u64, res as u64);
    sim().logf(|| format!("attach(node{node}, list{list}) -> {res:?} value {loaded:x?} [events {inv}..{ev}]"));
    m(|m| {
        m.nodes[node].attaching.retain(|a| a.0 != inv);
        if res != ARes::Ok && m.w.asig.iter().any(|a| a.2 == inv) {
            m.w.asig.retain(|a| a.2 != inv);
            m.w.asig_unsure += 1;
        }
        if matches!(res, ARes::Ok | ARes::Cancelled) {
            m.nodes[node].last_attach_end = ev;
        }
        if res != ARes::Ok && res != ARes::Cancelled {
            m.w.pending_attach.retain(|a| a.0 != inv);
            m.w.attaches.retain(|a| a.0 != inv);
        }
        for a in &mut m.w.attaches {
            if a.0 == inv {
                a.3 = if res == ARes::Ok { 1 } else { 2 };
            }
        }
        let overlaps_other = |n: &NM, f: &dyn Fn(&Iv) -> bool| n.ivs.iter().any(|i| i.from != inv && i.to >= inv && i.from <= ev && f(i));
        match res {
            ARes::Cancelled => {
                let n = &mut m.nodes[node];
                // may or may not be linked now; it holds no handle
                for i in &mut n.ivs {
                    if i.from == inv {
                        i.to = ev;
                    }
                }
                if n.attached != Tri::Yes {
                    n.attached = Tri::Maybe;
                    n.list = list;
                    if n.hyd_inv.is_none() {
                        n.hyd_inv = Some(inv);
                    }
                } else if n.list == list {
                    // was linked already: the extra entry adds nothing
                    n.may.retain(|x| x.1 != inv);
                }
            }
            ARes::Ok => {
                let key = m.nodes[node].key;
                for (j, o) in m.nodes.iter().enumerate() {
                    if j != node && o.key == key && o.attached == Tri::Yes && o.list == list && o.attach_ret < inv && o.detaching == 0 {
                        sim().violate("EXCL", || format!("node{node} was attached although node{j} with the same key {key:?} is attached to the same list"));
                        return;
                    }
                }
                let n = &m.nodes[node];
                if n.live {
                    sim().violate("EXCL", || format!("second live handle for node{node}"));
                    return;
                }
                if n.attached == Tri::Yes && n.list != list && n.attach_ret < inv && n.detaching == 0 {
                    sim().violate("EXCL", || format!("node{node} attached to two lists"));
                    return;
                }
                let v = loaded.unwrap();
                let dflt = val::norm(n.ty, default_id);
                if n.attached == Tri::Yes && n.mem_known && n.detaching == 0 {
                    let cur = n.current();
                    if !cur.contains(&v) {
                        let h = n.hist.clone();
                        sim().violate("VAL", || format!("re-attach of node{node} returned {v:x}, in memory was one of {cur:x?}; history {h:x?}"));
                        return;
                    }
                    let n = &mut m.nodes[node];
                    n.may.retain(|x| x.1 != inv);
                    n.observe(v, ev);
                } else {
                    let mut s = n.hyd_inv.unwrap_or(inv).min(inv);
                    if n.mem_known {
                        // a detach is on its way: it may have happened before or not
                        m.nodes[node].unsure();
                    }
                    let n = &m.nodes[node];
                    for i in &n.ivs {
                        if i.kind == IvK::Detach && i.to == u64::MAX {
                            s = s.min(i.from);
                        }
                    }
                    let mut allowed: Vec<u64> = n.maybe_vals.clone();
                    let mut dflt_ok = false;
                    if m.mode == Mode::Noop {
                        dflt_ok = true;
                    } else {
                        for r in m.cands(list, s) {
                            match r.get(n.key).and_then(|b| val::decode_vid(n.ty, b)) {
                                Some(x) => allowed.push(x),
                                None => dflt_ok = true,
                            }
                        }
                    }
                    if dflt_ok {
                        allowed.push(dflt);
                    }
                    if !allowed.contains(&v) {
                        let k = n.key;
                        sim().violate("HYD", || format!("node{node} ({k:?}) was restored to {v:x}; allowed: {allowed:x?} (default {dflt:x})"));
                        return;
                    }
                    let from_store = !n.maybe_vals.contains(&v) && !(dflt_ok && v == dflt);
                    let n = &mut m.nodes[node];
                    n.hist = vec![Wr { id: v, inv: s, ret: Some(ev) }];
                    n.mem_known = true;
                    n.maybe_vals.clear();
                    n.hyd_inv = None;
                    n.attached = Tri::Yes;
                    n.list = list;
                    let pending: Vec<u64> = n.attaching.iter().map(|a| a.0).collect();
                    n.may.retain(|x| x.0 == list || x.2 != u64::MAX || pending.contains(&x.1));
                    n.attach_ret = ev;
                    n.dirty_ev = if from_store { 1 } else { ev };
                    m.w.ever_read = true;
                }
                let n = &mut m.nodes[node];
                n.live = true;
                n.handle_ret = ev;
                n.holder = inv;
            }
            ARes::AlreadyTaken => {
                let n = &mut m.nodes[node];
                for i in &mut n.ivs {
                    if i.from == inv {
                        i.to = ev;
                    }
                }
                n.may.retain(|x| x.1 != inv);
                if !overlaps_other(n, &|i| i.list == list || i.kind == IvK::Detach) {
                    sim().violate("EXCL", || format!("attach of node{node} failed with AlreadyTaken although no handle exists"));
                }
            }
            ARes::OtherList => {
                let n = &mut m.nodes[node];
                for i in &mut n.ivs {
                    if i.from == inv {
                        i.to = ev;
                    }
                }
                n.may.retain(|x| x.1 != inv);
                let elsewhere = n.may.iter().any(|x| x.0 != list && x.1 <= ev && x.2 >= inv);
                if !elsewhere && !overlaps_other(n, &|i| i.list != list || i.kind == IvK::Detach) {
                    sim().violate("EXCL", || format!("attach of node{node} to list{list} failed with NodeInOtherList although it is in no other list"));
                }
            }
            ARes::Duplicate => {
                let n = &mut m.nodes[node];
                for i in &mut n.ivs {
                    if i.from == inv {
                        i.to = ev;
                    }
                }
                n.may.retain(|x| x.1 != inv);
                let key = n.key;
                let twin = m.nodes.iter().enumerate().any(|(j, o)| j != node && o.key == key && o.maybe_in(list, inv, ev));
                if !twin {
                    sim().violate("EXCL", || format!("attach of node{node} failed with DuplicateKey although no other node with key {key:?} is attached"));
                }
            }
            ARes::OtherErr => {
                sim().violate("ERR", || format!("attach of node{node} failed with an undocumented error"));
            }
        }
    });
}

impl NM {
    /// a load saw `v`: everything not applied can be forgotten
    fn observe(&mut self, v: u64, ev: u64) {
        if !self.unique_vals {
            return;
        }
        let lastc = self.hist.iter().rposition(|w| w.ret.is_some()).unwrap_or(0);
        let Some(i) = self.hist.iter().rposition(|w| w.id == v) else { return };
        if i < lastc {
            return;
        }
        self.hist.truncate(i + 1);
        if self.hist[i].ret.is_none() {
            self.hist[i].ret = Some(ev);
        }
    }
}

pub fn loaded(node: usize, v: u64) {
    let ev = sim().tick();
    sim().note(11, node as u64, v);
    sim().logf(|| format!("load(node{node}) = {v:x}"));
    m(|m| {
        let n = &mut m.nodes[node];
        let cur = n.current();
        if !cur.contains(&v) {
            let h = n.hist.clone();
            sim().violate("VAL", || format!("load of node{node} returned {v:x}, expected one of {cur:x?}; history {h:x?}"));
            return;
        }
        n.observe(v, ev);
    });
}

pub fn write_begin(node: usize, id: u64) -> u64 {
    let ev = sim().tick();
    let now = sim().now.get();
    let busy = io().busy_now();
    m(|m| {
        let n = &mut m.nodes[node];
        let id = val::norm(n.ty, id);
        n.hist.push(Wr { id, inv: ev, ret: None });
        n.ever.push(id);
        n.writing = true;
        n.last_write = ev;
        m.w.pending_writes.push(now);
        m.w.last_write_t = now;
        m.w.last_write_busy = busy;
        m.w.wsig.push((ev, now, u64::MAX));
    });
    ev
}
/// ok: Some(true) completed, Some(false) failed, None cancelled
pub fn write_end(node: usize, inv: u64, ok: Option<bool>) {
    let ev = sim().tick();
    let now = sim().now.get();
    let busy = io().busy_now();
    sim().note(12, node as u64, ok.map_or(2, |x| x as u64));
    sim().logf(|| format!("write(node{node}) -> {ok:?} [events {inv}..{ev}]"));
    m(|m| {
        let n = &mut m.nodes[node];
        n.writing = false;
        n.dirty_ev = ev;
        for w in &mut m.w.wsig {
            if w.0 == inv {
                w.2 = now;
            }
        }
        if ok != Some(true) {
            n.last_write = 0;
        }
        if ok != Some(true) && m.w.wsig.iter().any(|w| w.0 == inv) {
            m.w.wsig.retain(|w| w.0 != inv);
            m.w.wsig_unsure += 1;
        }
        match ok {
            Some(true) => {
                for w in &mut n.hist {
                    if w.inv == inv {
                        w.ret = Some(ev);
                    }
                }
                if inv > m.wake_uncertain {
                    m.unconsumed = Some((inv, ev));
                }
                m.w.writes.push(now);
                m.w.pending_writes.push(now);
                m.w.last_write_t = now;
                m.w.last_write_busy = busy;
            }
            Some(false) => {
                sim().violate("ERR", || format!("write through a live handle of node{node} failed"));
            }
            None => {
                m.w.last_write_t = now;
                m.w.last_write_busy = busy;
            }
        }
    });
}

/// returns the attach that had created the handle
pub fn handle_dropping(node: usize) -> u64 {
    sim().tick();
    sim().logf(|| format!("drop handle of node{node}"));
    m(|m| {
        let n = &mut m.nodes[node];
        n.live = false;
        n.holder
    })
}
pub fn handle_dropped(node: usize, holder: u64) {
    let ev = sim().tick();
    sim().note(13, node as u64, 0);
    m(|m| {
        // somebody else might have taken it already
        for i in &mut m.nodes[node].ivs {
            if i.kind == IvK::Hold && i.from == holder {
                i.to = ev;
            }
        }
    });
}

pub fn detach_begin(node: usize, list: usize) -> u64 {
    let ev = sim().tick();
    m(|m| {
        let n = &mut m.nodes[node];
        n.detaching += 1;
        n.last_detach = ev;
        n.ivs.push(Iv { kind: IvK::Detach, list, from: ev, to: u64::MAX });
    });
    ev
}
pub fn detach_end(node: usize, list: usize, inv: u64, res: ARes, live_at_begin: bool) {
    let ev = sim().tick();
    sim().note(14, node as u64, res as u64);
    sim().logf(|| format!("detach(node{node}, list{list}) -> {res:?} [events {inv}..{ev}]"));
    m(|m| {
        let n = &mut m.nodes[node];
        n.detaching -= 1;
        for i in &mut n.ivs {
            if i.from == inv {
                i.to = ev;
            }
        }
        let overlap = |n: &NM, f: &dyn Fn(&Iv) -> bool| n.ivs.iter().any(|i| i.from != inv && i.to >= inv && i.from <= ev && f(i));
        match res {
            ARes::Ok => {
                if live_at_begin && n.live && n.handle_ret < inv {
                    sim().violate("EXCL", || format!("detach of node{node} succeeded although a handle is live"));
                    return;
                }
                if n.attached == Tri::Yes && n.list != list && n.attach_ret < inv && n.detaching == 0 {
                    let l = n.list;
                    sim().violate("EXCL", || format!("detach of node{node} from list{list} succeeded although it is attached to list{l}"));
                    return;
                }
                if n.attaching.is_empty() && n.detaching == 0 && !n.live && n.last_attach_end < inv {
                    n.attached = Tri::No;
                    n.mem_known = false;
                    n.hist.clear();
                    n.maybe_vals.clear();
                    n.hyd_inv = None;
                    for x in &mut n.may {
                        if x.2 == u64::MAX {
                            x.2 = ev;
                        }
                    }
                } else if !n.live {
                    // an attach runs concurrently: it may have happened before or after
                    n.unsure();
                    let e = n.attaching.iter().map(|a| a.0).min().unwrap_or(inv);
                    n.hyd_inv = Some(e.min(inv));
                }
            }
            ARes::AlreadyTaken => {
                if !overlap(n, &|i| i.kind == IvK::Hold || i.kind == IvK::Detach) {
                    sim().violate("EXCL", || format!("detach of node{node} failed with AlreadyTaken although no handle exists"));
                }
            }
            ARes::OtherList => {
                let elsewhere = n.may.iter().any(|x| x.0 != list && x.1 <= ev && x.2 >= inv);
                if !elsewhere && !overlap(n, &|i| i.list != list || i.kind == IvK::Detach) {
                    sim().violate("EXCL", || format!("detach of node{node} from list{list} failed with NodeInOtherList although it is in no other list"));
                }
            }
            ARes::Cancelled => {
                // may have happened or not
                if n.attached != Tri::No && !n.live {
                    n.unsure();
                    if n.hyd_inv.is_none() {
                        n.hyd_inv = Some(inv);
                    }
                }
            }
            _ => sim().violate("ERR", || format!("detach of node{node} failed with an undocumented error")),
        }
    });
}
impl NM {
    fn unsure(&mut self) {
        if self.mem_known {
            let c = self.current();
            self.maybe_vals.extend(c);
        }
        self.mem_known = false;
        self.attached = Tri::Maybe;
        self.hist.clear();
    }
}

// ---------------------------------------------------------------- wake-ups

pub fn write_wake_consumed() {
    let ev = sim().tick();
    m(|m| {
        m.last_wake_ev = ev;
        m.unconsumed = None;
        m.owed.clear();
    });
}
/// a waiter for pending writes gave up; it was last polled at event `polled`
pub fn write_wait_timeout(polled: u64) {
    let ev = sim().tick();
    m(|m| {
        if let Some((inv, end)) = m.unconsumed {
            if inv > m.last_wake_ev && end < polled && m.sound_wakes {
                sim().violate("WAKE", || "a completed write was never announced to the waiter for pending writes".into());
            }
        }
        for (i, inv) in core::mem::take(&mut m.owed) {
            let returned = m.nodes[i].hist.iter().any(|w| w.inv == inv && w.ret.is_some_and(|r| r < polled));
            if returned && m.sound_wakes {
                sim().violate("WAKE", || format!("the write to node{i} that began at event {inv} was announced (if at all) before it took effect: the flush that followed stored an older value, and nothing requests another one"));
            }
        }
        // the dropped waiter may have swallowed a wake-up that arrived after its last poll
        m.unconsumed = None;
        m.wake_uncertain = ev;
    });
}
pub fn worn(list: usize) -> bool {
    m(|m| m.lists[list].worn)
}
/// everything was flushed and collected with nobody else active: the medium must be minimal and current
pub fn quiesced(list: usize) {
    sim().tick();
    m(|m| {
        let r = newest(&m.lists[list].valid).cloned();
        for (i, n) in m.nodes.iter().enumerate() {
            if n.attached != Tri::Yes || n.list != list || !n.mem_known || n.detaching > 0 || !n.attaching.is_empty() {
                continue;
            }
            let cur = n.current();
            let got = r.as_ref().and_then(|r| r.get(n.key)).and_then(|b| val::decode_vid(n.ty, b));
            if !got.is_some_and(|g| cur.contains(&g)) {
                sim().violate("LIVE", || format!("after all operations succeeded the medium holds {got:x?} for node{i}, in memory is {cur:x?}"));
                return;
            }
        }
        let l = &m.lists[list];
        let used: usize = l.valid.iter().map(|r| r.elems).sum();
        if used != l.nelems || l.valid.len() > l.k {
            let (n, v) = (l.nelems, l.valid.len());
            sim().violate("RECLAIM", || format!("list {list}: {n} elements on the medium after collection, {used} belong to {v} intact states"));
        }
    });
}
/// values of the list's nodes that a flush in [from, now] may have had to store
pub fn size_query(list: usize, from: u64) -> Vec<(&'static str, Ty, Vec<u64>, bool)> {
    let now = sim().ev.get();
    m(|m| {
        m.nodes
            .iter()
            .filter(|n| n.maybe_in(list, from, now))
            .map(|n| {
                let mut ids: Vec<u64> = (0..n.hist.len())
                    .filter(|i| {
                        let (a, b) = n.interval(*i);
                        a <= now && b >= from
                    })
                    .map(|i| n.hist[i].id)
                    .collect();
                let definite = n.definite_in(list, from) && ids.len() == 1;
                ids.extend(n.maybe_vals.iter());
                if !definite {
                    ids.extend(n.ever.iter());
                }
                (n.key, n.ty, ids, definite)
            })
            .collect()
    })
}

// ---------------------------------------------------------------- default worker timing

const MS: u64 = 1_000;
const SEC: u64 = 1_000_000;

pub fn stop_fired() {
    let ev = sim().tick();
    sim().logf(|| "stop signal".into());
    m(|m| {
        m.w.stop_ev = Some(ev);
        m.w.stop_time = sim().now.get();
    });
}

pub fn on_op(_list: usize, k: OpK) {
    sim().tick();
    if k == OpK::Iter {
        on_pass();
    }
}

impl WorkerM {
    /// upper bound for the number of times 10 s have passed without a new write
    fn write_bursts(&self) -> usize {
        let gaps = self.wsig.windows(2).filter(|w| w[1].2.saturating_sub(w[0].1) >= 10 * SEC - MS).count();
        gaps + usize::from(!self.wsig.is_empty()) + self.wsig_unsure
    }
    /// the same for attaches and 100 ms
    fn attach_bursts(&self) -> usize {
        let gaps = self.asig.windows(2).filter(|w| w[0].1 || w[1].1 || w[1].0 - w[0].0 >= 99 * MS).count();
        gaps + usize::from(!self.asig.is_empty()) + self.asig_unsure
    }
}

/// the default worker starts another pass over the medium
fn on_pass() {
    let now = sim().now.get();
    m(|m| {
        if m.mode != Mode::Worker || !m.healthy || m.w.stop_ev.is_some() {
            return;
        }
        let w = &mut m.w;
        w.passes += 1;
        let first = *w.first_pass.get_or_insert(now);
        let (a, b) = (w.attach_bursts(), w.write_bursts());
        // a read takes one pass, the first one two; a collection two; storing at most two collections,
        // the verification and the reads for nodes attached meanwhile
        let mut max = a + 1;
        if now >= first + 120 * SEC {
            max += 2;
        }
        if b > 0 {
            max += 5 * b + 2 * (w.asig.len() + w.asig_unsure);
        }
        if w.passes > max && !m.lists[0].worn {
            let n = w.passes;
            sim().violate("COALESCE", || format!("pass {n} over the medium at t={now}us after {a} bursts of attaches and {b} bursts of writes"));
        }
    });
}

/// the storage becomes active after having been idle
pub fn on_storage_active() {
    let now = sim().now.get();
    if io().last_op_end.get() == now && now != 0 {
        return;
    }
    m(|m| {
        m.w.burst_start = now;
        if m.mode != Mode::Worker || !m.healthy || m.w.stop_ev.is_some() {
            return;
        }
        let mut ok = false;
        // attach debounce over
        if !m.w.pending_attach.is_empty() && !m.w.attaches.iter().any(|a| a.3 != 2 && a.1 + 100 * MS > now + 1 && a.1 + 1 < now) {
            ok = true;
            m.w.read_bursts.push(now);
            m.w.pending_attach.retain(|a| a.1 + 100 * MS >= now);
        }
        // write debounce over
        if !m.w.pending_writes.is_empty() && !m.w.writes.iter().any(|a| *a + 10 * SEC > now + 1 && *a + 1 < now) {
            ok = true;
            m.w.pending_writes.retain(|a| *a + 10 * SEC >= now);
        }
        if m.w.read_bursts.iter().any(|r| *r + 120 * SEC <= now) {
            if !ok {
                m.w.read_bursts.retain(|r| *r + 120 * SEC > now);
            }
            ok = true;
        }
        if !ok {
            let a: Vec<u64> = m.w.attaches.iter().map(|a| a.1).collect();
            let (a, w) = (a, m.w.writes.clone());
            sim().violate("EARLY", || format!("worker touched the storage at t={now}us without a due request (attaches at {a:?}, writes at {w:?})"));
        }
    });
}

fn on_push_timing(start: bool) {
    let now = sim().now.get();
    m(|m| {
        if m.mode != Mode::Worker || !m.healthy || m.w.stop_ev.is_some() {
            return;
        }
        if start {
            m.w.starts += 1;
            let (n, b) = (m.w.starts, m.w.write_bursts());
            if n > b {
                sim().violate("COALESCE", || format!("the worker stores state {n} of this boot at t={now}us after {b} bursts of writes"));
            }
        }
        let bs = m.w.burst_start;
        if let Some(w) = m.w.writes.iter().find(|w| **w + 10 * SEC > now + 1 && **w + 1 < bs) {
            let w = *w;
            sim().violate("EARLY", || format!("worker stored values at t={now}us, less than 10 s after the write at {w}us"));
        }
    });
}

/// virtual time is about to advance to `at`
pub fn on_advance(at: u64) {
    m(|m| {
        if m.mode != Mode::Worker {
            return;
        }
        if io().active.get() == 0
            && m.w.stop_ev.is_none()
            && let Some(r) = m.w.pending_ack.take()
        {
            let l = &mut m.lists[0];
            l.known.insert(r.seq);
            l.acked = Some(r);
        }
        let Some(heal) = m.heal_time else { return };
        let busy = io().busy_now() + if io().active.get() > 0 { at - sim().now.get() } else { 0 };
        if m.w.stop_ev.is_some() {
            return;
        }
        // reads
        let stuck: Vec<usize> = m.nodes.iter().enumerate().filter(|(_, n)| !n.attaching.is_empty()).map(|(i, _)| i).collect();
        if !stuck.is_empty()
            && m.w.attaches.iter().any(|a| a.1 >= heal && a.3 != 2)
            && let Some(last) = m.w.attaches.last()
        {
            let dl = last.1 + 100 * MS + 20 * MS + (busy - last.2);
            if at > dl {
                sim().violate("LATE_ATTACH", || format!("attach of nodes {stuck:?} still not served at t={at}us (limit {dl}us)"));
            }
        }
        // writes
        if m.w.last_write_t >= heal && !m.w.writes.is_empty() && !m.lists[0].worn {
            let dl = m.w.last_write_t + 10 * SEC + 50 * MS + (busy - m.w.last_write_busy);
            if at > dl {
                for (i, n) in m.nodes.iter().enumerate() {
                    if n.attached != Tri::Yes || n.detaching > 0 || n.writing || !n.mem_known || n.hist.iter().rposition(|w| w.ret.is_some()).unwrap_or(0) == 0 {
                        continue;
                    }
                    let cur = n.current();
                    let r = newest(&m.lists[n.list].valid);
                    let got = r.and_then(|r| r.get(n.key)).and_then(|b| val::decode_vid(n.ty, b));
                    if !got.is_some_and(|g| cur.contains(&g)) {
                        sim().violate("LATE_WRITE", || format!("value {cur:x?} of node{i} is still not on the medium at t={at}us (limit {dl}us); stored: {got:x?}"));
                        return;
                    }
                }
            }
        }
    });
}

/// the default worker returned after the stop signal
pub fn worker_stopped() {
    let ev = sim().tick();
    m(|m| {
        let Some(stop) = m.w.stop_ev else {
            sim().violate("STOP", || "worker returned without a stop signal".into());
            return;
        };
        if !m.healthy || !m.w.ever_read || m.lists[0].worn {
            return;
        }
        for (i, n) in m.nodes.iter().enumerate() {
            // only values written (through a handle) before the stop are promised
            if n.attached != Tri::Yes || n.detaching > 0 || !n.mem_known || n.attach_ret > stop {
                continue;
            }
            let r = newest(&m.lists[n.list].valid);
            let got = r.and_then(|r| r.get(n.key)).and_then(|b| val::decode_vid(n.ty, b));
            let ok = got.is_some_and(|g| {
                (0..n.hist.len()).any(|k| n.hist[k].id == g && { let (a, b) = n.interval(k); a <= ev && b >= stop })
            });
            if !ok {
                let h = n.hist.clone();
                sim().violate("STOP", || format!("worker stopped but the newest intact state holds {got:x?} for node{i}; history {h:x?} stop at event {stop}"));
                return;
            }
        }
    });
}

/// attaches whose request must be visible to a waiter for reads that is polled now
pub fn read_requests(list: usize) -> Vec<(usize, u64)> {
    m(|m| m.requesting(list))
}
/// A waiter for reads was woken (`missed` is None) or gave up. In the latter case, `missed` are the
/// requests that were visible when it was polled for the last time.
pub fn read_wait_end(missed: Option<Vec<(usize, u64)>>) {
    let ev = sim().tick();
    m(|m| {
        for (i, inv) in missed.unwrap_or_default() {
            if m.nodes[i].attaching.iter().any(|a| a.0 == inv) {
                sim().violate("ASK", || format!("the attach of node{i} that began at event {inv} waits to be served, but the waiter for pending reads was never told"));
            }
        }
        m.last_read_wake_ev = ev;
    });
}
