//! The simulated storage: an element queue, a NOR flash device, and the fault-injecting probe that
//! wraps whatever implements `NdlDataStorage`.

use crate::exec::{Rng, sim};
use crate::model;
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

// ---------------------------------------------------------------- faults

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FK {
    /// the operation fails without having taken effect
    ErrBefore,
    /// the operation takes effect and then fails
    ErrAfter,
    /// a push reports success without having taken effect
    Drop,
    /// a push stores altered bytes
    Garble,
    /// the operation takes very long
    Stall,
    /// NOR level: the write/erase is carried out partially and then fails
    Partial,
}
pub const ALL_FK: [FK; 6] = [FK::ErrBefore, FK::ErrAfter, FK::Drop, FK::Garble, FK::Stall, FK::Partial];
impl FK {
    pub fn name(self) -> &'static str {
        match self {
            FK::ErrBefore => "err_before",
            FK::ErrAfter => "err_after",
            FK::Drop => "lost_write",
            FK::Garble => "garbled_write",
            FK::Stall => "stall",
            FK::Partial => "partial_nor_op",
        }
    }
    pub fn parse(s: &str) -> Option<FK> {
        ALL_FK.into_iter().find(|k| k.name() == s)
    }
}

/// level 0 = element operation, 1 = NOR operation
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FaultEv {
    pub boot: u32,
    pub level: u32,
    pub op: u32,
    pub kind: FK,
    pub arg: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Crash {
    None,
    Step(u64),
    Time(u64),
    /// op number, phase 0 = before effect, 1 = after effect, 2 = torn
    Op(u32, u32),
    /// NOR operation number, portion (0..=16)
    Nor(u32, u32),
    /// n-th push or invalidation, phase as for Op
    Mut(u32, u32),
    /// n-th NOR write or erase, portion
    NorMut(u32, u32),
}

/// kinds of storage operations, used for targeting and statistics
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpK {
    Iter,
    Next,
    Push,
    Inval,
}
impl OpK {
    pub fn name(self) -> &'static str {
        match self {
            OpK::Iter => "iter",
            OpK::Next => "next",
            OpK::Push => "push",
            OpK::Inval => "invalidate",
        }
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Rates {
    /// per 4096 for [kind]
    pub elem: [u32; 6],
    pub nor: [u32; 6],
}

pub struct Io {
    pub boot: Cell<u32>,
    pub op: Cell<u32>,
    pub nor_op: Cell<u32>,
    pub mut_op: Cell<u32>,
    pub nor_mut: Cell<u32>,
    pub faults: RefCell<Vec<FaultEv>>,
    pub fired: RefCell<Vec<FaultEv>>,
    pub gen_rng: RefCell<Option<Rng>>,
    pub rates: Cell<Rates>,
    pub faults_on: Cell<bool>,
    pub crash: Cell<Crash>,
    pub lat_profile: Cell<u32>,
    pub op_limit: Cell<u32>,
    /// number of faults (other than stalls) fired in this boot
    pub fired_boot: Cell<u32>,
    /// stalls in this boot; bounded, so that the limit on the virtual time of a boot means a lack of progress
    pub stalls_boot: Cell<u32>,
    pub busy: Cell<u64>,
    pub active: Cell<u32>,
    pub active_since: Cell<u64>,
    pub last_op_end: Cell<u64>,
    pub stats: RefCell<BTreeMap<String, u64>>,
    pub call: RefCell<[CallCounters; 2]>,
    pub meds: RefCell<Vec<Rc<Medium>>>,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct CallCounters {
    pub iters: u64,
    pub read_total: usize,
    pub read_since_iter: usize,
    pub popped: usize,
    pub pushed: usize,
    pub pushes: usize,
    pub ops: usize,
}

struct Global(Io);
unsafe impl Sync for Global {}
static IO: Global = Global(Io {
    boot: Cell::new(0),
    op: Cell::new(0),
    nor_op: Cell::new(0),
    mut_op: Cell::new(0),
    nor_mut: Cell::new(0),
    faults: RefCell::new(Vec::new()),
    fired: RefCell::new(Vec::new()),
    gen_rng: RefCell::new(None),
    rates: Cell::new(Rates { elem: [0; 6], nor: [0; 6] }),
    faults_on: Cell::new(true),
    crash: Cell::new(Crash::None),
    lat_profile: Cell::new(0),
    op_limit: Cell::new(60_000),
    fired_boot: Cell::new(0),
    stalls_boot: Cell::new(0),
    busy: Cell::new(0),
    active: Cell::new(0),
    active_since: Cell::new(0),
    last_op_end: Cell::new(0),
    stats: RefCell::new(BTreeMap::new()),
    call: RefCell::new([CallCounters { iters: 0, read_total: 0, read_since_iter: 0, popped: 0, pushed: 0, pushes: 0, ops: 0 }; 2]),
    meds: RefCell::new(Vec::new()),
});
pub fn io() -> &'static Io {
    &IO.0
}

impl Io {
    pub fn count(&self, name: &str, n: u64) {
        let mut s = self.stats.borrow_mut();
        if let Some(v) = s.get_mut(name) {
            *v += n;
        } else {
            s.insert(name.to_string(), n);
        }
    }
    pub fn call_reset(&self, list: usize) {
        self.call.borrow_mut()[list] = CallCounters::default();
    }
    pub fn begin_boot(&self, boot: u32) {
        self.boot.set(boot);
        self.op.set(0);
        self.nor_op.set(0);
        self.mut_op.set(0);
        self.nor_mut.set(0);
        self.fired_boot.set(0);
        self.stalls_boot.set(0);
        self.busy.set(0);
        self.active.set(0);
        self.last_op_end.set(sim().now.get());
        *self.call.borrow_mut() = Default::default();
    }
    /// storage busy time so far in this boot, including the running operation
    pub fn busy_now(&self) -> u64 {
        self.busy.get() + if self.active.get() > 0 { sim().now.get() - self.active_since.get() } else { 0 }
    }
    fn take_fault(&self, level: u32, op: u32, can: &[FK]) -> Option<(FK, u32)> {
        let boot = self.boot.get();
        let listed = self.faults.borrow().iter().find(|f| f.boot == boot && f.level == level && f.op == op).copied();
        let mut res = listed.and_then(|f| if can.contains(&f.kind) { Some((f.kind, f.arg)) } else { None });
        if let Some(r) = self.gen_rng.borrow_mut().as_mut() {
            let rates = self.rates.get();
            let tab = if level == 0 { rates.elem } else { rates.nor };
            for (i, k) in ALL_FK.iter().enumerate() {
                let hit = tab[i] > 0 && r.chance(tab[i], 4096);
                let arg = if hit { r.below(1 << 16) as u32 } else { 0 };
                if hit && res.is_none() && self.faults_on.get() && can.contains(k) {
                    res = Some((*k, arg));
                }
            }
        }
        if !self.faults_on.get() {
            return None;
        }
        if matches!(res, Some((FK::Stall, _))) {
            if self.stalls_boot.get() >= 64 {
                return None;
            }
            self.stalls_boot.set(self.stalls_boot.get() + 1);
        }
        if let Some((kind, arg)) = res {
            self.fired.borrow_mut().push(FaultEv { boot, level, op, kind, arg });
            if kind != FK::Stall {
                self.fired_boot.set(self.fired_boot.get() + 1);
            }
            sim().note(7, op as u64, kind as u64);
        }
        res
    }
}

/// marks the storage as busy for the time accounting; also correct when the operation is cancelled
struct Busy;
impl Busy {
    fn new() -> Busy {
        let io = io();
        if io.active.get() == 0 {
            io.active_since.set(sim().now.get());
            model::on_storage_active();
        }
        io.active.set(io.active.get() + 1);
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        let io = io();
        io.active.set(io.active.get().saturating_sub(1));
        if io.active.get() == 0 {
            let now = sim().now.get();
            io.busy.set(io.busy.get() + now - io.active_since.get());
            io.last_op_end.set(now);
        }
    }
}

/// wait according to the latency profile; profile 0 never waits
async fn latency() {
    let p = io().lat_profile.get();
    if p == 0 {
        return;
    }
    let d = sim().lat.borrow_mut().draw(|r| match p {
        1 => {
            if r.chance(1, 3) {
                1
            } else {
                0
            }
        }
        2 => {
            if r.chance(1, 4) {
                1
            } else if r.chance(1, 4) {
                2 + r.below(2_000) as u32
            } else {
                0
            }
        }
        4 => {
            if r.chance(1, 6) {
                2 + r.below(150_000) as u32
            } else {
                0
            }
        }
        _ => {
            if r.chance(1, 6) {
                1
            } else if r.chance(1, 6) {
                2 + r.below(20_000) as u32
            } else {
                0
            }
        }
    });
    match d {
        0 => {}
        1 => crate::exec::yield_now().await,
        us => crate::exec::sleep(us as u64).await,
    }
}

fn die(what: &str) -> ! {
    sim().logf(|| format!("POWER CUT {what}"));
    sim().crashed.set(true);
    sim().die_here()
}

// ---------------------------------------------------------------- medium

pub enum Kind {
    Queue { cap: usize },
    NorA,
    NorB,
    NorC,
    NorD,
    NorE,
}

pub struct Medium {
    pub kind: Kind,
    pub elems: RefCell<Vec<(u64, Vec<u8>)>>,
    pub uid: Cell<u64>,
    pub dev: Rc<NorDev>,
    pub range: std::ops::Range<u32>,
    pub list: usize,
}

pub struct NorDev {
    pub bytes: RefCell<Vec<u8>>,
}

pub const QOVERHEAD: usize = 8;
pub fn qsize(len: usize) -> usize {
    QOVERHEAD + len.next_multiple_of(4)
}

fn block<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("noodle-sim: offline medium access pended"),
    }
}

impl Medium {
    /// what an independent reader finds on the medium, oldest first
    pub fn read_elems(&self) -> Vec<Vec<u8>> {
        match self.kind {
            Kind::Queue { .. } => self.elems.borrow().iter().map(|e| e.1.clone()).collect(),
            Kind::NorA => self.nor_read::<4, 1, 256>(),
            Kind::NorB => self.nor_read::<8, 4, 512>(),
            Kind::NorC => self.nor_read::<1, 4, 256>(),
            Kind::NorD => self.nor_read::<4, 8, 256>(),
            Kind::NorE => self.nor_read::<1, 1, 1024>(),
        }
    }
    fn nor_read<const W: usize, const R: usize, const E: usize>(&self) -> Vec<Vec<u8>> {
        sim().with_no_preempt(|| {
            let copy = CopyFlash::<W, R, E> { bytes: self.dev.bytes.borrow().clone() };
            let mut q = sequential_storage::queue::QueueStorage::new(
                copy,
                sequential_storage::queue::QueueConfig::new(self.range.clone()),
                sequential_storage::cache::NoCache::new(),
            );
            let mut out = Vec::new();
            let mut buf = vec![0u8; E];
            block(async {
                let Ok(mut it) = q.iter().await else { return };
                while let Ok(Some(e)) = it.next(&mut buf).await {
                    out.push(e.to_vec());
                }
            });
            out
        })
    }
    /// A NOR medium with a page of nothing but popped elements. The queue takes pages back only from its front, so as
    /// long as a retained state lies before such a page its space is gone.
    pub fn clogged(&self) -> bool {
        let (w, page): (usize, usize) = match self.kind {
            Kind::Queue { .. } => return false,
            Kind::NorA => (4, 256),
            Kind::NorB => (8, 512),
            Kind::NorC => (4, 256),
            Kind::NorD => (8, 256),
            Kind::NorE => (1, 1024),
        };
        let bytes = self.dev.bytes.borrow();
        bytes[self.range.start as usize..self.range.end as usize].chunks(page).any(|p| {
            let (mut at, end) = (w, page - w);
            let mut dead = false;
            while at + 8 <= end {
                let h = &p[at..at + 8];
                if h.iter().all(|b| *b == 0xff) {
                    break;
                }
                if h[..4] != [0; 4] {
                    return false;
                }
                dead = true;
                let len = u16::from_le_bytes([h[4], h[5]]) as usize;
                at += 8usize.next_multiple_of(w) + len.next_multiple_of(w);
            }
            dead
        })
    }
    /// add an element (before the run starts)
    pub fn preload(&self, elem: &[u8]) {
        match self.kind {
            Kind::Queue { .. } => self.qpush(elem.to_vec()),
            Kind::NorA => self.nor_preload::<4, 1, 256>(elem),
            Kind::NorB => self.nor_preload::<8, 4, 512>(elem),
            Kind::NorC => self.nor_preload::<1, 4, 256>(elem),
            Kind::NorD => self.nor_preload::<4, 8, 256>(elem),
            Kind::NorE => self.nor_preload::<1, 1, 1024>(elem),
        }
    }
    fn nor_preload<const W: usize, const R: usize, const E: usize>(&self, elem: &[u8]) {
        let copy = CopyFlash::<W, R, E> { bytes: self.dev.bytes.borrow().clone() };
        let mut q = sequential_storage::queue::QueueStorage::new(
            copy,
            sequential_storage::queue::QueueConfig::new(self.range.clone()),
            sequential_storage::cache::NoCache::new(),
        );
        let _ = block(q.push(elem, false));
        let (c, _) = q.destroy();
        *self.dev.bytes.borrow_mut() = c.bytes;
    }
    pub fn qpush(&self, e: Vec<u8>) {
        let u = self.uid.get();
        self.uid.set(u + 1);
        self.elems.borrow_mut().push((u, e));
    }
    pub fn wipe(&self) {
        self.elems.borrow_mut().clear();
        if !matches!(self.kind, Kind::Queue { .. }) {
            for b in &mut self.dev.bytes.borrow_mut()[self.range.start as usize..self.range.end as usize] {
                *b = 0xff;
            }
        }
    }
    pub fn used(&self) -> usize {
        self.elems.borrow().iter().map(|e| qsize(e.1.len())).sum()
    }
    /// damage the medium while it is switched off
    pub fn rot(&self, op: u32, a: u32, b: u32) {
        match self.kind {
            Kind::Queue { .. } => {
                let mut v = self.elems.borrow_mut();
                let n = v.len();
                let garbage = |x: u32| -> Vec<u8> {
                    let mut r = Rng::new(x as u64);
                    let l = r.range(1, 12) as usize;
                    let mut g: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
                    if r.chance(1, 2) {
                        g[0] = *r.pick(&[0x10, 0x11, 0x12, 0x03, 0x0f, 0xff, 0x00, 0x02]);
                        if g[0] == 0 && g.len() == 5 || g[0] == 2 && g.len() == 9 {
                            g.push(1);
                        }
                    }
                    g
                };
                if n == 0 {
                    if op == 5 {
                        drop(v);
                        self.qpush(garbage(b));
                    }
                    return;
                }
                let i = a as usize % n;
                match op {
                    0 => {
                        // flip bits of one byte
                        let e = &mut v[i].1;
                        let m = e.len();
                        e[(b >> 8) as usize % m] ^= ((b & 0xff) as u8).max(1);
                    }
                    1 => {
                        v.remove(i);
                    }
                    2 => {
                        let e = v[i].1.clone();
                        let j = b as usize % (n + 1);
                        v.insert(j, (u64::MAX - b as u64, e));
                    }
                    3 => {
                        let j = b as usize % n;
                        v.swap(i, j);
                    }
                    4 => {
                        let e = &mut v[i].1;
                        let m = e.len();
                        if m > 1 {
                            e.truncate(1 + b as usize % (m - 1));
                        }
                    }
                    5 => {
                        v.insert(i, (u64::MAX - b as u64, garbage(b)));
                    }
                    _ => {
                        // cut off the tail
                        v.truncate(i);
                    }
                }
            }
            _ => {
                // flip a bit inside the payload of one stored element
                let elems = self.read_elems();
                if elems.is_empty() {
                    return;
                }
                let e = &elems[a as usize % elems.len()];
                let mut bytes = self.dev.bytes.borrow_mut();
                let r = self.range.start as usize..self.range.end as usize;
                let hay = &mut bytes[r];
                let mut hits = Vec::new();
                for p in 8..hay.len().saturating_sub(e.len()) {
                    // behind an item header (crc u32, length u16, crc of the length u16) that is not erased
                    let h = &hay[p - 8..p];
                    let item = u16::from_le_bytes([h[4], h[5]]) as usize == e.len() && h[..4] != [0; 4];
                    if item && &hay[p..p + e.len()] == &e[..] {
                        hits.push(p);
                    }
                }
                if hits.is_empty() || e.len() < 5 {
                    return;
                }
                let p = hits[b as usize % hits.len()];
                let off = (b >> 8) as usize % e.len();
                hay[p + off] ^= ((b & 0xff) as u8).max(1);
            }
        }
    }
}

// ---------------------------------------------------------------- element queue

#[derive(Debug, Clone, PartialEq)]
pub enum QErr {
    Full,
    TooBig,
    BufTooSmall,
    Io,
}

pub struct SimQueue<const MAX: usize> {
    pub med: Rc<Medium>,
}
pub struct QIter<'a> {
    med: &'a Medium,
    last: Option<u64>,
    pos: usize,
    started: bool,
}
pub struct QNode<'a, 'b> {
    med: &'a Medium,
    uid: u64,
    data: &'b [u8],
}

impl<const MAX: usize> NdlDataStorage for SimQueue<MAX> {
    type Iter<'this> = QIter<'this>;
    type Error = QErr;
    async fn iter_elems<'this>(&'this mut self) -> Result<QIter<'this>, QErr> {
        Ok(QIter { med: &self.med, last: None, pos: 0, started: false })
    }
    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, QErr> {
        let b = elem_bytes(data);
        if b.len() > MAX {
            return Err(QErr::TooBig);
        }
        let Kind::Queue { cap } = self.med.kind else { unreachable!() };
        if self.med.used() + qsize(b.len()) > cap {
            return Err(QErr::Full);
        }
        let n = qsize(b.len());
        self.med.qpush(b);
        Ok(n)
    }
    const MAX_ELEM_SIZE: usize = MAX;
}
impl NdlElemIter for QIter<'_> {
    type Item<'this, 'buf>
        = QNode<'this, 'buf>
    where
        Self: 'this,
        Self: 'buf;
    type Error = QErr;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<QNode<'iter, 'buf>>, QErr>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let v = self.med.elems.borrow();
        // continue after the last element we returned, which may have been removed meanwhile
        let mut i = self.pos;
        if self.started
            && let Some(l) = self.last
            && i > 0
            && v.get(i - 1).map(|e| e.0) != Some(l)
        {
            i -= 1;
        }
        let Some((uid, d)) = v.get(i) else { return Ok(None) };
        if d.len() > buf.len() {
            return Err(QErr::BufTooSmall);
        }
        // a scratch buffer holds rubbish beyond the element
        for b in buf.iter_mut() {
            *b = 0xa5;
        }
        buf[..d.len()].copy_from_slice(d);
        self.pos = i + 1;
        self.last = Some(*uid);
        self.started = true;
        let n = d.len();
        let uid = *uid;
        drop(v);
        Ok(Some(QNode { med: self.med, uid, data: &buf[..n] }))
    }
}
impl NdlElemIterNode for QNode<'_, '_> {
    type Error = QErr;
    fn data(&self) -> Option<Elem<'_>> {
        parse_elem(self.data).map(|e| match e {
            PElem::Start(s) => Elem::Start { seq_no: s.try_into().unwrap() },
            PElem::Data(_) => Elem::Data { data: SerData::from_existing(self.data).unwrap() },
            PElem::End(s, c) => Elem::End { seq_no: s.try_into().unwrap(), calc_crc: c },
        })
    }
    fn len(&self) -> usize {
        qsize(self.data.len())
    }
    async fn invalidate(self) -> Result<(), QErr> {
        let mut v = self.med.elems.borrow_mut();
        let before = v.len();
        v.retain(|e| e.0 != self.uid);
        if v.len() == before {
            drop(v);
            sim().violate("HARNESS", || "invalidate of a missing element".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- the independent format

pub enum PElem<'a> {
    Start(u32),
    Data(&'a [u8]),
    End(u32, u32),
}
/// Independent reader of the documented version-0 element format
pub fn parse_elem(b: &[u8]) -> Option<PElem<'_>> {
    let (h, rest) = b.split_first()?;
    match (*h, rest.len()) {
        (0, 4) => {
            let s = u32::from_le_bytes(rest.try_into().unwrap());
            if s == 0 { None } else { Some(PElem::Start(s)) }
        }
        (1, n) if n > 0 => Some(PElem::Data(rest)),
        (2, 8) => {
            let s = u32::from_le_bytes(rest[..4].try_into().unwrap());
            let c = u32::from_le_bytes(rest[4..].try_into().unwrap());
            if s == 0 { None } else { Some(PElem::End(s, c)) }
        }
        _ => None,
    }
}
pub fn elem_bytes(e: &Elem<'_>) -> Vec<u8> {
    match e {
        Elem::Start { seq_no } => start_bytes(seq_no.get()),
        Elem::Data { data } => {
            let mut v = vec![data.hdr()];
            v.extend_from_slice(data.key_val());
            v
        }
        Elem::End { seq_no, calc_crc } => end_bytes(seq_no.get(), *calc_crc),
    }
}
pub fn start_bytes(seq: u32) -> Vec<u8> {
    let mut v = vec![0u8];
    v.extend_from_slice(&seq.to_le_bytes());
    v
}
pub fn end_bytes(seq: u32, crc: u32) -> Vec<u8> {
    let mut v = vec![2u8];
    v.extend_from_slice(&seq.to_le_bytes());
    v.extend_from_slice(&crc.to_le_bytes());
    v
}
/// CRC-32/CKSUM computed independently (poly 0x04c11db7, init 0, no reflection, xorout ffffffff)
pub fn crc_update(mut crc: u32, data: &[u8]) -> u32 {
    for b in data {
        crc ^= (*b as u32) << 24;
        for _ in 0..8 {
            crc = if crc & 0x8000_0000 != 0 { (crc << 1) ^ 0x04c1_1db7 } else { crc << 1 };
        }
    }
    crc
}
pub fn crc_final(crc: u32) -> u32 {
    crc ^ 0xffff_ffff
}

// ---------------------------------------------------------------- NOR flash

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct NorErr;
impl embedded_storage_async::nor_flash::NorFlashError for NorErr {
    fn kind(&self) -> embedded_storage_async::nor_flash::NorFlashErrorKind {
        embedded_storage_async::nor_flash::NorFlashErrorKind::Other
    }
}

/// offline copy used by the oracle
struct CopyFlash<const W: usize, const R: usize, const E: usize> {
    bytes: Vec<u8>,
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::ErrorType for CopyFlash<W, R, E> {
    type Error = NorErr;
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::ReadNorFlash for CopyFlash<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), NorErr> {
        let o = o as usize;
        b.copy_from_slice(&self.bytes[o..o + b.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.bytes.len()
    }
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::NorFlash for CopyFlash<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, f: u32, t: u32) -> Result<(), NorErr> {
        self.bytes[f as usize..t as usize].fill(0xff);
        Ok(())
    }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), NorErr> {
        for (i, x) in b.iter().enumerate() {
            self.bytes[o as usize + i] &= x;
        }
        Ok(())
    }
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::MultiwriteNorFlash for CopyFlash<W, R, E> {}

/// the simulated NOR device as seen through one list's driver
pub struct SimNor<const W: usize, const R: usize, const E: usize> {
    pub dev: Rc<NorDev>,
    pub range: std::ops::Range<u32>,
}
impl<const W: usize, const R: usize, const E: usize> SimNor<W, R, E> {
    fn in_range(&self, f: u32, t: u32, what: &str) {
        if f < self.range.start || t > self.range.end {
            let r = self.range.clone();
            sim().violate("RANGE", || format!("{what} of {f:#x}..{t:#x} outside of the assigned flash range {r:x?}"));
        }
    }
    async fn pre(&self, can: &[FK], mutates: bool) -> (Option<(FK, u32)>, Option<u32>) {
        let io = io();
        let n = io.nor_op.get();
        io.nor_op.set(n + 1);
        latency().await;
        let nm = io.nor_mut.get();
        if mutates {
            io.nor_mut.set(nm + 1);
        }
        let crash = match io.crash.get() {
            Crash::Nor(k, portion) if k == n => Some(portion),
            Crash::NorMut(k, portion) if mutates && k == nm => Some(portion),
            _ => None,
        };
        (io.take_fault(1, n, can), crash)
    }
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::ErrorType for SimNor<W, R, E> {
    type Error = NorErr;
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::ReadNorFlash for SimNor<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), NorErr> {
        self.in_range(o, o + b.len() as u32, "read");
        let (fault, crash) = self.pre(&[FK::ErrBefore], false).await;
        if crash.is_some() {
            die("in a flash read");
        }
        if fault.is_some() {
            io().count("fault.nor_read_err", 1);
            return Err(NorErr);
        }
        let by = self.dev.bytes.borrow();
        let o = o as usize;
        if o % R != 0 || b.len() % R != 0 || o + b.len() > by.len() {
            drop(by);
            sim().violate("RANGE", || format!("unaligned or out of bounds read at {o:#x} len {}", b.len()));
            return Err(NorErr);
        }
        b.copy_from_slice(&by[o..o + b.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.dev.bytes.borrow().len()
    }
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::NorFlash for SimNor<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, f: u32, t: u32) -> Result<(), NorErr> {
        self.in_range(f, t, "erase");
        let (fault, crash) = self.pre(&[FK::ErrBefore, FK::ErrAfter, FK::Partial], true).await;
        let n = (t - f) as usize;
        let part = |p: u32| n * (p.min(16) as usize) / 16 / W * W;
        let (len, err) = match (crash, fault) {
            (Some(p), _) => (part(p), false),
            (_, Some((FK::ErrBefore, _))) => (0, true),
            (_, Some((FK::Partial, a))) => (part(a % 17), true),
            (_, Some((FK::ErrAfter, _))) => (n, true),
            _ => (n, false),
        };
        {
            let mut by = self.dev.bytes.borrow_mut();
            by[f as usize..f as usize + len].fill(0xff);
        }
        if crash.is_some() {
            io().count("fault.crash_in_nor_erase", 1);
            die("in a flash erase");
        }
        latency().await;
        if err {
            io().count("fault.nor_erase_err", 1);
            return Err(NorErr);
        }
        Ok(())
    }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), NorErr> {
        self.in_range(o, o + b.len() as u32, "write");
        let (fault, crash) = self.pre(&[FK::ErrBefore, FK::ErrAfter, FK::Partial], true).await;
        let n = b.len();
        let part = |p: u32| n * (p.min(16) as usize) / 16 / W * W;
        let (len, err) = match (crash, fault) {
            (Some(p), _) => (part(p), false),
            (_, Some((FK::ErrBefore, _))) => (0, true),
            (_, Some((FK::Partial, a))) => (part(a % 17), true),
            (_, Some((FK::ErrAfter, _))) => (n, true),
            _ => (n, false),
        };
        {
            let mut by = self.dev.bytes.borrow_mut();
            if o as usize % W != 0 || n % W != 0 || o as usize + n > by.len() {
                drop(by);
                sim().violate("RANGE", || format!("unaligned or out of bounds write at {o:#x} len {n}"));
                return Err(NorErr);
            }
            for (i, x) in b[..len].iter().enumerate() {
                by[o as usize + i] &= x;
            }
        }
        if crash.is_some() {
            io().count("fault.crash_in_nor_write", 1);
            die("in a flash write");
        }
        latency().await;
        if err {
            io().count("fault.nor_write_err", 1);
            return Err(NorErr);
        }
        Ok(())
    }
}
impl<const W: usize, const R: usize, const E: usize> embedded_storage_async::nor_flash::MultiwriteNorFlash for SimNor<W, R, E> {}

// ---------------------------------------------------------------- probe

/// Wraps a storage: counts, delays, fails, tears and observes every element operation.
pub struct Probe<S> {
    pub inner: S,
    pub list: usize,
}
pub struct ProbeIter<I> {
    inner: I,
    list: usize,
}
pub struct ProbeNode<N> {
    inner: N,
    list: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub enum PErr<E> {
    Injected,
    Inner(E),
}

struct OpCtx {
    n: u32,
    fault: Option<(FK, u32)>,
    crash: Option<u32>,
    _busy: Busy,
}
async fn op_begin(list: usize, k: OpK, can: &[FK]) -> OpCtx {
    let io = io();
    let busy = Busy::new();
    let n = io.op.get();
    io.op.set(n + 1);
    io.call.borrow_mut()[list].ops += 1;
    if n > io.op_limit.get() {
        sim().violate("LIVE", || format!("{n} storage operations without an end"));
        sim().die_here();
    }
    let nm = io.mut_op.get();
    let mutates = matches!(k, OpK::Push | OpK::Inval);
    if mutates {
        io.mut_op.set(nm + 1);
    }
    let crash = match io.crash.get() {
        Crash::Op(x, ph) if x == n => Some(ph),
        Crash::Mut(x, ph) if mutates && x == nm => Some(ph),
        _ => None,
    };
    let fault = io.take_fault(0, n, can);
    if let Some((kind, _)) = fault {
        io.count(&format!("fault.{}.{}", kind.name(), k.name()), 1);
        sim().logf(|| format!("fault {} on {} (op {n})", kind.name(), k.name()));
    }
    model::on_op(list, k);
    latency().await;
    if let Some((FK::Stall, a)) = fault {
        crate::exec::sleep(100_000 + a as u64 * 400).await;
    }
    if crash == Some(0) {
        io.count(&format!("fault.crash_before.{}", k.name()), 1);
        die(&format!("before {} (op {n})", k.name()));
    }
    OpCtx { n, fault, crash, _busy: busy }
}
/// the operation may be dropped half way: look at the medium again then
struct Refresh(Option<usize>);
impl Drop for Refresh {
    fn drop(&mut self) {
        if let Some(l) = self.0 {
            model::after_invalidate(l);
        }
    }
}
async fn op_end(c: &OpCtx, k: OpK) {
    if c.crash.is_some() {
        io().count(&format!("fault.crash_after.{}", k.name()), 1);
        die(&format!("after {} (op {})", k.name(), c.n));
    }
    latency().await;
}

impl<S: NdlDataStorage> NdlDataStorage for Probe<S>
where
    S::Error: Debug,
{
    type Iter<'this>
        = ProbeIter<S::Iter<'this>>
    where
        Self: 'this;
    type Error = PErr<S::Error>;

    async fn iter_elems<'this>(&'this mut self) -> Result<Self::Iter<'this>, Self::Error> {
        let c = op_begin(self.list, OpK::Iter, &[FK::ErrBefore, FK::Stall]).await;
        {
            let mut cc = io().call.borrow_mut();
            cc[self.list].iters += 1;
            cc[self.list].read_since_iter = 0;
        }
        if let Some((FK::ErrBefore, _)) = c.fault {
            return Err(PErr::Injected);
        }
        let list = self.list;
        let r = self.inner.iter_elems().await;
        op_end(&c, OpK::Iter).await;
        match r {
            Ok(i) => Ok(ProbeIter { inner: i, list }),
            Err(e) => Err(PErr::Inner(e)),
        }
    }

    async fn push(&mut self, data: &Elem<'_>) -> Result<usize, Self::Error> {
        let list = self.list;
        let bytes = elem_bytes(data);
        model::before_push(list, &bytes);
        {
            let mut cc = io().call.borrow_mut();
            cc[list].pushes += 1;
        }
        let c = op_begin(list, OpK::Push, &[FK::ErrBefore, FK::ErrAfter, FK::Drop, FK::Garble, FK::Stall]).await;
        sim().note(2, crate::exec::mix(crc_update(0, &bytes) as u64), bytes.len() as u64);
        let mut send = bytes.clone();
        let mut torn = false;
        if c.crash == Some(2) {
            // power cut in the middle: a shortened element remains
            let keep = 1 + (c.n as usize * 7) % send.len().max(2).saturating_sub(1);
            send.truncate(keep.min(send.len() - 1).max(1));
            torn = true;
        }
        match c.fault {
            Some((FK::ErrBefore, _)) => return Err(PErr::Injected),
            Some((FK::Drop, _)) => {
                let n = qsize(bytes.len());
                op_end(&c, OpK::Push).await;
                io().call.borrow_mut()[list].pushed += n;
                return Ok(n);
            }
            Some((FK::Garble, a)) => {
                let l = send.len();
                if a & 0x300 == 0 && l > 1 {
                    send.truncate(l - 1);
                } else {
                    send[(a >> 8) as usize % l] ^= ((a & 0xff) as u8).max(1);
                }
            }
            _ => {}
        }
        let mut g = Refresh(Some(list));
        let r = push_raw(&mut self.inner, &send).await;
        g.0 = None;
        if r.is_ok() {
            sim().logf(|| format!("push list{} {}", list, describe(&send)));
        }
        model::after_push(list, &send, r.is_ok());
        if torn {
            io().count("fault.torn_push", 1);
            die("inside a push");
        }
        op_end(&c, OpK::Push).await;
        if let Some((FK::ErrAfter, _)) = c.fault {
            return Err(PErr::Injected);
        }
        match r {
            Ok(n) => {
                io().call.borrow_mut()[list].pushed += n;
                Ok(n)
            }
            Err(e) => {
                sim().logf(|| format!("push failed: {e:?}"));
                Err(PErr::Inner(e))
            }
        }
    }
    const MAX_ELEM_SIZE: usize = S::MAX_ELEM_SIZE;
}

/// push arbitrary bytes through the storage as an element
async fn push_raw<S: NdlDataStorage>(s: &mut S, b: &[u8]) -> Result<usize, S::Error> {
    // Start/End elements are rebuilt so that the real encoder runs; anything else goes through as data bytes
    match parse_elem(b) {
        Some(PElem::Start(q)) => s.push(&Elem::Start { seq_no: q.try_into().unwrap() }).await,
        Some(PElem::End(q, c)) => s.push(&Elem::End { seq_no: q.try_into().unwrap(), calc_crc: c }).await,
        _ => s.push(&Elem::Data { data: SerData::from_existing(b).unwrap() }).await,
    }
}

pub fn describe(b: &[u8]) -> String {
    match parse_elem(b) {
        None => format!("undecodable {b:02x?}"),
        Some(PElem::Start(s)) => format!("Start({s})"),
        Some(PElem::End(s, c)) => format!("End({s}, crc {c:08x})"),
        Some(PElem::Data(d)) => match minicbor::decode::<&str>(d) {
            Ok(k) => {
                let n = minicbor::len(k);
                format!("Data({:?}, {} bytes, {:02x?}…)", &k[..k.len().min(12)], d.len() - n, &d[n..d.len().min(n + 10)])
            }
            Err(_) => format!("Data(bad key, {} bytes)", d.len()),
        },
    }
}

impl<I: NdlElemIter> NdlElemIter for ProbeIter<I>
where
    I::Error: Debug,
{
    type Item<'this, 'buf>
        = ProbeNode<I::Item<'this, 'buf>>
    where
        Self: 'this,
        Self: 'buf;
    type Error = PErr<I::Error>;
    async fn next<'iter, 'buf>(&'iter mut self, buf: &'buf mut [u8]) -> Result<Option<Self::Item<'iter, 'buf>>, Self::Error>
    where
        Self: 'buf,
        Self: 'iter,
    {
        let c = op_begin(self.list, OpK::Next, &[FK::ErrBefore, FK::Stall]).await;
        if let Some((FK::ErrBefore, _)) = c.fault {
            return Err(PErr::Injected);
        }
        let list = self.list;
        let r = self.inner.next(buf).await;
        op_end(&c, OpK::Next).await;
        match r {
            Ok(Some(n)) => {
                let l = n.len();
                let mut cc = io().call.borrow_mut();
                cc[list].read_total += l;
                cc[list].read_since_iter += l;
                drop(cc);
                Ok(Some(ProbeNode { inner: n, list }))
            }
            Ok(None) => Ok(None),
            Err(e) => {
                sim().logf(|| format!("next failed: {e:?}"));
                Err(PErr::Inner(e))
            }
        }
    }
}
impl<N: NdlElemIterNode> NdlElemIterNode for ProbeNode<N>
where
    N::Error: Debug,
{
    type Error = PErr<N::Error>;
    fn data(&self) -> Option<Elem<'_>> {
        self.inner.data()
    }
    fn len(&self) -> usize {
        self.inner.len()
    }
    async fn invalidate(self) -> Result<(), Self::Error> {
        let list = self.list;
        let c = op_begin(list, OpK::Inval, &[FK::ErrBefore, FK::ErrAfter, FK::Stall]).await;
        let bytes = self.inner.data().map(|e| elem_bytes(&e));
        sim().note(3, bytes.as_ref().map_or(0, |b| crc_update(0, b)) as u64, 0);
        if let Some((FK::ErrBefore, _)) = c.fault {
            return Err(PErr::Injected);
        }
        let len = self.inner.len();
        let mut g = Refresh(Some(list));
        let r = self.inner.invalidate().await;
        g.0 = None;
        if r.is_ok() {
            sim().logf(|| format!("invalidate list{} {}", list, bytes.as_ref().map_or("undecodable".into(), |b| describe(b))));
        }
        model::after_invalidate(list);
        op_end(&c, OpK::Inval).await;
        if let Some((FK::ErrAfter, _)) = c.fault {
            return Err(PErr::Injected);
        }
        match r {
            Ok(()) => {
                io().call.borrow_mut()[list].popped += len;
                Ok(())
            }
            Err(e) => {
                sim().logf(|| format!("invalidate failed: {e:?}"));
                Err(PErr::Inner(e))
            }
        }
    }
}
