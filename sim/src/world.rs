//! Runs one plan: boots the system under the simulator, boot after boot, and evaluates the oracle.

use crate::exec::{Rng, Stop, Tape, Violation, cancel_after, mix, sim, sleep, yield_now};
use crate::exec::SimMutex;
use crate::model::{self, ARes, Mode, Out, m};
use crate::plan::{Backend, Boot, COp, DOp, Plan};
use crate::store::{Crash, FaultEv, Kind, Medium, NorDev, PErr, Probe, Rates, SimNor, SimQueue, io};
use crate::val::{self, SimVal, Ty};
use crate::with_ty;
use cfg_noodle::error::{Error, LoadStoreError};
use cfg_noodle::flash::Flash;
use cfg_noodle::worker_task::{default_worker_task, no_op_worker_task};
use cfg_noodle::{NdlDataStorage, StorageList, StorageListNode, StorageListNodeHandle};
use sequential_storage::cache::{NoCache, PagePointerCache, PageStateCache};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
type L<const K: usize> = &'static StorageList<SimMutex, K>;

#[derive(Clone, Copy)]
pub enum ListRef {
    K1(L<1>),
    K2(L<2>),
    K3(L<3>),
    K5(L<5>),
}
impl ListRef {
    fn new(k: usize) -> ListRef {
        match k {
            1 => ListRef::K1(Box::leak(Box::new(StorageList::new()))),
            2 => ListRef::K2(Box::leak(Box::new(StorageList::new()))),
            5 => ListRef::K5(Box::leak(Box::new(StorageList::new()))),
            _ => ListRef::K3(Box::leak(Box::new(StorageList::new()))),
        }
    }
}
macro_rules! with_list {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            ListRef::K1($x) => $e,
            ListRef::K2($x) => $e,
            ListRef::K3($x) => $e,
            ListRef::K5($x) => $e,
        }
    };
}
macro_rules! with_store {
    ($be:expr, $med:expr, $mk:ident => $e:expr) => {{
        let med: Rc<Medium> = $med;
        let list = med.list;
        match $be {
            Backend::Q256 => {
                let $mk = move || Probe { inner: SimQueue::<256> { med: med.clone() }, list };
                $e
            }
            Backend::Q64 => {
                let $mk = move || Probe { inner: SimQueue::<64> { med: med.clone() }, list };
                $e
            }
            Backend::NorA => {
                let $mk = move || Probe {
                    inner: Flash::new(SimNor::<4, 1, 256> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), NoCache::new()),
                    list,
                };
                $e
            }
            Backend::NorACached => {
                let $mk = move || Probe {
                    inner: Flash::new(SimNor::<4, 1, 256> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), PagePointerCache::<64>::new()),
                    list,
                };
                $e
            }
            Backend::NorC => {
                let $mk = move || Probe {
                    inner: Flash::new(SimNor::<1, 4, 256> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), PageStateCache::<64>::new()),
                    list,
                };
                $e
            }
            Backend::NorD => {
                let $mk = move || Probe {
                    inner: Flash::try_new(SimNor::<4, 8, 256> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), NoCache::new()).expect("valid range"),
                    list,
                };
                $e
            }
            Backend::NorE => {
                let $mk = move || Probe {
                    inner: Flash::try_new(SimNor::<1, 1, 1024> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), PagePointerCache::<64>::new()).expect("valid range"),
                    list,
                };
                $e
            }
            Backend::NorBCached => {
                let $mk = move || Probe {
                    inner: Flash::new(SimNor::<8, 4, 512> { dev: med.dev.clone(), range: med.range.clone() }, med.range.clone(), PageStateCache::<64>::new()),
                    list,
                };
                $e
            }
        }
    }};
}

trait DynHandle {
    fn load(&self) -> u64;
    fn write<'a>(&'a mut self, id: u64) -> Fut<'a, Result<(), Error>>;
    fn key(&self) -> &'static str;
}
trait DynNode {
    fn attach(&self, l: ListRef, d: u64) -> Fut<'static, Result<Box<dyn DynHandle>, Error>>;
    fn detach(&self, l: ListRef) -> Fut<'static, Result<(), Error>>;
}
struct Nd<T: 'static>(&'static StorageListNode<T>);
impl<T: SimVal, const K: usize> DynHandle for StorageListNodeHandle<T, SimMutex, K> {
    fn load(&self) -> u64 {
        StorageListNodeHandle::load(self).vid()
    }
    fn write<'a>(&'a mut self, id: u64) -> Fut<'a, Result<(), Error>> {
        Box::pin(async move {
            let t = T::mk(id);
            StorageListNodeHandle::write(self, &t).await
        })
    }
    fn key(&self) -> &'static str {
        StorageListNodeHandle::key(self)
    }
}
impl<T: SimVal> DynNode for Nd<T> {
    fn attach(&self, l: ListRef, d: u64) -> Fut<'static, Result<Box<dyn DynHandle>, Error>> {
        let n = self.0;
        with_list!(l, x => if d == 0 {
            Box::pin(async move { n.attach(x).await.map(|h| Box::new(h) as Box<dyn DynHandle>) })
        } else {
            Box::pin(async move { n.attach_with_default(x, move || T::mk(d)).await.map(|h| Box::new(h) as Box<dyn DynHandle>) })
        })
    }
    fn detach(&self, l: ListRef) -> Fut<'static, Result<(), Error>> {
        let n = self.0;
        with_list!(l, x => Box::pin(async move { n.detach(x).await }))
    }
}

thread_local! {
    static KEYS: RefCell<BTreeMap<String, &'static str>> = const { RefCell::new(BTreeMap::new()) };
}
fn intern(s: &str) -> &'static str {
    KEYS.with(|k| {
        let mut k = k.borrow_mut();
        if let Some(x) = k.get(s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        k.insert(s.to_string(), l);
        l
    })
}

pub struct World {
    nodes: Vec<Rc<dyn DynNode>>,
    lists: Vec<ListRef>,
    plan: Rc<Plan>,
    clients_left: Cell<usize>,
    /// when the boot started
    t0: u64,
    done: Cell<bool>,
    arrived: RefCell<BTreeMap<u32, usize>>,
}

fn ares(e: &Error) -> ARes {
    match e {
        Error::AlreadyTaken => ARes::AlreadyTaken,
        Error::NodeInOtherList => ARes::OtherList,
        Error::DuplicateKey => ARes::Duplicate,
        _ => ARes::OtherErr,
    }
}

struct Handles(BTreeMap<usize, Box<dyn DynHandle>>);

async fn client(w: Rc<World>, ops: Vec<COp>) {
    let mut hs = Handles(BTreeMap::new());
    for op in ops {
        client_op(&w, &mut hs, op).await;
    }
    let ks: Vec<usize> = hs.0.keys().copied().collect();
    for k in ks {
        let h = hs.0.remove(&k);
        let holder = model::handle_dropping(k);
        drop(h);
        model::handle_dropped(k, holder);
    }
    w.clients_left.set(w.clients_left.get() - 1);
}

async fn client_op(w: &Rc<World>, hs: &mut Handles, op: COp) {
    match op {
        COp::Sleep(us) => sleep(us).await,
        COp::At(us) => sleep((w.t0 + us).saturating_sub(sim().now.get())).await,
        COp::Yield => yield_now().await,
        COp::Attach { n, l, d, c } => {
            if n >= w.nodes.len() || l >= w.lists.len() {
                return;
            }
            let inv = model::attach_begin(n, l, d);
            let fut = w.nodes[n].attach(w.lists[l], d);
            let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
            io().count(if r.is_some() { "op.attach" } else { "cancel.attach" }, 1);
            match r {
                None => model::attach_end(n, l, inv, ARes::Cancelled, None, d),
                Some(Err(e)) => model::attach_end(n, l, inv, ares(&e), None, d),
                Some(Ok(h)) => {
                    let v = h.load();
                    model::attach_end(n, l, inv, ARes::Ok, Some(v), d);
                    if h.key() != w.plan.nodes[n].0 {
                        sim().violate("VAL", || format!("handle of node{n} reports key {:?}", h.key()));
                    }
                    if sim().violated() {
                        std::mem::forget(h);
                        return;
                    }
                    hs.0.insert(n, h);
                }
            }
        }
        COp::Load { n } => {
            if let Some(h) = hs.0.get(&n) {
                let v = h.load();
                model::loaded(n, v);
            }
        }
        COp::Write { n, id, c } => {
            if let Some(h) = hs.0.get_mut(&n) {
                let inv = model::write_begin(n, id);
                let fut = h.write(id);
                let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
                io().count(if r.is_some() { "op.write" } else { "cancel.write" }, 1);
                model::write_end(n, inv, r.map(|x| x.is_ok()));
            }
        }
        COp::Drop { n } => {
            if let Some(h) = hs.0.remove(&n) {
                let holder = model::handle_dropping(n);
                drop(h);
                model::handle_dropped(n, holder);
            }
        }
        COp::Detach { n, l, c } => {
            if n >= w.nodes.len() || l >= w.lists.len() {
                return;
            }
            let live = m(|m| m.nodes[n].live);
            let inv = model::detach_begin(n, l);
            let fut = w.nodes[n].detach(w.lists[l]);
            let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
            io().count(if r.is_some() { "op.detach" } else { "cancel.detach" }, 1);
            let res = match r {
                None => ARes::Cancelled,
                Some(Ok(())) => ARes::Ok,
                Some(Err(e)) => ares(&e),
            };
            model::detach_end(n, l, inv, res, live);
        }
    }
}

fn out_of<T, E: Debug>(r: &Result<T, LoadStoreError<PErr<E>>>) -> Out {
    match r {
        Ok(_) => Out::Ok,
        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => Out::NeedsRead,
        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => Out::NeedsGc,
        Err(LoadStoreError::AppError(Error::Serialization)) => Out::Ser,
        Err(LoadStoreError::AppError(Error::InconsistentFlash)) => Out::Inconsistent,
        Err(LoadStoreError::WriteVerificationFailed) => Out::Verify,
        Err(LoadStoreError::FlashWrite(e)) => {
            if format!("{e:?}").contains("Full") {
                Out::FlashFull
            } else {
                Out::FlashW
            }
        }
        Err(LoadStoreError::FlashRead(_)) => Out::FlashR,
        _ => Out::OtherErr,
    }
}

/// the task that owns one list's storage and calls the library's processing functions
struct Driver<S, const K: usize, M: Fn() -> Probe<S>> {
    w: Rc<World>,
    li: usize,
    list: L<K>,
    mk: M,
    st: Probe<S>,
    buf: Vec<u8>,
}

fn fits<S: NdlDataStorage>(key: &str, ty: Ty, id: u64) -> bool {
    sim().with_no_preempt(|| with_ty!(ty, T => if id & 1 == 0 { S::check_node_size(key, T::mk(id)) } else { <&mut S as NdlDataStorage>::check_node_size(key, T::mk(id)) }))
}
fn sized(ty: Ty) -> bool {
    matches!(ty, Ty::Val | Ty::Aligned | Ty::Big | Ty::Text)
}

impl<S: NdlDataStorage, const K: usize, M: Fn() -> Probe<S>> Driver<S, K, M>
where
    S::Error: Debug,
{
    async fn read(&mut self, c: u32) -> Out {
        let ctx = model::call_begin(self.li);
        let fut = self.list.process_reads(&mut self.st, &mut self.buf);
        let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
        let out = r.as_ref().map_or(Out::Cancelled, out_of);
        io().count(if c > 0 && r.is_none() { "cancel.read" } else { "op.read" }, 1);
        let cnt = match &r {
            Some(Ok(x)) => Some((x.total_bytes_read, x.current_bytes_read)),
            _ => None,
        };
        model::read_done(self.li, ctx, out, cnt);
        out
    }
    async fn gc(&mut self, c: u32) -> Out {
        let ctx = model::call_begin(self.li);
        let fut = self.list.process_garbage(&mut self.st, &mut self.buf);
        let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
        let out = r.as_ref().map_or(Out::Cancelled, out_of);
        io().count(if c > 0 && r.is_none() { "cancel.gc" } else { "op.gc" }, 1);
        let cnt = match &r {
            Some(Ok(x)) => Some((x.total_bytes_read, x.post_collection_bytes_read, x.total_bytes_popped)),
            _ => None,
        };
        model::gc_done(self.li, ctx, out, cnt);
        out
    }
    fn too_big(&self, from: u64) -> (bool, Option<&'static str>) {
        let mut maybe = false;
        let mut definite = None;
        for (key, ty, ids, def) in model::size_query(self.li, from) {
            if !sized(ty) {
                continue;
            }
            for id in ids {
                if !fits::<Probe<S>>(key, ty, id) {
                    maybe = true;
                    if def {
                        definite = Some(key);
                    }
                }
            }
        }
        (maybe, definite)
    }
    async fn write(&mut self, c: u32) -> Out {
        let ctx = model::call_begin(self.li);
        let from = ctx.ev;
        let fut = self.list.process_writes(&mut self.st, &mut self.buf);
        let r = if c == 0 { Some(fut.await) } else { cancel_after(fut, c - 1).await };
        let out = r.as_ref().map_or(Out::Cancelled, out_of);
        io().count(if c > 0 && r.is_none() { "cancel.flush" } else { "op.flush" }, 1);
        io().count(&format!("flush.{out:?}"), 1);
        let cnt = match &r {
            Some(Ok(x)) => Some((x.total_bytes_read, x.current_bytes_written)),
            _ => None,
        };
        let (maybe, def) = if self.w.plan.oversize { self.too_big(from) } else { (false, None) };
        model::write_done(self.li, ctx, out, cnt, maybe, def);
        out
    }
    async fn op(&mut self, o: &DOp) {
        match o {
            DOp::Read(c) => drop(self.read(*c).await),
            DOp::Write(c) => drop(self.write(*c).await),
            DOp::Gc(c) => drop(self.gc(*c).await),
            DOp::Reset(c) => {
                let fut = self.list.reset_cache();
                let r = if *c == 0 { Some(fut.await) } else { cancel_after(fut, *c - 1).await };
                sim().logf(|| format!("reset_cache(list{}) done={}", self.li, r.is_some()));
                io().count("op.reset_cache", 1);
                model::cache_reset(self.li, r.is_some());
            }
            DOp::Wipe => {
                let med = io().meds.borrow()[self.li].clone();
                med.wipe();
                sim().logf(|| format!("medium of list{} wiped", self.li));
                model::wiped(self.li);
                io().count("op.wipe", 1);
                self.st = (self.mk)();
                self.list.reset_cache().await;
                model::cache_reset(self.li, true);
            }
            DOp::Sleep(us) => sleep(*us).await,
            DOp::Yield => yield_now().await,
            DOp::WaitRead(us) => {
                let r = wait_or(self.list.needs_read(), *us, || model::read_requests(self.li)).await;
                model::read_wait_end(r);
            }
            DOp::WaitWrite(us) => match wait_or(self.list.needs_write(), *us, || sim().tick()).await {
                None => model::write_wake_consumed(),
                Some(ev) => model::write_wait_timeout(ev),
            },
        }
    }
    fn pending(&self) -> Vec<(usize, u64)> {
        m(|m| m.nodes.iter().enumerate().flat_map(|(i, n)| n.attaching.iter().filter(|a| a.1 == self.li).map(move |a| (i, a.0))).collect())
    }
    async fn round(&mut self) -> (bool, Out) {
        let a = self.read(0).await;
        let g = self.gc(0).await;
        let b = self.write(0).await;
        let c = self.gc(0).await;
        (a == Out::Ok && g == Out::Ok && b == Out::Ok && c == Out::Ok, b)
    }
    /// serve everybody until all clients are done
    async fn drain(&mut self) {
        let mut rounds = 0;
        let mut old: Vec<(usize, u64)> = Vec::new();
        loop {
            if self.w.clients_left.get() == 0 && rounds > 0 {
                break;
            }
            let p = self.pending();
            self.round().await;
            sleep(1_000).await;
            let now = self.pending();
            for x in &old {
                if now.contains(x) {
                    sim().violate("LIVE", || format!("attach of node{} did not complete although the read processing after it succeeded twice", x.0));
                }
            }
            old = p;
            rounds += 1;
            if rounds > 600 {
                sim().violate("LIVE", || "clients are still waiting after 600 fault-free rounds of read, collect, flush".into());
            }
            if sim().violated() {
                return;
            }
        }
    }
    /// nobody else is active: a few rounds must make everything durable
    async fn quiesce(&mut self) {
        let mut ok = false;
        let mut flush = Out::Ok;
        for i in 0..3 {
            let from = sim().tick();
            (ok, flush) = self.round().await;
            if self.w.plan.oversize && self.too_big(from).0 {
                return;
            }
            if ok && i > 0 {
                break;
            }
        }
        if !ok && (self.w.plan.tight || model::worn(self.li)) {
            return;
        }
        if !ok && flush == Out::FlashFull && io().meds.borrow()[self.li].clogged() {
            sim().violate("CLOG", || "read, collect, flush fails for ever: the space of collected partial states behind the retained state is not reclaimed".into());
            return;
        }
        if !ok {
            sim().violate("LIVE", || "read, collect, flush still fails after 3 fault-free rounds".into());
        }
        io().count("check.quiesced", 1);
        model::quiesced(self.li);
    }
}

/// waits for the signal; on timeout returns the event number of the last poll of the signal
/// wait for the signal; when giving up, return what `look` saw just before the signal was polled for the last time
async fn wait_or<T>(sig: impl Future<Output = ()>, us: u64, mut look: impl FnMut() -> T) -> Option<T> {
    let mut sig = std::pin::pin!(sig);
    let mut t = std::pin::pin!(sleep(us));
    std::future::poll_fn(|cx| {
        let ev = look();
        if sig.as_mut().poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        if t.as_mut().poll(cx).is_ready() {
            return Poll::Ready(Some(ev));
        }
        Poll::Pending
    })
    .await
}

impl World {
    /// wait until all drivers are here
    async fn barrier(self: &Rc<Self>, id: u32) {
        *self.arrived.borrow_mut().entry(id).or_insert(0) += 1;
        let mut t = 500;
        while self.arrived.borrow()[&id] < self.lists.len() {
            sleep(t).await;
            t = (t * 2).min(50_000);
        }
    }
    fn spawn_client(self: &Rc<Self>, ops: Vec<COp>) {
        self.clients_left.set(self.clients_left.get() + 1);
        sim().spawn(client(self.clone(), ops));
    }
    fn probe_ops(&self) -> Vec<COp> {
        let n = self.nodes.len();
        let nl = self.lists.len();
        let mut v = Vec::new();
        for i in 0..n {
            for l in 0..nl {
                v.push(COp::Detach { n: i, l, c: 0 });
            }
        }
        for i in 0..n {
            let key = &self.plan.nodes[i].0;
            let twin = self.plan.nodes.iter().filter(|x| x.0 == *key).count() > 1;
            v.push(COp::Attach { n: i, l: i % nl, d: val::mkid(3, 900_000 + i as u64), c: 0 });
            v.push(COp::Load { n: i });
            v.push(COp::Write { n: i, id: val::mkid(2, 910_000 + i as u64), c: 0 });
            v.push(COp::Load { n: i });
            v.push(COp::Drop { n: i });
            if twin {
                v.push(COp::Detach { n: i, l: i % nl, c: 0 });
            }
        }
        v
    }
    fn detach_all_ops(&self) -> Vec<COp> {
        let mut v = Vec::new();
        for i in 0..self.nodes.len() {
            for l in 0..self.lists.len() {
                v.push(COp::Detach { n: i, l, c: 0 });
            }
        }
        v
    }
}

async fn drive<S: NdlDataStorage, const K: usize>(w: Rc<World>, li: usize, list: L<K>, mk: impl Fn() -> Probe<S>, ops: Vec<DOp>, probe: bool)
where
    S::Error: Debug,
{
    let st = mk();
    let buf = vec![0x5a; <Probe<S> as NdlDataStorage>::MAX_ELEM_SIZE + w.plan.buf_extra];
    let mut d = Driver { w: w.clone(), li, list, mk, st, buf };
    for o in &ops {
        d.op(o).await;
    }
    w.barrier(0).await;
    io().faults_on.set(false);
    d.drain().await;
    w.barrier(1).await;
    d.quiesce().await;
    w.barrier(2).await;
    if probe {
        if li == 0 {
            w.spawn_client(w.probe_ops());
        }
        w.barrier(3).await;
        d.drain().await;
        w.barrier(4).await;
        d.quiesce().await;
        w.barrier(5).await;
    }
    if li == 0 {
        w.spawn_client(w.detach_all_ops());
    }
    w.barrier(6).await;
    d.drain().await;
    w.barrier(7).await;
    if li == 0 {
        let n = val::tokens_live();
        if n != 0 {
            sim().violate("DROP", || format!("{n} values were never dropped although all nodes are detached"));
        }
        io().count("check.drop_balance", 1);
        w.done.set(true);
    }
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub preemptions: u64,
    pub sim_time: u64,
    pub fired: Vec<FaultEv>,
    pub sched_tape: Vec<u32>,
    pub lat_tape: Vec<u32>,
    pub log: Vec<String>,
    pub crashes: u32,
    pub boots: u32,
    pub ops: u32,
    pub cancels: u64,
    pub rots: u32,
}

pub enum RunMode {
    Gen(u64),
    Replay { sched: Vec<u32>, lat: Vec<u32> },
}

fn media(p: &Plan) -> Vec<Rc<Medium>> {
    let page = p.backend.page() as u32;
    let pages = (p.cap as u32).div_ceil(page).max(3);
    let total = if p.backend.is_nor() { (pages * p.lists as u32 + 2) * page } else { 0 };
    let dev = Rc::new(NorDev { bytes: RefCell::new(vec![0xff; total as usize]) });
    // bytes outside of the assigned ranges carry somebody else's data
    if p.backend.is_nor() {
        let mut b = dev.bytes.borrow_mut();
        let n = b.len();
        b[..page as usize].fill(0x77);
        b[n - page as usize..].fill(0x77);
    }
    (0..p.lists)
        .map(|i| {
            let start = page + i as u32 * pages * page;
            Rc::new(Medium {
                kind: match p.backend {
                    Backend::Q256 | Backend::Q64 => Kind::Queue { cap: p.cap },
                    Backend::NorBCached => Kind::NorB,
                    Backend::NorC => Kind::NorC,
                    Backend::NorD => Kind::NorD,
                    Backend::NorE => Kind::NorE,
                    _ => Kind::NorA,
                },
                elems: RefCell::new(Vec::new()),
                uid: Cell::new(1),
                dev: dev.clone(),
                range: start..start + pages * page,
                list: i,
            })
        })
        .collect()
}

pub fn verification_boot(p: &Plan, idx: usize) -> Boot {
    let nl = p.lists;
    let mut clients = Vec::new();
    let mut seen: Vec<(String, usize)> = Vec::new();
    for (i, (key, _)) in p.nodes.iter().enumerate() {
        let l = i % nl;
        // the twin comes first in every second plan
        if seen.iter().any(|s| s.0 == *key && s.1 == l) {
            continue;
        }
        seen.push((key.clone(), l));
        clients.push(vec![
            COp::Attach { n: i, l, d: val::mkid(1, 990_000 + i as u64), c: 0 },
            COp::Load { n: i },
            COp::Drop { n: i },
        ]);
    }
    let _ = idx;
    Boot {
        mode: Mode::Direct,
        drivers: vec![vec![DOp::Read(0), DOp::Read(0), DOp::Gc(0), DOp::Write(0)]; nl],
        clients,
        crash: Crash::None,
        rot: vec![],
        stop_at: 0,
        heal_at: 0,
        tys: vec![],
        probe: false,
        faulty: false,
    }
}

fn no_dup_seqs(med: &Medium) -> bool {
    let r = model::parse(&med.read_elems());
    let mut s: Vec<u32> = r.iter().map(|x| x.seq).collect();
    s.sort();
    let n = s.len();
    s.dedup();
    s.len() == n
}

pub fn run(plan: &Plan, mode: RunMode) -> Outcome {
    let s = sim();
    let (st, lt, grng) = match mode {
        RunMode::Gen(seed) => (Tape::generate(mix(seed ^ 1)), Tape::generate(mix(seed ^ 2)), Some(Rng::new(mix(seed ^ 3)))),
        RunMode::Replay { sched, lat } => (Tape::replay(sched), Tape::replay(lat), None),
    };
    s.reset(st, lt, plan.sched);
    let many = if plan.initial.len() > 150 { plan.initial.len() } else { 0 };
    s.max_steps.set(400_000 + 2_000 * many as u64);
    io().op_limit.set(60_000 + 400 * many as u32);
    let t0 = s.sim_time_total.get();
    *io().faults.borrow_mut() = plan.faults.clone();
    io().fired.borrow_mut().clear();
    *io().gen_rng.borrow_mut() = grng;
    io().lat_profile.set(plan.lat);
    let meds = media(plan);
    *io().meds.borrow_mut() = meds.clone();
    let mut model = model::Model::new(plan.k, &meds);
    model.no_oversize = !plan.oversize && !plan.tight;
    model.sound_wakes = plan.lists == 1;
    model::set_model(Some(model));
    for (l, e) in &plan.initial {
        if *l < meds.len() && !e.is_empty() {
            meds[*l].preload(e);
        }
    }
    if !meds.iter().all(|m| no_dup_seqs(m)) {
        for m in &meds {
            m.wipe();
        }
    }
    let plan = Rc::new(plan.clone());
    let mut crashes = 0;
    let mut rots = 0;
    let mut boots = plan.boots.clone();
    boots.push(verification_boot(&plan, boots.len()));
    let mut tys: Vec<Ty> = plan.nodes.iter().map(|n| n.1).collect();
    let mut nb = 0;
    for (bi, b) in boots.iter().enumerate() {
        nb += 1;
        let mut rotted = vec![false; plan.lists];
        for (l, o, a, x) in &b.rot {
            let l = *l % plan.lists;
            let before = (meds[l].elems.borrow().clone(), meds[l].dev.bytes.borrow().clone());
            meds[l].rot(*o, *a, *x);
            if no_dup_seqs(&meds[l]) {
                rotted[l] = true;
                rots += 1;
                io().count(&format!("fault.rot{o}"), 1);
            } else {
                *meds[l].elems.borrow_mut() = before.0;
                *meds[l].dev.bytes.borrow_mut() = before.1;
            }
        }
        if bi > 0 {
            for l in 0..plan.lists {
                model::check_boot_floor(l, rotted[l]);
            }
        }
        for (n, t) in &b.tys {
            if *n < tys.len() {
                tys[*n] = *t;
            }
        }
        if s.violated() {
            break;
        }
        val::tokens_new_epoch();
        s.crashed.set(false);
        let faulty = b.faulty;
        io().begin_boot(bi as u32);
        io().rates.set(if faulty { plan.rates } else { Rates::default() });
        io().faults_on.set(faulty);
        io().crash.set(b.crash);
        let now = s.now.get();
        s.crash_at_step.set(if let Crash::Step(n) = b.crash { s.steps.get() + n } else { u64::MAX });
        s.crash_at_time.set(if let Crash::Time(t) = b.crash { now + t } else { u64::MAX });
        let mnodes: Vec<(&'static str, Ty)> = plan.nodes.iter().zip(&tys).map(|(n, t)| (intern(&n.0), *t)).collect();
        m(|m| {
            m.begin_boot(b.mode, &mnodes);
            m.healthy = !faulty;
            m.heal_time = if faulty { None } else { Some(now) };
        });
        s.logf(|| format!("===== boot {bi} ({:?}, faults {})", b.mode, faulty));
        if s.verbose.get() {
            for md in &meds {
                for e in md.read_elems() {
                    s.logf(|| format!("  medium{}: {}", md.list, crate::store::describe(&e)));
                }
            }
        }
        let nodes: Vec<Rc<dyn DynNode>> = mnodes
            .iter()
            .map(|(k, t)| {
                let k: &'static str = k;
                with_ty!(*t, T => Rc::new(Nd::<T>(Box::leak(Box::new(StorageListNode::new(k))))) as Rc<dyn DynNode>)
            })
            .collect();
        let w = Rc::new(World {
            nodes,
            lists: (0..plan.lists).map(|_| ListRef::new(plan.k)).collect(),
            plan: plan.clone(),
            clients_left: Cell::new(0),
            t0: now,
            done: Cell::new(false),
            arrived: RefCell::new(BTreeMap::new()),
        });
        for c in &b.clients {
            w.spawn_client(c.clone());
        }
        let mut limit = now + 3_600_000_000;
        match b.mode {
            Mode::Direct => {
                for li in 0..plan.lists {
                    let ops = b.drivers.get(li).cloned().unwrap_or_default();
                    let w2 = w.clone();
                    let lr = w.lists[li];
                    let probe = b.probe;
                    with_store!(plan.backend, meds[li].clone(), mk => with_list!(lr, l => { s.spawn(drive(w2, li, l, mk, ops, probe)); }));
                }
            }
            Mode::Worker => {
                limit = now + b.stop_at + 3_600_000_000;
                let w2 = w.clone();
                let lr = w.lists[0];
                let stop_at = b.stop_at;
                with_store!(plan.backend, meds[0].clone(), mk => with_list!(lr, l => {
                    s.spawn(async move {
                        let mut buf = vec![0x5a; max_elem(&mk) + w2.plan.buf_extra];
                        let stopper = async move {
                            sleep(stop_at).await;
                            model::stop_fired();
                        };
                        // by reference: the forwarding impl of the storage trait is used
                        let mut st = mk();
                        default_worker_task(l, &mut st, stopper, &mut buf).await;
                        s.logf(|| "worker returned".into());
                        model::worker_stopped();
                        w2.done.set(true);
                    });
                }));
                if faulty {
                    let heal = b.heal_at;
                    s.spawn(async move {
                        sleep(heal).await;
                        io().faults_on.set(false);
                        s.logf(|| "storage healed".into());
                        m(|m| m.heal_time = Some(sim().now.get()));
                    });
                }
            }
            Mode::Noop => {
                let lr = w.lists[0];
                with_list!(lr, l => { s.spawn(async move { no_op_worker_task(l).await; }); });
            }
        }
        let noop = b.mode == Mode::Noop;
        let stop = s.run(limit, || w.done.get() || (noop && w.clients_left.get() == 0), model::on_advance);
        match stop {
            Stop::Crash => {
                crashes += 1;
                io().count(
                    match b.crash {
                        Crash::Step(_) => "fault.crash_at_step",
                        Crash::Time(_) => "fault.crash_at_time",
                        Crash::Nor(..) | Crash::NorMut(..) => "fault.crash_in_nor",
                        _ => "fault.crash_in_op",
                    },
                    1,
                );
            }
            Stop::Cond | Stop::Violation => {}
            Stop::Quiescent => s.violate("DEADLOCK", || format!("nothing can run any more ({:?} mode, {} tasks pending)", b.mode, s.pending_tasks())),
            Stop::StepCap => s.violate("LIVE", || "no end after 400000 scheduling steps".into()),
            Stop::TimeLimit => s.violate("LIVE", || "not finished after an hour of virtual time".into()),
        }
        if stop == Stop::Cond && plan.backend.is_nor() {
            let dev = meds[0].dev.bytes.borrow();
            let page = plan.backend.page();
            let n = dev.len();
            if dev[..page].iter().any(|x| *x != 0x77) || dev[n - page..].iter().any(|x| *x != 0x77) {
                s.violate("RANGE", || "bytes outside of the assigned range changed".into());
            }
        }
        s.kill_all();
        if s.violated() {
            break;
        }
        // power is off: time passes a little
        s.now.set(s.now.get() + 1_000);
    }
    let ops = io().op.get();
    let out = Outcome {
        violation: s.violation.borrow().clone(),
        hash: s.hash.get(),
        sched_hash: s.sched_hash.get(),
        steps: s.steps.get(),
        preemptions: s.preemptions.get(),
        sim_time: s.sim_time_total.get() - t0,
        fired: io().fired.borrow().clone(),
        sched_tape: s.sched.borrow().rec.clone(),
        lat_tape: s.lat.borrow().rec.clone(),
        log: std::mem::take(&mut *s.log.borrow_mut()),
        crashes,
        boots: nb,
        ops,
        cancels: s.cancels.get(),
        rots,
    };
    model::set_model(None);
    io().meds.borrow_mut().clear();
    out
}

fn max_elem<S: NdlDataStorage>(_: &impl Fn() -> Probe<S>) -> usize
where
    S::Error: Debug,
{
    <Probe<S> as NdlDataStorage>::MAX_ELEM_SIZE
}
