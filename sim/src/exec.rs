//! The simulator core: coroutine tasks, seeded scheduler, virtual clock.
//!
//! Single OS thread. Every decision is drawn from `Tape`, which either generates (seeded PRNG, recording)
//! or replays a recorded list; value 0 is always the "plain" choice so that shrinking a tape simplifies it.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::collections::BinaryHeap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9E37_79B9_7F4A_7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { (((self.next() >> 32) as u128 * n as u128) >> 32) as u64 }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

// ---------------------------------------------------------------- Tape

pub enum TapeMode {
    Gen(Rng),
    Replay,
}
pub struct Tape {
    mode: TapeMode,
    pub rec: Vec<u32>,
    pos: usize,
}
impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { mode: TapeMode::Gen(Rng::new(seed)), rec: Vec::new(), pos: 0 }
    }
    pub fn replay(rec: Vec<u32>) -> Self {
        Tape { mode: TapeMode::Replay, rec, pos: 0 }
    }
    pub fn draw(&mut self, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        match &mut self.mode {
            TapeMode::Gen(r) => {
                let v = f(r);
                self.rec.push(v);
                v
            }
            TapeMode::Replay => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        }
    }
}

// ---------------------------------------------------------------- Simulation state

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Waiting,
    Preempted,
    Blocked,
    Done,
}
#[derive(Clone, Copy, PartialEq)]
enum In {
    Poll,
    Cancel,
}
#[derive(Clone, Copy, PartialEq)]
enum Out {
    Pending,
    Preempted,
    Blocked,
}

type Co = Coroutine<In, Out, (), DefaultStack>;

struct Task {
    co: Option<Co>,
    st: TState,
    woken: bool,
    prio: u32,
    yielder: *const Yielder<In, Out>,
    lock_depth: u32,
    stalled_until: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    Cond,
    Crash,
    Quiescent,
    StepCap,
    Violation,
    TimeLimit,
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct SchedParams {
    /// preemption probability per 1024 at each preemption point
    pub preempt: u32,
    /// 0 = uniform random among runnable tasks, 1 = random priorities with change points
    pub policy: u32,
}

struct Timer {
    at: u64,
    seq: u64,
    waker: Waker,
}
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct Sim {
    pub now: Cell<u64>,
    timer_seq: Cell<u64>,
    timers: RefCell<BinaryHeap<Timer>>,
    tasks: RefCell<Vec<Task>>,
    cur: Cell<usize>,
    last: Cell<usize>,
    generation: Cell<u32>,
    pub sched: RefCell<Tape>,
    pub lat: RefCell<Tape>,
    pub params: Cell<SchedParams>,
    no_preempt: Cell<u32>,
    pub ev: Cell<u64>,
    pub steps: Cell<u64>,
    pub max_steps: Cell<u64>,
    pub preemptions: Cell<u64>,
    pub crash_at_step: Cell<u64>,
    pub crash_at_time: Cell<u64>,
    pub crashed: Cell<bool>,
    pub hash: Cell<u64>,
    pub sched_hash: Cell<u64>,
    pub violation: RefCell<Option<Violation>>,
    pub verbose: Cell<bool>,
    /// violation classes that are not judged
    pub ignored: RefCell<Vec<&'static str>>,
    pub log: RefCell<Vec<String>>,
    pub sim_time_total: Cell<u64>,
    pub cancels: Cell<u64>,
    unblocked: Cell<bool>,
}

const NONE: usize = usize::MAX;

struct Global(Sim);
unsafe impl Sync for Global {}

static SIM: Global = Global(Sim {
    now: Cell::new(0),
    timer_seq: Cell::new(0),
    timers: RefCell::new(BinaryHeap::new()),
    tasks: RefCell::new(Vec::new()),
    cur: Cell::new(NONE),
    last: Cell::new(NONE),
    generation: Cell::new(0),
    sched: RefCell::new(Tape { mode: TapeMode::Replay, rec: Vec::new(), pos: 0 }),
    lat: RefCell::new(Tape { mode: TapeMode::Replay, rec: Vec::new(), pos: 0 }),
    params: Cell::new(SchedParams { preempt: 0, policy: 0 }),
    no_preempt: Cell::new(0),
    ev: Cell::new(0),
    steps: Cell::new(0),
    max_steps: Cell::new(0),
    preemptions: Cell::new(0),
    crash_at_step: Cell::new(u64::MAX),
    crash_at_time: Cell::new(u64::MAX),
    crashed: Cell::new(false),
    hash: Cell::new(0),
    sched_hash: Cell::new(0),
    violation: RefCell::new(None),
    verbose: Cell::new(false),
    ignored: RefCell::new(Vec::new()),
    log: RefCell::new(Vec::new()),
    sim_time_total: Cell::new(0),
    cancels: Cell::new(0),
    unblocked: Cell::new(false),
});

pub fn sim() -> &'static Sim {
    &SIM.0
}

thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

/// set by the panic hook: message and location of the last panic
pub static LAST_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);
/// progress counter for the hang watchdog
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Sim {
    /// reset everything for a new run
    pub fn reset(&self, sched: Tape, lat: Tape, params: SchedParams) {
        self.kill_all();
        self.now.set(0);
        self.timer_seq.set(0);
        *self.sched.borrow_mut() = sched;
        *self.lat.borrow_mut() = lat;
        self.params.set(params);
        self.no_preempt.set(0);
        self.ev.set(1);
        self.steps.set(0);
        self.preemptions.set(0);
        self.cancels.set(0);
        self.crash_at_step.set(u64::MAX);
        self.crash_at_time.set(u64::MAX);
        self.crashed.set(false);
        self.hash.set(0xcbf2_9ce4_8422_2325);
        self.sched_hash.set(0xcbf2_9ce4_8422_2325);
        *self.violation.borrow_mut() = None;
        self.log.borrow_mut().clear();
    }

    /// next event number (global total order of everything observed)
    pub fn tick(&self) -> u64 {
        let e = self.ev.get() + 1;
        self.ev.set(e);
        e
    }

    pub fn note(&self, tag: u64, a: u64, b: u64) {
        let mut h = self.hash.get();
        for x in [tag, a, b, self.now.get()] {
            h = mix(h ^ x).wrapping_add(h.rotate_left(17));
        }
        self.hash.set(h);
    }

    pub fn logf(&self, f: impl FnOnce() -> String) {
        if self.verbose.get() {
            let s = format!("[t={}us ev={} task={}] {}", self.now.get(), self.ev.get(), self.cur.get() as isize, f());
            self.log.borrow_mut().push(s);
        }
    }

    pub fn violate(&self, class: &str, msg: impl FnOnce() -> String) {
        if self.ignored.borrow().contains(&class) {
            return;
        }
        let mut v = self.violation.borrow_mut();
        if v.is_none() {
            let m = msg();
            drop(v);
            self.logf(|| format!("VIOLATION {class}: {m}"));
            v = self.violation.borrow_mut();
            *v = Some(Violation { class: class.to_string(), msg: m });
        }
    }
    pub fn violated(&self) -> bool {
        self.violation.borrow().is_some()
    }

    pub fn in_task(&self) -> bool {
        self.cur.get() != NONE
    }
    pub fn cur_task(&self) -> usize {
        self.cur.get()
    }

    pub fn spawn(&self, fut: impl Future<Output = ()> + 'static) -> usize {
        let fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(fut);
        let stack = STACKS
            .with(|s| s.borrow_mut().pop())
            .unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"));
        let id = self.tasks.borrow().len();
        let generation = self.generation.get();
        let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<In, Out>, first: In| {
            sim().tasks.borrow_mut()[id].yielder = y;
            let mut fut = fut;
            let waker = task_waker(id, generation);
            let mut cmd = first;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                loop {
                    if cmd == In::Cancel {
                        break;
                    }
                    let mut cx = Context::from_waker(&waker);
                    match fut.as_mut().poll(&mut cx) {
                        Poll::Ready(()) => break,
                        Poll::Pending => {}
                    }
                    cmd = y.suspend(Out::Pending);
                }
            }));
            match r {
                Ok(()) => {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(fut)));
                    if r.is_err() {
                        report_panic();
                    }
                }
                Err(_) => {
                    std::mem::forget(fut);
                    report_panic();
                }
            }
        });
        let prio = if self.params.get().policy == 1 {
            self.sched.borrow_mut().draw(|r| r.below(1000) as u32)
        } else {
            0
        };
        self.tasks.borrow_mut().push(Task {
            co: Some(co),
            st: TState::Waiting,
            woken: true,
            prio,
            yielder: std::ptr::null(),
            lock_depth: 0,
            stalled_until: 0,
        });
        id
    }

    /// suspended in an await, and nothing has woken it
    pub fn task_idle(&self, id: usize) -> bool {
        let t = self.tasks.borrow();
        t.get(id).is_some_and(|t| t.st == TState::Waiting && !t.woken)
    }
    pub fn task_done(&self, id: usize) -> bool {
        self.tasks.borrow()[id].st == TState::Done
    }

    fn suspend(&self, o: Out) -> In {
        let id = self.cur.get();
        let y = self.tasks.borrow()[id].yielder;
        // SAFETY: the yielder lives on the coroutine's stack for as long as it runs
        unsafe { (*y).suspend(o) }
    }

    pub fn with_no_preempt<T>(&self, f: impl FnOnce() -> T) -> T {
        self.no_preempt.set(self.no_preempt.get() + 1);
        let r = f();
        self.no_preempt.set(self.no_preempt.get() - 1);
        r
    }

    /// A preemption point (only takes effect inside a task)
    pub fn preempt(&self, site: u64) {
        if !self.in_task() || self.no_preempt.get() > 0 {
            return;
        }
        let p = self.params.get().preempt;
        if p == 0 {
            return;
        }
        let d = self.sched.borrow_mut().draw(|r| r.chance(p, 1024) as u32);
        if d != 0 {
            self.preemptions.set(self.preemptions.get() + 1);
            self.note(1, site, self.cur.get() as u64);
            self.suspend(Out::Preempted);
        }
    }

    /// Suspend the current task for ever (used when power is cut inside an operation)
    pub fn die_here(&self) -> ! {
        loop {
            self.suspend(Out::Blocked);
        }
    }

    fn block_on_lock(&self) {
        self.suspend(Out::Blocked);
    }

    pub fn add_timer(&self, at: u64, waker: Waker) {
        let s = self.timer_seq.get() + 1;
        self.timer_seq.set(s);
        self.timers.borrow_mut().push(Timer { at, seq: s, waker });
    }

    pub fn stall_task(&self, id: usize, until: u64) {
        self.tasks.borrow_mut()[id].stalled_until = until;
    }

    /// Drop the future of a task (cancellation). Only when it is between polls; returns false otherwise.
    pub fn cancel_task(&self, id: usize) -> bool {
        {
            let t = self.tasks.borrow();
            match t[id].st {
                TState::Done => return true,
                TState::Waiting => {}
                _ => return false,
            }
        }
        self.resume(id, In::Cancel);
        true
    }

    fn resume(&self, id: usize, input: In) {
        let mut co = {
            let mut t = self.tasks.borrow_mut();
            // a wake that arrives while the task is stopped in the middle of a poll must survive that poll
            if t[id].st == TState::Waiting {
                t[id].woken = false;
            }
            t[id].co.take().expect("coroutine")
        };
        self.cur.set(id);
        let r = co.resume(input);
        self.cur.set(NONE);
        self.last.set(id);
        let mut t = self.tasks.borrow_mut();
        match r {
            CoroutineResult::Yield(Out::Pending) => {
                t[id].st = TState::Waiting;
                t[id].co = Some(co);
            }
            CoroutineResult::Yield(Out::Preempted) => {
                t[id].st = TState::Preempted;
                t[id].co = Some(co);
            }
            CoroutineResult::Yield(Out::Blocked) => {
                t[id].st = TState::Blocked;
                t[id].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                t[id].st = TState::Done;
                let st = co.into_stack();
                STACKS.with(|s| s.borrow_mut().push(st));
            }
        }
    }

    /// Power cut: nothing of the tasks' code runs any more, their memory is abandoned.
    pub fn kill_all(&self) {
        self.generation.set(self.generation.get().wrapping_add(1));
        let tasks = std::mem::take(&mut *self.tasks.borrow_mut());
        for mut t in tasks {
            if let Some(mut co) = t.co.take() {
                if !co.done() {
                    if co.started() {
                        // SAFETY: the abandoned stack frames are never used again; owned memory leaks
                        unsafe { co.force_reset() };
                    } else {
                        std::mem::forget(co);
                        continue;
                    }
                }
                let st = co.into_stack();
                STACKS.with(|s| s.borrow_mut().push(st));
            }
        }
        for t in self.timers.borrow_mut().drain() {
            std::mem::forget(t.waker);
        }
        self.cur.set(NONE);
        self.last.set(NONE);
        self.no_preempt.set(0);
    }

    /// Run until `cond` holds, a crash/violation happens, nothing can ever run again, or limits are hit.
    pub fn run(&self, time_limit: u64, mut cond: impl FnMut() -> bool, mut on_advance: impl FnMut(u64)) -> Stop {
        let mut cand: Vec<usize> = Vec::new();
        loop {
            if self.violated() {
                return Stop::Violation;
            }
            if self.crashed.get() {
                return Stop::Crash;
            }
            if cond() {
                return Stop::Cond;
            }
            if self.steps.get() >= self.max_steps.get() {
                return Stop::StepCap;
            }
            if self.steps.get() >= self.crash_at_step.get() {
                self.crashed.set(true);
                return Stop::Crash;
            }
            cand.clear();
            let n = self.tasks.borrow().len();
            let last = self.last.get();
            let start = if last == NONE || last >= n { 0 } else { last };
            let mut stalled_min = u64::MAX;
            {
                let t = self.tasks.borrow();
                let now = self.now.get();
                // order: last task first if it is mid-poll, then round robin, last yielding task at the end
                for k in 0..n {
                    let i = (start + k) % n;
                    let r = match t[i].st {
                        TState::Waiting => t[i].woken,
                        TState::Preempted => true,
                        TState::Blocked => self.unblocked.get(),
                        TState::Done => false,
                    };
                    if !r {
                        continue;
                    }
                    if t[i].stalled_until > now {
                        stalled_min = stalled_min.min(t[i].stalled_until);
                        continue;
                    }
                    cand.push(i);
                }
                if cand.len() > 1 && last != NONE && cand[0] == last && t[last].st != TState::Preempted {
                    let f = cand.remove(0);
                    cand.push(f);
                }
            }
            if cand.is_empty() {
                // advance virtual time
                let next = self.timers.borrow().peek().map(|t| t.at).unwrap_or(u64::MAX).min(stalled_min);
                if next == u64::MAX {
                    return Stop::Quiescent;
                }
                let at = next.max(self.now.get());
                if at > self.crash_at_time.get() {
                    self.now.set(self.crash_at_time.get().max(self.now.get()));
                    self.crashed.set(true);
                    return Stop::Crash;
                }
                if at > time_limit {
                    self.now.set(time_limit.max(self.now.get()));
                    return Stop::TimeLimit;
                }
                let old = self.now.get();
                if at > old {
                    on_advance(at);
                    if self.violated() {
                        return Stop::Violation;
                    }
                    self.sim_time_total.set(self.sim_time_total.get() + (at - old));
                }
                self.now.set(at);
                // fire all timers due at this instant, in order
                loop {
                    let due = {
                        let mut h = self.timers.borrow_mut();
                        match h.peek() {
                            Some(t) if t.at <= at => h.pop(),
                            _ => None,
                        }
                    };
                    match due {
                        Some(t) => t.waker.wake(),
                        None => break,
                    }
                }
                continue;
            }
            let pick = if cand.len() == 1 {
                0
            } else if self.params.get().policy == 1 {
                // PCT style: highest priority runs; occasional priority change
                let chg = self.sched.borrow_mut().draw(|r| r.chance(1, 24) as u32);
                if chg != 0 {
                    let np = self.sched.borrow_mut().draw(|r| r.below(1000) as u32);
                    let l = cand[0];
                    self.tasks.borrow_mut()[l].prio = np;
                }
                let t = self.tasks.borrow();
                let mut best = 0;
                for (k, i) in cand.iter().enumerate() {
                    if t[*i].prio > t[cand[best]].prio {
                        best = k;
                    }
                }
                best
            } else {
                let m = cand.len() as u64;
                (self.sched.borrow_mut().draw(|r| r.below(m) as u32) as usize) % cand.len()
            };
            let id = cand[pick];
            if self.params.get().policy == 1 {
                // a task that merely yields must not starve the others for ever
                let mut t = self.tasks.borrow_mut();
                t[id].prio = t[id].prio.saturating_sub(7);
                if t[id].prio == 0 {
                    t[id].prio = 500;
                    for (k, x) in t.iter_mut().enumerate() {
                        if k != id {
                            x.prio += 1000;
                        }
                    }
                }
            }
            self.steps.set(self.steps.get() + 1);
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let sh = self.sched_hash.get();
            self.sched_hash.set(mix(sh ^ (id as u64 + 1)));
            let was_blocked = self.tasks.borrow()[id].st == TState::Blocked;
            self.resume(id, In::Poll);
            let now_blocked = self.tasks.borrow()[id].st == TState::Blocked;
            // blocked tasks become eligible again once somebody made progress
            self.unblocked.set(!(was_blocked && now_blocked) || self.unblocked.get() && cand.len() > 1 && !now_blocked);
        }
    }

    pub fn any_blocked(&self) -> bool {
        self.tasks.borrow().iter().any(|t| t.st == TState::Blocked)
    }
    pub fn pending_tasks(&self) -> usize {
        self.tasks.borrow().iter().filter(|t| t.st != TState::Done).count()
    }
}

fn report_panic() {
    let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
    let (msg, loc) = p.unwrap_or_else(|| ("?".into(), "?".into()));
    let class = if loc.contains("noodle-sim") || loc.starts_with("src/") { "HARNESS" } else { "PANIC" };
    sim().violate(class, || format!("panic at {loc}: {msg}"));
}

// ---------------------------------------------------------------- wakers

fn task_waker(id: usize, generation: u32) -> Waker {
    let data = ((generation as usize) << 16) | id;
    // SAFETY: the vtable functions only interpret the integer
    unsafe { Waker::from_raw(RawWaker::new(data as *const (), &VT)) }
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VT),
    |p| {
        do_wake(p as usize);
    },
    |p| {
        do_wake(p as usize);
    },
    |_| {},
);
fn do_wake(d: usize) {
    let s = sim();
    let id = d & 0xffff;
    if (s.generation.get() & 0x7fff_ffff) as usize != (d >> 16) & 0x7fff_ffff {
        return;
    }
    {
        let mut t = s.tasks.borrow_mut();
        if let Some(t) = t.get_mut(id) {
            t.woken = true;
        }
    }
    if s.in_task() {
        let depth = s.tasks.borrow()[s.cur.get()].lock_depth;
        if depth == 0 {
            s.preempt(2);
        }
    }
}

// ---------------------------------------------------------------- time driver

struct SimDriver;
impl embassy_time_driver::Driver for SimDriver {
    fn now(&self) -> u64 {
        sim().now.get()
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        sim().add_timer(at, waker.clone());
    }
}
embassy_time_driver::time_driver_impl!(static DRIVER: SimDriver = SimDriver);

struct SimCs;
critical_section::set_impl!(SimCs);
unsafe impl critical_section::Impl for SimCs {
    unsafe fn acquire() -> critical_section::RawRestoreState {}
    unsafe fn release(_: critical_section::RawRestoreState) {}
}

/// Sleep in virtual time
pub struct Sleep {
    until: u64,
    armed: bool,
}
pub fn sleep(us: u64) -> Sleep {
    Sleep { until: sim().now.get() + us, armed: false }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if sim().now.get() >= self.until {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            sim().add_timer(self.until, cx.waker().clone());
        }
        Poll::Pending
    }
}

/// Yield once
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// Polls the inner future; drops it after it returned Pending `limit` times (a cancelled select! branch).
pub struct CancelAfter<'a, T> {
    inner: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    left: u32,
}
pub fn cancel_after<'a, T>(fut: impl Future<Output = T> + 'a, polls: u32) -> CancelAfter<'a, T> {
    CancelAfter { inner: Some(Box::pin(fut)), left: polls }
}
impl<T> Future for CancelAfter<'_, T> {
    type Output = Option<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let Some(f) = self.inner.as_mut() else { return Poll::Ready(None) };
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            self.inner = None;
            return Poll::Ready(Some(v));
        }
        if self.left == 0 {
            self.inner = None;
            sim().cancels.set(sim().cancels.get() + 1);
            sim().logf(|| "operation cancelled".into());
            return Poll::Ready(None);
        }
        self.left -= 1;
        Poll::Pending
    }
}

// ---------------------------------------------------------------- the simulated raw mutex

/// A `ScopedRawMutex` whose acquisition and release are preemption points, as on a multi-core or
/// interrupt driven target. Contending tasks wait until it is free.
pub struct SimMutex {
    locked: Cell<bool>,
}
unsafe impl Sync for SimMutex {}
unsafe impl Send for SimMutex {}
impl mutex_traits::ConstInit for SimMutex {
    const INIT: Self = SimMutex { locked: Cell::new(false) };
}
impl SimMutex {
    fn enter(&self, d: i32) {
        let s = sim();
        if s.in_task() {
            let c = s.cur.get();
            let mut t = s.tasks.borrow_mut();
            t[c].lock_depth = (t[c].lock_depth as i32 + d) as u32;
        }
    }
}
unsafe impl mutex_traits::ScopedRawMutex for SimMutex {
    fn try_with_lock<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        sim().preempt(3);
        if self.locked.get() {
            return None;
        }
        self.locked.set(true);
        self.enter(1);
        let r = f();
        self.enter(-1);
        self.locked.set(false);
        sim().preempt(4);
        Some(r)
    }
    fn with_lock<R>(&self, f: impl FnOnce() -> R) -> R {
        sim().preempt(5);
        let mut spins = 0;
        while self.locked.get() {
            if !sim().in_task() {
                panic!("lock contended outside of a task");
            }
            spins += 1;
            if spins > 10_000 {
                sim().violate("DEADLOCK", || "blocking lock never released".into());
            }
            sim().block_on_lock();
        }
        self.locked.set(true);
        self.enter(1);
        let r = f();
        self.enter(-1);
        self.locked.set(false);
        sim().preempt(6);
        r
    }
    fn is_locked(&self) -> bool {
        self.locked.get()
    }
}

/// announced by the library before and after every access to the atomics of a node
#[unsafe(no_mangle)]
fn cfg_noodle_sim_point() {
    sim().preempt(7);
}
