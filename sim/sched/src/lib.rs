//! A seeded scheduler for real threads. Exactly one registered thread runs at any time (it holds the
//! baton); at every scheduling point of the instrumented crates, every futex operation and every yield the
//! scheduler decides who runs next. This crate is not instrumented, so the scheduler never preempts itself.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering};

use simcore::chooser::{Chooser, Fnv};

extern "C" {
    fn sim_set_tid(t: i32);
    fn sim_get_tid() -> i32;
    fn sim_busy_add(d: i32);
    fn sim_set_countdown(c: i64);
    fn sim_get_countdown() -> i64;
    fn sim_set_coarse(c: i64);
    static sim_guards: *mut u32;
    static sim_guards_end: *mut u32;
    static sim_pcs: *const usize;
    static sim_pcs_end: *const usize;
    fn sim_raw_futex(addr: *const AtomicU32, op: i32, val: u32) -> i64;
}

const WAIT: i32 = 0;
const WAKE: i32 = 1;
const EAGAIN: i64 = -11;
const ETIMEDOUT: i64 = -110;

/// A thread that runs for this long gives way to another one in any case: threads may wait for each
/// other by spinning, which only ends under a fair scheduler.
const CHUNK: i64 = 400;

/// The same, counting the edges between scheduling points.
const COARSE: i64 = 20_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Ready,
    Futex(usize, bool),
    Parked,
    Done,
}

struct Th {
    st: St,
    token: bool,
    timed_out: bool,
    prio: u32,
    go: Box<AtomicU32>,
}

/// How preemptions are chosen.
#[derive(Clone, Debug)]
pub enum Policy {
    /// Threads only give way when they block or yield.
    Cooperative,
    /// A preemption every so many points on average, to a random thread.
    Walk { gap: u32 },
    /// Strict priorities, which drop at the listed distances between points.
    Pct { changes: Vec<u32> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    /// These threads are blocked and nobody is left to wake them.
    Deadlock(Vec<(usize, &'static str)>),
    /// The step limit was exceeded while this thread was running.
    Livelock(usize),
}

pub struct Sched {
    th: Vec<Th>,
    cur: usize,
    pub ch: Chooser,
    policy: Policy,
    no_change: u32,
    armed: i64,
    limit: u64,
    pub points: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub spurious: u64,
    spurious_rate: u32,
    pub fp: Fnv,
    pub trace: Option<Vec<String>>,
    end: Option<End>,
}

struct Global(UnsafeCell<*mut Sched>);
unsafe impl Sync for Global {}
static S: Global = Global(UnsafeCell::new(std::ptr::null_mut()));
static CTL: AtomicU32 = AtomicU32::new(0);

/// Only the baton holder (or, between runs, the controller) may call this.
#[allow(clippy::mut_from_ref)]
fn s() -> &'static mut Sched {
    unsafe { &mut **S.0.get() }
}

impl Sched {
    fn ready(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].st == St::Ready).collect()
    }

    /// Sets the distance to the next preemption.
    fn arm(&mut self) {
        let n = match &self.policy {
            Policy::Cooperative => 0,
            Policy::Walk { gap } => self.ch.below(2 * gap + 1) as i64,
            Policy::Pct { .. } => self.no_change as i64,
        };
        self.set(if n == 0 { CHUNK } else { n });
        self.no_change = if n == 0 { 1 } else { 0 };
    }

    fn set(&mut self, n: i64) {
        self.armed = n;
        unsafe { sim_set_countdown(n) };
    }

    /// Adds the points passed since the countdown was set.
    fn account(&mut self) {
        let left = unsafe { sim_get_countdown() };
        let used = (self.armed - left).max(0) as u64;
        self.points += used;
        self.armed = left;
        self.fp.add_u64(used);
    }

    fn note(&mut self, from: usize, to: usize, why: &str) {
        self.fp.add_u64((from as u64) << 8 | to as u64);
        let p = self.points;
        if let Some(t) = &mut self.trace {
            t.push(format!("    [{p}] thread {from} {why}, thread {to} runs"));
        }
    }

    /// Chooses who runs next among the ready threads.
    fn pick(&mut self, ready: &[usize]) -> usize {
        match &self.policy {
            Policy::Pct { .. } => *ready.iter().max_by_key(|&&i| self.th[i].prio).unwrap(),
            _ => ready[self.ch.below(ready.len() as u32) as usize],
        }
    }
}

fn hand_over(me: usize, next: usize) {
    let (mine, theirs): (*const AtomicU32, *const AtomicU32) = (&*s().th[me].go, &*s().th[next].go);
    s().cur = next;
    s().switches += 1;
    unsafe {
        (*theirs).store(1, Ordering::SeqCst);
        sim_raw_futex(theirs, WAKE, 1);
    }
    wait_go(mine);
}

fn wait_go(go: *const AtomicU32) {
    unsafe {
        while (*go).swap(0, Ordering::SeqCst) != 1 {
            sim_raw_futex(go, WAIT, 0);
        }
    }
}

fn stop(e: End) -> ! {
    s().end = Some(e);
    CTL.store(1, Ordering::SeqCst);
    unsafe { sim_raw_futex(&CTL, WAKE, 1) };
    let never = AtomicU32::new(0);
    loop {
        wait_go(&never);
    }
}

/// Called at the scheduling point where the countdown ends.
#[no_mangle]
extern "C" fn sim_expired() {
    let x = s();
    let me = x.cur;
    x.account();
    if x.points > x.limit {
        stop(End::Livelock(me));
    }
    match &mut x.policy {
        Policy::Pct { changes } => {
            if x.no_change > 0 {
                let n = x.no_change;
                x.no_change = if n as i64 > CHUNK { n - CHUNK as u32 } else { changes.pop().unwrap_or(0) };
            }
            // A change point, or for fairness: this thread falls behind all others.
            let low = x.th.iter().map(|t| t.prio).min().unwrap();
            x.th[me].prio = low.wrapping_sub(1);
            let n = x.no_change as i64;
            x.set(if n == 0 { CHUNK } else { n.min(CHUNK) });
        }
        _ => {}
    }
    let ready = x.ready();
    let others: Vec<usize> = ready.iter().copied().filter(|&i| i != me).collect();
    let next = match &x.policy {
        Policy::Pct { .. } => x.pick(&ready),
        _ if others.is_empty() => me,
        _ => others[x.ch.below(others.len() as u32) as usize],
    };
    if !matches!(x.policy, Policy::Pct { .. }) {
        x.arm();
    }
    if next != me {
        x.preemptions += 1;
        x.note(me, next, "is preempted");
        hand_over(me, next);
    }
}

/// Called after many edges without a scheduling point.
#[no_mangle]
extern "C" fn sim_coarse() {
    unsafe { sim_set_coarse(COARSE) };
    s().points += COARSE as u64 / 100;
    sim_yield();
}

#[no_mangle]
extern "C" fn sim_yield() {
    let x = s();
    let me = x.cur;
    x.account();
    if x.points > x.limit {
        stop(End::Livelock(me));
    }
    // A yield is counted, so that threads yielding to each other for ever are noticed.
    x.points += 20;
    let others: Vec<usize> = x.ready().into_iter().filter(|&i| i != me).collect();
    if others.is_empty() {
        return;
    }
    if let Policy::Pct { .. } = x.policy {
        let low = x.th.iter().map(|t| t.prio).min().unwrap();
        x.th[me].prio = low.wrapping_sub(1);
    }
    let next = x.pick(&others);
    x.note(me, next, "yields");
    hand_over(me, next);
}

/// Blocks the current thread, which the caller has marked.
fn block(me: usize, why: &'static str) {
    let x = s();
    x.account();
    x.blocks += 1;
    x.fp.add_u64(7);
    let mut ready = x.ready();
    if ready.is_empty() {
        // Time passes only when nothing else can happen.
        if let Some(i) = (0..x.th.len()).find(|&i| matches!(x.th[i].st, St::Futex(_, true))) {
            x.th[i].st = St::Ready;
            x.th[i].timed_out = true;
            ready.push(i);
        } else {
            let l = (0..x.th.len())
                .filter(|&i| x.th[i].st != St::Done)
                .map(|i| (i, if matches!(x.th[i].st, St::Parked) { "waits for a wake-up" } else { "waits for a lock" }))
                .collect();
            stop(End::Deadlock(l));
        }
    }
    let next = x.pick(&ready);
    if !matches!(x.policy, Policy::Pct { .. }) {
        x.arm();
    }
    if next != me {
        x.note(me, next, why);
        hand_over(me, next);
    }
}

#[no_mangle]
extern "C" fn sim_futex_wait(addr: *const AtomicU32, val: u32, timed: i32) -> i64 {
    let x = s();
    let me = x.cur;
    if unsafe { (*addr).load(Ordering::SeqCst) } != val {
        return EAGAIN;
    }
    if x.spurious_rate > 0 && x.ch.chance(1, x.spurious_rate) {
        x.spurious += 1;
        return 0;
    }
    x.th[me].st = St::Futex(addr as usize, timed != 0);
    x.th[me].timed_out = false;
    block(me, "waits for a lock");
    if s().th[me].timed_out {
        ETIMEDOUT
    } else {
        0
    }
}

#[no_mangle]
extern "C" fn sim_futex_wake(addr: *const AtomicU32, n: u32) -> i64 {
    let x = s();
    let mut woken = 0;
    while woken < n {
        let w: Vec<usize> = (0..x.th.len()).filter(|&i| matches!(x.th[i].st, St::Futex(a, _) if a == addr as usize)).collect();
        if w.is_empty() {
            break;
        }
        let i = w[x.ch.below(w.len() as u32) as usize];
        x.th[i].st = St::Ready;
        woken += 1;
    }
    woken as i64
}

/// Blocks until somebody unparks this thread; returns at once if that happened before, and
/// sometimes for no reason.
pub fn park() {
    unsafe { sim_busy_add(1) };
    let x = s();
    let me = x.cur;
    if x.th[me].token {
        x.th[me].token = false;
    } else if x.spurious_rate > 0 && x.ch.chance(1, x.spurious_rate) {
        x.spurious += 1;
    } else {
        x.th[me].st = St::Parked;
        block(me, "waits");
        s().th[me].token = false;
    }
    unsafe { sim_busy_add(-1) };
}

pub fn unpark(t: usize) {
    let x = s();
    x.th[t].token = true;
    if x.th[t].st == St::Parked {
        x.th[t].st = St::Ready;
    }
}

pub fn yield_now() {
    unsafe { sim_busy_add(1) };
    sim_yield();
    unsafe { sim_busy_add(-1) };
}

/// The current simulated thread.
pub fn me() -> usize {
    unsafe { sim_get_tid() as usize }
}

/// Within a simulated thread?
pub fn inside() -> bool {
    unsafe { sim_get_tid() >= 0 }
}

pub struct NoPreempt(());

impl NoPreempt {
    #[allow(clippy::new_without_default)]
    pub fn new() -> NoPreempt {
        unsafe { sim_busy_add(1) };
        NoPreempt(())
    }
}

impl Drop for NoPreempt {
    fn drop(&mut self) {
        unsafe { sim_busy_add(-1) };
    }
}

/// Draws from the run's chooser; only while holding `NoPreempt`, or outside a run's threads.
pub fn ch() -> &'static mut Chooser {
    &mut s().ch
}

pub fn fp(v: u64) {
    s().fp.add_u64(v);
}

pub fn trace(f: impl FnOnce() -> String) {
    let x = s();
    let p = x.points;
    let me = x.cur;
    if let Some(t) = &mut x.trace {
        t.push(format!("[{p}] thread {me}: {}", f()));
    }
}

pub fn tracing() -> bool {
    s().trace.is_some()
}

/// Makes scheduling points of the edges within functions whose symbol satisfies `want`; returns how many there are, and of how many edges.
pub fn init_points(want: impl Fn(&str) -> bool) -> (usize, usize) {
    let exe = std::fs::read("/proc/self/exe").expect("harness: exe");
    let u = |o: usize, n: usize| -> usize { exe[o..o + n].iter().rev().fold(0, |a, &b| a << 8 | b as usize) };
    // The addresses at which the executable is loaded are found from a symbol of our own.
    let (shoff, shentsize, shnum) = (u(0x28, 8), u(0x3a, 2), u(0x3c, 2));
    let mut funcs: Vec<(usize, usize, bool)> = vec![];
    let mut base = None;
    for i in 0..shnum {
        let h = shoff + i * shentsize;
        if u(h + 4, 4) != 2 {
            continue;
        }
        let (off, size, link) = (u(h + 0x18, 8), u(h + 0x20, 8), u(h + 0x28, 4));
        let str_off = u(shoff + link * shentsize + 0x18, 8);
        for e in (off..off + size).step_by(24) {
            let name_at = str_off + u(e, 4);
            let len = exe[name_at..].iter().position(|&b| b == 0).unwrap();
            let name = std::str::from_utf8(&exe[name_at..name_at + len]).unwrap_or("");
            let (value, size) = (u(e + 8, 8), u(e + 16, 8));
            if name == "sim_yield" {
                base = Some((sim_yield as *const () as usize).wrapping_sub(value));
            }
            if exe[e + 4] & 15 == 2 && size > 0 {
                funcs.push((value, size, want(name)));
            }
        }
    }
    let base = base.expect("harness: symbol table");
    funcs.sort();
    unsafe {
        let n = sim_guards_end.offset_from(sim_guards) as usize;
        assert_eq!(n * 2, sim_pcs_end.offset_from(sim_pcs) as usize, "harness: coverage tables");
        let mut wanted = 0;
        for i in 0..n {
            let pc = (*sim_pcs.add(2 * i)).wrapping_sub(base);
            let k = funcs.partition_point(|f| f.0 <= pc);
            let on = k > 0 && pc < funcs[k - 1].0 + funcs[k - 1].1 && funcs[k - 1].2;
            *sim_guards.add(i) = on as u32;
            wanted += on as usize;
        }
        assert!(wanted > 0, "harness: no scheduling points");
        (wanted, n)
    }
}

/// Prepares a run. The controller may then draw the configuration with `ch()`.
pub fn prepare(ch: Chooser, trace: bool) {
    let b = Box::new(Sched {
        th: vec![],
        cur: 0,
        ch,
        policy: Policy::Cooperative,
        no_change: 0,
        armed: 0,
        limit: u64::MAX,
        points: 0,
        switches: 0,
        preemptions: 0,
        blocks: 0,
        spurious: 0,
        spurious_rate: 0,
        fp: Fnv::default(),
        trace: trace.then(Vec::new),
        end: None,
    });
    unsafe { *S.0.get() = Box::into_raw(b) };
}

/// Runs the threads to the end, or to a deadlock or livelock (then they are abandoned where they are).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, policy: Policy, prios: Vec<u32>, spurious_rate: u32, limit: u64) -> End {
    let n = bodies.len();
    let x = s();
    x.policy = policy;
    x.spurious_rate = spurious_rate;
    x.limit = limit;
    for i in 0..n {
        x.th.push(Th { st: St::Ready, token: false, timed_out: false, prio: prios.get(i).copied().unwrap_or(0).saturating_add(1 << 30), go: Box::new(AtomicU32::new(0)) });
    }
    unsafe { sim_set_coarse(COARSE) };
    CTL.store(0, Ordering::SeqCst);
    let mut handles = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let go: usize = &*x.th[i].go as *const AtomicU32 as usize;
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                wait_go(go as *const AtomicU32);
                unsafe { sim_set_tid(i as i32) };
                b();
                unsafe { sim_busy_add(1) };
                finish(i);
                unsafe { sim_set_tid(-1) };
            })
            .expect("harness: thread");
        handles.push(h);
    }
    if let Policy::Pct { changes } = &mut x.policy {
        x.no_change = changes.pop().unwrap_or(0);
        let n = x.no_change as i64;
        x.set(if n == 0 { CHUNK } else { n.min(CHUNK) });
    } else {
        x.arm();
    }
    let ready = x.ready();
    let first = x.pick(&ready);
    x.cur = first;
    let go: *const AtomicU32 = &*x.th[first].go;
    unsafe {
        (*go).store(1, Ordering::SeqCst);
        sim_raw_futex(go, WAKE, 1);
        while CTL.load(Ordering::SeqCst) == 0 {
            sim_raw_futex(&CTL, WAIT, 0);
        }
    }
    let e = s().end.clone().unwrap();
    if e == End::Done {
        for h in handles {
            let _ = h.join();
        }
    }
    e
}

fn finish(me: usize) {
    let x = s();
    x.account();
    x.th[me].st = St::Done;
    if x.th.iter().all(|t| t.st == St::Done) {
        x.end = Some(End::Done);
        CTL.store(1, Ordering::SeqCst);
        unsafe { sim_raw_futex(&CTL, WAKE, 1) };
        return;
    }
    let mut ready = x.ready();
    if ready.is_empty() {
        if let Some(i) = (0..x.th.len()).find(|&i| matches!(x.th[i].st, St::Futex(_, true))) {
            x.th[i].st = St::Ready;
            x.th[i].timed_out = true;
            ready.push(i);
        } else {
            let l = (0..x.th.len())
                .filter(|&i| x.th[i].st != St::Done)
                .map(|i| (i, if matches!(x.th[i].st, St::Parked) { "waits for a wake-up" } else { "waits for a lock" }))
                .collect();
            x.end = Some(End::Deadlock(l));
            CTL.store(1, Ordering::SeqCst);
            unsafe { sim_raw_futex(&CTL, WAKE, 1) };
            return;
        }
    }
    let next = x.pick(&ready);
    if !matches!(x.policy, Policy::Pct { .. }) {
        x.arm();
    }
    x.note(me, next, "ends");
    x.cur = next;
    x.switches += 1;
    let theirs: *const AtomicU32 = &*x.th[next].go;
    unsafe {
        (*theirs).store(1, Ordering::SeqCst);
        sim_raw_futex(theirs, WAKE, 1);
    }
}

/// Ends a run and hands its scheduler back.
pub fn take() -> Box<Sched> {
    unsafe {
        let p = *S.0.get();
        *S.0.get() = std::ptr::null_mut();
        Box::from_raw(p)
    }
}

/// As `take`, when threads of the run have been abandoned: nothing they may touch is freed.
pub fn leak() -> &'static mut Sched {
    let p = unsafe { *S.0.get() };
    unsafe { *S.0.get() = std::ptr::null_mut() };
    unsafe { &mut *p }
}
