//! Deterministic simulator for one process.
//!
//! The harness executable defines the libc symbols through which std, rayon,
//! crossbeam & co. reach threads, blocking, clocks and randomness. While a
//! simulation is active exactly one simulated thread runs at a time; every
//! other thread is parked on a private futex word. All choices (who runs, how
//! long things take, spurious wake-ups, pre-emption points) come from the
//! schedule tape.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

use libc::{c_int, c_long, c_void, clockid_t, pthread_attr_t, pthread_t, timespec};

use crate::tape::Tape;

pub const NS: u64 = 1_000_000_000;
/// Simulated cost of one heap allocation: the unit of "work".
const ALLOC_COST_NS: u64 = 200;

static ACTIVE: AtomicBool = AtomicBool::new(false);
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex { addr: usize, bitset: u32, deadline: u64 },
    Sleep { deadline: u64 },
    Join { target: usize },
    Finished,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wake {
    Normal,
    TimedOut,
    Spurious,
}

struct Thr {
    word: &'static AtomicU32,
    st: St,
    wake: Wake,
    prio: u32,
    pthread: pthread_t,
    start: u64,
}

/// How a run explores schedules; drawn per run ("swarm").
#[derive(Clone, Copy, Debug, Default)]
pub struct SchedCfg {
    /// 0 = sticky, 1 = uniform, 2 = priorities with change points
    pub mode: u32,
    /// In sticky mode, one in `switch` decisions picks another thread.
    pub switch: u32,
    /// Mean distance between allocation pre-emption points (0 = none).
    pub preempt: u32,
    /// One in `jump` decisions advances the clock by a drawn amount (0 = never).
    pub jump: u32,
    /// One in `spurious` futex waits wakes spuriously (0 = never).
    pub spurious: u32,
}

impl SchedCfg {
    pub fn draw(t: &mut Tape) -> Self {
        // All-zero draws give the simplest schedule.
        SchedCfg {
            mode: t.draw(3),
            switch: [8, 2, 30, 4][t.draw(4) as usize],
            preempt: [0, 3000, 300, 40, 100, 1000, 20000][t.draw(7) as usize],
            jump: [0, 200, 50, 20, 1000][t.draw(5) as usize],
            spurious: [0, 0, 100, 20][t.draw(4) as usize],
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub freezes: u64,
    pub jumps: u64,
    pub jumped_ns: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub allocs: u64,
    pub getrandom: u64,
}

pub struct Sim {
    thr: Vec<Thr>,
    cur: usize,
    now: u64,
    tape: Tape,
    pub cfg: SchedCfg,
    fair: bool,
    countdown: u64,
    hash: u64,
    rnd: u64,
    rr: usize,
    pub stats: Stats,
    pub max_decisions: u64,
    on_fatal: fn(&'static str, String),
    log: Vec<String>,
    keep_log: bool,
    /// First clock reading by the main thread since it last started a thread.
    read_since_spawn: Option<u64>,
    /// One in `.0` scheduling points stops a thread for a drawn part of `.1`
    /// ns (0 = never); threads below `.2` are spared.
    freeze: (u32, u64, usize),
    /// Number of `sched_yield` calls since a thread last did anything else.
    spins: u32,
    /// When each thread waited on a futex.
    blocks: Vec<(usize, u64)>,
}

struct Global(std::cell::UnsafeCell<Option<Sim>>);
unsafe impl Sync for Global {}
static SIM: Global = Global(std::cell::UnsafeCell::new(None));
/// Set while the simulator itself runs (its own allocations are not work).
static IN: AtomicBool = AtomicBool::new(false);

#[allow(clippy::mut_from_ref)]
fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().unwrap() }
}

#[inline]
fn me() -> usize {
    ME.with(|m| m.get())
}

#[inline]
fn simulated() -> bool {
    ACTIVE.load(Relaxed) && me() != usize::MAX
}

struct Inside(bool);
impl Inside {
    fn enter() -> Self {
        Inside(IN.swap(true, Relaxed))
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        IN.store(self.0, Relaxed);
    }
}

/// Is this the simulator's own work?
pub fn inside() -> bool {
    IN.load(Relaxed)
}
/// Suspends "work" accounting and pre-emption (for harness bookkeeping).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _g = Inside::enter();
    f()
}

// ---------------------------------------------------------------- real calls

unsafe fn raw_syscall(n: c_long, a: [c_long; 6]) -> c_long {
    let ret: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

pub unsafe fn real_syscall(n: c_long, a: [c_long; 6]) -> c_long {
    let r = raw_syscall(n, a);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

fn park_word(w: &AtomicU32) {
    while w.load(Acquire) == 0 {
        unsafe {
            raw_syscall(
                libc::SYS_futex,
                [w as *const _ as c_long, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long, 0, 0, 0, 0],
            );
        }
    }
    w.store(0, Relaxed);
}

fn unpark_word(w: &AtomicU32) {
    w.store(1, Release);
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            [w as *const _ as c_long, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long, 1, 0, 0, 0],
        );
    }
}

unsafe fn real_fn(name: &[u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _)
}

// ---------------------------------------------------------------- scheduler

fn mix(h: &mut u64, v: u64) {
    *h = (*h ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (*h >> 29);
}

impl Sim {
    fn note(&mut self, a: u64, b: u64) {
        mix(&mut self.hash, a);
        mix(&mut self.hash, b);
    }

    fn expire(&mut self) {
        let now = self.now;
        for t in self.thr.iter_mut() {
            match t.st {
                St::Futex { deadline, .. } | St::Sleep { deadline } if deadline <= now => {
                    t.st = St::Runnable;
                    t.wake = Wake::TimedOut;
                    self.stats.timeouts += 1;
                }
                _ => {}
            }
        }
    }

    fn next_deadline(&self) -> Option<u64> {
        self.thr
            .iter()
            .filter_map(|t| match t.st {
                St::Futex { deadline, .. } | St::Sleep { deadline } if deadline != u64::MAX => {
                    Some(deadline)
                }
                _ => None,
            })
            .min()
    }

    /// Chooses who runs next. `cur_ok`: the current thread may continue.
    fn pick(&mut self, yielding: bool) -> usize {
        self.stats.decisions += 1;
        self.now += 500;
        if self.stats.decisions > self.max_decisions {
            (self.on_fatal)("livelock", format!("no end after {} scheduling decisions", self.max_decisions));
        }
        if !self.fair && self.cfg.jump > 0 && self.tape.one_in(self.cfg.jump) {
            let d = match self.tape.draw(6) {
                0 => 1_000,
                1 => 1_000_000,
                2 => 50_000_000,
                3 => 200_000_000,
                4 => NS + 1,
                _ => self.next_deadline().map_or(0, |d| d.saturating_sub(self.now)),
            };
            self.stats.jumps += 1;
            self.stats.jumped_ns += d;
            self.now += d;
        }
        self.expire();
        loop {
            let runnable: Vec<usize> =
                (0..self.thr.len()).filter(|&i| self.thr[i].st == St::Runnable).collect();
            if runnable.is_empty() {
                match self.next_deadline() {
                    Some(d) => {
                        self.now = self.now.max(d);
                        self.expire();
                        continue;
                    }
                    None => {
                        let msg = format!("all {} live threads blocked forever: {}",
                            self.thr.iter().filter(|t| t.st != St::Finished).count(), self.describe());
                        (self.on_fatal)("deadlock", msg);
                        unreachable!()
                    }
                }
            }
            let cur = self.cur;
            let cur_ok = runnable.contains(&cur);
            let others: Vec<usize> = runnable.iter().copied().filter(|&i| i != cur).collect();
            if others.is_empty() {
                return cur;
            }
            if self.fair {
                // Round robin.
                let n = others.iter().copied().find(|&i| i > cur).unwrap_or(others[0]);
                return n;
            }
            let stay_allowed = cur_ok && !yielding;
            if self.cfg.mode == 2 {
                if self.tape.one_in(60) {
                    let i = self.tape.draw(runnable.len() as u32) as usize;
                    let p = self.tape.draw(1000);
                    self.thr[runnable[i]].prio = p;
                }
                let cands: Vec<usize> = if stay_allowed { runnable.clone() } else { others.clone() };
                // A yielding thread lets somebody else run, whatever the priorities;
                // ties and yields rotate so that spinning threads cannot starve others.
                if yielding {
                    self.rr += 1;
                    return cands[self.rr % cands.len()];
                }
                return *cands.iter().max_by_key(|&&i| (self.thr[i].prio, std::cmp::Reverse(i))).unwrap();
            }
            if stay_allowed {
                let leave = if self.cfg.mode == 1 {
                    self.tape.draw(2) == 1
                } else {
                    self.tape.one_in(self.cfg.switch)
                };
                if !leave {
                    return cur;
                }
            }
            if yielding && self.tape.one_in(4) {
                // keep round-robin pressure so that spin loops make progress
                self.rr += 1;
                return others[self.rr % others.len()];
            }
            let i = self.tape.draw(others.len() as u32) as usize;
            return others[i];
        }
    }

    fn describe(&self) -> String {
        self.thr
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Finished)
            .map(|(i, t)| {
                let k = match t.st {
                    St::Runnable => "runnable",
                    St::Futex { deadline: u64::MAX, .. } => "waits",
                    St::Futex { .. } => "waits with timeout",
                    St::Sleep { .. } => "sleeps",
                    St::Join { .. } => "joins",
                    St::Finished => "finished",
                };
                format!("t{i} {k}")
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
}

fn switch_to(next: usize) {
    let s = sim();
    let prev = s.cur;
    if next == prev {
        return;
    }
    s.stats.switches += 1;
    let d = s.stats.decisions;
    s.note(next as u64, d);
    s.cur = next;
    let nw = s.thr[next].word;
    let mw = s.thr[prev].word;
    let finished = s.thr[prev].st == St::Finished;
    unpark_word(nw);
    if !finished {
        park_word(mw);
        IN.store(true, Relaxed);
    }
}

/// A scheduling decision while the current thread stays runnable.
fn decision(yielding: bool) {
    let _g = Inside::enter();
    if maybe_freeze() {
        return;
    }
    let n = sim().pick(yielding);
    switch_to(n);
}

/// The current thread may be descheduled for a long while. Called inside.
fn maybe_freeze() -> bool {
    let s = sim();
    let (n, max, spare) = s.freeze;
    if n == 0 || s.fair || s.cur < spare || !s.tape.one_in(n) {
        return false;
    }
    let d = [max / 2, max / 1000, max / 50, max / 200, max / 8, max / 4000][s.tape.draw(6) as usize];
    s.stats.freezes += 1;
    let deadline = s.now + d;
    block(St::Sleep { deadline });
    true
}

/// Blocks the current thread with the given state; returns why it woke.
fn block(st: St) -> Wake {
    let _g = Inside::enter();
    let m = me();
    let s = sim();
    s.spins = 0;
    if matches!(st, St::Futex { .. }) && s.blocks.len() < 200_000 {
        s.blocks.push((m, s.now));
    }
    s.thr[m].st = st;
    s.thr[m].wake = Wake::Normal;
    let n = s.pick(true);
    if s.thr[m].st == St::Runnable && n == m {
        return s.thr[m].wake;
    }
    switch_to(n);
    let w = sim().thr[m].wake;
    w
}

fn redraw_countdown(s: &mut Sim) {
    s.countdown = if s.fair {
        2000
    } else if s.cfg.preempt == 0 {
        u64::MAX
    } else {
        // 0 on the tape: no further pre-emption.
        match s.tape.draw(4) {
            0 if s.tape.replay_exhausted() => u64::MAX,
            0 => 1 + s.tape.draw(s.cfg.preempt) as u64,
            1 => 1 + s.tape.draw(s.cfg.preempt * 2) as u64,
            2 => 1 + s.tape.draw(1 + s.cfg.preempt / 4) as u64,
            _ => 1 + s.tape.draw(8) as u64,
        }
    };
}

/// A place where the simulator may pre-empt the current thread.
pub fn yield_point() {
    if simulated() && !IN.load(Relaxed) {
        decision(false);
    }
}

#[inline]
fn alloc_tick() {
    if !ACTIVE.load(Relaxed) || IN.load(Relaxed) || me() == usize::MAX {
        return;
    }
    let s = sim();
    s.spins = 0;
    s.stats.allocs += 1;
    s.now += ALLOC_COST_NS;
    s.countdown -= 1;
    if s.countdown == 0 {
        let _g = Inside::enter();
        s.stats.preemptions += 1;
        redraw_countdown(s);
        if maybe_freeze() {
            return;
        }
        let n = s.pick(false);
        switch_to(n);
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- public API

/// Starts a simulation in this process; `f` runs as simulated thread 0.
/// Never returns: `f` must end the process.
pub fn run(tape: Tape, hash_seed: u64, cfg: SchedCfg, max_decisions: u64,
    on_fatal: fn(&'static str, String), keep_log: bool, f: Box<dyn FnOnce() + Send>) -> ! {
    let mut s = Sim {
        thr: Vec::with_capacity(64),
        cur: 0,
        now: 0,
        tape,
        cfg,
        fair: false,
        freeze: (0, 0, 0),
        spins: 0,
        blocks: Vec::with_capacity(4096),
        countdown: u64::MAX,
        hash: 0xcbf29ce484222325,
        rnd: hash_seed,
        rr: 0,
        stats: Stats::default(),
        max_decisions,
        on_fatal,
        log: vec![],
        keep_log,
        read_since_spawn: None,
    };
    redraw_countdown(&mut s);
    unsafe { *SIM.0.get() = Some(s) };
    ensure_key();
    let th = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let s = sim();
            s.thr.push(Thr {
                word: Box::leak(Box::new(AtomicU32::new(0))),
                st: St::Runnable,
                wake: Wake::Normal,
                prio: 500,
                pthread: unsafe { libc::pthread_self() },
                start: 0,
            });
            ME.with(|m| m.set(0));
            ACTIVE.store(true, SeqCst);
            f();
            unsafe { libc::_exit(97) }
        })
        .unwrap();
    let _ = th;
    loop {
        unsafe { libc::pause() };
    }
}

/// Ends interposition; the calling thread must be the baton holder and about to exit.
pub fn stop() {
    ACTIVE.store(false, SeqCst);
}

pub fn active() -> bool {
    simulated()
}

pub fn now() -> u64 {
    if ACTIVE.load(Relaxed) { sim().now } else { 0 }
}

/// Simulated thread currently running.
pub fn current() -> usize {
    if simulated() { me() } else { 0 }
}

/// Draws from the schedule/fault tape.
pub fn fault_draw(n: u32) -> u32 {
    if !ACTIVE.load(Relaxed) {
        return 0;
    }
    quiet(|| sim().tape.draw(n))
}
pub fn fault_one_in(n: u32) -> bool {
    if !ACTIVE.load(Relaxed) || n == 0 {
        return false;
    }
    quiet(|| sim().tape.one_in(n))
}

/// Advances the clock: the current thread was slow.
pub fn advance(ns: u64) {
    if simulated() {
        let s = sim();
        s.now += ns;
        s.expire();
        decision(false);
    }
}

/// The current thread stalls for `ns` while others run.
pub fn stall(ns: u64) {
    if simulated() {
        let dl = sim().now + ns;
        block(St::Sleep { deadline: dl });
    }
}

/// The times at which threads went to wait on futexes.
pub fn blocks() -> Vec<(usize, u64)> {
    quiet(|| sim().blocks.clone())
}

/// From now on threads with numbers of at least `spare` may be descheduled for
/// up to `max` ns at one in `one_in` of their scheduling points.
pub fn set_freeze(one_in: u32, max: u64, spare: usize) {
    if ACTIVE.load(Relaxed) {
        let _g = Inside::enter();
        sim().freeze = (one_in, max, spare);
    }
}

/// From now on: round-robin scheduling, no clock jumps, no spurious wake-ups.
pub fn set_fair(on: bool) {
    if ACTIVE.load(Relaxed) {
        let _g = Inside::enter();
        let s = sim();
        s.fair = on;
        redraw_countdown(s);
    }
}

/// Adds a scenario event to the event log (and hash).
pub fn event(kind: &str, detail: impl FnOnce() -> String) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let _g = Inside::enter();
    let s = sim();
    let d = detail();
    for b in kind.bytes().chain(d.bytes()) {
        mix(&mut s.hash, b as u64);
    }
    let c = s.cur as u64;
    let n = s.now;
    s.note(c, n);
    if s.keep_log {
        s.log.push(format!("{:>12}ns t{} {} {}", s.now, s.cur, kind, d));
    }
}

static mut PIPE: c_int = -1;
/// Ends a process made by `process` (0: with this result).
pub fn put(kind: u8, text: &str) -> ! {
    IN.store(true, Relaxed);
    ACTIVE.store(false, SeqCst);
    let mut b = vec![kind];
    b.extend_from_slice(text.as_bytes());
    let mut at = 0;
    unsafe {
        while at < b.len() {
            let r = real_syscall(libc::SYS_write, [PIPE as c_long, b[at..].as_ptr() as c_long, (b.len() - at) as c_long, 0, 0, 0]);
            if r <= 0 {
                break;
            }
            at += r as usize;
        }
        libc::_exit(0)
    }
}

/// A process of its own, simulated too, made by forking this one (which must
/// have no other live threads): other hash seed, schedule, addresses, clock.
/// Gives what `f` returned, or how the process failed.
pub fn process(seed: u64, max_decisions: u64, f: impl FnOnce() -> String + Send) -> Result<String, String> {
    let _g = Inside::enter();
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            PIPE = fds[1];
            let s = sim();
            let mut t = Tape::generate(seed);
            s.rnd = seed.wrapping_mul(0x9E3779B97F4A7C15);
            s.cfg = SchedCfg::draw(&mut t);
            s.now += t.draw(1 << 30) as u64 * t.draw(1 << 16) as u64;
            s.tape = t;
            s.freeze = (0, 0, 0);
            s.stats = Stats::default();
            s.max_decisions = max_decisions;
            s.keep_log = false;
            s.on_fatal = |k, m| put(2, &format!("{k}: {m}"));
            redraw_countdown(s);
            // another memory layout
            let mut r = crate::tape::Rng::new(seed);
            let stack = (32 << 20) + (r.below(4096) as usize) * 4096;
            let mut junk = vec![];
            for _ in 0..r.below(300) {
                let most = if r.below(8) == 0 { 1 << 16 } else { 256 };
                junk.push(vec![0u8; 8 + r.below(most) as usize]);
            }
            let mut k = 0;
            junk.retain(|_| {
                k += 1;
                k % 3 == 0
            });
            std::mem::forget(junk);
            IN.store(false, Relaxed);
            // a new thread has hash keys of its own
            let out = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| crate::runner::last_panic()))
                    .unwrap()
                    .join()
            });
            match out {
                Ok(Ok(s)) => put(0, &s),
                Ok(Err(m)) => put(1, &m),
                Err(_) => put(2, "thread"),
            }
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let r = real_syscall(libc::SYS_read, [fds[0] as c_long, chunk.as_mut_ptr() as c_long, chunk.len() as c_long, 0, 0, 0]);
            if r > 0 {
                buf.extend_from_slice(&chunk[..r as usize]);
            } else if r == 0 || *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let text = String::from_utf8_lossy(buf.get(1..).unwrap_or(&[])).into_owned();
        match buf.first() {
            Some(0) => Ok(text),
            Some(1) => Err(format!("panic: {text}")),
            Some(_) => Err(format!("process: {text}")),
            None => Err(format!("process died with status {st}")),
        }
    }
}

pub struct Report {
    pub hash: u64,
    pub now: u64,
    pub stats: Stats,
    pub log: Vec<String>,
    pub tape: Vec<u32>,
    pub threads: usize,
}

pub fn report() -> Report {
    let _g = Inside::enter();
    let s = sim();
    let (d, n) = (s.stats.decisions, s.now);
    s.note(d, n);
    s.stats.threads = s.thr.len() as u64;
    Report {
        hash: s.hash,
        now: s.now,
        stats: std::mem::take(&mut s.stats),
        log: std::mem::take(&mut s.log),
        tape: s.tape.record().to_vec(),
        threads: s.thr.len(),
    }
}

/// Ids of simulated threads that have not finished (excluding the caller).
pub fn live_threads() -> Vec<usize> {
    let m = me();
    let s = sim();
    (0..s.thr.len()).filter(|&i| i != m && s.thr[i].st != St::Finished).collect()
}

pub fn thread_count() -> usize {
    sim().thr.len()
}

/// Lets the other threads run, fairly, until none is runnable or sleeping
/// (or `max` decisions have passed). Returns the threads still alive.
pub fn drain(max: u64) -> Vec<usize> {
    set_fair(true);
    let m = me();
    for _ in 0..max {
        let s = sim();
        let busy = (0..s.thr.len()).any(|i| {
            i != m
                && match s.thr[i].st {
                    St::Runnable | St::Sleep { .. } | St::Join { .. } => true,
                    St::Futex { deadline, .. } => deadline != u64::MAX,
                    St::Finished => false,
                }
        });
        if !busy {
            break;
        }
        let only_timed = (0..s.thr.len()).all(|i| i == m || s.thr[i].st != St::Runnable);
        if only_timed {
            if let Some(d) = s.next_deadline() {
                s.now = s.now.max(d);
                s.expire();
            } else {
                break;
            }
        }
        decision(true);
    }
    live_threads()
}

// ---------------------------------------------------------------- threads

static KEY: AtomicU32 = AtomicU32::new(u32::MAX);

fn ensure_key() {
    if KEY.load(Relaxed) == u32::MAX {
        let mut k: libc::pthread_key_t = 0;
        unsafe { libc::pthread_key_create(&mut k, Some(thread_end)) };
        KEY.store(k, Relaxed);
    }
}

/// Runs after the thread's Rust thread-local destructors.
unsafe extern "C" fn thread_end(_: *mut c_void) {
    if !simulated() {
        return;
    }
    IN.store(true, Relaxed);
    let m = me();
    let s = sim();
    s.thr[m].st = St::Finished;
    for t in s.thr.iter_mut() {
        if t.st == (St::Join { target: m }) {
            t.st = St::Runnable;
            t.wake = Wake::Normal;
        }
    }
    s.note(0xdead, m as u64);
    let n = s.pick(true);
    ME.with(|c| c.set(usize::MAX));
    switch_to(n);
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    id: usize,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let Start { f, arg, id } = *st;
    unsafe { libc::pthread_setspecific(KEY.load(Relaxed), 1 as *const c_void) };
    let w = sim_word(id);
    park_word(w);
    ME.with(|m| m.set(id));
    IN.store(false, Relaxed);
    f(arg)
}

/// The n-th thread from here is refused (0: none).
pub static SPAWN_FAIL: AtomicU32 = AtomicU32::new(0);

static BOOT: AtomicU32 = AtomicU32::new(12345);
static WORDS: [AtomicU32; 512] = [const { AtomicU32::new(0) }; 512];
fn sim_word(id: usize) -> &'static AtomicU32 {
    &WORDS[id]
}

type PCreate = unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real: PCreate = std::mem::transmute(real_fn(b"pthread_create\0"));
    if !simulated() {
        return real(t, attr, f, arg);
    }
    if SPAWN_FAIL.load(Relaxed) > 0 && SPAWN_FAIL.fetch_sub(1, Relaxed) == 1 {
        crate::runner::fault("thread_refused");
        return libc::EAGAIN;
    }
    {
        let _g = Inside::enter();
        let s = sim();
        let id = s.thr.len();
        if id >= WORDS.len() {
            (s.on_fatal)("harness", "too many simulated threads".into());
        }
        let prio = if s.cfg.mode == 2 { s.tape.draw(1000) } else { 500 };
        let now = s.now;
        if me() == 0 {
            s.read_since_spawn = None;
        }
        s.thr.push(Thr { word: sim_word(id), st: St::Runnable, wake: Wake::Normal, prio, pthread: 0, start: now });
        let b = Box::into_raw(Box::new(Start { f, arg, id }));
        let r = real(t, attr, trampoline, b as *mut c_void);
        if r != 0 {
            (s.on_fatal)("harness", format!("pthread_create failed: {r}"));
        }
        s.thr[id].pthread = *t;
        s.note(0xc0de, id as u64);
    }
    decision(false);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, ret: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(real_fn(b"pthread_join\0"));
    if simulated() {
        let target = {
            let s = sim();
            (0..s.thr.len()).rev().find(|&i| s.thr[i].pthread == t && i != me())
        };
        if let Some(target) = target {
            if sim().thr[target].st != St::Finished {
                block(St::Join { target });
            } else {
                decision(false);
            }
            quiet(|| sim().thr[target].pthread = 0);
        }
    }
    real(t, ret)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() && !IN.load(Relaxed) {
        // Spinning threads wait for one that sleeps: time passes.
        let s = sim();
        s.spins += 1;
        if s.spins > 64 {
            if let Some(d) = s.next_deadline() {
                s.now = s.now.max(d);
                s.expire();
            }
            s.spins = 0;
        }
        decision(true);
        0
    } else {
        raw_syscall(libc::SYS_sched_yield, [0; 6]) as c_int
    }
}

// ---------------------------------------------------------------- futex & misc syscalls

const MONO_BASE: u64 = 1_000_000 * NS;
const REAL_BASE: u64 = 1_700_000_000 * NS;

unsafe fn futex(a: [c_long; 6]) -> c_long {
    let addr = a[0] as usize;
    let op = a[1] as c_int;
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    let val = a[2] as u32;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sim().stats.futex_waits += 1;
            // A scheduling point before the check: the race window real callers have.
            decision(false);
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            let s = sim();
            let ts = a[3] as *const timespec;
            let deadline = if ts.is_null() {
                u64::MAX
            } else {
                let t = ((*ts).tv_sec as u64).saturating_mul(NS).saturating_add((*ts).tv_nsec as u64);
                if cmd == libc::FUTEX_WAIT {
                    s.now.saturating_add(t)
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    t.saturating_sub(REAL_BASE)
                } else {
                    t.saturating_sub(MONO_BASE)
                }
            };
            if !s.fair && s.cfg.spurious > 0 && fault_one_in(s.cfg.spurious) {
                s.stats.spurious += 1;
                return 0;
            }
            let bitset = if cmd == libc::FUTEX_WAIT_BITSET { a[5] as u32 } else { u32::MAX };
            match block(St::Futex { addr, bitset, deadline }) {
                Wake::Normal => 0,
                Wake::Spurious => 0,
                Wake::TimedOut => {
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    -1
                }
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if cmd == libc::FUTEX_WAKE_BITSET { a[5] as u32 } else { u32::MAX };
            let mut n = 0;
            {
                let _g = Inside::enter();
                let s = sim();
                let mut waiters: Vec<usize> = (0..s.thr.len())
                    .filter(|&i| matches!(s.thr[i].st, St::Futex { addr: x, bitset, .. } if x == addr && bitset & mask != 0))
                    .collect();
                while n < val as c_long && !waiters.is_empty() {
                    let k = if waiters.len() > 1 && !s.fair { s.tape.draw(waiters.len() as u32) as usize } else { 0 };
                    let w = waiters.remove(k);
                    s.thr[w].st = St::Runnable;
                    s.thr[w].wake = Wake::Normal;
                    n += 1;
                }
            }
            decision(false);
            n
        }
        _ => real_syscall(libc::SYS_futex, a),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if simulated() {
        if n == libc::SYS_futex {
            return futex([a, b, c, d, e, f]);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
        }
    }
    real_syscall(n, [a, b, c, d, e, f])
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if simulated() {
        let s = sim();
        s.stats.getrandom += 1;
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for b in out {
            s.rnd = s.rnd.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s.rnd;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *b = (z ^ (z >> 31)) as u8;
        }
        return len as isize;
    }
    // Outside a run (preloading) randomness is fixed too.
    let _ = flags;
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for b in out.iter_mut() {
        *b = (BOOT.fetch_add(0x9E3779B9, Relaxed).wrapping_mul(0x85EBCA6B) >> 11) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, ts: *mut timespec) -> c_int {
    if simulated() {
        let s = sim();
        s.now += 50;
        if me() == 0 && s.read_since_spawn.is_none() {
            s.read_since_spawn = Some(s.now);
        }
        let t = s.now + if c == libc::CLOCK_REALTIME { REAL_BASE } else { MONO_BASE };
        (*ts).tv_sec = (t / NS) as i64;
        (*ts).tv_nsec = (t % NS) as i64;
        return 0;
    }
    real_syscall(libc::SYS_clock_gettime, [c as c_long, ts as c_long, 0, 0, 0, 0]) as c_int
}

unsafe fn sim_sleep(ts: *const timespec) {
    let d = (*ts).tv_sec as u64 * NS + (*ts).tv_nsec as u64;
    let dl = sim().now + d;
    block(St::Sleep { deadline: dl });
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if simulated() {
        sim_sleep(ts);
        return 0;
    }
    real_syscall(libc::SYS_nanosleep, [ts as c_long, rem as c_long, 0, 0, 0, 0]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, flags: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if simulated() {
        if flags & 1 != 0 {
            let t = (*ts).tv_sec as u64 * NS + (*ts).tv_nsec as u64;
            let base = if c == libc::CLOCK_REALTIME { REAL_BASE } else { MONO_BASE };
            block(St::Sleep { deadline: t.saturating_sub(base) });
        } else {
            sim_sleep(ts);
        }
        return 0;
    }
    raw_syscall(libc::SYS_clock_nanosleep, [c as c_long, flags as c_long, ts as c_long, rem as c_long, 0, 0]) as c_int
}

/// First clock reading by the main thread since it last started a thread.
pub fn read_since_spawn() -> Option<u64> {
    sim().read_since_spawn
}

/// Age of a simulated thread, for diagnostics.
pub fn thread_started_at(id: usize) -> u64 {
    sim().thr[id].start
}
