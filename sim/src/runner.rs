//! Fork-per-run driver: seeds, aggregation, shrinking, replay, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::simrt::{self, SchedCfg};
use crate::tape::Tape;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type Verdict = Result<(), Violation>;

pub fn fail<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::runner::Violation { class: $class.into(), msg: format!($($arg)*) });
        }
    };
}

/// What a scenario gets: its workload tape and a place for facts about the run.
pub struct Ctx {
    pub w: Tape,
    pub sample: Option<String>,
    pub nontrivial: bool,
    pub verbose: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub components: &'static str,
    pub assumptions: &'static [&'static str],
    /// Runs in the parent before any fork.
    pub preload: fn(),
    pub scenario: fn(&mut Ctx) -> Verdict,
    pub quick_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// Scheduling decisions after which a run counts as not ending.
    pub max_decisions: u64,
    /// Class of a run that deadlocks / livelocks (None: that is a violation too).
    pub plain_sched: bool,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub hash: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub wtape: Vec<u32>,
    pub stape: Vec<u32>,
    pub log: Vec<String>,
    pub harness_error: Option<String>,
}

struct Facts {
    probes: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    nontrivial: bool,
    sample: Option<String>,
    wtape: Vec<u32>,
}
static FACTS: Mutex<Facts> = Mutex::new(Facts {
    probes: BTreeMap::new(),
    faults: BTreeMap::new(),
    nontrivial: false,
    sample: None,
    wtape: vec![],
});
static mut OUT_FD: i32 = -1;
static mut WANT_LOG: bool = false;

/// "This condition was reached."
pub fn probe(name: &str) {
    simrt::quiet(|| *FACTS.lock().unwrap().probes.entry(name.into()).or_default() += 1);
}
/// "A fault of this kind was injected."
pub fn fault(name: &str) {
    simrt::quiet(|| *FACTS.lock().unwrap().faults.entry(name.into()).or_default() += 1);
}

/// Faults injected in this process.
pub fn faults() -> BTreeMap<String, u64> {
    simrt::quiet(|| FACTS.lock().unwrap().faults.clone())
}
pub fn forget_faults() {
    simrt::quiet(|| FACTS.lock().unwrap().faults.clear())
}
/// Faults injected by a process that has ended.
pub fn add_faults(m: &BTreeMap<String, u64>) {
    simrt::quiet(|| {
        let mut f = FACTS.lock().unwrap();
        for (k, n) in m {
            *f.faults.entry(k.clone()).or_default() += n;
        }
    });
}

/// Lets a scenario with a self-inflicted process end still deliver its tape.
pub fn save_wtape(t: &Tape) {
    simrt::quiet(|| FACTS.lock().unwrap().wtape = t.record().to_vec());
}

fn write_outcome(v: Option<Violation>, harness_error: Option<String>) -> ! {
    simrt::quiet(|| {
        let r = simrt::report();
        let f = FACTS.lock().unwrap();
        let mut counters = BTreeMap::new();
        for (k, n) in [
            ("decisions", r.stats.decisions),
            ("switches", r.stats.switches),
            ("preemptions", r.stats.preemptions),
            ("futex_waits", r.stats.futex_waits),
            ("threads", r.stats.threads),
            ("allocs", r.stats.allocs),
        ] {
            counters.insert(k.to_string(), n);
        }
        let mut faults = f.faults.clone();
        for (k, n) in [
            ("clock_jump", r.stats.jumps),
            ("descheduled_thread", r.stats.freezes),
            ("spurious_wakeup", r.stats.spurious),
            ("preemption", r.stats.preemptions),
            ("timeout_fired", r.stats.timeouts),
        ] {
            if n > 0 {
                faults.insert(k.to_string(), n);
            }
        }
        let keep = v.is_some();
        let o = Outcome {
            violation: v,
            hash: r.hash,
            sim_ns: r.now,
            counters,
            probes: f.probes.clone(),
            faults,
            nontrivial: f.nontrivial,
            sample: f.sample.clone(),
            wtape: if keep { f.wtape.clone() } else { vec![] },
            stape: if keep { r.tape } else { vec![] },
            log: r.log,
            harness_error,
        };
        simrt::stop();
        let s = serde_json::to_vec(&o).unwrap();
        unsafe {
            let mut file = std::fs::File::from_raw_fd(OUT_FD);
            let _ = file.write_all(&s);
            drop(file);
            libc::_exit(0)
        }
    })
}

static CTX_TAPE: std::sync::atomic::AtomicPtr<Ctx> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Re-executes the process with a fixed address layout and environment, so that
/// addresses and environment-dependent defaults are the same in every run.
pub fn fix_process() {
    if std::env::var_os("TKETSIM_FIXED").is_some() {
        return;
    }
    std::env::set_var("TKETSIM_FIXED", "1");
    std::env::set_var("RAYON_NUM_THREADS", "3");
    std::env::set_var("TZ", "UTC");
    std::env::remove_var("RUST_BACKTRACE");
    std::env::remove_var("RUST_LOG");
    unsafe {
        libc::personality(0x0040000);
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let mut args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        // room for the command lines of simulated processes
        args.resize(args.len().max(48), Default::default());
        let mut p: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        p.push(std::ptr::null());
        libc::execv(exe.as_ptr(), p.as_ptr());
    }
}

fn on_fatal(kind: &'static str, msg: String) {
    let p = CTX_TAPE.load(std::sync::atomic::Ordering::SeqCst);
    if !p.is_null() {
        // the owner is parked by the simulator
        let c = unsafe { &*p };
        save_wtape(&c.w);
        simrt::quiet(|| {
            let mut f = FACTS.lock().unwrap();
            f.sample = c.sample.clone();
            f.nontrivial = c.nontrivial;
        });
    }
    if kind == "harness" {
        write_outcome(None, Some(msg));
    }
    write_outcome(Some(Violation { class: kind.into(), msg }), None)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Seed(u64),
    Tapes { w: Vec<u32>, s: Vec<u32> },
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Message and place of the most recent panic on this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// The source file of the last panic if it lies in a dependency: `:crate-version/src/file.rs`.
pub fn panic_site() -> String {
    let m = last_panic();
    m.split_once("/registry/src/")
        .and_then(|(_, r)| r.split_once('/'))
        .map(|(_, f)| format!(":{}", f.rsplit_once(':').map_or(f, |x| x.0)))
        .unwrap_or_default()
}
static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);
/// All panics so far on any thread of this run.
pub fn all_panics() -> Vec<String> {
    simrt::quiet(|| PANICS.lock().unwrap().clone())
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SIM_BT").is_some() {
            simrt::quiet(|| eprintln!("{}", std::backtrace::Backtrace::force_capture()));
        }
        simrt::quiet(|| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = i
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            let text = format!("{m} @ {loc}");
            LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
            PANICS.lock().unwrap().push(text);
        });
    }));
}

fn child(p: &'static Prop, input: &Input, want_log: bool) -> ! {
    let (w, mut s) = match input {
        Input::Seed(x) => (Tape::generate(x.wrapping_mul(2).wrapping_add(1)), Tape::generate(x.wrapping_mul(2))),
        Input::Tapes { w, s } => (Tape::replay(w.clone()), Tape::replay(s.clone())),
    };
    unsafe { WANT_LOG = want_log };
    install_hook();
    let hash_seed = s.draw(65536) as u64;
    let mut cfg = SchedCfg::draw(&mut s);
    if p.plain_sched {
        cfg = SchedCfg { mode: 0, switch: 8, preempt: 0, jump: 0, spurious: 0 };
    }
    simrt::run(s, hash_seed, cfg, p.max_decisions, on_fatal, want_log, Box::new(move || {
        let ctx = Box::leak(Box::new(Ctx { w, sample: None, nontrivial: false, verbose: want_log }));
        CTX_TAPE.store(ctx as *mut Ctx, std::sync::atomic::Ordering::SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.scenario)(ctx)));
        simrt::quiet(|| {
            let mut f = FACTS.lock().unwrap();
            f.wtape = ctx.w.record().to_vec();
            f.nontrivial = ctx.nontrivial;
            f.sample = ctx.sample.clone();
        });
        let v = match r {
            Ok(Ok(())) => None,
            Ok(Err(v)) => Some(v),
            Err(_) => {
                let m = last_panic();
                let place = m.rsplit_once(" @ ").map(|x| x.1.to_string()).unwrap_or_default();
                if place.starts_with("src/") || place.contains("/verif/sim/") {
                    write_outcome(None, Some(format!("harness panic: {m}")));
                }
                Some(Violation { class: format!("panic@{}", strip_line(&place)), msg: m })
            }
        };
        write_outcome(v, None)
    }))
}

fn strip_line(p: &str) -> String {
    p.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(p.to_string())
}

static mut CURRENT_CHILD: i32 = 0;

static PHASE: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
const PHASE_LEN: usize = 64;

/// Names what the run is doing, for runs that end with the death of the process.
pub fn phase(name: &str) {
    let p = PHASE.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            std::ptr::write_bytes(p, 0, PHASE_LEN);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p, name.len().min(PHASE_LEN - 1));
        }
    }
}

/// Runs one simulation in a forked child.
pub fn run_one(p: &'static Prop, input: &Input, want_log: bool, limit: Duration) -> Outcome {
    let map = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
    };
    assert!(map != libc::MAP_FAILED);
    PHASE.store(map as *mut u8, std::sync::atomic::Ordering::Relaxed);
    let mut o = run_child(p, input, want_log, limit);
    let b = unsafe { std::slice::from_raw_parts(map as *const u8, PHASE_LEN) };
    let n = b.iter().position(|c| *c == 0).unwrap_or(PHASE_LEN);
    let ph = String::from_utf8_lossy(&b[..n]).into_owned();
    unsafe { libc::munmap(map, 4096) };
    if let Some(v) = &mut o.violation {
        if !ph.is_empty() && (v.class.starts_with("crash-signal") || v.class.starts_with("no-progress")) {
            v.class = format!("{}@{ph}", v.class);
        }
    }
    o
}

fn run_child(p: &'static Prop, input: &Input, want_log: bool, limit: Duration) -> Outcome {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            OUT_FD = fds[1];
            if std::env::var_os("SIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 1);
                libc::dup2(n, 2);
                libc::close(n);
            }
            let lim = libc::rlimit { rlim_cur: 10 << 30, rlim_max: 10 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            child(p, input, want_log);
        }
        CURRENT_CHILD = pid;
        libc::close(fds[1]);
        let start = Instant::now();
        let mut buf = vec![];
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut timed_out = false;
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let left = limit.saturating_sub(start.elapsed());
            let mut pf = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pf, 1, left.as_millis().min(i32::MAX as u128) as i32);
            if r == 0 {
                timed_out = true;
                break;
            }
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        if timed_out {
            libc::kill(pid, libc::SIGKILL);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {}
        CURRENT_CHILD = 0;
        if let Ok(mut o) = serde_json::from_slice::<Outcome>(&buf) {
            if let Some(v) = &o.violation {
                if let Ok(pat) = std::env::var("SIM_IGNORE_CLASS") {
                    if pat.split(',').any(|c| !c.is_empty() && v.class.contains(c)) {
                        o.violation = None;
                    }
                }
            }
            return o;
        }
        let mut o = Outcome::default();
        if timed_out {
            o.violation = Some(Violation { class: "no-progress".into(), msg: format!("no end within {} s of real time", limit.as_secs()) });
        } else if libc::WIFSIGNALED(st) {
            o.violation = Some(Violation { class: format!("crash-signal-{}", libc::WTERMSIG(st)), msg: "process died".into() });
        } else {
            o.violation = Some(Violation { class: format!("process-exit-{}", libc::WEXITSTATUS(st)), msg: "process ended during the run".into() });
        }
        o
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub verif_seed: u64,
    pub run: u64,
    pub run_seed: u64,
    pub violation: Violation,
    pub original: Violation,
    pub minimised: bool,
    pub workload_tape: Vec<u32>,
    pub schedule_and_fault_tape: Vec<u32>,
    /// Set when only the seed (not tapes) could be recovered (process death).
    pub seed_only: bool,
    pub sample: Option<String>,
    pub faults: BTreeMap<String, u64>,
    pub event_hash: u64,
    pub log: Vec<String>,
}

fn input_of(r: &Replay) -> Input {
    if r.seed_only {
        Input::Seed(r.run_seed)
    } else {
        Input::Tapes { w: r.workload_tape.clone(), s: r.schedule_and_fault_tape.clone() }
    }
}

const LIMIT: Duration = Duration::from_secs(100);

fn shrink(p: &'static Prop, w: Vec<u32>, s: Vec<u32>, class: &str, budget: Duration) -> (Vec<u32>, Vec<u32>) {
    let start = Instant::now();
    let mut best = (w, s);
    let mut tries = 0;
    let test = |c: &(Vec<u32>, Vec<u32>)| -> bool {
        let o = run_one(p, &Input::Tapes { w: c.0.clone(), s: c.1.clone() }, false, Duration::from_secs(20));
        o.violation.as_ref().is_some_and(|v| v.class == class)
    };
    // Trailing zeros are implied.
    let trim = |v: &mut Vec<u32>| {
        while v.last() == Some(&0) {
            v.pop();
        }
    };
    let mut improved = true;
    while improved && start.elapsed() < budget {
        improved = false;
        for which in [1, 0] {
            // truncate
            let mut len = if which == 0 { best.0.len() } else { best.1.len() };
            let mut cut = len;
            while cut > 0 && start.elapsed() < budget {
                let mut c = best.clone();
                let v = if which == 0 { &mut c.0 } else { &mut c.1 };
                if cut > v.len() {
                    cut = v.len();
                    continue;
                }
                let nl = v.len() - cut;
                v.truncate(nl);
                trim(v);
                tries += 1;
                if test(&c) {
                    best = c;
                    improved = true;
                    len = if which == 0 { best.0.len() } else { best.1.len() };
                    cut = len;
                } else {
                    cut /= 2;
                }
            }
            let _ = len;
            // zero and delete blocks
            for del in [true, false] {
                let mut size = 64usize;
                while size >= 1 && start.elapsed() < budget {
                    let mut i = 0;
                    loop {
                        let v = if which == 0 { &best.0 } else { &best.1 };
                        if i >= v.len() || start.elapsed() >= budget {
                            break;
                        }
                        let end = (i + size).min(v.len());
                        if !del && v[i..end].iter().all(|&x| x == 0) {
                            i += size;
                            continue;
                        }
                        let mut c = best.clone();
                        let cv = if which == 0 { &mut c.0 } else { &mut c.1 };
                        if del {
                            cv.drain(i..end);
                        } else {
                            cv[i..end].iter_mut().for_each(|x| *x = 0);
                        }
                        trim(cv);
                        tries += 1;
                        if test(&c) {
                            best = c;
                            improved = true;
                        } else {
                            i += size;
                        }
                        if tries > 3000 {
                            return best;
                        }
                    }
                    size /= if size > 8 { 4 } else { 2 };
                }
            }
            // lower values
            let n = if which == 0 { best.0.len() } else { best.1.len() };
            for i in 0..n.min(200) {
                if start.elapsed() >= budget {
                    break;
                }
                let cur = if which == 0 { &best.0 } else { &best.1 };
                if i >= cur.len() || cur[i] < 2 {
                    continue;
                }
                for nv in [1, cur[i] / 2] {
                    let mut c = best.clone();
                    let cv = if which == 0 { &mut c.0 } else { &mut c.1 };
                    cv[i] = nv;
                    if test(&c) {
                        best = c;
                        improved = true;
                        break;
                    }
                }
            }
        }
    }
    best
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}

fn known_findings(verif: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.trim().strip_prefix("known: property=")?;
            let (prop, rest) = l.split_once(" class=")?;
            let (class, text) = rest.split_once(" | ").unwrap_or((rest, ""));
            Some(Known { property: prop.into(), class: class.trim().into(), text: text.into() })
        })
        .collect()
}

pub fn seed_for(verif_seed: u64, id: &str, run: u64) -> u64 {
    let mut r = crate::tape::Rng::new(
        verif_seed.wrapping_mul(0x9E3779B97F4A7C15) ^ id.bytes().fold(7u64, |a, b| a.wrapping_mul(257) + b as u64),
    );
    let base = r.next();
    let mut r2 = crate::tape::Rng::new(base.wrapping_add(run.wrapping_mul(0xD1342543DE82EF95)));
    r2.next() >> 1
}

#[derive(Serialize, Deserialize)]
struct Line {
    run: u64,
    o: Outcome,
    deterministic: Option<bool>,
}

fn worker(p: &'static Prop, w: u64, nw: u64, runs: u64, deadline: Instant, verif_seed: u64, fd: i32) -> ! {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut r = w;
    while r < runs && Instant::now() < deadline {
        let inp = Input::Seed(seed_for(verif_seed, p.id, r));
        let mut o = run_one(p, &inp, false, LIMIT);
        if o.violation.as_ref().is_some_and(|v| v.class == "no-progress") {
            // confirm on a longer leash
            o = run_one(p, &inp, false, LIMIT * 2);
        }
        let mut deterministic = None;
        if r % 40 == w % 40 && o.violation.is_none() && o.harness_error.is_none() {
            let o2 = run_one(p, &inp, false, LIMIT);
            deterministic = Some(o2.hash == o.hash && o2.violation.is_none());
            if o2.violation.is_some() {
                o = o2;
            }
        }
        if r >= 40 {
            o.sample = if o.nontrivial && r % 97 == 0 { o.sample } else { None };
        }
        let mut s = serde_json::to_vec(&Line { run: r, o, deterministic }).unwrap();
        s.push(b'\n');
        if f.write_all(&s).is_err() {
            break;
        }
        r += nw;
    }
    unsafe { libc::_exit(0) }
}

pub fn check(p: &'static Prop, verif: &str, tier: &str, verif_seed: u64) -> i32 {
    let t0 = Instant::now();
    println!("property={} tier={tier} VERIF_SEED={verif_seed}", p.id);
    (p.preload)();
    let preload_s = t0.elapsed().as_secs_f64();
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let nw = env("SIM_WORKERS").unwrap_or(8);
    let (runs, secs) = if tier == "thorough" {
        (u64::MAX / 2, p.thorough_secs)
    } else {
        (p.quick_runs, p.quick_secs)
    };
    let runs = env("SIM_RUNS").unwrap_or(runs);
    let secs = env("SIM_SECS").unwrap_or(secs);
    let known = known_findings(verif);
    let start = Instant::now();
    let deadline = start + Duration::from_secs(secs);
    let mut fds = vec![];
    let mut pids = vec![];
    for w in 0..nw {
        unsafe {
            let mut pp = [0i32; 2];
            assert_eq!(libc::pipe(pp.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(pp[0]);
                worker(p, w, nw, runs, deadline, verif_seed, pp[1]);
            }
            libc::close(pp[1]);
            fds.push(pp[0]);
            pids.push(pid);
        }
    }
    let mut agg = Agg::default();
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; fds.len()];
    let mut open: Vec<bool> = vec![true; fds.len()];
    let mut first: Option<Line> = None;
    let mut known_hits: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut stop = false;
    while open.iter().any(|&x| x) && !stop {
        let mut pf: Vec<libc::pollfd> = fds
            .iter()
            .zip(&open)
            .map(|(&fd, &o)| libc::pollfd { fd: if o { fd } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for i in 0..fds.len() {
            if pf[i].revents == 0 {
                continue;
            }
            let mut chunk = [0u8; 65536];
            let n = unsafe { libc::read(fds[i], chunk.as_mut_ptr() as *mut _, chunk.len()) };
            if n <= 0 {
                open[i] = false;
                continue;
            }
            bufs[i].extend_from_slice(&chunk[..n as usize]);
            while let Some(pos) = bufs[i].iter().position(|&b| b == b'\n') {
                let line: Vec<u8> = bufs[i].drain(..=pos).collect();
                let l: Line = serde_json::from_slice(&line).expect("worker line");
                if let Some(v) = &l.o.violation {
                    let k = known.iter().find(|k| k.property == p.id && k.class == v.class);
                    if let Some(k) = k {
                        let e = known_hits.entry(k.class.clone()).or_insert((0, k.text.clone()));
                        e.0 += 1;
                    } else if first.as_ref().is_none_or(|f| l.run < f.run) {
                        agg.add(&l);
                        first = Some(l);
                        stop = true;
                        continue;
                    }
                }
                agg.add(&l);
            }
        }
    }
    for &pid in &pids {
        unsafe {
            libc::kill(pid, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
        }
    }
    for fd in fds {
        unsafe { libc::close(fd) };
    }
    let run_s = start.elapsed().as_secs_f64();
    if let Some(e) = &agg.harness_error {
        eprintln!("harness error: {e}");
    }
    for k in known.iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {} (class {}; hit {} times in this run)", p.id, k.text, k.class,
            known_hits.get(&k.class).map_or(0, |x| x.0));
    }
    let mut code = 0;
    let mut n_viol = 0;
    if let Some(l) = first {
        n_viol = 1;
        code = 1;
        let path = report_violation(p, verif, verif_seed, &l);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if agg.n == 0 {
        eprintln!("harness error: no run finished");
        code = if code == 0 { 3 } else { code };
    }
    if code == 0 && agg.harness_errors * 20 > agg.n {
        eprintln!("harness error: {} of {} runs", agg.harness_errors, agg.n);
        code = 3;
    }
    let ev = evidence(p, tier, verif_seed, &agg, run_s, preload_s, t0.elapsed().as_secs_f64(), n_viol, nw);
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    std::fs::write(format!("{verif}/evidence/{}.json", p.id), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!("{}: {} runs, {} distinct, {:.1} s, violations {}", p.id, agg.n, agg.distinct.len(), run_s, n_viol);
    code
}

#[derive(Default)]
struct Agg {
    n: u64,
    nontrivial: u64,
    distinct: BTreeSet<u64>,
    sched: BTreeSet<u64>,
    counters: BTreeMap<String, u64>,
    probes: BTreeMap<String, (u64, u64)>,
    faults: BTreeMap<String, (u64, u64)>,
    sim_ns: u128,
    samples: Vec<String>,
    det_ok: u64,
    det_bad: u64,
    harness_errors: u64,
    harness_error: Option<String>,
}

impl Agg {
    fn add(&mut self, l: &Line) {
        let o = &l.o;
        self.n += 1;
        if o.harness_error.is_some() {
            self.harness_errors += 1;
            self.harness_error = self.harness_error.take().or(o.harness_error.clone());
        }
        self.sched.insert(o.hash);
        if o.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(o.hash);
        }
        for (k, v) in &o.counters {
            *self.counters.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            let e = self.probes.entry(k.clone()).or_default();
            e.0 += 1;
            e.1 += v;
        }
        for (k, v) in &o.faults {
            let e = self.faults.entry(k.clone()).or_default();
            e.0 += 1;
            e.1 += v;
        }
        self.sim_ns += o.sim_ns as u128;
        if let (Some(s), true) = (&o.sample, self.samples.len() < 4) {
            let mut s = s.clone();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.samples.push(s);
        }
        match l.deterministic {
            Some(true) => self.det_ok += 1,
            Some(false) => self.det_bad += 1,
            None => {}
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: &str, seed: u64, a: &Agg, run_s: f64, preload_s: f64, wall: f64, viol: u64, nw: u64) -> serde_json::Value {
    let per = |m: &BTreeMap<String, (u64, u64)>| -> serde_json::Value {
        m.iter().map(|(k, v)| (k.clone(), serde_json::json!({"runs": v.0, "times": v.1}))).collect::<serde_json::Map<_, _>>().into()
    };
    serde_json::json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "wall_s": wall, "violations": viol,
        "coverage": {
            "evaluations": a.n,
            "distinct_nontrivial": a.distinct.len(),
            "rule": p.rule,
            "samples": a.samples,
            "nontrivial_runs": a.nontrivial,
            "distinct_event_histories": a.sched.len(),
            "distinctness_measure": "hash over every scheduling decision (thread chosen, decision index), thread creation/end and scenario event with its simulated time",
            "simulated_runs_per_hour": (a.n as f64 * 3600.0 / run_s.max(1e-9)) as u64,
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "simulated_seconds_per_real_second": a.sim_ns as f64 / 1e9 / run_s.max(1e-9),
            "faults_injected": per(&a.faults),
            "probes": per(&a.probes),
            "scheduler": a.counters,
            "determinism_reruns_equal": a.det_ok,
            "determinism_reruns_different": a.det_bad,
            "harness_errors": a.harness_errors,
            "harness_error_example": a.harness_error,
            "components": p.components,
            "worker_processes": nw,
            "preload_s": preload_s,
            "run_s": run_s,
        },
        "assumptions": p.assumptions,
    })
}

fn report_violation(p: &'static Prop, verif: &str, verif_seed: u64, l: &Line) -> String {
    let v0 = l.o.violation.clone().unwrap();
    let run_seed = seed_for(verif_seed, p.id, l.run);
    println!("run {} (seed {}): {}: {}", l.run, run_seed, v0.class, v0.msg);
    let have_tapes = !l.o.stape.is_empty();
    let mut rep = Replay {
        property: p.id.into(),
        verif_seed,
        run: l.run,
        run_seed,
        violation: v0.clone(),
        original: v0.clone(),
        minimised: false,
        workload_tape: l.o.wtape.clone(),
        schedule_and_fault_tape: l.o.stape.clone(),
        seed_only: !have_tapes,
        sample: l.o.sample.clone(),
        faults: l.o.faults.clone(),
        event_hash: l.o.hash,
        log: vec![],
    };
    if have_tapes {
        let o = run_one(p, &input_of(&rep), false, LIMIT);
        if o.violation.as_ref().is_some_and(|v| v.class == v0.class) {
            let secs = std::env::var("SIM_SHRINK_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(30);
            let (w, s) = shrink(p, rep.workload_tape.clone(), rep.schedule_and_fault_tape.clone(), &v0.class, Duration::from_secs(secs));
            rep.workload_tape = w;
            rep.schedule_and_fault_tape = s;
            rep.minimised = true;
        } else {
            // deadlocks and the like are reported from other threads, before the
            // workload tape is final: fall back to the seed
            rep.seed_only = true;
        }
    }
    let o = run_one(p, &input_of(&rep), true, LIMIT);
    if let Some(v) = o.violation {
        rep.violation = v;
    } else {
        println!("note: the replay did not reproduce the violation");
    }
    rep.event_hash = o.hash;
    rep.sample = o.sample;
    rep.faults = o.faults;
    rep.log = o.log;
    if rep.log.len() > 2000 {
        let cut = rep.log.len() - 2000;
        rep.log.drain(..cut);
    }
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.json", p.id, verif_seed, l.run);
    std::fs::write(&path, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
    println!("minimised: {}: {} (workload tape {}, schedule tape {})", rep.violation.class, rep.violation.msg,
        rep.workload_tape.len(), rep.schedule_and_fault_tape.len());
    path
}

pub fn replay(p: &'static Prop, path: &str) -> i32 {
    let rep: Replay = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay format");
    assert_eq!(rep.property, p.id);
    (p.preload)();
    let o = run_one(p, &input_of(&rep), true, LIMIT);
    for l in o.log.iter().rev().take(60).rev() {
        println!("  {l}");
    }
    if let Some(s) = &o.sample {
        println!("{s}");
    }
    match o.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            println!("event hash {:#x} (recorded {:#x})", o.hash, rep.event_hash);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("{}: not reproduced", p.id);
            0
        }
    }
}

/// Minimises one failing run (development).
pub fn min(p: &'static Prop, verif: &str, verif_seed: u64, run: u64) -> i32 {
    (p.preload)();
    let o = run_one(p, &Input::Seed(seed_for(verif_seed, p.id, run)), false, LIMIT);
    if o.violation.is_none() {
        return 0;
    }
    let path = report_violation(p, verif, verif_seed, &Line { run, o, deterministic: None });
    println!("{path}");
    1
}

/// Runs one seed verbosely (development).
pub fn one(p: &'static Prop, seed: u64) -> i32 {
    (p.preload)();
    let t = Instant::now();
    let o = run_one(p, &Input::Seed(seed), true, LIMIT);
    for l in &o.log {
        println!("  {l}");
    }
    println!("{:?}\nsample: {:?}\nprobes {:?}\nfaults {:?}\ncounters {:?}\nhash {:x} sim {} ns real {:?} err {:?}", o.violation, o.sample, o.probes, o.faults, o.counters, o.hash, o.sim_ns, t.elapsed(), o.harness_error);
    0
}

/// Tally of violation classes over n seeds (development).
pub fn tally(p: &'static Prop, verif_seed: u64, n: u64) -> i32 {
    let me = unsafe { libc::getpid() };
    (p.preload)();
    let mut kids = vec![];
    for w in 0..8u64 {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let mut out = String::new();
            for r in (w..n).step_by(8) {
                let t = Instant::now();
                let o = run_one(p, &Input::Seed(seed_for(verif_seed, p.id, r)), false, LIMIT);
                let c = o.violation.map(|v| v.class).or(o.harness_error.map(|e| format!("HARNESS {e}"))).unwrap_or(if o.nontrivial { "ok".into() } else { "ok-trivial".into() });
                out += &format!("{c}\t{r}\t{}\n", t.elapsed().as_millis());
            }
            std::fs::write(format!("/tmp/tally.{}.{w}", me), out).unwrap();
            unsafe { libc::_exit(0) };
        }
        kids.push(pid);
    }
    let mut m: BTreeMap<String, Vec<(u64, u64)>> = BTreeMap::new();
    for (w, k) in kids.iter().enumerate() {
        let mut st = 0;
        unsafe { libc::waitpid(*k, &mut st, 0) };
        for l in std::fs::read_to_string(format!("/tmp/tally.{}.{w}", me)).unwrap().lines() {
            let f: Vec<&str> = l.rsplitn(3, '\t').collect();
            m.entry(f[2].into()).or_default().push((f[1].parse().unwrap(), f[0].parse().unwrap()));
        }
    }
    for (c, v) in m {
        let tot: u64 = v.iter().map(|x| x.1).sum();
        let max = v.iter().max_by_key(|x| x.1).unwrap();
        println!("{:6} {} | runs {:?} | mean {} ms max {:?}", v.len(), c, v.iter().take(6).map(|x| x.0).collect::<Vec<_>>(), tot / v.len() as u64, max);
    }
    0
}

/// Determinism self-test: every seed twice; reports differing seeds.
pub fn selftest(p: &'static Prop, verif_seed: u64, n: u64) -> i32 {
    (p.preload)();
    let mut h = 0u64;
    for r in 0..n {
        let inp = Input::Seed(seed_for(verif_seed, p.id, r));
        let a = run_one(p, &inp, false, LIMIT);
        println!("{} {:x} {:?} {:?}", r, a.hash, a.violation.map(|v| v.class), a.harness_error);
        h = h.wrapping_mul(31).wrapping_add(a.hash);
    }
    println!("total {h:x}");
    0
}
