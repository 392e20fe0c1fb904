//! C01-C06: the Badger optimiser under the simulator.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write;
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex, OnceLock};

use hugr::ops::OpType;
use hugr::{HugrView, Node};
use tket::circuit::cost::{is_cx, is_quantum, CircuitCost};
use tket::optimiser::badger::{load_eccs_json_file, BadgerOptions};
use tket::optimiser::{BadgerLogger, BadgerOptimiser};
use tket::rewrite::strategy::{
    ExhaustiveThresholdStrategy, GammaStrategyCost, GreedyRewriteStrategy, LexicographicCostFunction,
    RewriteResult, RewriteStrategy,
};
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::{Circuit, TketOp};

use crate::circ::{self, GenOpts};

use crate::rules::Rules;
use crate::runner::{self, fail, fault, probe, Ctx, Prop, Verdict};
use crate::simrt::{self, quiet, NS};

static ECCS: OnceLock<Vec<ECCRewriter>> = OnceLock::new();
pub fn eccs() -> &'static [ECCRewriter] {
    ECCS.get().map(|v| &v[..]).unwrap_or(&[])
}

pub fn preload() {
    ECCS.get_or_init(|| {
        ["small_eccs.json", "cx_cx_eccs.json", "h_h_eccs.json"]
            .iter()
            .map(|f| ECCRewriter::from_eccs(load_eccs_json_file(format!("/repo/test_files/eccs/{f}")).unwrap()))
            .collect()
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Seq,
    Shared,
    Split,
}

#[derive(Clone, Debug)]
enum Kind {
    Expand,
    Produce,
}

#[derive(Clone, Debug)]
struct Ev {
    seq: usize,
    thr: usize,
    t: u64,
    kind: Kind,
    key: usize,
    /// Cost as text-free ordinal: index into `costs` is not needed, the generic cost is kept aside.
    cost: usize,
}

struct ObsIn<C> {
    evs: Vec<Ev>,
    keys: HashMap<String, usize>,
    key_list: Vec<Circuit>,
    costs: Vec<C>,
    calls: u32,
    deadline: Option<u64>,
    count_limit: Option<usize>,
    distinct: HashSet<usize>,
    fair_from: Option<(usize, &'static str)>,
    panicked: bool,
    rows_seen: Vec<(usize, usize)>,
    done: bool,
}

struct Obs<C> {
    m: Mutex<ObsIn<C>>,
    stall_scale: u64,
    /// Time taken by each expansion, so that timeouts come within reach.
    base_stall: u64,
    panic_at: Option<(u32, u32)>,
    csv: Csv,
}

impl<C: CircuitCost> Obs<C> {
    fn note(&self, kind: Kind, key: String, circ: Option<&Circuit>, cost: C) {
        let t = simrt::now();
        let thr = simrt::current();
        quiet(|| {
            let mut g = self.m.lock().unwrap();
            let g = &mut *g;
            let n = g.keys.len();
            let k = *g.keys.entry(key).or_insert(n);
            if k == n {
                if let Some(c) = circ {
                    g.key_list.push(c.clone());
                }
            }
            let seq = g.evs.len();
            let what = if matches!(kind, Kind::Expand) { "expand" } else { "produce" };
            let ci = g.costs.len();
            simrt::event(what, || format!("c{k} cost {cost:?}"));
            g.costs.push(cost);
            if matches!(kind, Kind::Expand) {
                let rows = self.csv.rows();
                g.rows_seen.push((seq, rows));
            }
            g.evs.push(Ev { seq, thr, t, kind, key: k, cost: ci });
            g.distinct.insert(k);
            if g.fair_from.is_none() {
                let why = if g.deadline.is_some_and(|d| t >= d) {
                    Some("deadline")
                } else if g.count_limit.is_some_and(|m| g.distinct.len() > m + 1) {
                    Some("count")
                } else {
                    None
                };
                if let Some(w) = why {
                    g.fair_from = Some((seq, w));
                    simrt::event("fair", || w.into());
                    simrt::set_fair(true);
                }
            }
        });
    }
}

#[derive(Clone)]
struct SimRewriter<C> {
    rules: Rules,
    obs: Arc<Obs<C>>,
    cost: Arc<dyn Fn(&Circuit) -> C + Send + Sync>,
}

impl<C: CircuitCost + Send + Sync + 'static> Rewriter for SimRewriter<C> {
    fn get_rewrites(&self, c: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        let (key, owned, cost) = quiet(|| {
            let o = c.to_owned();
            let k = circ::canon_circ(&o);
            let co = (self.cost)(&o);
            (k, o, co)
        });
        self.obs.note(Kind::Expand, key, Some(&owned), cost);
        quiet(move || drop(owned));
        if self.obs.stall_scale > 0 || self.obs.base_stall > 0 {
            let d = match simrt::fault_draw(6) {
                0 | 1 => self.obs.base_stall,
                2 => self.obs.stall_scale,
                3 => self.obs.stall_scale / 7,
                4 => self.obs.stall_scale * 3,
                _ => 1,
            };
            if d > 0 {
                if d > self.obs.base_stall {
                    fault("slow_worker");
                }
                simrt::stall(d);
            }
        }
        self.maybe_panic(0);
        let r = self.rules.get_rewrites(c);
        self.maybe_panic(1);
        r
    }
}

impl<C> SimRewriter<C> {
    fn maybe_panic(&self, site: u32) {
        if let Some((s, at)) = self.obs.panic_at {
            if s == site {
                let go = quiet(|| {
                    let mut g = self.obs.m.lock().unwrap();
                    g.calls += 1;
                    if g.calls == at + 1 {
                        g.panicked = true;
                    }
                    g.calls == at + 1
                });
                if go {
                    fault("worker_panic");
                    simrt::event("panic", || format!("site {site}"));
                    panic!("injected worker panic");
                }
            }
        }
    }
}

#[derive(Clone)]
struct SimStrategy<S: RewriteStrategy> {
    inner: S,
    obs: Arc<Obs<S::Cost>>,
    main: usize,
}

impl<S: RewriteStrategy> RewriteStrategy for SimStrategy<S> {
    type Cost = S::Cost;
    fn apply_rewrites(
        &self,
        rewrites: impl IntoIterator<Item = CircuitRewrite>,
        circ: &Circuit,
    ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
        self.inner.apply_rewrites(rewrites, circ).map(move |r| {
            let (k, c) = quiet(|| (circ::canon_circ(&r.circ), self.inner.circuit_cost(&r.circ)));
            if k == circ::CYCLIC {
                probe("cyclic_candidate");
                return r;
            }
            self.obs.note(Kind::Produce, k, Some(&r.circ), c);
            self.maybe_panic(2);
            simrt::yield_point();
            r
        })
    }
    fn op_cost(&self, op: &OpType) -> Self::Cost {
        if simrt::current() != self.main {
            self.maybe_panic(3);
        }
        self.inner.op_cost(op)
    }
    fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Self::Cost {
        self.inner.circuit_cost(circ)
    }
}
impl<S: RewriteStrategy> SimStrategy<S> {
    fn maybe_panic(&self, site: u32) {
        if let Some((s, at)) = self.obs.panic_at {
            if s == site {
                let go = quiet(|| {
                    let mut g = self.obs.m.lock().unwrap();
                    g.calls += 1;
                    if g.calls == at + 1 {
                        g.panicked = true;
                    }
                    g.calls == at + 1
                });
                if go {
                    fault("worker_panic");
                    simrt::event("panic", || format!("site {site}"));
                    panic!("injected worker panic");
                }
            }
        }
    }
}

/// The CSV progress log's storage.
#[derive(Clone, Default)]
struct Csv {
    buf: Arc<Mutex<(Vec<u8>, Vec<(u64, usize)>)>>,
    faulty: bool,
}
impl Csv {
    fn rows(&self) -> usize {
        quiet(|| self.buf.lock().unwrap().0.iter().filter(|&&b| b == b'\n').count().saturating_sub(1))
    }
}
impl Write for Csv {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len();
        if self.faulty && n > 0 {
            match simrt::fault_draw(5) {
                1 => {
                    fault("interrupted_write");
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                2 => {
                    fault("short_write");
                    n = 1 + simrt::fault_draw(n as u32) as usize;
                    n = n.min(b.len());
                }
                _ => {}
            }
        }
        quiet(|| {
            let mut g = self.buf.lock().unwrap();
            g.0.extend_from_slice(&b[..n]);
            let l = g.0.len();
            g.1.push((simrt::now(), l));
        });
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Spec {
    mode: Mode,
    threads: usize,
    queue: usize,
    timeout: Option<u64>,
    progress: Option<u64>,
    count: Option<usize>,
    rules: Rules,
    input: Circuit,
    panic_at: Option<(u32, u32)>,
    stall_scale: u64,
    csv_faulty: bool,
    strat: u32,
    /// Threads are descheduled at one in `freeze` scheduling points.
    freeze: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Equivalence,
    Best,
    Stops,
    Search,
    Crash,
    Log,
}

fn draw_spec(ctx: &mut Ctx, f: Focus) -> Spec {
    let t = &mut ctx.w;
    let mode = match f {
        Focus::Best => [Mode::Shared, Mode::Shared, Mode::Seq][t.draw(3) as usize],
        Focus::Search => [Mode::Shared, Mode::Seq][t.draw(2) as usize],
        _ => [Mode::Shared, Mode::Split, Mode::Seq, Mode::Shared][t.draw(4) as usize],
    };
    let threads = if mode == Mode::Seq { 1 } else { [2, 3, 4, 2, 6][t.draw(5) as usize] };
    let strat = t.draw(6);
    let gamma = strat == 4;
    let rules = Rules::draw(t, eccs(), gamma);
    let set: &'static [TketOp] = match t.draw(3) {
        0 => &[TketOp::CX, TketOp::H],
        1 => circ::NAM,
        _ => &[TketOp::CX, TketOp::H, TketOp::X, TketOp::Rz, TketOp::T, TketOp::S, TketOp::CZ],
    };
    let big = if mode == Mode::Split { 24 } else if f == Focus::Search { 9 } else { 14 };
    let opts = GenOpts {
        qubits: (1, 4),
        gates: (3, big),
        set,
        params: 2,
        arith: false,
        alloc: f == Focus::Equivalence && t.one_in(4),
        dfg_root: true,
        patterns: true,
    };
    let (input, desc) = circ::gen(t, &opts);
    let queue = [20, 1, 2, 3, 5, 100, 1000][t.draw(7) as usize];
    let queue = match f {
        Focus::Search => match t.draw(4) {
            0 | 1 => 1000,
            2 => 2 + t.draw(8) as usize,
            _ => queue,
        },
        _ => queue,
    };
    let stall_scale = match t.draw(5) {
        0 => 0,
        1 => NS / 1000,
        2 => NS / 20,
        3 => NS / 5,
        _ => NS,
    };
    let mut timeout = None;
    let mut progress = None;
    let mut count = None;
    let unlimited_ok = !gamma && mode != Mode::Split;
    let lim = if f == Focus::Search {
        t.weighted(&[6, 0, 0, 2, 1, 0])
    } else if f == Focus::Crash {
        t.weighted(&[2, 3, 3, 2, 0, 1])
    } else {
        t.weighted(&[1, 4, 3, 4, 2, 1])
    };
    if lim == 1 || lim == 4 {
        timeout = Some([1, 0, 2, 3][t.draw(4) as usize]);
    }
    if lim == 2 || lim == 5 {
        progress = Some([1, 0, 2, 3][t.draw(4) as usize]);
    }
    if lim == 3 || lim == 4 || lim == 5 {
        count = Some([5, 0, 1, 2, 10, 40][t.draw(6) as usize]);
    }
    // Keep searches in large spaces finite.
    if lim == 0 && !unlimited_ok {
        count = Some(20);
    }
    let panic_at = if f == Focus::Crash { Some((t.draw(4), [0, 1, 2, 5, 10, 3][t.draw(6) as usize] + t.draw(3))) } else { None };
    ctx.sample = Some(format!(
        "{mode:?} threads {threads} queue {queue} timeout {timeout:?} progress {progress:?} count {count:?} strategy {strat} rules {} stall {}ms panic {panic_at:?}; {}",
        rules.describe(),
        stall_scale / 1_000_000,
        desc.join("; ")
    ));
    let csv_faulty = t.chance(1, 2);
    let freeze = if mode == Mode::Shared && f != Focus::Log { [0, 20, 60, 300][t.draw(4) as usize] } else { 0 };
    Spec { mode, threads, queue, timeout, progress, count, rules, input, panic_at, stall_scale, csv_faulty, strat, freeze }
}

struct History<C> {
    evs: Vec<Ev>,
    costs: Vec<C>,
    circs: Vec<Circuit>,
    input_key: usize,
    start: u64,
    end: u64,
    result: Result<Circuit, String>,
    fair_from: Option<(usize, &'static str)>,
    base: u64,
    panicked: bool,
    before: Vec<usize>,
    csv: Csv,
    rows_seen: Vec<(usize, usize)>,
    blocks: Vec<(usize, u64)>,
}

fn scenario(ctx: &mut Ctx, f: Focus) -> Verdict {
    let spec = draw_spec(ctx, f);
    match spec.strat {
        0 => go(ctx, f, spec, LexicographicCostFunction::cx_count().into_greedy_strategy()),
        1 => go(ctx, f, spec, LexicographicCostFunction::cx_count().into_threshold_strategy()),
        2 => go(ctx, f, spec, LexicographicCostFunction::rz_count().into_greedy_strategy()),
        3 => go(ctx, f, spec, LexicographicCostFunction::rz_count().into_threshold_strategy()),
        4 => go(ctx, f, spec, gamma_strategy()),
        _ => go(ctx, f, spec, GreedyRewriteStrategy),
    }
}

fn total(op: &OpType) -> usize {
    is_quantum(op) as usize + is_cx(op) as usize
}
fn gamma_strategy() -> ExhaustiveThresholdStrategy<GammaStrategyCost<fn(&OpType) -> usize>> {
    GammaStrategyCost::new(3.5, total as fn(&OpType) -> usize)
}

fn go<S>(ctx: &mut Ctx, f: Focus, spec: Spec, strat: S) -> Verdict
where
    S: RewriteStrategy + Send + Sync + Clone + 'static,
    S::Cost: serde::Serialize + Send + Sync + 'static,
{
    // The whole reachable space, if small (reference search).
    let closure = if (f == Focus::Search || spec.count.is_none()) && spec.timeout.is_none() && spec.progress.is_none() && spec.mode != Mode::Split && spec.strat != 4 {
        quiet(|| reach(&spec, &strat, if spec.mode == Mode::Shared { 120 } else { 300 }))
    } else {
        None
    };
    let mut spec = spec;
    if spec.timeout.is_none() && spec.progress.is_none() && spec.count.is_none() && closure.is_none() {
        spec.count = Some(25);
    }
    let spec = spec;
    let h = run(f, &spec, strat.clone());
    ctx.nontrivial = h.evs.iter().filter(|e| matches!(e.kind, Kind::Expand)).count() >= 2;
    if spec.mode == Mode::Shared {
        probe("shared_queue");
    } else if spec.mode == Mode::Split {
        probe("split");
    } else {
        probe("sequential");
    }
    if h.fair_from.is_some() {
        probe("limit_hit_while_searching");
    }
    let r = quiet(|| judge(f, &spec, &strat, &h, closure.as_ref()));
    if r.is_ok() && f != Focus::Crash {
        reaped(&h, f)?;
    } else if r.is_ok() {
        reaped(&h, f)?;
    }
    r
}

/// All circuits reachable by the strategy, by key; None if there are more than `cap`.
fn reach<S: RewriteStrategy>(spec: &Spec, s: &S, cap: usize) -> Option<BTreeMap<String, (S::Cost, Circuit)>> {
    let mut seen: BTreeMap<String, (S::Cost, Circuit)> = BTreeMap::new();
    let k = circ::canon_circ(&spec.input);
    seen.insert(k, (s.circuit_cost(&spec.input), spec.input.clone()));
    let mut todo = vec![spec.input.clone()];
    let mut work = 0;
    while let Some(c) = todo.pop() {
        for r in s.apply_rewrites(spec.rules.get_rewrites(&c), &c) {
            let k = circ::canon_circ(&r.circ);
            if k == circ::CYCLIC {
                continue;
            }
            work += 1;
            if work > cap * 8 {
                return None;
            }
            if !seen.contains_key(&k) {
                seen.insert(k, (s.circuit_cost(&r.circ), r.circ.clone()));
                if seen.len() > cap {
                    return None;
                }
                todo.push(r.circ);
            }
        }
    }
    Some(seen)
}

fn run<S>(f: Focus, spec: &Spec, strat: S) -> History<S::Cost>
where
    S: RewriteStrategy + Send + Sync + Clone + 'static,
    S::Cost: serde::Serialize + Send + Sync + 'static,
{
    // The pool exists before the call, so that its threads are not the call's.
    if spec.mode == Mode::Split {
        rayon::join(|| 1, || 2);
        let _ = simrt::drain(200);
        simrt::set_fair(false);
    }
    let before = simrt::live_threads();
    let csv = Csv { faulty: spec.csv_faulty, ..Default::default() };
    let start = simrt::now();
    let deadline = match (spec.timeout, spec.progress) {
        // When improvements reset the progress timeout, the check is made afterwards.
        (Some(t), _) => Some(start + t * NS),
        _ => None,
    };
    let (obs, opt) = quiet(|| {
        let obs = Arc::new(Obs {
            m: Mutex::new(ObsIn {
                evs: vec![],
                keys: HashMap::new(),
                key_list: vec![],
                costs: vec![],
                calls: 0,
                deadline,
                count_limit: if spec.mode == Mode::Shared { spec.count } else { None },
                distinct: HashSet::new(),
                fair_from: None,
                panicked: false,
                rows_seen: vec![],
                done: false,
            }),
            stall_scale: spec.stall_scale,
            base_stall: if spec.timeout.is_some() || spec.progress.is_some() { NS / 30 } else { 0 },
            panic_at: spec.panic_at,
            csv: csv.clone(),
        });
        let k = circ::canon_circ(&spec.input);
        {
            let mut g = obs.m.lock().unwrap();
            g.keys.insert(k, 0);
            g.key_list.push(spec.input.clone());
            g.distinct.insert(0);
        }
        let s2 = strat.clone();
        let rw = SimRewriter { rules: spec.rules.clone(), obs: obs.clone(), cost: Arc::new(move |c: &Circuit| s2.circuit_cost(c)) };
        let st = SimStrategy { inner: strat, obs: obs.clone(), main: simrt::current() };
        (obs.clone(), BadgerOptimiser::new(rw, st))
    });
    let options = BadgerOptions {
        timeout: spec.timeout,
        progress_timeout: spec.progress,
        max_circuit_count: spec.count,
        n_threads: NonZeroUsize::new(spec.threads).unwrap(),
        split_circuit: spec.mode == Mode::Split,
        queue_size: spec.queue,
    };
    let logger = BadgerLogger::new(csv.clone());
    // In the progress-limit checks the main thread's clock counts.
    let spare = if spec.progress.is_some() || f == Focus::Stops { simrt::current() + 1 } else { 0 };
    simrt::set_freeze(spec.freeze, 2 * NS, spare);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| opt.optimise_with_log(&spec.input, logger, options)));
    let end = simrt::now();
    let base = simrt::read_since_spawn().unwrap_or(0);
    simrt::set_freeze(0, 0, 0);
    simrt::event("returned", || format!("{}", r.is_ok()));
    quiet(|| {
        let mut g = obs.m.lock().unwrap();
        g.done = true;
        History {
            evs: g.evs.clone(),
            costs: g.costs.clone(),
            circs: g.key_list.clone(),
            input_key: 0,
            start,
            end,
            result: r.map_err(|_| runner::all_panics().join(" | ")),
            fair_from: g.fair_from,
            base,
            panicked: g.panicked,
            before,
            csv,
            rows_seen: g.rows_seen.clone(),
            blocks: simrt::blocks(),
        }
    })
}

fn reaped<C>(h: &History<C>, f: Focus) -> Verdict {
    if f != Focus::Stops && f != Focus::Crash {
        return Ok(());
    }
    let left = simrt::drain(400_000);
    let left: Vec<usize> = left.into_iter().filter(|x| !h.before.contains(x)).collect();
    ensure!(left.is_empty(), "thread-leak", "threads {left:?} started by the call never end");
    Ok(())
}

fn judge<S: RewriteStrategy>(f: Focus, spec: &Spec, s: &S, h: &History<S::Cost>, closure: Option<&BTreeMap<String, (S::Cost, Circuit)>>) -> Verdict {
    let cost = |e: &Ev| &h.costs[e.cost];
    let result = match &h.result {
        Ok(c) => c,
        Err(p) => {
            if h.panicked {
                probe("failure_propagated");
                return Ok(());
            }
            return fail("optimiser-panic", format!("optimiser panicked: {p}"));
        }
    };
    if h.panicked {
        probe("returned_despite_worker_panic");
    }
    let in_cost = s.circuit_cost(&spec.input);
    let out_cost = s.circuit_cost(result);
    let expands: Vec<&Ev> = h.evs.iter().filter(|e| matches!(e.kind, Kind::Expand)).collect();

    // C01
    if matches!(f, Focus::Equivalence | Focus::Crash) {
        if let Err(e) = result.hugr().validate() {
            return fail("invalid-result", format!("returned circuit does not validate: {e}"));
        }
        if let Err(e) = circ::equivalent(&spec.input, result) {
            if e.starts_with("HARNESS") {
                panic!("{e}");
            }
            return fail("not-equivalent", e);
        }
    }
    // C02
    if matches!(f, Focus::Best | Focus::Crash) {
        ensure!(out_cost <= in_cost, "worse-than-input", "returned cost {out_cost:?}, input cost {in_cost:?}");
        if spec.mode != Mode::Split {
            let key = circ::canon_circ(result);
            let known = h.circs.iter().any(|c| circ::canon_circ(c) == key);
            ensure!(known, "unknown-result", "the returned circuit was never produced by the search");
        }
        if spec.mode == Mode::Seq {
            if let Some(e) = expands.iter().find(|e| *cost(e) < out_cost) {
                return fail("better-circuit-lost", format!("circuit c{} of cost {:?} was processed but cost {out_cost:?} returned", e.key, cost(e)));
            }
        }
        if spec.mode == Mode::Shared {
            // Batches that certainly reached the queue before the stop was decided.
            let stop_t = [spec.timeout, spec.progress].iter().flatten().map(|t| h.start + t * NS).min().unwrap_or(u64::MAX);
            let mut distinct: BTreeSet<usize> = [h.input_key].into();
            let mut stop_seq = usize::MAX;
            if let Some(m) = spec.count {
                for e in &h.evs {
                    distinct.insert(e.key);
                    if distinct.len() > m {
                        stop_seq = e.seq;
                        break;
                    }
                }
                // the initial circuit alone may exceed the limit
                if m == 0 {
                    stop_seq = 0;
                }
            }
            let stop_seq_t = h.evs.get(stop_seq).map_or(u64::MAX, |e| e.t);
            let mut considered = 0;
            for b in batches(h) {
                if b.sent_t < stop_t && b.sent_t < stop_seq_t {
                    for p in &b.items {
                        considered += 1;
                        ensure!(*cost(p) >= out_cost, "better-circuit-lost",
                            "circuit c{} of cost {:?} was handed over by {} ns, the search stopped at {} ns or later, yet cost {:?} was returned",
                            p.key, cost(p), b.sent_t, stop_t.min(stop_seq_t), out_cost);
                    }
                }
            }
            if considered > 0 {
                probe("improvements_considered");
            }
        }
    }
    // C03
    if f == Focus::Stops || f == Focus::Crash {
        if let Some((from, why)) = h.fair_from {
            let mut per: BTreeMap<usize, usize> = BTreeMap::new();
            // A limit counts from when its thread looked at the clock.
            let mut first: BTreeMap<usize, u64> = BTreeMap::new();
            for e in &expands {
                let t0 = *first.entry(e.thr).or_insert(e.t);
                let t0 = if spec.mode == Mode::Shared { h.base.max(h.start) } else { t0 };
                if e.seq <= from || (why == "deadline" && spec.timeout.is_some_and(|d| e.t <= t0 + d * NS)) {
                    continue;
                }
                *per.entry(e.thr).or_default() += 1;
            }
            let bound = match spec.mode {
                Mode::Seq | Mode::Split => 1,
                Mode::Shared => 25,
            };
            if let Some((t, n)) = per.iter().find(|(_, n)| **n > bound) {
                return fail("limit-overrun", format!("thread t{t} took up {n} more circuits after the {why} limit was reached under fair scheduling"));
            }
        }
    }
    if f == Focus::Stops {
        let n = expands.len();
        if spec.mode == Mode::Seq {
            if let Some(m) = spec.count {
                ensure!(n <= m.max(1), "limit-overrun", "{n} circuits processed with a limit of {m}");
            }
            // progress timeout, replayed from the history
            if let Some(p) = spec.progress {
                let mut best: Option<&S::Cost> = None;
                let mut last = h.start;
                let mut late = 0;
                for e in &expands {
                    if e.t > last + p * NS {
                        late += 1;
                    }
                    if best.is_none_or(|b| cost(e) < b) {
                        best = Some(cost(e));
                        last = e.t;
                    }
                }
                ensure!(late <= 2, "limit-overrun", "{late} circuits taken up after the progress timeout");
            }
        }
        // Not before one of the reasons holds.
        let timed = spec.timeout.is_some_and(|t| h.end >= h.start + t * NS)
            || spec.progress.is_some_and(|t| h.end >= h.start + t * NS);
        if !timed && spec.mode != Mode::Split {
            let seen: BTreeSet<usize> = h.evs.iter().map(|e| e.key).chain([h.input_key]).collect();
            let counted = match (spec.mode, spec.count) {
                (Mode::Seq, Some(m)) => n >= m.max(1),
                (_, Some(m)) => seen.len() > m,
                _ => false,
            };
            if !counted && spec.queue > seen.len() {
                probe("ended_by_exhaustion");
                let done: BTreeSet<usize> = expands.iter().map(|e| e.key).collect();
                ensure!(seen == done, "stopped-early", "{} of {} circuits were never processed although no limit was reached",
                    seen.difference(&done).count(), seen.len());
            }
        }
    }
    // C04
    if f == Focus::Search {
        search_rules(spec, h, closure, &out_cost, s)?;
    }
    // C06
    if f == Focus::Log {
        log_rules(spec, h, &in_cost, &out_cost)?;
    }
    Ok(())
}

/// Circuits a worker produced from one circuit and handed over together.
struct Batch<'a> {
    /// When the last of them was produced.
    last_t: u64,
    /// A time by which all of them have certainly been handed over: the worker
    /// has gone to wait for more work.
    sent_t: u64,
    items: Vec<&'a Ev>,
}

fn batches<C>(h: &History<C>) -> Vec<Batch<'_>> {
    let mut open: HashMap<usize, Vec<&Ev>> = HashMap::new();
    let mut out = vec![];
    let mut done: Vec<(usize, u64, Vec<&Ev>)> = vec![];
    for e in &h.evs {
        match e.kind {
            Kind::Produce => open.entry(e.thr).or_default().push(e),
            Kind::Expand => {
                if let Some(v) = open.remove(&e.thr) {
                    done.push((e.thr, e.t, v));
                }
            }
        }
    }
    // No later circuit was taken up; a worker that panicked hands nothing over.
    let open = if h.panicked { HashMap::new() } else { open };
    done.extend(open.into_iter().map(|(t, v)| (t, u64::MAX, v)));
    for (thr, next, items) in done {
        let last_t = items.last().unwrap().t;
        let wait = h.blocks.iter().filter(|b| b.0 == thr && b.1 > last_t).map(|b| b.1).min().unwrap_or(u64::MAX);
        let sent_t = wait.min(next);
        if sent_t < u64::MAX {
            out.push(Batch { last_t, sent_t, items });
        }
    }
    out
}

fn search_rules<S: RewriteStrategy>(spec: &Spec, h: &History<S::Cost>, closure: Option<&BTreeMap<String, (S::Cost, Circuit)>>, out_cost: &S::Cost, s: &S) -> Verdict {
    let cost = |e: &Ev| &h.costs[e.cost];
    let mut expanded: BTreeSet<usize> = BTreeSet::new();
    let mut produced: BTreeSet<usize> = [h.input_key].into();
    for e in &h.evs {
        match e.kind {
            Kind::Produce => {
                produced.insert(e.key);
            }
            Kind::Expand => {
                ensure!(produced.contains(&e.key), "expanded-unknown", "circuit c{} was processed before it was produced", e.key);
                ensure!(expanded.insert(e.key), "expanded-twice", "circuit c{} was processed twice", e.key);
            }
        }
    }
    let all: BTreeSet<usize> = produced.clone();
    if spec.mode == Mode::Seq {
        // Exact reference queue; ties are left open.
        let mut q: BTreeMap<S::Cost, (usize, BTreeSet<usize>)> = BTreeMap::new();
        let mut len = 0usize;
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut push = |q: &mut BTreeMap<S::Cost, (usize, BTreeSet<usize>)>, len: &mut usize, k: usize, c: &S::Cost| {
            if *len >= spec.queue && !(q.keys().next_back().is_some_and(|m| c < m)) {
                return;
            }
            if !seen.insert(k) {
                return;
            }
            if *len >= spec.queue {
                let m = q.keys().next_back().unwrap().clone();
                let e = q.get_mut(&m).unwrap();
                e.0 -= 1;
                *len -= 1;
                probe("queue_overflow");
                if e.0 == 0 {
                    q.remove(&m);
                }
            }
            let e = q.entry(c.clone()).or_default();
            e.0 += 1;
            e.1.insert(k);
            *len += 1;
        };
        push(&mut q, &mut len, h.input_key, &s.circuit_cost(&spec.input));
        for e in &h.evs {
            match e.kind {
                Kind::Produce => push(&mut q, &mut len, e.key, cost(e)),
                Kind::Expand => {
                    let Some((m, (n, keys))) = q.iter_mut().next() else {
                        return fail("expanded-unqueued", format!("circuit c{} processed while the queue must be empty", e.key));
                    };
                    ensure!(cost(e) == m, "not-best-first", "circuit c{} of cost {:?} processed while a circuit of cost {:?} was queued", e.key, cost(e), m);
                    ensure!(keys.remove(&e.key), "expanded-unqueued", "circuit c{} was processed but cannot be in the queue", e.key);
                    *n -= 1;
                    len -= 1;
                    if *n == 0 {
                        let m = m.clone();
                        q.remove(&m);
                    }
                }
            }
        }
        if spec.count.is_none() {
            ensure!(len == 0, "left-in-queue", "{len} circuits left unprocessed in the queue although no limit was set");
        }
    } else if all.len() <= spec.queue {
        let sent = batches(h);
        for e in h.evs.iter().filter(|e| matches!(e.kind, Kind::Expand) && e.key != h.input_key) {
            // First batch that could have queued e.
            let Some(bk) = sent.iter().filter(|b| b.items.iter().any(|p| p.key == e.key)).map(|b| b.last_t).min() else { continue };
            for b in sent.iter().filter(|b| b.sent_t < bk) {
                for p in &b.items {
                    if cost(p) < cost(e) {
                        let ok = h.evs.iter().any(|x| {
                            matches!(x.kind, Kind::Expand)
                                && x.key == p.key
                                && (x.seq < e.seq
                                    || (x.thr != e.thr
                                        && !h.evs.iter().any(|y| matches!(y.kind, Kind::Expand) && y.thr == x.thr && y.seq > e.seq && y.seq < x.seq)))
                        });
                        ensure!(ok, "not-best-first", "circuit c{} of cost {:?} processed while the queued circuit c{} of cost {:?} was waiting",
                            e.key, cost(e), p.key, cost(p));
                    }
                }
            }
        }
    }
    // The queue holds at most what was produced and not yet taken up.
    let mut seen: BTreeSet<usize> = [h.input_key].into();
    let (mut taken, mut peak) = (0, 0);
    for e in &h.evs {
        match e.kind {
            Kind::Produce => {
                seen.insert(e.key);
            }
            Kind::Expand => taken += 1,
        }
        peak = peak.max(seen.len() - taken);
    }
    if spec.mode == Mode::Shared && peak == spec.queue {
        probe("queue_exactly_full");
    }
    if spec.count.is_none() && peak <= spec.queue {
        if let Some(cl) = closure {
            probe("complete_search");
            ensure!(expanded.len() == cl.len(), "incomplete-search", "{} circuits are reachable, {} were processed", cl.len(), expanded.len());
            let best = cl.values().map(|x| &x.0).min().unwrap();
            ensure!(out_cost == best, "not-global-minimum", "cost {best:?} is reachable, {out_cost:?} was returned");
        }
    }
    Ok(())
}

fn log_rules<C: CircuitCost>(spec: &Spec, h: &History<C>, in_cost: &C, out_cost: &C) -> Verdict {
    let g = h.csv.buf.lock().unwrap();
    let text = match std::str::from_utf8(&g.0) {
        Ok(t) => t.to_string(),
        Err(e) => return fail("log-malformed", format!("{e}")),
    };
    ensure!(text.is_empty() || text.ends_with('\n'), "log-malformed", "log ends within a row: {text:?}");
    let mut rd = csv::Reader::from_reader(text.as_bytes());
    let head = rd.headers().map(|h| h.iter().map(String::from).collect::<Vec<_>>()).unwrap_or_default();
    let mut rows: Vec<(Vec<i64>, String)> = vec![];
    for r in rd.records() {
        match r {
            Ok(r) if r.len() == 2 => {
                let nums: Option<Vec<i64>> = r[0].trim_matches(|c| c == '[' || c == ']').split(',').map(|x| x.trim().parse().ok()).collect();
                let Some(nums) = nums else { return fail("log-malformed", format!("cost {:?}", &r[0])) };
                rows.push((nums, r[1].to_string()));
            }
            other => return fail("log-malformed", format!("{other:?}")),
        }
    }
    if !rows.is_empty() {
        probe("log_rows");
        ensure!(head == ["circ_cost", "time"], "log-malformed", "header {head:?}");
    }
    for w in rows.windows(2) {
        ensure!(w[1].0 < w[0].0, "log-not-decreasing", "cost {:?} logged after {:?}", w[1].0, w[0].0);
        ensure!(w[1].1 >= w[0].1, "log-time-order", "time {} after {}", w[1].1, w[0].1);
    }
    let show = |c: &C| -> Vec<i64> {
        format!("{c:?}").trim_matches(|c| c == '[' || c == ']').split(',').map(|x| x.trim().parse().unwrap()).collect()
    };
    if out_cost < in_cost {
        probe("log_improved");
        let last = rows.last().map(|r| r.0.clone());
        ensure!(last == Some(show(out_cost)), "log-last-row", "last row {last:?}, returned cost {out_cost:?}");
    } else if let Some(r) = rows.last() {
        ensure!(r.0 == show(in_cost), "log-last-row", "last row {:?}, returned cost {out_cost:?}", r.0);
    }
    if spec.mode == Mode::Seq {
        // Every improvement taken up so far is already readable.
        let mut best: Option<&C> = None;
        let mut n = 0;
        for e in h.evs.iter().filter(|e| matches!(e.kind, Kind::Expand)) {
            let c = &h.costs[e.cost];
            if best.is_none_or(|b| c < b) {
                best = Some(c);
                n += 1;
            }
            let rows = h.rows_seen.iter().find(|r| r.0 == e.seq).unwrap().1;
            ensure!(rows >= n, "log-row-late", "{n} improvements were reported but only {rows} rows are readable");
        }
    }
    Ok(())
}

const COMPONENTS: &str = "real: tket optimiser (badger, backtracking, pqueue, pqueue_worker, worker, log), rewriting, strategies, ECC pattern matcher, chunks, crossbeam channels, rayon pool, std threads/locks/parking, csv writer; simulated: OS scheduler, futex, clocks, timers, randomness, CSV storage";
const ASSUME: &[&str] = &[
    "x86-64 total store order: pre-emption happens at synchronisation operations, allocations, clock reads and rewriter calls, not between arbitrary instructions",
    "circuits of at most 5 qubits and 24 gates; unitaries compared on generic states to 1e-7",
];

pub fn props() -> Vec<Prop> {
    let base = |id, title, scenario: fn(&mut Ctx) -> Verdict| Prop {
        id,
        title,
        level: "exploration",
        rule: "one optimiser call with at least two circuits processed; distinct by event hash",
        components: COMPONENTS,
        assumptions: ASSUME,
        preload,
        scenario,
        quick_runs: 4000,
        quick_secs: 40,
        thorough_secs: 900,
        max_decisions: 3_000_000,
        plain_sched: false,
    };
    vec![
        base("C01", "optimised circuits are valid and equivalent", |c| scenario(c, Focus::Equivalence)),
        base("C02", "the result is the best circuit produced", |c| scenario(c, Focus::Best)),
        base("C03", "the optimiser always stops", |c| scenario(c, Focus::Stops)),
        base("C04", "search discipline", |c| scenario(c, Focus::Search)),
        base("C05", "worker crashes", |c| scenario(c, Focus::Crash)),
        base("C06", "progress log", |c| scenario(c, Focus::Log)),
    ]
}
