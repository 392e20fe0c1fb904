//! Checks of the device pipeline: lowering, code generation, execution.


use hugr::algorithms::ComposablePass;
use hugr::{Hugr, HugrView, Node};
use tket_qsystem::QSystemPass;

use crate::device::{rec_eq, Dev, DevCfg, End, Label, Rec};
use crate::interp::{Interp, Stop};
use crate::prog::{self, Opts, Program};
use crate::runner::*;
use crate::simrt::quiet;
use crate::tape::Tape;

/// What a run did.
pub struct Run {
    pub end: End,
    pub dev: Dev,
    pub amp: f64,
}

/// Steps of a source program; a lowered one gets many more.
pub const LIMIT: u64 = 15_000;

pub fn harness<T>(m: impl Into<String>) -> Result<T, Violation> {
    fail("harness", m)
}

/// Interprets `main`. Err: the program cannot be interpreted.
pub fn interpret(h: &Hugr, main: Node, cfg: DevCfg, order: u64, source: bool) -> Result<Run, String> {
    let mut dev = Dev::new(cfg);
    dev.cfg.limit = if source { LIMIT } else { LIMIT * 50 };
    let r = {
        let mut i = Interp::new(h, &mut dev, order, source);
        i.shuffle = order != 0;
        i.call(main, vec![])
    };
    let end = match r {
        Ok(_) => End::Normal,
        Err(Stop::End(e, c, m)) => End::Stop(e, c, m),
        Err(Stop::Monitor) => End::Aborted,
        Err(Stop::Limit) => return Err("LIMIT".into()),
        Err(Stop::Bad(m)) => return Err(m),
    };
    if end == End::Normal {
        dev.check_end();
    }
    let amp = dev.amplitude();
    Ok(Run { end, dev, amp })
}

fn show_hist(h: &[(u64, Rec)]) -> String {
    let v: Vec<String> = h.iter().map(|x| x.1.to_string()).collect();
    v.join(" ")
}

fn short<T: std::fmt::Display>(v: &[T]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    s.join("; ")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    /// Same operations on each qubit
    Ops,
    /// Same state and outcomes
    State,
    /// Same outcomes; unobserved qubits may be missing
    Folded,
}

/// `b` must behave as `a` (the reference).
pub fn compare(a: &Run, b: &Run, level: Level) -> Result<(), (String, String)> {
    compare_with(a, b, level, true)
}

fn compare_with(a: &Run, b: &Run, level: Level, barriers: bool) -> Result<(), (String, String)> {
    let (da, db) = (&a.dev, &b.dev);
    if let Some((c, m)) = db.viol.first() {
        return Err((c.to_string(), m.clone()));
    }
    if da.results != db.results {
        return Err(("results".into(), format!("reported [{}], expected [{}]", short(&db.results), short(&da.results))));
    }
    if a.end != b.end {
        return Err(("end".into(), format!("{}, expected {}", b.end, a.end)));
    }
    if da.rng != db.rng {
        return Err(("random".into(), format!("random device calls [{}], expected [{}]", db.rng.join("; "), da.rng.join("; "))));
    }
    if da.gpu != db.gpu {
        return Err(("gpu".into(), format!("GPU calls [{}], expected [{}]", db.gpu.join("; "), da.gpu.join("; "))));
    }
    if a.end != End::Normal {
        return Ok(());
    }
    let sets = |d: &Dev| {
        let mut v: Vec<Vec<Label>> = d.barriers.iter().map(|x| x.1.clone()).collect();
        v.sort();
        v
    };
    if barriers && level != Level::Folded && sets(da) != sets(db) {
        return Err(("barrier".into(), format!("barriers over {:?}, expected {:?}", sets(db), sets(da))));
    }
    let keys = |d: &Dev| d.hist.keys().copied().collect::<Vec<_>>();
    if level != Level::Folded && keys(da) != keys(db) {
        return Err(("qubits".into(), format!("qubits {:?}, expected {:?}", keys(db), keys(da))));
    }
    for (l, ha) in &da.hist {
        let Some(hb) = db.hist.get(l) else { continue };
        if level == Level::Ops {
            let ok = ha.len() == hb.len() && ha.iter().zip(hb).all(|(x, y)| rec_eq(&x.1, &y.1));
            if !ok {
                return Err((
                    "operations".into(),
                    format!("qubit {}.{}: {}; expected {}", l.0, l.1, show_hist(hb), show_hist(ha)),
                ));
            }
        }
    }
    if keys(da) != keys(db) {
        return Ok(());
    }
    let d = (a.amp - b.amp).abs();
    if d > 1e-6 * (a.amp + b.amp) + 1e-14 {
        return Err(("state".into(), format!("squared final amplitude {:e}, expected {:e}", b.amp, a.amp)));
    }
    Ok(())
}

pub fn devcfg(t: &mut Tape) -> DevCfg {
    DevCfg { seed: t.draw(1 << 30) as u64, shot: t.draw(4) as u64, model: true, ..DevCfg::default() }
}

pub fn opts(t: &mut Tape) -> Opts {
    let mut o = Opts::default();
    match t.draw(3) {
        0 => {}
        1 => o.value_arrays = true,
        _ => o.drops = true,
    }
    if t.one_in(3) {
        o.stmts = (2, 10);
    }
    // some kinds of statement dominate each program
    for _ in 0..t.draw(4) {
        let k = *t.pick(prog::KINDS);
        if k != "stop" {
            *o.weights.get_mut(k).unwrap() *= 6;
        }
    }
    o
}

/// A generated program or, now and then, a real Guppy program of the repository.
pub fn program(t: &mut crate::tape::Tape, o: &prog::Opts) -> Option<Program> {
    let force = std::env::var_os("SIM_GUPPY").is_some();
    if !force && (!t.one_in(40) || o.chain_alloc) {
        return Some(quiet(|| prog::generate(t, o)));
    }
    let files = crate::procs::guppy_files();
    let f = files.get(t.draw(files.len().max(1) as u32) as usize)?;
    let p = quiet(|| {
        let data = std::fs::read(f).ok()?;
        prog::guppy(&data, &crate::procs::registry(0))
    });
    probe(if p.is_some() { "real Guppy program" } else { "not a program to run" });
    p
}

fn describe(p: &Program) -> String {
    p.used.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(" ")
}

pub fn mono(p: &Program) -> Hugr {
    let mut h = p.hugr.clone();
    if p.poly {
        let e = h.entrypoint();
        use hugr::hugr::hugrmut::HugrMut;
        h.set_entrypoint(h.module_root());
        hugr::algorithms::MonomorphizePass.run(&mut h).unwrap();
        h.set_entrypoint(e);
    }
    h
}

/// Does a value array of copyable elements have three or more uses (other than
/// as many as it has elements)? hugr-passes 0.24.3 panics on those.
fn over_copied(h: &Hugr) -> bool {
    use hugr::ops::OpTrait;
    h.nodes().any(|n| {
        let Some(sig) = h.get_optype(n).dataflow_signature() else { return false };
        sig.output_ports().any(|p| {
            let Some(t) = sig.out_port_type(p) else { return false };
            t.to_string().contains("value_array(") && h.linked_inputs(n, p).count() > 2
        })
    })
}

fn c15(ctx: &mut Ctx) -> Result<(), Violation> {
    usable(c15_run(ctx))
}

fn c15_run(ctx: &mut Ctx) -> Result<(), Violation> {
    let t = &mut ctx.w;
    let mut o = opts(t);
    let cf = t.one_in(6);
    o.no_eq = cf && !t.one_in(8);
    let Some(p) = program(t, &o) else { return Ok(()) };
    if std::env::var_os("DUMP").is_some() {
        eprintln!("{}", listing(&p.hugr));
    }
    ctx.sample = Some(describe(&p));
    if let Err(e) = quiet(|| p.hugr.validate()) {
        return harness(format!("generated program is invalid: {e}"));
    }
    let cfg = devcfg(t);
    let order = 1 + t.draw(1 << 30) as u64;
    let src = mono(&p);
    let a = match quiet(|| interpret(&src, p.main, cfg.clone(), order, true)) {
        Ok(r) => r,
        Err(e) if e == "LIMIT" => {
            probe("limit");
            return Ok(());
        }
        Err(e) => return harness(format!("source program: {e}")),
    };
    if let Some((c, m)) = a.dev.viol.first() {
        return harness(format!("source program: {c}: {m}"));
    }
    for k in 1..3 {
        let b = match quiet(|| interpret(&src, p.main, cfg.clone(), order + k, true)) {
            Ok(r) => r,
            Err(e) => return harness(format!("source program, other order: {e}")),
        };
        if let Err((c, m)) = compare(&a, &b, Level::Ops) {
            return harness(format!("source program is ambiguous: {c}: {m}"));
        }
    }
    ctx.nontrivial = a.dev.seq > 3 || a.dev.results.len() > 1 || a.end != End::Normal;
    if a.dev.n_measured > 0 {
        probe("random measurement");
    }
    if a.dev.n_futures > 0 {
        probe("future");
    }
    if a.end != End::Normal {
        probe("stopped early");
    }
    let (fo, lz) = (!t.one_in(3), !t.one_in(4));
    let pass = QSystemPass::default().with_constant_fold(cf).with_force_order(fo).with_lazify(lz);
    ctx.sample = Some(format!("fold {cf} order {fo} lazy {lz}; {}", describe(&p)));
    let mut low = p.hugr.clone();
    crate::simrt::event("lower", || String::new());
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pass.run(&mut low))) {
        Ok(Ok(())) => {}
        Err(_) if (panic_site().contains("hugrmut.rs") || panic_site().contains("replace_types/handlers.rs")) && over_copied(&src) => {
            return fail("lowering-panic-value-array-copies", last_panic())
        }
        Ok(Err(e)) => return fail("lowering-error", format!("lowering a valid program failed: {e}")),
        Err(_) => return fail("lowering-panic", format!("lowering a valid program panicked: {}", last_panic())),
    }
    if std::env::var_os("DUMP").is_some() {
        eprintln!("LOWERED\n{}", listing(&low));
    }
    if let Err(e) = quiet(|| low.validate()) {
        let e = e.to_string();
        if cf && e.contains("unconnected port Port(Outgoing") && e.contains("]+[") {
            return fail("fold-unconnected-sum", e);
        }
        return fail("invalid", format!("the lowered program is invalid: {e}"));
    }
    for k in 0..2 {
        let b = match quiet(|| interpret(&low, p.main, cfg.clone(), if k == 0 { 0 } else { order ^ k }, false)) {
            Ok(r) => r,
            Err(e) => return fail("stuck", format!("the lowered program does not run: {e}")),
        };
        if let Err((c, m)) = compare(&a, &b, if cf { Level::Folded } else { Level::State }) {
            if cf && !o.no_eq && {
                let l = listing(&src);
                l.contains(" Eq [") || l.contains(" eq [")
            } {
                return fail("fold-boolean-equality", format!("{c}: {m}"));
            }
            return fail(c, m);
        }
    }
    Ok(())
}

/// `b` with barriers left out of the histories.
fn without_barriers(d: &mut Dev) {
    for h in d.hist.values_mut() {
        h.retain(|r| !matches!(r.1, Rec::Barrier));
    }
    d.barriers.clear();
}

/// Every barrier of `low` separates what `jit` did: what precedes it on any of
/// its qubits came before everything that follows it on any of its qubits.
fn barriers_kept(low: &Dev, jit: &Dev) -> Result<u64, (String, String)> {
    let mut n = 0;
    for (seq, set) in &low.barriers {
        let (mut last, mut first) = ((0, None), (u64::MAX, None));
        let none = vec![];
        for l in set {
            let before = low.hist[l].iter().filter(|r| r.0 < *seq && !matches!(r.1, Rec::Barrier)).count();
            let h = jit.hist.get(l).unwrap_or(&none);
            if before > 0 && h[before - 1].0 > last.0 {
                last = (h[before - 1].0, Some((l, &h[before - 1].1)));
            }
            if let Some(x) = h.get(before) {
                if x.0 < first.0 {
                    first = (x.0, Some((l, &x.1)));
                }
            }
        }
        if let (Some((a, x)), Some((b, y))) = (last.1, first.1) {
            n += 1;
            if last.0 > first.0 {
                return Err((
                    "barrier-order".into(),
                    format!("{y} on qubit {}.{} follows a barrier but was issued before {x} on qubit {}.{}", b.0, b.1, a.0, a.1),
                ));
            }
        }
    }
    Ok(n)
}

/// What a check concentrates on.
struct Focus {
    weights: &'static [(&'static str, u32)],
    /// Violation classes that are its business (prefixes).
    classes: &'static [&'static str],
    alloc_faults: bool,
    second_rng: bool,
    gpu_faults: bool,
    max_q: usize,
    /// Does a run count as one that exercised the property?
    counts: fn(&Run) -> bool,
}

const GPU_PANIC: u32 = 70002;

/// A shot in which the GPU library refused the API version or a function name,
/// compared with what the program does when it does not.
fn gpu_refusal(a: &Run, b: &Run) -> Result<(), (String, String)> {
    let want = End::Stop(false, GPU_PANIC, b.dev.gpu_error().unwrap_or("No error message available".into()));
    if b.end != want {
        return Err(("gpu-ignored".into(), format!("{}, expected {want}", b.end)));
    }
    if !a.dev.results.starts_with(&b.dev.results) {
        return Err(("results".into(), format!("reported [{}], expected a beginning of [{}]", short(&b.dev.results), short(&a.dev.results))));
    }
    if !a.dev.gpu.starts_with(&b.dev.gpu) {
        return Err(("gpu".into(), format!("GPU calls [{}], expected a beginning of [{}]", b.dev.gpu.join("; "), a.dev.gpu.join("; "))));
    }
    Ok(())
}

/// A program the harness cannot use says nothing about the code under test.
pub fn usable(r: Result<(), Violation>) -> Result<(), Violation> {
    match r {
        Err(v) if (v.class == "harness" || v.class == "too-many-qubits") && std::env::var_os("SIM_STRICT").is_none() => {
            probe("program discarded");
            Ok(())
        }
        r => r,
    }
}

fn pipeline(ctx: &mut Ctx, f: &Focus) -> Result<(), Violation> {
    match usable(pipeline_all(ctx, f)) {
        Err(v) if v.class != "harness" && !f.classes.is_empty() && !f.classes.iter().any(|c| v.class.starts_with(c)) => {
            probe(&format!("other check's business: {}", v.class));
            Ok(())
        }
        r => r,
    }
}

/// The device the source program is run on.
fn mcfg(c: &DevCfg) -> DevCfg {
    DevCfg { id_mode: 0, dirty: false, gpu_bad_api: false, gpu_bad_name: None, ..c.clone() }
}

fn pipeline_all(ctx: &mut Ctx, f: &Focus) -> Result<(), Violation> {
    let t = &mut ctx.w;
    let mut o = opts(t);
    for (k, w) in f.weights {
        *o.weights.get_mut(k).unwrap() = *w;
    }
    o.max_q = f.max_q;
    o.second_rng = f.second_rng && t.one_in(4);
    o.chain_alloc = f.alloc_faults && t.one_in(2);
    let Some(p) = program(t, &o) else { return Ok(()) };
    if std::env::var_os("DUMP").is_some() {
        eprintln!("{}", listing(&p.hugr));
    }
    ctx.sample = Some(describe(&p));
    if let Err(e) = quiet(|| p.hugr.validate()) {
        return harness(format!("generated program is invalid: {e}"));
    }
    let shots = t.range(1, 3);
    let mut cfgs = vec![];
    for _ in 0..shots {
        let mut c = devcfg(t);
        c.id_mode = t.draw(3) as u8;
        c.dirty = t.one_in(2);
        if o.chain_alloc && t.one_in(2) {
            if t.one_in(2) {
                c.fail_from = Some(t.draw(6) as u64);
            } else {
                for _ in 0..t.range(1, 2) {
                    c.fail_alloc.insert(t.draw(8) as u64);
                }
            }
        }
        if f.gpu_faults {
            match t.draw(8) {
                0 => c.gpu_bad_api = true,
                1 => c.gpu_bad_name = Some(*t.pick(&["alpha", "beta", "fn 3", "δ"])),
                2..=5 => c.gpu_fail = Some((*t.pick(&["init", "call", "call", "result", "discard"]), t.draw(4) as u64)),
                _ => {}
            }
            c.gpu_null_error = t.one_in(4);
        }
        cfgs.push(c);
    }
    let order = 1 + t.draw(1 << 30) as u64;
    let opt = t.draw(4);
    ctx.sample = Some(format!("-O{opt} {shots} shots; {}", describe(&p)));
    let src = mono(&p);
    let mut refs = vec![];
    for c in &cfgs {
        let m = mcfg(c);
        let mut a = None;
        for k in 0..2 {
            let b = match quiet(|| interpret(&src, p.main, m.clone(), order + k, true)) {
                Ok(r) => r,
                Err(e) if e == "LIMIT" => {
                    probe("limit");
                    return Ok(());
                }
                Err(e) => return harness(format!("source program: {e}")),
            };
            if let Some((c, m)) = b.dev.viol.first() {
                return harness(format!("source program: {c}: {m}"));
            }
            match &a {
                None => a = Some(b),
                Some(a) => {
                    if let Err((c, m)) = compare(a, &b, Level::Ops) {
                        return harness(format!("source program is ambiguous: {c}: {m}"));
                    }
                }
            }
        }
        refs.push(a.unwrap());
    }
    crate::simrt::event("compile", || format!("-O{opt}"));
    let c = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| quiet(|| crate::jit::compile(p.hugr.clone(), opt)))) {
        Err(_) if (panic_site().contains("hugrmut.rs") || panic_site().contains("replace_types/handlers.rs")) && over_copied(&src) => {
            return fail("compile-panic-value-array-copies", last_panic())
        }
        Err(_) => return fail("compile-panic", format!("compiling a valid program panicked: {}", last_panic())),
        Ok(Err(crate::jit::Failed::Refused(e))) => return fail("compile-refused", format!("compiling a valid program failed: {e}")),
        Ok(Err(crate::jit::Failed::Bad(e))) => return fail("compile-bad", format!("the generated code cannot be loaded: {e}")),
        Ok(Ok(c)) => c,
    };
    if std::env::var_os("DUMP").is_some() {
        eprintln!("LOWERED\n{}\n{}", listing(c.lowered), c.ir);
    }
    let mut gpu_valid = false;
    let mut gpu_known = std::collections::BTreeSet::new();
    for (k, (cfg, a)) in cfgs.iter().zip(&refs).enumerate() {
        let s = quiet(|| crate::jit::shot(&c, cfg.clone()));
        crate::simrt::event("shot", || format!("{k}: {} device operations, {}", s.run.dev.seq, s.run.end));
        let at = |(c, m): (String, String)| fail(c, format!("shot {k}: {m}"));
        if let Some((c, m)) = s.run.dev.viol.first() {
            return at((c.to_string(), m.clone()));
        }
        ctx.nontrivial |= (f.counts)(&s.run);
        for (y, n) in [
            (s.run.dev.n_measured > 0, "random measurement"),
            (s.run.dev.n_futures > 0, "measurement handle"),
            (s.run.dev.multi_read() > 1, "handle read repeatedly"),
            (s.run.end != End::Normal, "stopped early"),
            (s.heap_allocs > 0, "heap"),
            (s.heap_left > 0, "heap blocks left at the end"),
            (!s.run.dev.rng.is_empty(), "random device numbers"),
            (!s.run.dev.results.is_empty(), "results"),
            (k > 0, "several shots"),
        ] {
            if y {
                probe(n);
            }
        }
        if s.run.dev.failed_allocs > 0 {
            fault("qubit_allocation_failed");
        }
        if cfg.dirty {
            fault("qubit_delivered_excited");
        }
        if let Some(k) = s.run.dev.gpu_failed {
            match k {
                "validate" => fault("gpu_api_refused"),
                "lookup" => fault("gpu_function_unknown"),
                "init" => fault("gpu_init_failed"),
                "call" => fault("gpu_call_failed"),
                "result" => fault("gpu_result_failed"),
                "discard" => fault("gpu_discard_failed"),
                _ => probe("second GPU context of an index"),
            }
            if cfg.gpu_null_error {
                fault("gpu_error_without_text");
            }
        }
        gpu_known.extend(s.run.dev.gpu_names.values().cloned());
        let bad_api = cfg.gpu_bad_api && !gpu_valid;
        gpu_valid |= s.run.dev.gpu_validated > 0 && s.run.dev.gpu_failed != Some("validate");
        let refused = s.run.dev.gpu_failed.is_some_and(|k| k == "validate" || k == "lookup");
        if refused {
            gpu_refusal(a, &s.run).or_else(at)?;
            continue;
        }
        if bad_api && a.dev.gpu.iter().any(|x| x.starts_with("init") || x == "init fails") {
            return at(("gpu-ignored".into(), "the library was not asked about the API version before use".into()));
        }
        if let Some(n) = cfg.gpu_bad_name {
            let n2 = format!(" {n}(");
            if !gpu_known.contains(n) && a.dev.gpu.iter().any(|x| x.starts_with("call ") && x.contains(&n2)) {
                return at(("gpu-ignored".into(), format!("the library was not asked about {n:?}")));
            }
        }
        let mut lcfg = cfg.clone();
        lcfg.gpu_bad_api = false;
        lcfg.gpu_bad_name = None;
        let judge = |lcfg: &DevCfg, a: &Run| -> Result<(), (String, String)> {
            let mut low = quiet(|| interpret(c.lowered, p.main, lcfg.clone(), 0, false))
                .map_err(|e| ("stuck".to_string(), format!("the lowered program does not run: {e}")))?;
            if a.end == End::Normal && s.run.end == End::Normal && low.end == End::Normal && barriers_kept(&low.dev, &s.run.dev)? > 0 {
                probe("barrier separating operations");
            }
            // a failing allocation or GPU call is found by its number, which lowering keeps
            compare(a, &low, Level::State)?;
            without_barriers(&mut low.dev);
            compare(&low, &s.run, Level::Ops)?;
            // the generated code has no barriers of its own
            compare_with(a, &s.run, Level::State, false)
        };
        if let Err(e) = judge(&lcfg, a) {
            if o.second_rng {
                // what if a second random context is granted while one is alive?
                lcfg.rng_always = true;
                let mut m = mcfg(cfg);
                m.rng_always = true;
                if let Ok(a) = quiet(|| interpret(&src, p.main, m, order, true)) {
                    if judge(&lcfg, &a).is_ok() {
                        return fail("random-second-context", format!("shot {k}: {}: {}", e.0, e.1));
                    }
                }
            }
            return at(e);
        }
    }
    Ok(())
}

fn busy(r: &Run) -> bool {
    r.dev.seq > 3 || r.dev.results.len() > 1 || r.end != End::Normal
}

const ALL: Focus = Focus { weights: &[], classes: &[], alloc_faults: true, second_rng: false, gpu_faults: false, max_q: 5, counts: busy };

fn c16(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(ctx, &Focus { weights: &[("gpu", 1), ("random", 3)], ..ALL })
}

fn c17(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(
        ctx,
        &Focus {
            weights: &[("measure", 8), ("future", 14), ("gate1", 6)],
            classes: &["future", "crash", "results", "end", "compile", "stuck"],
            counts: |r| r.dev.n_futures > 0,
            ..ALL
        },
    )
}

fn c18(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(
        ctx,
        &Focus {
            weights: &[],
            classes: &[
                "qubit", "dead-qubit", "missing-qubit", "same-qubit", "unreset-qubit", "heap", "crash", "end", "compile", "stuck",
                "runaway", "outside-shot",
            ],
            counts: |r| r.dev.seq > 3,
            ..ALL
        },
    )
}

fn c19(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(ctx, &Focus { weights: &[("barrier", 30)], classes: &[], max_q: 8, counts: |r| r.dev.seq > 3, ..ALL })
}

fn c20(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(
        ctx,
        &Focus {
            weights: &[("gpu", 25), ("result", 6)],
            classes: &["gpu", "crash", "end", "results", "compile", "stuck", "runaway"],
            gpu_faults: true,
            alloc_faults: false,
            counts: |r| !r.dev.gpu.is_empty() || r.dev.gpu_failed.is_some(),
            ..ALL
        },
    )
}

fn c21(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(
        ctx,
        &Focus {
            weights: &[("result", 25), ("stop", 4)],
            classes: &["result", "end", "stop", "crash", "compile", "stuck"],
            counts: |r| !r.dev.results.is_empty(),
            ..ALL
        },
    )
}

fn c22(ctx: &mut Ctx) -> Result<(), Violation> {
    pipeline(
        ctx,
        &Focus {
            weights: &[("random", 30)],
            classes: &["random", "end", "results", "crash", "compile", "stuck"],
            second_rng: true,
            counts: |r| !r.dev.rng.is_empty(),
            ..ALL
        },
    )
}

/// Interprets a program twice in drawn orders. None: nothing to compare with.
pub fn reference(p: &Program, src: &Hugr, cfg: &DevCfg, order: u64) -> Result<Option<Run>, Violation> {
    let a = match quiet(|| interpret(src, p.main, cfg.clone(), order, true)) {
        Ok(r) => r,
        Err(e) if e == "LIMIT" => {
            probe("limit");
            return Ok(None);
        }
        Err(e) => return harness(format!("source program: {e}")),
    };
    if let Some((c, m)) = a.dev.viol.first() {
        return harness(format!("source program: {c}: {m}"));
    }
    for k in 1..3 {
        let b = match quiet(|| interpret(src, p.main, cfg.clone(), order + k, true)) {
            Ok(r) => r,
            Err(e) => return harness(format!("source program, other order: {e}")),
        };
        if let Err((c, m)) = compare(&a, &b, Level::Ops) {
            return harness(format!("source program is ambiguous: {c}: {m}"));
        }
    }
    Ok(Some(a))
}

/// The dataflow regions below `n` that circuits can be made of.
pub fn regions(h: &Hugr, n: Node) -> Vec<Node> {
    h.descendants(n)
        .filter(|&x| match h.get_optype(x) {
            hugr::ops::OpType::FuncDefn(f) => f.signature().params().is_empty(),
            hugr::ops::OpType::DFG(_) | hugr::ops::OpType::DataflowBlock(_) | hugr::ops::OpType::Case(_) | hugr::ops::OpType::TailLoop(_) => true,
            _ => false,
        })
        .collect()
}

fn c23(ctx: &mut Ctx) -> Result<(), Violation> {
    usable(c23_run(ctx))
}

fn c23_run(ctx: &mut Ctx) -> Result<(), Violation> {
    use hugr::hugr::hugrmut::HugrMut;
    use tket::passes::{BorrowSquashPass, NormalizeGuppy};
    let t = &mut ctx.w;
    let mut o = opts(t);
    for (k, w) in [("borrow", 12), ("tuple", 10), ("dfg", 6), ("cfg", 5), ("call", 6)] {
        *o.weights.get_mut(k).unwrap() = w;
    }
    let which = t.weighted(&[6, 5, 2, 1]);
    // NormalizeGuppy settings
    let f: Vec<bool> = (0..6).map(|_| t.chance(2, 3)).collect();
    let cf = which == 0 && f[2];
    o.no_eq = cf && !t.one_in(8);
    let Some(p) = program(t, &o) else { return Ok(()) };
    if std::env::var_os("DUMP").is_some() {
        eprintln!("{}", listing(&p.hugr));
    }
    if let Err(e) = quiet(|| p.hugr.validate()) {
        return harness(format!("generated program is invalid: {e}"));
    }
    let cfg = devcfg(t);
    let order = 1 + t.draw(1 << 30) as u64;
    let src = mono(&p);
    let Some(a) = reference(&p, &src, &cfg, order)? else { return Ok(()) };
    let mut low = src.clone();
    let mut did = 0;
    let names = ["normalize", "borrow-squash", "untuple", "pytket"];
    crate::simrt::event(names[which], || format!("{f:?}"));
    let all = t.one_in(2);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        match which {
            0 => {
                let mut n = NormalizeGuppy::default();
                n.simplify_cfgs(f[0]).remove_tuple_untuple(f[1]).constant_folding(f[2]).remove_dead_funcs(f[3]).inline_dfgs(f[4]).squash_borrows(f[5]);
                let before = low.num_nodes();
                n.run(&mut low).map_err(|e| e.to_string())?;
                did = before.abs_diff(low.num_nodes());
            }
            1 => {
                let mut pass = BorrowSquashPass::default();
                let e = low.entrypoint();
                if all {
                    low.set_entrypoint(low.module_root());
                } else {
                    pass = pass.set_regions(regions(&low, low.module_root()));
                }
                did = pass.run(&mut low).map_err(|e| e.to_string())?.len();
                low.set_entrypoint(e);
            }
            2 => {
                let e = low.entrypoint();
                for r in regions(&low, low.module_root()) {
                    for _ in 0..20 {
                        low.set_entrypoint(r);
                        let circ = tket::Circuit::new(low.clone());
                        #[allow(deprecated)]
                        let rw = tket::passes::find_tuple_unpack_rewrites(&circ).next();
                        let Some(rw) = rw else { break };
                        let mut circ = tket::Circuit::new(low.clone());
                        rw.apply(&mut circ).map_err(|e| e.to_string())?;
                        did += 1;
                        low = circ.into_hugr();
                    }
                }
                low.set_entrypoint(e);
            }
            _ => {
                let circ = tket::Circuit::new(&low);
                match tket::passes::lower_to_pytket(&circ) {
                    Ok(c) => {
                        did = 1;
                        low = c.into_hugr();
                    }
                    Err(_) => probe("not lowered to pytket"),
                }
            }
        }
        Ok(())
    }));
    ctx.sample = Some(format!("{} {f:?} changed {did}; {}", names[which], describe(&p)));
    ctx.nontrivial = did > 0;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail("pass-error", format!("{} on a valid program failed: {e}", names[which])),
        // a known defect of the hugr-passes crate, which NormalizeGuppy runs
        Err(_) if crate::runner::panic_site().contains("untuple.rs") => return fail("untuple-panic-in-dependency", format!("{} on a valid program panicked: {}", names[which], last_panic())),
        Err(_) => return fail("pass-panic", format!("{} on a valid program panicked: {}", names[which], last_panic())),
    }
    if did > 0 {
        probe(names[which]);
    }
    if std::env::var_os("DUMP").is_some() {
        eprintln!("AFTER\n{}", listing(&low));
    }
    if let Err(e) = quiet(|| low.validate()) {
        let e = e.to_string();
        if cf && e.contains("unconnected port Port(Outgoing") && e.contains("]+[") {
            return fail("fold-unconnected-sum", e);
        }
        return fail("invalid", format!("after {} the program is invalid: {e}", names[which]));
    }
    for k in 0..3 {
        let b = match quiet(|| interpret(&low, p.main, cfg.clone(), if k == 0 { 0 } else { order ^ k }, true)) {
            Ok(r) => r,
            Err(e) => return fail("stuck", format!("after {} the program does not run: {e}", names[which])),
        };
        if let Err((c, m)) = compare(&a, &b, if cf { Level::Folded } else { Level::Ops }) {
            if cf && !o.no_eq && {
                let l = listing(&src);
                l.contains(" Eq [") || l.contains(" eq [")
            } {
                return fail("fold-boolean-equality", format!("{c}: {m}"));
            }
            return fail(c, format!("after {}: {m}", names[which]));
        }
    }
    Ok(())
}

const COMPONENTS: &str = "real: HUGR builders, monomorphization, QSystemPass (all of its passes), barrier lowering, the qis-compiler and tket-qsystem LLVM code generation, LLVM optimisation and code generation, the compiled machine code; simulated: the quantum device and its run-time library (qubits, measurement outcomes, handles, results, random numbers, GPU library, heap)";
const ASSUME: &[&str] = &[
    "the run-time library follows the calling convention documented by selene and the GPU extension",
    "thread-local variables of the generated module are process variables, calls to the C heap are calls to the simulated heap",
];

pub fn props() -> Vec<Prop> {
    let base = |id, title, rule, scenario| Prop {
        id,
        title,
        level: "exploration",
        rule,
        components: COMPONENTS,
        assumptions: ASSUME,
        preload: || {},
        scenario,
        quick_runs: 10_000,
        quick_secs: 40,
        thorough_secs: 600,
        max_decisions: 1_000_000,
        plain_sched: false,
    };
    let c15p = Prop {
        components: "real: HUGR builders, monomorphization, QSystemPass with drawn settings; simulated: the quantum device; both programs run on a reference interpreter of HUGR",
        assumptions: &["the interpreter gives the operations the meaning their definitions state; unordered operations are run in drawn orders that all agree"],
        ..base(
            "C15",
            "lowering preserves what programs do",
            "one generated program lowered and interpreted before and after, with at least four device operations, two results or an early stop; distinct by event hash",
            c15,
        )
    };
    let c23p = Prop {
        components: "real: HUGR builders, NormalizeGuppy with drawn settings, BorrowSquashPass, tuple rewrites, lower_to_pytket; simulated: the quantum device; both programs run on a reference interpreter of HUGR",
        assumptions: &["the interpreter gives the operations the meaning their definitions state; unordered operations are run in drawn orders that all agree"],
        ..base(
            "C23",
            "circuit-level passes preserve what programs do",
            "one generated program transformed by one pass that changed something, and interpreted before and after; distinct by event hash",
            c23,
        )
    };
    let c11p = Prop {
        components: "real: HUGR builders, pytket encoder, reassembly (tket and tket-qsystem configurations); simulated: the quantum device; both programs run on a reference interpreter of HUGR",
        assumptions: &["the interpreter gives the operations the meaning their definitions state; unordered operations are run in drawn orders that all agree"],
        quick_runs: 16_000,
        ..base("C11", "pytket round trips", "one generated program encoded, processed, reassembled and interpreted before and after; distinct by event hash", crate::pyt::c11)
    };
    vec![
        c11p,
        c15p,
        c23p,
        base(
            "C16",
            "compiled programs drive the device as the source program says",
            "one generated program compiled and run for up to three shots, with at least four device operations, two results or an early stop; distinct by event hash",
            c16,
        ),
        base("C17", "measurement handles", "one compiled program run for up to three shots, one of which obtained a measurement handle; distinct by event hash", c17),
        base("C18", "qubits and heap memory", "one compiled program run for up to three shots, one of which made at least four device calls; distinct by event hash", c18),
        base("C19", "barriers", "one compiled program run for up to three shots, one of which made at least four device calls; distinct by event hash", c19),
        base("C20", "GPU calls", "one compiled program run for up to three shots, one of which used the GPU library; distinct by event hash", c20),
        base("C21", "results", "one compiled program run for up to three shots, one of which reported a result; distinct by event hash", c21),
        base("C22", "random numbers", "one compiled program run for up to three shots, one of which used a random context; distinct by event hash", c22),
    ]
}

/// A readable listing, for debugging.
pub fn listing(h: &Hugr) -> String {
    fn go(h: &Hugr, n: Node, ind: usize, out: &mut String) {
        use hugr::PortIndex;
        let op = h.get_optype(n);
        let mut ins = vec![];
        for p in h.node_inputs(n) {
            for (s, sp) in h.linked_outputs(n, p) {
                let k = op.port_kind(p);
                ins.push(match k {
                    Some(hugr::types::EdgeKind::Value(_)) => format!("{}.{}", s.index(), sp.index()),
                    Some(hugr::types::EdgeKind::StateOrder) => format!("<{}", s.index()),
                    _ => format!("#{}", s.index()),
                });
            }
        }
        use hugr::core::NodeIndex;
        let s = h.signature(n).map(|s| s.to_string()).unwrap_or_default();
        let nm = match op {
            hugr::ops::OpType::Const(c) => format!("{:?}", c.value()).chars().take(150).collect(),
            hugr::ops::OpType::ExtensionOp(e) => format!("{}", e.unqualified_id()),
            hugr::ops::OpType::FuncDefn(f) => format!("fn {}", f.func_name()),
            _ => op.to_string(),
        };
        let succ = match op {
            hugr::ops::OpType::DataflowBlock(_) => format!(" -> {:?}", h.output_neighbours(n).map(|x| x.index()).collect::<Vec<_>>()),
            _ => String::new(),
        };
        out.push_str(&format!("{:ind$}{} {} [{}]{}   {}\n", "", n.index(), nm, ins.join(" "), succ, s, ind = ind * 2));
        for c in h.children(n) {
            go(h, c, ind + 1, out);
        }
    }
    let mut s = String::new();
    go(h, h.module_root(), 0, &mut s);
    s
}
