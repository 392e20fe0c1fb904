//! Checks of the pytket encoding of whole programs.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use hugr::hugr::hugrmut::HugrMut;
use hugr::{Hugr, HugrView, Node};
use rayon::iter::ParallelIterator;
use tket::extension::rotation::ConstRotation;
use tket::serialize::pytket::{EncodeOptions, EncodedCircuit};
use tket::Circuit;
use tket_json_rs::circuit_json::{Command, SerialCircuit};
use tket_json_rs::OpType as PyOp;

use crate::dev::{compare, devcfg, interpret, listing, mono, opts, reference, regions, usable, Level};
use crate::runner::*;
use crate::simrt::{self, quiet};
use crate::tape::Rng;

/// Angle (half-turns) of the marks of the k-th circuit. No program has them.
fn mark(k: usize) -> f64 {
    (2 * k + 1) as f64 / 4096.0
}

fn plain_gate(o: &PyOp) -> bool {
    use PyOp::*;
    matches!(o, H | X | Y | Z | S | Sdg | T | Tdg | V | Vdg | CX | CY | CZ | Rx | Ry | Rz | CRz | PhasedX | ZZPhase | CCX | TK1 | ZZMax)
}

/// Something a processor may do to a circuit without changing its meaning.
/// Returns whether it left marks.
fn process(mut r: Rng, k: usize, c: &mut SerialCircuit) -> bool {
    if r.below(3) == 0 {
        // stored and loaded
        let s = serde_json::to_string(c).unwrap();
        *c = serde_json::from_str(&s).unwrap();
    }
    if r.below(3) == 0 {
        // independent gates in another order
        for _ in 0..c.commands.len() {
            if c.commands.len() < 2 {
                break;
            }
            let i = r.below(c.commands.len() as u32 - 1) as usize;
            let (a, b) = (&c.commands[i], &c.commands[i + 1]);
            if plain_gate(&a.op.op_type) && plain_gate(&b.op.op_type) && !a.args.iter().any(|x| b.args.contains(x)) {
                c.commands.swap(i, i + 1);
            }
        }
    }
    let places: Vec<(usize, usize)> = c
        .commands
        .iter()
        .enumerate()
        .filter(|(_, x)| plain_gate(&x.op.op_type))
        .flat_map(|(i, x)| (0..x.args.len()).map(move |a| (i, a)))
        .collect();
    if places.is_empty() || r.below(4) == 0 {
        return false;
    }
    let (i, a) = places[r.below(places.len() as u32) as usize];
    let arg = c.commands[i].args[a].clone();
    let cmd = |x: f64| {
        let mut op = tket_json_rs::circuit_json::Operation::from_optype(PyOp::Rz);
        op.params = Some(vec![x.to_string()]);
        Command { op, args: vec![arg.clone()], opgroup: None }
    };
    c.commands.insert(i + 1, cmd(mark(k)));
    c.commands.insert(i + 1, cmd(-mark(k)));
    true
}

/// A listing of the program that does not depend on node numbers.
fn canon(h: &Hugr) -> Vec<String> {
    fn order(h: &Hugr, n: Node, v: &mut Vec<Node>) {
        v.push(n);
        for c in h.children(n) {
            order(h, c, v);
        }
    }
    let mut v = vec![];
    order(h, h.module_root(), &mut v);
    let at: BTreeMap<Node, usize> = v.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    v.iter()
        .map(|&n| {
            use hugr::PortIndex;
            let op = h.get_optype(n);
            let nm = match op {
                hugr::ops::OpType::Const(c) => format!("{:?}", c.value()),
                _ => format!("{} {:?}", op, h.signature(n).map(|s| s.to_string())),
            };
            let mut links: Vec<String> = h
                .node_inputs(n)
                .flat_map(|p| h.linked_outputs(n, p).map(move |(m, q)| (p, m, q)))
                .map(|(p, m, q)| format!("{}:{}.{}", p.index(), at[&m], if op.port_kind(p) == Some(hugr::types::EdgeKind::StateOrder) { 0 } else { q.index() }))
                .collect();
            links.sort();
            format!("{} {nm} {links:?}", h.get_parent(n).map_or(0, |p| at[&p]))
        })
        .collect()
}

/// How often the marks of each angle occur, by the encoded region they are in.
fn marks(h: &Hugr, within: &[Node]) -> BTreeMap<(Option<Node>, i64), usize> {
    let mut out = BTreeMap::new();
    for n in h.nodes() {
        let hugr::ops::OpType::Const(c) = h.get_optype(n) else { continue };
        let Some(r) = c.value().get_custom_value::<ConstRotation>() else { continue };
        let x = r.half_turns() * 4096.0;
        if x.abs() > 1e6 || x.fract() != 0.0 || (x as i64) % 2 == 0 {
            continue;
        }
        let mut p = h.get_parent(n);
        while let Some(q) = p {
            if within.contains(&q) {
                break;
            }
            p = h.get_parent(q);
        }
        *out.entry((p, x as i64)).or_default() += 1;
    }
    out
}

pub fn c11(ctx: &mut Ctx) -> Result<(), Violation> {
    usable(c11_run(ctx))
}

fn c11_run(ctx: &mut Ctx) -> Result<(), Violation> {
    let t = &mut ctx.w;
    let mut o = opts(t);
    for (k, w) in [("gate1", 10), ("gate2", 10), ("measure", 6), ("dfg", 6), ("cfg", 5), ("cond", 6), ("call", 6), ("bool", 6), ("tuple", 5)] {
        if let Some(x) = o.weights.get_mut(k) {
            *x = (*x).max(w);
        }
    }
    // Futures are bits in pytket, and bits do not become futures again.
    o.futures = t.one_in(24);
    // Circuits with the parts pytket cannot represent stored in them.
    let alone = t.one_in(8);
    if alone {
        o.value_arrays = false;
        for k in ["result", "cond", "loop", "cfg", "dfg", "call", "stop", "random", "gpu", "shot", "static"] {
            o.weights.insert(k, 0);
        }
    }
    let Some(p) = crate::dev::program(t, &o) else { return Ok(()) };
    if std::env::var_os("DUMP").is_some() {
        eprintln!("{}", listing(&p.hugr));
    }
    let mut cfg = devcfg(t);
    cfg.tk_labels = true;
    let order = 1 + t.draw(1 << 30) as u64;
    let src = mono(&p);
    let Some(a) = reference(&p, &src, &cfg, order)? else { return Ok(()) };
    let qsys = t.one_in(2);
    let sub = !alone && !t.one_in(4);
    let rs = regions(&src, src.module_root());
    let at = if t.one_in(3) { *t.pick(&rs) } else { p.main };
    let mode = t.draw(4);
    let threads = 1 + t.draw(4) as usize;
    let seed = t.draw(1 << 30) as u64;
    // A thread that dies leaves its circuit as it was.
    let dying = if mode == 2 && t.one_in(3) { Some(t.draw(6) as usize) } else { None };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| round_trip(&src, at, qsys, sub, alone, mode, threads, seed, dying)));
    let out = match r {
        Ok(Ok(Some(x))) => x,
        Ok(Ok(None)) => return Ok(()),
        Ok(Err(e)) => return Err(e),
        Err(_) => return fail(digest(&format!("panic {}", last_panic())), format!("panicked: {}", last_panic())),
    };
    let Out { low, n, marks } = out;
    ctx.sample = Some(format!("{n} circuits, {marks} of them marked, mode {mode}, {threads} threads"));
    ctx.nontrivial = n > 1 || marks > 0;
    probe(match mode {
        0 | 1 => "one after the other",
        2 => "threads",
        _ => "rayon",
    });
    if marks > 1 {
        probe("several circuits changed");
    }
    if std::env::var_os("DUMP").is_some() {
        eprintln!("AFTER\n{}", listing(&low));
    }
    if let Err(e) = quiet(|| low.validate()) {
        let e = e.to_string();
        return fail(if e.contains("Future(") { "future-not-rebuilt" } else { "invalid" }, format!("after reassembly the program is invalid: {e}"));
    }
    for k in 0..3 {
        let b = match quiet(|| interpret(&low, p.main, cfg.clone(), if k == 0 { 0 } else { order ^ k }, true)) {
            Ok(r) => r,
            Err(e) => return fail("stuck", format!("after reassembly the program does not run: {e}")),
        };
        if let Err((c, m)) = compare(&a, &b, Level::State) {
            return fail(c, format!("after reassembly: {m}"));
        }
    }
    Ok(())
}

struct Out {
    low: Hugr,
    n: usize,
    marks: usize,
}

#[allow(clippy::too_many_arguments)]
fn round_trip(src: &Hugr, at: Node, qsys: bool, sub: bool, alone: bool, mode: u32, threads: usize, seed: u64, dying: Option<usize>) -> Result<Option<Out>, Violation> {
    let mut low = src.clone();
    let entry = low.entrypoint();
    low.set_entrypoint(at);
    let circ = Circuit::new(low.clone());
    let options = || {
        let mut eo = EncodeOptions::<Hugr>::new().with_subcircuits(sub);
        if qsys {
            eo = eo.with_config(Arc::new(tket_qsystem::pytket::qsystem_encoder_config()));
        }
        eo
    };
    let encode = || -> Result<Result<EncodedCircuit<Node>, bool>, Violation> {
        match EncodedCircuit::new(&circ, options()) {
            Ok(e) => Ok(Ok(e)),
            // documented: nothing to attach the parts to that pytket cannot represent
            Err(e) if e.to_string().contains("no qubits or bits to attach") => Ok(Err(false)),
            Err(e) => {
                let e = format!("encode: {e}");
                fail(digest(&e), e)
            }
        }
    };
    let Ok(mut enc) = encode()? else {
        probe("not encodable");
        return Ok(None);
    };
    if alone {
        if let Err(e) = enc.ensure_standalone(circ.hugr()) {
            let e = e.to_string();
            // documented: parts with children or calls
            if e.contains("cannot be encoded") || e.contains("standalone") {
                return Ok(None);
            }
            return fail(digest(&e), format!("standalone: {e}"));
        }
        probe("standalone");
    }
    let text = |c: &SerialCircuit| serde_json::to_string(c).unwrap();
    let texts = |e: &EncodedCircuit<Node>| -> BTreeMap<Node, String> { e.iter().map(|(n, c)| (n, text(c))).collect() };
    let first = quiet(|| texts(&enc));
    // Same program, other hash seeds.
    if let Ok(mut again) = encode()? {
        if alone {
            again.ensure_standalone(circ.hugr()).unwrap();
            // a second time
            again.ensure_standalone(circ.hugr()).unwrap();
        }
        let b = quiet(|| texts(&again));
        if first != b {
            let (n, x) = first.iter().find(|(n, x)| b.get(n) != Some(x)).map(|(n, x)| (*n, x.clone())).unwrap_or((at, String::new()));
            return fail("encoding-differs", format!("region {n} encoded again: {:?}, before {x}", b.get(&n)));
        }
    }
    let nodes: Vec<Node> = first.keys().copied().collect();
    if std::env::var_os("DUMP").is_some() {
        for (n, c) in enc.iter() {
            eprintln!("region {n}: qubits {} bits {} ", c.qubits.len(), c.bits.len());
            for x in &c.commands {
                eprintln!("   {:?} {:?} {:?} {}", x.op.op_type, x.op.params, x.args.iter().map(|a| format!("{}{:?}", a.0, a.1)).collect::<Vec<_>>(), x.op.data.clone().unwrap_or_default());
            }
        }
    }
    let index = |n: Node| nodes.iter().position(|x| *x == n).unwrap();
    let rng = |k: usize| Rng::new(seed ^ ((k as u64 + 1) << 32));
    let done: Mutex<BTreeMap<Node, (bool, String)>> = Mutex::default();
    let job = |n: Node, c: &mut SerialCircuit| {
        let k = index(n);
        let mut d = c.clone();
        let m = quiet(|| process(rng(k), k, &mut d));
        simrt::event("circuit", || format!("{k}"));
        *c = d;
        let s = quiet(|| text(c));
        done.lock().unwrap().insert(n, (m, s));
    };
    match mode {
        0 => enc.iter_mut().for_each(|(n, c)| job(n, c)),
        1 => {
            let mut v: Vec<_> = enc.iter_mut().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.0));
            v.into_iter().for_each(|(n, c)| job(n, c));
        }
        2 => {
            let jobs: Mutex<Vec<(Node, &mut SerialCircuit)>> = Mutex::new(enc.iter_mut().collect());
            let died = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads + 1)
                    .map(|_| {
                        s.spawn(|| loop {
                            let next = jobs.lock().unwrap().pop();
                            let Some((n, c)) = next else { break };
                            simrt::yield_point();
                            if dying == Some(index(n)) {
                                std::panic::resume_unwind(Box::new("processor died"));
                            }
                            job(n, c);
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().is_err()).filter(|x| *x).count()
            });
            if died > 0 {
                probe("processor died");
            }
        }
        _ => {
            enc.par_iter_mut().for_each(|(n, c)| job(n, c));
        }
    }
    let done = done.into_inner().unwrap();
    // Every circuit was handed out once, and nothing but the processors changed it.
    let now = quiet(|| texts(&enc));
    for n in &nodes {
        let want = match done.get(n) {
            Some((_, s)) => s,
            None if dying == Some(index(*n)) => &first[n],
            None => return fail("not-visited", format!("circuit {} of {} was not handed out", index(*n), nodes.len())),
        };
        if now.get(n) != Some(want) {
            return fail("misplaced-circuit", format!("the circuit of region {n} is not the one that was processed"));
        }
    }
    if enc.len() != nodes.len() || now.len() != nodes.len() || nodes.iter().any(|n| !enc.contains_circuit(*n)) {
        return fail("misplaced-circuit", format!("{} circuits after processing, {} before", now.len(), nodes.len()));
    }
    let par: BTreeMap<Node, String> = quiet(|| enc.par_iter().map(|(n, c)| (n, text(c))).collect::<Vec<_>>()).into_iter().collect();
    if par != now {
        return fail("misplaced-circuit", "parallel and sequential iterators differ".to_string());
    }
    if alone {
        // Values that pytket has no registers for cannot enter or leave the
        // stored parts, so such circuits need not fit back into the program.
        return Ok(None);
    }
    let reassemble = |h: &mut Hugr| -> Result<Vec<Node>, Violation> {
        let dc = if qsys { Some(Arc::new(tket_qsystem::pytket::qsystem_decoder_config())) } else { None };
        match enc.reassemble_inplace(h, dc) {
            Ok(v) => Ok(v),
            Err(e) => {
                if std::env::var_os("DUMP").is_some() {
                    eprintln!("PARTIAL\n{}", listing(h));
                }
                let e = format!("reassemble: {e}");
                if e.contains("Future(") {
                    return fail("future-not-rebuilt", e);
                }
                fail(digest(&e), e)
            }
        }
    };
    let mut twice = low.clone();
    let mut replaced = reassemble(&mut low)?;
    replaced.sort();
    if replaced != nodes {
        return fail("regions", format!("reassembly reports regions {replaced:?}, expected {nodes:?}"));
    }
    reassemble(&mut twice)?;
    let (x, y) = quiet(|| (canon(&low), canon(&twice)));
    if x != y {
        let i = x.iter().zip(&y).position(|(a, b)| a != b).unwrap_or(x.len().min(y.len()));
        return fail("order-dependent", format!("reassembled again: {:?}, before {:?}", y.get(i), x.get(i)));
    }
    // Each change is in its own place.
    let got = quiet(|| marks(&low, &nodes));
    let want: BTreeMap<(Option<Node>, i64), usize> = done
        .iter()
        .filter(|(_, (m, _))| *m)
        .flat_map(|(n, _)| {
            let k = 2 * index(*n) as i64 + 1;
            [((Some(*n), k), 1), ((Some(*n), -k), 1)]
        })
        .collect();
    if got != want {
        return fail("misplaced-change", format!("changes (region, 1/4096 half-turns) {:?}, expected {:?}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
    }
    low.set_entrypoint(entry);
    Ok(Some(Out { low, n: nodes.len(), marks: want.len() / 2 }))
}

fn digest(e: &str) -> String {
    let s: String = e.chars().filter(|c| !c.is_ascii_digit()).map(|c| if c.is_ascii_alphabetic() { c } else { '-' }).collect();
    let w: Vec<&str> = s.split('-').filter(|x| !x.is_empty()).take(14).collect();
    w.join("-")
}
