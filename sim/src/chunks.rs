//! C13: splitting, processing in any order, and reassembly.

use std::sync::Mutex;

use hugr::HugrView;
use rayon::iter::{IntoParallelRefMutIterator, ParallelIterator};
use tket::passes::chunks::CircuitChunks;
use tket::rewrite::Rewriter;
use tket::{Circuit, TketOp};

use crate::circ::{self, GenOpts};
use crate::rules::Rules;
use crate::runner::{fail, probe, Ctx, Prop, Verdict};
use crate::simrt::{self, quiet};
use crate::tape::Rng;

/// Rewrites a chunk into an equivalent one.
fn process(c: &Circuit, rules: &Rules, seed: u64, steps: u32) -> Circuit {
    let mut r = Rng::new(seed);
    let mut c = c.clone();
    for _ in 0..steps {
        let rw = rules.get_rewrites(&c);
        if rw.is_empty() {
            break;
        }
        let k = r.below(rw.len() as u32) as usize;
        let mut d = c.clone();
        if rw.into_iter().nth(k).unwrap().apply(&mut d).is_ok() {
            c = d;
        }
    }
    c
}

fn scenario(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let opts = GenOpts {
        qubits: (1, 5),
        gates: (3, 22),
        set: if t.one_in(2) { circ::NAM } else { circ::CLIFFT },
        params: 3,
        arith: t.one_in(2),
        alloc: t.one_in(3),
        dfg_root: false,
        patterns: t.chance(2, 3),
    };
    let (input, desc) = circ::gen(t, &opts);
    let cost_kind = t.draw(3);
    let max = [2usize, 1, 3, 4, 6, 2, 10, 0][t.draw(8) as usize];
    let split = || match cost_kind {
        0 => CircuitChunks::split(&input, max),
        1 => CircuitChunks::split_with_cost(&input, max, |op| op.cast::<TketOp>().is_some() as usize),
        _ => CircuitChunks::split_with_cost(&input, max, |op| (op.cast::<TketOp>() == Some(TketOp::CX)) as usize),
    };
    let mode = t.weighted(&[2, 4, 2]);
    let threads = t.range(1, 4) as usize;
    let rules = Rules::draw(t, &[], false);
    let touched = t.draw(4);
    let steps = t.draw(4);
    let seed = t.draw(1 << 30) as u64;
    ctx.sample = Some(format!(
        "cost {cost_kind} max {max} mode {mode} threads {threads} rules {} steps {steps} touched {touched}; {}",
        rules.describe(),
        desc.join("; ")
    ));
    let mut chunks = split();
    ctx.nontrivial = chunks.len() >= 2;
    for (i, c) in chunks.iter().enumerate() {
        if let Err(e) = quiet(|| c.hugr().validate()) {
            return fail("chunk-invalid", format!("chunk {i} is not a valid circuit: {e}"));
        }
    }
    // Which chunks are processed (0: all, 1: none, 2/3: some)
    let pick = |i: usize| match touched {
        0 => true,
        1 => false,
        _ => (seed >> (i % 20)) & 1 == 1,
    };
    match mode {
        0 => {
            // sequential, drawn order
            let n = chunks.len();
            let mut order: Vec<usize> = (0..n).collect();
            let mut r = Rng::new(seed);
            for i in (1..n).rev() {
                order.swap(i, r.below(i as u32 + 1) as usize);
            }
            for i in order {
                if pick(i) {
                    chunks[i] = process(&chunks[i], &rules, seed ^ i as u64, steps);
                }
            }
            probe("sequential");
        }
        1 => {
            let n = chunks.len();
            let jobs: Mutex<Vec<(usize, Circuit)>> = Mutex::new(chunks.iter_mut().map(std::mem::take).enumerate().collect());
            let done: Mutex<Vec<(usize, Circuit)>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| loop {
                        let Some((i, c)) = jobs.lock().unwrap().pop() else { break };
                        simrt::yield_point();
                        let c = if pick(i) { process(&c, &rules, seed ^ i as u64, steps) } else { c };
                        simrt::event("chunk", || format!("{i}"));
                        done.lock().unwrap().push((i, c));
                    });
                }
            });
            let done = done.into_inner().unwrap();
            assert_eq!(done.len(), n);
            for (i, c) in done {
                chunks[i] = c;
            }
            probe("threads");
        }
        _ => {
            chunks.par_iter_mut().for_each(|c| {
                let d = process(c, &rules, seed, steps);
                simrt::event("chunk", || "rayon".into());
                *c = d;
            });
            probe("rayon");
        }
    }
    let processed = chunks.clone();
    let out = match chunks.reassemble() {
        Ok(c) => c,
        Err(e) => return fail("reassemble-error", format!("{e}")),
    };
    if let Err(e) = quiet(|| out.hugr().validate()) {
        return fail("invalid", format!("reassembled circuit: {e}"));
    }
    if let Err(e) = quiet(|| circ::equivalent(&input, &out)) {
        return fail(if e.starts_with("HARNESS") { "harness" } else { "not-equivalent" }, e);
    }
    let k = quiet(|| circ::canon_circ(&out));
    if touched == 1 && mode != 2 {
        let k0 = quiet(|| circ::canon_circ(&input));
        if k0 != k {
            return fail("not-lossless", "untouched chunks do not give the original circuit back".to_string());
        }
    }
    // Same pieces, other hash seeds: same circuit.
    for _ in 0..2 {
        let again = processed.clone().reassemble().map(|c| quiet(|| circ::canon_circ(&c)));
        if again.as_ref().ok() != Some(&k) {
            return fail("order-dependent", "reassembling the same chunks again gave another circuit".to_string());
        }
        let s2 = split();
        let a: Vec<String> = s2.iter().map(|c| quiet(|| circ::canon_circ(c))).collect();
        if touched == 1 && mode != 2 {
            let b: Vec<String> = processed.iter().map(|c| quiet(|| circ::canon_circ(c))).collect();
            if a != b {
                return fail("order-dependent", "splitting the same circuit again gave other chunks".to_string());
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        title: "chunks are lossless",
        level: "exploration",
        rule: "one circuit split into at least two chunks, processed by simulated threads and reassembled; distinct by event hash",
        components: "real: chunk splitting, subgraph extraction, reassembly, rewriting, rayon, std threads; simulated: OS scheduler, hash seeds",
        assumptions: &["circuits of at most 5 input qubits and 22 gates; unitaries/channels compared on generic states to 1e-7"],
        preload: || {},
        scenario,
        quick_runs: 12000,
        quick_secs: 35,
        thorough_secs: 600,
        max_decisions: 1_000_000,
        plain_sched: false,
    }]
}
