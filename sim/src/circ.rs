//! Flat circuits: generation, evaluation, canonical form.

use std::collections::{BTreeMap, HashMap};

use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr, FunctionBuilder};
use hugr::extension::prelude::qb_t;
use hugr::ops::OpType;
use hugr::std_extensions::arithmetic::float_ops::FloatOps;
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::types::{Signature, Type};
use hugr::{HugrView, Node, OutgoingPort, PortIndex, Wire};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::{Circuit, TketOp};

use crate::qsim::{Gate, State};
use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub qubits: (u32, u32),
    pub gates: (u32, u32),
    pub set: &'static [TketOp],
    /// Rotation inputs.
    pub params: u32,
    /// Share constants, add angles, etc.
    pub arith: bool,
    pub alloc: bool,
    pub dfg_root: bool,
    /// Insert instances of the rewrite rules.
    pub patterns: bool,
}

pub const NAM: &[TketOp] = &[TketOp::H, TketOp::X, TketOp::Rz, TketOp::CX];
pub const CLIFFT: &[TketOp] = &[
    TketOp::CX, TketOp::H, TketOp::X, TketOp::Rz, TketOp::Z, TketOp::T, TketOp::Tdg, TketOp::S, TketOp::Sdg, TketOp::CZ,
    TketOp::Y, TketOp::V, TketOp::Vdg, TketOp::Rx, TketOp::Ry, TketOp::CY, TketOp::CRz, TketOp::Toffoli,
];

const ANGLES: &[f64] = &[0.25, 0.5, 1.0, -0.25, 0.1337, 1.75, 0.333, -0.71];

/// Text of the generated gates, for samples.
pub type Desc = Vec<String>;

pub fn gen(t: &mut Tape, o: &GenOpts) -> (Circuit, Desc) {
    let nq = t.range(o.qubits.0, o.qubits.1) as usize;
    let ng = t.range(o.gates.0, o.gates.1) as usize;
    let np = t.draw(o.params + 1) as usize;
    let mut ins = vec![qb_t(); nq];
    ins.extend(vec![rotation_type(); np]);
    let mut desc = vec![format!("{nq} qubits, {np} params")];
    // rotations are copyable: outputs may include angles
    let out_params: usize = if np > 0 && o.arith { t.draw(2) as usize } else { 0 };
    let extra_out = if o.alloc { t.draw(2) as usize } else { 0 };
    let mut outs = vec![qb_t(); nq + extra_out];
    outs.extend(vec![rotation_type(); out_params]);
    let sig = Signature::new(ins, outs);
    fn body<D: Dataflow>(b: &mut D, t: &mut Tape, o: &GenOpts, nq: usize, np: usize, ng: usize, extra_out: usize, out_params: usize, desc: &mut Desc) -> Vec<Wire> {
        let ins: Vec<Wire> = b.input_wires().collect();
        let mut q: Vec<Wire> = ins[..nq].to_vec();
        let mut ang: Vec<Wire> = ins[nq..nq + np].to_vec();
        let mut consts: HashMap<usize, Wire> = HashMap::new();
        let mut live: Vec<usize> = (0..nq).collect();
        let mut tmp: Vec<usize> = vec![];
        let mut pending: Vec<(TketOp, Vec<usize>)> = vec![];
        for _ in 0..ng {
            if pending.is_empty() && o.patterns && t.chance(1, 2) {
                let r = t.pick(crate::rules::RULES);
                if r.qubits <= live.len() {
                    let mut pool = live.clone();
                    let qs: Vec<usize> = (0..r.qubits).map(|_| pool.remove(t.draw(pool.len() as u32) as usize)).collect();
                    pending = r.lhs.iter().rev().map(|(op, q, _)| (*op, q.iter().map(|&i| qs[i]).collect())).collect();
                }
            }
            let planted = pending.pop().filter(|(_, q)| q.iter().all(|x| live.contains(x)));
            if planted.is_some() {
            } else if o.alloc && t.one_in(12) {
                let w = b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0);
                q.push(w);
                live.push(q.len() - 1);
                tmp.push(q.len() - 1);
                desc.push(format!("alloc q{}", q.len() - 1));
                continue;
            }
            if planted.is_none() && o.alloc && tmp.len() > extra_out && t.one_in(10) {
                let k = tmp.remove(t.draw(tmp.len() as u32) as usize);
                live.retain(|&x| x != k);
                b.add_dataflow_op(TketOp::QFree, [q[k]]).unwrap();
                desc.push(format!("free q{k}"));
                continue;
            }
            let mut op = match &planted {
                Some((op, _)) => *op,
                None => *t.pick(o.set),
            };
            let arity = match op {
                TketOp::CX | TketOp::CZ | TketOp::CY | TketOp::CRz => 2,
                TketOp::Toffoli => 3,
                _ => 1,
            };
            if arity > live.len() {
                op = TketOp::H;
            }
            let arity = arity.min(if op == TketOp::H { 1 } else { 3 });
            let mut pool = live.clone();
            let mut args = vec![];
            if let Some((_, q)) = &planted {
                args = q.clone();
            } else {
                for _ in 0..arity {
                    args.push(pool.remove(t.draw(pool.len() as u32) as usize));
                }
            }
            let mut wires: Vec<Wire> = args.iter().map(|&k| q[k]).collect();
            let mut a_desc = String::new();
            if matches!(op, TketOp::Rz | TketOp::Rx | TketOp::Ry | TketOp::CRz) {
                let w = if !ang.is_empty() && t.chance(1, 2) {
                    let i = t.draw(ang.len() as u32) as usize;
                    a_desc = format!(" a{i}");
                    if o.arith && t.one_in(3) {
                        let j = t.draw(ang.len() as u32) as usize;
                        let w = b.add_dataflow_op(RotationOp::radd, [ang[i], ang[j]]).unwrap().out_wire(0);
                        ang.push(w);
                        a_desc = format!(" a{i}+a{j}");
                        w
                    } else {
                        ang[i]
                    }
                } else {
                    let i = t.draw(ANGLES.len() as u32) as usize;
                    a_desc = format!(" {}", ANGLES[i]);
                    if let (Some(w), true) = (consts.get(&i), t.chance(1, 2)) {
                        *w
                    } else if o.arith && t.one_in(4) {
                        let f = b.add_load_value(ConstF64::new(ANGLES[i]));
                        b.add_dataflow_op(RotationOp::from_halfturns_unchecked, [f]).unwrap().out_wire(0)
                    } else {
                        let w = b.add_load_value(ConstRotation::new(ANGLES[i]).unwrap());
                        consts.insert(i, w);
                        w
                    }
                };
                wires.push(w);
            }
            desc.push(format!("{op:?} {args:?}{a_desc}"));
            let r = b.add_dataflow_op(op, wires).unwrap();
            for (k, w) in args.iter().zip(r.outputs()) {
                q[*k] = w;
            }
        }
        while tmp.len() > extra_out {
            let k = tmp.pop().unwrap();
            live.retain(|&x| x != k);
            b.add_dataflow_op(TketOp::QFree, [q[k]]).unwrap();
        }
        while tmp.len() < extra_out {
            let w = b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0);
            q.push(w);
            tmp.push(q.len() - 1);
            live.push(q.len() - 1);
        }
        let mut out: Vec<Wire> = vec![];
        // output permutation
        let mut pool = live.clone();
        let permute = t.one_in(3);
        while !pool.is_empty() {
            let i = if permute { t.draw(pool.len() as u32) as usize } else { 0 };
            out.push(q[pool.remove(i)]);
        }
        for _ in 0..out_params {
            out.push(ang[t.draw(ang.len() as u32) as usize]);
        }
        out
    }
    let hugr = if o.dfg_root && t.one_in(2) {
        let mut b = DFGBuilder::new(sig).unwrap();
        let w = body(&mut b, t, o, nq, np, ng, extra_out, out_params, &mut desc);
        b.finish_hugr_with_outputs(w).unwrap()
    } else {
        let mut b = FunctionBuilder::new("main", sig).unwrap();
        let w = body(&mut b, t, o, nq, np, ng, extra_out, out_params, &mut desc);
        b.finish_hugr_with_outputs(w).unwrap()
    };
    (Circuit::new(hugr), desc)
}

#[derive(Clone, Copy, Debug)]
enum Val {
    Q(u64),
    A(f64),
}

/// What a flat circuit does.
pub struct Flat {
    pub state: State,
    pub out_q: Vec<u64>,
    pub out_a: Vec<f64>,
    pub gates: usize,
}

/// Topological order of a region's nodes.
pub fn topo<H: HugrView<Node = Node>>(h: &H, parent: Node) -> Vec<Node> {
    let kids: Vec<Node> = h.children(parent).collect();
    let set: std::collections::BTreeSet<Node> = kids.iter().copied().collect();
    let mut indeg: BTreeMap<Node, usize> = BTreeMap::new();
    for &k in &kids {
        let mut d = 0;
        for p in h.node_inputs(k) {
            for (n, _) in h.linked_outputs(k, p) {
                if set.contains(&n) {
                    d += 1;
                }
            }
        }
        indeg.insert(k, d);
    }
    let mut ready: std::collections::VecDeque<Node> = kids.iter().copied().filter(|k| indeg[k] == 0).collect();
    let mut out = vec![];
    while let Some(n) = ready.pop_front() {
        out.push(n);
        for p in h.node_outputs(n) {
            for (m, _) in h.linked_inputs(n, p) {
                if let Some(d) = indeg.get_mut(&m) {
                    *d -= 1;
                    if *d == 0 {
                        ready.push_back(m);
                    }
                }
            }
        }
    }
    out
}

pub fn gate_of(op: TketOp, a: Option<f64>) -> Option<Gate> {
    Some(match op {
        TketOp::H => Gate::H,
        TketOp::X => Gate::X,
        TketOp::Y => Gate::Y,
        TketOp::Z => Gate::Zg,
        TketOp::S => Gate::S,
        TketOp::Sdg => Gate::Sdg,
        TketOp::T => Gate::T,
        TketOp::Tdg => Gate::Tdg,
        TketOp::V => Gate::V,
        TketOp::Vdg => Gate::Vdg,
        TketOp::CX => Gate::CX,
        TketOp::CY => Gate::CY,
        TketOp::CZ => Gate::CZ,
        TketOp::Toffoli => Gate::Toffoli,
        TketOp::Rx => Gate::Rx(a?),
        TketOp::Ry => Gate::Ry(a?),
        TketOp::Rz => Gate::Rz(a?),
        TketOp::CRz => Gate::CRz(a?),
        _ => return None,
    })
}

/// Runs a flat circuit on the given input state; `Err` if it is not a flat
/// circuit of the operations the generators use.
pub fn eval(circ: &Circuit, init: &State, in_q: &[u64], angles: &[f64]) -> Result<Flat, String> {
    let h = circ.hugr();
    let parent = circ.parent();
    let mut st = init.clone();
    let mut next = 1000u64;
    let mut vals: HashMap<(Node, usize), Val> = HashMap::new();
    let mut out_q = vec![];
    let mut out_a = vec![];
    let mut gates = 0;
    let order = topo(h, parent);
    if order.len() != h.children(parent).count() {
        return Err("cyclic circuit".into());
    }
    for n in order {
        let op = h.get_optype(n);
        let ins: Vec<Val> = h
            .in_value_types(n)
            .filter_map(|(p, _)| {
                let (m, q) = h.single_linked_output(n, p)?;
                vals.get(&(m, q.index())).copied()
            })
            .collect();
        let nin = h.in_value_types(n).count();
        if ins.len() != nin {
            return Err(format!("disconnected input at {op}"));
        }
        let q = |i: usize| match ins[i] {
            Val::Q(x) => Ok(x),
            _ => Err("type".to_string()),
        };
        let a = |i: usize| match ins[i] {
            Val::A(x) => Ok(x),
            _ => Err("type".to_string()),
        };
        let mut set = |p: usize, v: Val| {
            vals.insert((n, p), v);
        };
        match op {
            OpType::Input(_) => {
                let (mut iq, mut ia) = (0, 0);
                for (p, ty) in h.out_value_types(n) {
                    if ty == qb_t() {
                        set(p.index(), Val::Q(*in_q.get(iq).ok_or("too many qubit inputs")?));
                        iq += 1;
                    } else {
                        set(p.index(), Val::A(*angles.get(ia).ok_or("too many angle inputs")?));
                        ia += 1;
                    }
                }
                if iq != in_q.len() {
                    return Err("number of qubit inputs changed".into());
                }
            }
            OpType::Output(_) => {
                for v in ins {
                    match v {
                        Val::Q(x) => out_q.push(x),
                        Val::A(x) => out_a.push(x),
                    }
                }
            }
            OpType::Const(_) => {}
            OpType::LoadConstant(_) => {
                let c = h.static_source(n).ok_or("no const")?;
                let OpType::Const(c) = h.get_optype(c) else { return Err("const".into()) };
                let v = c.value();
                let x = if let Some(r) = v.get_custom_value::<ConstRotation>() {
                    r.half_turns()
                } else if let Some(f) = v.get_custom_value::<ConstF64>() {
                    f.value()
                } else {
                    return Err(format!("const {v:?}"));
                };
                set(0, Val::A(x));
            }
            _ => {
                if let Some(t) = op.cast::<TketOp>() {
                    gates += 1;
                    match t {
                        TketOp::QAlloc => {
                            st.alloc(next);
                            set(0, Val::Q(next));
                            next += 1;
                        }
                        TketOp::QFree => {
                            q(0)?;
                        }
                        _ => {
                            let nq = h.out_value_types(n).count();
                            let ids: Vec<u64> = (0..nq).map(q).collect::<Result<_, _>>()?;
                            let ang = if nin > nq { Some(a(nq)?) } else { None };
                            let g = gate_of(t, ang).ok_or(format!("gate {t:?}"))?;
                            st.gate(g, &ids);
                            for (i, x) in ids.into_iter().enumerate() {
                                set(i, Val::Q(x));
                            }
                        }
                    }
                } else if let Some(r) = op.cast::<RotationOp>() {
                    let v = match r {
                        RotationOp::radd => a(0)? + a(1)?,
                        RotationOp::from_halfturns_unchecked | RotationOp::to_halfturns => a(0)?,
                        _ => return Err(format!("op {r:?}")),
                    };
                    set(0, Val::A(v));
                } else if let Some(f) = op.cast::<FloatOps>() {
                    let v = match f {
                        FloatOps::fadd => a(0)? + a(1)?,
                        FloatOps::fsub => a(0)? - a(1)?,
                        FloatOps::fmul => a(0)? * a(1)?,
                        FloatOps::fdiv => a(0)? / a(1)?,
                        FloatOps::fneg => -a(0)?,
                        _ => return Err(format!("op {f:?}")),
                    };
                    set(0, Val::A(v));
                } else if op.to_string() == "prelude.Noop" {
                    let v = ins[0];
                    set(0, v);
                } else {
                    return Err(format!("op {op}"));
                }
            }
        }
    }
    Ok(Flat { state: st, out_q, out_a, gates })
}

/// A product state of n qubits in generic directions.
fn product_state(n: usize, salt: u64) -> State {
    let mut s = State::default();
    let mut r = crate::tape::Rng::new(salt);
    for i in 0..n {
        s.alloc(i as u64);
        let mut x = || r.below(10000) as f64 / 5000.0 - 1.0;
        let (a, b, c) = (x(), x(), x());
        s.gate(Gate::Rz(a), &[i as u64]);
        s.gate(Gate::Rx(b), &[i as u64]);
        s.gate(Gate::Rz(c), &[i as u64]);
    }
    s
}

/// Entangled generic state.
fn generic_state(n: usize, salt: u64) -> State {
    let mut s = product_state(n, salt);
    for i in 1..n {
        s.gate(Gate::CX, &[(i - 1) as u64, i as u64]);
        s.gate(Gate::Ry(0.37 + i as f64 * 0.11), &[i as u64]);
    }
    s
}

pub fn io_shape(c: &Circuit) -> (Vec<Type>, Vec<Type>) {
    let s = c.circuit_signature();
    (s.input().iter().cloned().collect(), s.output().iter().cloned().collect())
}

/// Compares two flat circuits on generic inputs. Err(description) if they differ.
pub fn equivalent(a: &Circuit, b: &Circuit) -> Result<(), String> {
    let (x, y) = (io_shape(a), io_shape(b));
    if x != y {
        return Err(format!("interface changed: {} vs {}", shape_text(&x), shape_text(&y)));
    }
    equivalent_with(a, b, None)
}

fn shape_text(s: &(Vec<Type>, Vec<Type>)) -> String {
    let l = |v: &Vec<Type>| v.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(",");
    format!("{} -> {}", l(&s.0), l(&s.1))
}

/// As `equivalent`, with `b`'s angle inputs being the listed ones of `a`.
pub fn equivalent_with(a: &Circuit, b: &Circuit, map: Option<&[usize]>) -> Result<(), String> {
    let nq = io_shape(a).0.iter().filter(|t| **t == qb_t()).count();
    let np = io_shape(a).0.len() - nq;
    let in_q: Vec<u64> = (0..nq as u64).collect();
    for salt in 0..2u64 {
        let angles: Vec<f64> = (0..np).map(|i| 0.173 * (i as f64 + 1.0) * (salt as f64 + 1.3) - 0.4).collect();
        let init = if salt == 0 { generic_state(nq, 11) } else { product_state(nq, 23) };
        let x = eval(a, &init, &in_q, &angles).map_err(|e| format!("HARNESS original not evaluable: {e}"))?;
        let mapped: Vec<f64> = match map {
            Some(m) => m.iter().map(|&i| angles[i]).collect(),
            None => angles.clone(),
        };
        let y = eval(b, &init, &in_q, &mapped).map_err(|e| format!("result not evaluable: {e}"))?;
        if x.out_q.len() != y.out_q.len() || (map.is_none() && x.out_a.len() != y.out_a.len()) {
            return Err("output shape differs".into());
        }
        for (p, q) in x.out_a.iter().zip(&y.out_a) {
            let d = (p - q).rem_euclid(4.0);
            if d.min(4.0 - d) > 1e-9 {
                return Err(format!("angle output differs: {p} vs {q}"));
            }
        }
        let pure = x.state.ids.len() == x.out_q.len() && y.state.ids.len() == y.out_q.len();
        if pure {
            let f = crate::qsim::fidelity(&x.state.ordered(&x.out_q), &y.state.ordered(&y.out_q));
            if !((f - 1.0).abs() < 1e-7) {
                return Err(format!("unitaries differ (fidelity {f})"));
            }
        } else {
            let d = crate::qsim::max_diff(&x.state.reduced(&x.out_q), &y.state.reduced(&y.out_q));
            if !(d < 1e-7) {
                return Err(format!("channels differ (max entry difference {d})"));
            }
        }
    }
    Ok(())
}

/// Key of graphs with a cycle (rewrites that are valid one by one may not compose).
pub const CYCLIC: &str = "cyclic";

/// Key that is equal for circuits that are equal up to node numbering.
pub fn canon<H: HugrView<Node = Node>>(h: &H, parent: Node) -> String {
    // Numbers nodes by a depth-first walk from the outputs.
    let mut ids: HashMap<Node, usize> = HashMap::new();
    let mut text: Vec<String> = vec![];
    let visit = |root: Node, ids: &mut HashMap<Node, usize>, text: &mut Vec<String>| -> bool {
        let mut open: std::collections::HashSet<Node> = [root].into();
        // (node, its data predecessors, next one to visit)
        let preds = |n: Node| -> Vec<(Node, usize)> {
            h.node_inputs(n).flat_map(|p| h.linked_outputs(n, p).map(|(m, q)| (m, q.index())).collect::<Vec<_>>()).collect()
        };
        let mut stack = vec![(root, preds(root), 0usize)];
        while let Some((n, ps, k)) = stack.last_mut() {
            if *k < ps.len() {
                let m = ps[*k].0;
                *k += 1;
                if !ids.contains_key(&m) && !matches!(h.get_optype(m), OpType::Const(_)) {
                    if !open.insert(m) {
                        return false;
                    }
                    let pm = preds(m);
                    stack.push((m, pm, 0));
                }
                continue;
            }
            let n = *n;
            if !ids.contains_key(&n) {
                let d: Vec<String> = ps
                    .iter()
                    .map(|(m, q)| match h.get_optype(*m) {
                        OpType::Const(c) => format!("{:?}", c.value()),
                        _ => format!("{}.{q}", ids[m]),
                    })
                    .collect();
                ids.insert(n, ids.len());
                let inner = if h.first_child(n).is_some() { format!("{{{}}}", canon(h, n)) } else { String::new() };
                text.push(format!("{}{inner}({})", h.get_optype(n), d.join(",")));
            }
            open.remove(&n);
            stack.pop();
        }
        true
    };
    if let Some([_, out]) = h.get_io(parent) {
        if !visit(out, &mut ids, &mut text) {
            return CYCLIC.into();
        }
    }
    // sinks such as QFree, in a canonical order
    let mut sinks: Vec<String> = h
        .children(parent)
        .filter(|n| !ids.contains_key(n) && !matches!(h.get_optype(*n), OpType::Const(_) | OpType::Input(_)))
        .map(|n| h.get_optype(n).to_string())
        .collect();
    sinks.sort();
    format!("{};{}", text.join(";"), sinks.join(";"))
}

pub fn canon_circ(c: &Circuit) -> String {
    canon(c.hugr(), c.parent())
}

/// Follows a wire forward: the single consumer of an output port.
pub fn consumer<H: HugrView<Node = Node>>(h: &H, n: Node, p: usize) -> Option<(Node, usize)> {
    h.single_linked_input(n, OutgoingPort::from(p)).map(|(m, q)| (m, q.index()))
}

pub fn float_ty() -> Type {
    float64_type()
}
