//! C25: the circuits that modified calls are replaced with.

use hugr::algorithms::ComposablePass;
use hugr::builder::{BuildHandle, Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer};
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::extension::simple_op::MakeExtensionOp;
use hugr::ops::handle::{FuncID, NodeHandle};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::{CallIndirect, OpType, Value};
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::std_extensions::collections::array::{array_type, ArrayOpBuilder};
use hugr::types::{Signature, Term, Type};
use hugr::{type_row, Hugr, HugrView, Node, Wire};
use tket::extension::global_phase::GlobalPhase;
use tket::extension::modifier::{Modifier, CONTROL_OP_ID, DAGGER_OP_ID, MODIFIER_EXTENSION, POWER_OP_ID};
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::modifier::ModifierResolverPass;
use tket::TketOp;

use crate::dev::listing;
use crate::device::{Dev, DevCfg};
use crate::interp::{Interp, Stop, V};
use crate::qsim::{fidelity, mat1, Gate, State, C};
use crate::runner::*;
use crate::simrt::quiet;
use crate::tape::Tape;

/// An angle in half turns.
#[derive(Clone, Debug)]
enum Ang {
    Const(f64),
    Param(usize),
    /// A parameter plus a constant.
    Add(usize, f64),
    /// A function of a parameter: its double (0; 2: called indirectly) or its
    /// sum with a constant (1).
    Fun(u8, usize, f64),
}

#[derive(Clone, Debug, PartialEq)]
enum Mod {
    Control(usize),
    Dagger,
    Power(u64),
}

#[derive(Clone, Debug)]
struct Call {
    f: usize,
    /// The modifiers, the innermost first; none and `plain`: a direct call.
    mods: Vec<Mod>,
    plain: bool,
    /// The controls, those of the innermost modifier first.
    ctl: Vec<usize>,
    at: Vec<usize>,
    params: Vec<Ang>,
    flag: bool,
}

#[derive(Clone, Debug)]
enum Op {
    Gate(TketOp, Vec<usize>, Option<Ang>),
    Phase(Ang),
    Call(Call),
    /// A DFG, or a CFG of one block; the order of the angle and qubit inputs.
    Block(Vec<Op>, bool, u8),
    /// A conditional on the flag (true) or a constant.
    Cond(Option<bool>, [Vec<Op>; 2]),
    /// Repeats; with the counter (true) among the values that are always there.
    Loop(u64, Vec<Op>, bool),
    /// Into an array and back.
    Pack(Vec<usize>, u8),
}

#[derive(Clone, Debug)]
struct Func {
    n: usize,
    /// The first qubits are passed as an array of this length.
    arr: usize,
    params: usize,
    /// There is a boolean parameter.
    flag: bool,
    /// The order of the angle and qubit inputs (only functions with qubits first are called
    /// through modifiers).
    order: u8,
    ops: Vec<Op>,
    cfg: bool,
}

impl Func {
    fn quantum(&self) -> Vec<Type> {
        let mut v = vec![];
        if self.arr > 0 {
            v.push(array_type(self.arr as u64, qb_t()));
        }
        v.extend(vec![qb_t(); self.n - self.arr]);
        v
    }
    fn others(&self) -> Vec<Type> {
        let mut v = vec![rotation_type(); self.params];
        if self.flag {
            v.push(bool_t());
        }
        v
    }
    fn sig(&self) -> Signature {
        let (q, o) = (self.quantum(), self.others());
        Signature::new(mix(self.order, q.clone(), o), q)
    }
}

const ANGLES: &[f64] = &[0.25, 0.3, 1.0, -0.125, 0.7, 1.5, 0.05];

fn ang(t: &mut Tape, params: usize) -> Ang {
    let c = *t.pick(ANGLES);
    if params > 0 && t.one_in(2) {
        let p = t.draw(params as u32) as usize;
        if t.one_in(4) {
            Ang::Fun(t.draw(3) as u8, p, c)
        } else if t.one_in(3) {
            Ang::Add(p, c)
        } else {
            Ang::Param(p)
        }
    } else {
        Ang::Const(c)
    }
}

fn pick(t: &mut Tape, n: usize, k: usize) -> Vec<usize> {
    let mut all: Vec<usize> = (0..n).collect();
    (0..k).map(|_| all.swap_remove(t.draw(all.len() as u32) as usize)).collect()
}

const ONE: &[TketOp] = &[
    TketOp::X,
    TketOp::Y,
    TketOp::Z,
    TketOp::H,
    TketOp::S,
    TketOp::Sdg,
    TketOp::T,
    TketOp::Tdg,
    TketOp::V,
    TketOp::Vdg,
];

struct Gen {
    fns: Vec<Func>,
    /// loops may appear (then no dagger does)
    loops: bool,
    powers: bool,
}

impl Gen {
    fn call(&self, t: &mut Tape, n: usize, params: usize, must_mod: bool, budget: usize) -> Option<Call> {
        let fits: Vec<usize> = (0..self.fns.len()).filter(|&i| self.fns[i].n <= n && !(must_mod && self.fns[i].order > 0)).collect();
        if fits.is_empty() {
            return None;
        }
        let f = *t.pick(&fits);
        let g = &self.fns[f];
        let mut room = (n - g.n).min(budget);
        let mut mods = vec![];
        let plain = !must_mod && (g.order > 0 || t.one_in(2));
        if !plain {
            for _ in 0..if must_mod { 1 } else { 0 } + t.draw(3) {
                match t.draw(if self.powers { 4 } else { 3 }) {
                    0 if !self.loops => mods.push(Mod::Dagger),
                    0 | 1 | 2 if room > 0 => {
                        let c = 1 + t.draw(room.min(3) as u32) as usize;
                        room -= c;
                        mods.push(Mod::Control(c));
                    }
                    3 => mods.push(Mod::Power(1 + t.draw(3) as u64)),
                    _ => {}
                }
            }
        }
        let c: usize = mods.iter().map(|m| if let Mod::Control(c) = m { *c } else { 0 }).sum();
        let all = pick(t, n, g.n + c);
        let params = (0..g.params).map(|_| ang(t, params)).collect();
        Some(Call { f, mods, plain, ctl: all[g.n..].to_vec(), at: all[..g.n].to_vec(), params, flag: t.one_in(2) })
    }

    fn ops(&self, t: &mut Tape, n: usize, params: usize, flag: bool, depth: u32, most: u32) -> Vec<Op> {
        let mut v = vec![];
        for _ in 0..1 + t.draw(most) {
            v.push(match t.draw(if depth > 0 { 16 } else { 11 }) {
                0..=3 => Op::Gate(*t.pick(ONE), pick(t, n, 1), None),
                4 | 5 => {
                    let a = ang(t, params);
                    Op::Gate([TketOp::Rz, TketOp::Rx, TketOp::Ry][t.draw(3) as usize], pick(t, n, 1), Some(a))
                }
                6 | 7 if n > 1 => match t.draw(5) {
                    4 => {
                        let a = ang(t, params);
                        Op::Gate(TketOp::CRz, pick(t, n, 2), Some(a))
                    }
                    3 if n > 2 => Op::Gate(TketOp::Toffoli, pick(t, n, 3), None),
                    k => Op::Gate([TketOp::CX, TketOp::CY, TketOp::CZ][k as usize % 3], pick(t, n, 2), None),
                },
                8 => Op::Phase(ang(t, params)),
                9 | 10 => match self.call(t, n, params, false, 2) {
                    Some(c) => Op::Call(c),
                    None => continue,
                },
                11 => Op::Block(self.ops(t, n, params, flag, depth - 1, 3), t.one_in(3), t.draw(4).saturating_sub(1) as u8),
                12 | 13 => {
                    let c = if flag && t.one_in(2) { None } else { Some(t.one_in(2)) };
                    Op::Cond(c, [self.ops(t, n, params, flag, depth - 1, 3), self.ops(t, n, params, flag, depth - 1, 3)])
                }
                14 if self.loops => Op::Loop(1 + t.draw(3) as u64, self.ops(t, n, params, flag, depth - 1, 3), t.one_in(2)),
                15 => {
                    let k = 1 + t.draw(n as u32) as usize;
                    Op::Pack(pick(t, n, k), t.draw(3) as u8)
                }
                _ => continue,
            });
        }
        v
    }
}

fn has(ops: &[Op], p: &dyn Fn(&Op) -> bool) -> bool {
    ops.iter().any(|o| {
        p(o) || match o {
            Op::Block(b, _, _) | Op::Loop(_, b, _) => has(b, p),
            Op::Cond(_, c) => has(&c[0], p) || has(&c[1], p),
            _ => false,
        }
    })
}

// ---------------------------------------------------------------- programs

struct Env<'a> {
    fns: &'a [(FuncID<true>, Func)],
    /// Functions of angles only, which no modifier needs to change.
    ang: &'a [FuncID<true>; 2],
}

fn rot<B: Dataflow>(b: &mut B, x: f64) -> Wire {
    b.add_load_value(ConstRotation::new(x).unwrap())
}

fn angle<B: Dataflow>(b: &mut B, a: &Ang, params: &[Wire], env: &Env) -> Wire {
    match a {
        Ang::Const(x) => rot(b, *x),
        Ang::Param(p) => params[*p],
        Ang::Add(p, x) => {
            let c = rot(b, *x);
            b.add_dataflow_op(RotationOp::radd, [params[*p], c]).unwrap().out_wire(0)
        }
        Ang::Fun(0, p, _) => b.call(&env.ang[0], &[], [params[*p]]).unwrap().out_wire(0),
        Ang::Fun(2, p, _) => {
            let f = b.load_func(&env.ang[0], &[]).unwrap();
            let signature = Signature::new_endo(vec![rotation_type()]);
            b.add_dataflow_op(CallIndirect { signature }, [f, params[*p]]).unwrap().out_wire(0)
        }
        Ang::Fun(_, p, x) => {
            let c = rot(b, *x);
            b.call(&env.ang[1], &[], [params[*p], c]).unwrap().out_wire(0)
        }
    }
}

/// Qubits first, the others first, or in turns.
fn mix<T>(order: u8, q: Vec<T>, o: Vec<T>) -> Vec<T> {
    match order {
        0 => q.into_iter().chain(o).collect(),
        1 => o.into_iter().chain(q).collect(),
        _ => {
            let (mut q, mut o) = (q.into_iter(), o.into_iter());
            let mut v = vec![];
            loop {
                match (q.next(), o.next()) {
                    (None, None) => return v,
                    (a, b) => v.extend(a.into_iter().chain(b)),
                }
            }
        }
    }
}

/// The inverse of [`mix`]: the qubits (`n` of them) and the others.
fn unmix(order: u8, n: usize, w: &[Wire]) -> (Vec<Wire>, Vec<Wire>) {
    let at = mix(order, (0..n).collect(), (n..w.len()).collect());
    let mut v = w.to_vec();
    for (i, k) in at.into_iter().enumerate() {
        v[k] = w[i];
    }
    let o = v.split_off(n);
    (v, o)
}

fn take(w: &[Wire], at: &[usize]) -> Vec<Wire> {
    at.iter().map(|&i| w[i]).collect()
}

fn put(w: &mut [Wire], at: &[usize], o: impl IntoIterator<Item = Wire>) {
    for (i, x) in at.iter().zip(o) {
        w[*i] = x;
    }
}

fn boolean<B: Dataflow>(b: &mut B, x: bool) -> Wire {
    b.add_load_value(if x { Value::true_val() } else { Value::false_val() })
}

fn call<B: Dataflow>(b: &mut B, c: &Call, env: &Env, w: &mut [Wire], params: &[Wire]) {
    let (id, g) = &env.fns[c.f];
    let mut q = take(w, &c.at);
    let mut args: Vec<Wire> = vec![];
    if g.arr > 0 {
        let first: Vec<Wire> = q.drain(..g.arr).collect();
        args.push(b.add_new_array(qb_t(), first).unwrap());
    }
    args.extend(q);
    let mut oth: Vec<Wire> = c.params.iter().map(|a| angle(b, a, params, env)).collect();
    if g.flag {
        oth.push(boolean(b, c.flag));
    }
    let args = mix(g.order, args, oth);
    let mut out: Vec<Wire>;
    if c.plain {
        out = b.call(id, &[], args).unwrap().outputs().collect();
    } else {
        let mut h = b.load_func(id, &[]).unwrap();
        let others = Term::from(g.others().into_iter().map(Term::from).collect::<Vec<_>>());
        let (mut sizes, mut ctl, mut at) = (vec![], vec![], 0);
        for m in &c.mods {
            let mut row: Vec<Term> = sizes.iter().rev().map(|&c| Term::from(array_type(c as u64, qb_t()))).collect();
            row.extend(g.quantum().into_iter().map(Term::from));
            let row = Term::from(row);
            match m {
                Mod::Dagger => {
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&DAGGER_OP_ID, [row, others.clone()]).unwrap();
                    h = b.add_dataflow_op(op, [h]).unwrap().out_wire(0);
                }
                Mod::Control(k) => {
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&CONTROL_OP_ID, [Term::BoundedNat(*k as u64), row, others.clone()]).unwrap();
                    h = b.add_dataflow_op(op, [h]).unwrap().out_wire(0);
                    sizes.push(*k);
                    ctl.push(c.ctl[at..at + k].to_vec());
                    at += k;
                }
                Mod::Power(k) => {
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&POWER_OP_ID, [row, others.clone()]).unwrap();
                    let e = b.add_load_value(ConstInt::new_u(6, *k).unwrap());
                    h = b.add_dataflow_op(op, [h, e]).unwrap().out_wire(0);
                }
            }
        }
        let sig = g.sig();
        let arrs: Vec<Type> = sizes.iter().rev().map(|&c| array_type(c as u64, qb_t())).collect();
        let ins: Vec<Type> = arrs.iter().cloned().chain(sig.input.iter().cloned()).collect();
        let outs: Vec<Type> = arrs.iter().cloned().chain(sig.output.iter().cloned()).collect();
        let mut all = vec![h];
        for g in ctl.iter().rev() {
            let q = take(w, g);
            all.push(b.add_new_array(qb_t(), q).unwrap());
        }
        all.extend(args);
        out = b.add_dataflow_op(CallIndirect { signature: Signature::new(ins, outs) }, all).unwrap().outputs().collect();
        for g in ctl.iter().rev() {
            let q = b.add_array_unpack(qb_t(), g.len() as u64, out.remove(0)).unwrap();
            put(w, g, q);
        }
    }
    if g.arr > 0 {
        let mut q = b.add_array_unpack(qb_t(), g.arr as u64, out.remove(0)).unwrap();
        q.extend(out);
        out = q;
    }
    put(w, &c.at, out);
}

fn body<B: Dataflow>(b: &mut B, ops: &[Op], env: &Env, w: &mut Vec<Wire>, params: &[Wire], flag: Option<Wire>) {
    let n = w.len();
    let np = params.len();
    for o in ops {
        match o {
            Op::Gate(g, at, a) => {
                let mut args = take(w, at);
                if let Some(a) = a {
                    args.push(angle(b, a, params, env));
                }
                let r: Vec<Wire> = b.add_dataflow_op(*g, args).unwrap().outputs().collect();
                put(w, at, r);
            }
            Op::Phase(a) => {
                let a = angle(b, a, params, env);
                b.add_dataflow_op(GlobalPhase, [a]).unwrap();
            }
            Op::Call(c) => call(b, c, env, w, params),
            Op::Block(inner, cfg, order) => {
                let mut oth: Vec<(Type, Wire)> = params.iter().map(|&p| (rotation_type(), p)).collect();
                oth.extend(flag.map(|f| (bool_t(), f)));
                let qs: Vec<(Type, Wire)> = w.iter().map(|&x| (qb_t(), x)).collect();
                let ins: Vec<(Type, Wire)> = mix(*order, qs, oth);
                let split = |i: Vec<Wire>| {
                    let (q, o) = unmix(*order, n, &i);
                    (q, o[..np].to_vec(), o.get(np).copied())
                };
                if *cfg {
                    let mut c = b.cfg_builder(ins, vec![qb_t(); n].into()).unwrap();
                    let mut e = c.entry_builder([type_row![]], vec![qb_t(); n].into()).unwrap();
                    let (mut q, p, f) = split(e.input_wires().collect());
                    body(&mut e, inner, env, &mut q, &p, f);
                    let s = e.add_load_value(Value::unary_unit_sum());
                    let e = e.finish_with_outputs(s, q).unwrap();
                    let x = c.exit_block();
                    c.branch(&e, 0, &x).unwrap();
                    *w = c.finish_sub_container().unwrap().outputs().collect();
                } else {
                    let outs: Vec<Type> = vec![qb_t(); n];
                    let (ts, ws): (Vec<Type>, Vec<Wire>) = ins.into_iter().unzip();
                    let mut d = b.dfg_builder(Signature::new(ts, outs), ws).unwrap();
                    let (mut q, p, f) = split(d.input_wires().collect());
                    body(&mut d, inner, env, &mut q, &p, f);
                    *w = d.finish_with_outputs(q).unwrap().outputs().collect();
                }
            }
            Op::Cond(c, cases) => {
                let s = match c {
                    Some(x) => boolean(b, *x),
                    None => flag.unwrap(),
                };
                let mut ins: Vec<(Type, Wire)> = w.iter().map(|&x| (qb_t(), x)).collect();
                ins.extend(params.iter().map(|&p| (rotation_type(), p)));
                ins.extend(flag.map(|f| (bool_t(), f)));
                let mut k = b.conditional_builder(([type_row![], type_row![]], s), ins, vec![qb_t(); n].into()).unwrap();
                for (i, inner) in cases.iter().enumerate() {
                    let mut d = k.case_builder(i).unwrap();
                    let i: Vec<Wire> = d.input_wires().collect();
                    let mut q = i[..n].to_vec();
                    body(&mut d, inner, env, &mut q, &i[n..n + np], i.get(n + np).copied());
                    d.finish_with_outputs(q).unwrap();
                }
                *w = k.finish_sub_container().unwrap().outputs().collect();
            }
            Op::Loop(times, inner, rest) => {
                use hugr::std_extensions::arithmetic::int_ops::IntOpDef;
                use hugr::std_extensions::arithmetic::int_types::int_type;
                let it = int_type(6);
                let zero = b.add_load_value(ConstInt::new_u(6, 0).unwrap());
                let mut r: Vec<(Type, Wire)> = w.iter().map(|&x| (qb_t(), x)).collect();
                r.extend(params.iter().map(|&p| (rotation_type(), p)));
                r.extend(flag.map(|f| (bool_t(), f)));
                let mut just = vec![];
                if *rest {
                    r.push((it.clone(), zero));
                } else {
                    just.push((it.clone(), zero));
                }
                let tys: Vec<Type> = r.iter().map(|x| x.0.clone()).collect();
                let mut l = b.tail_loop_builder(just, r, type_row![]).unwrap();
                let i: Vec<Wire> = l.input_wires().collect();
                let off = usize::from(!*rest);
                let mut q = i[off..off + n].to_vec();
                let ps = i[off + n..off + n + np].to_vec();
                let f = flag.map(|_| i[off + n + np]);
                let ctr = if *rest { *i.last().unwrap() } else { i[0] };
                body(&mut l, inner, env, &mut q, &ps, f);
                let one = l.add_load_value(ConstInt::new_u(6, 1).unwrap());
                let ctr = l.add_dataflow_op(IntOpDef::iadd.with_log_width(6), [ctr, one]).unwrap().out_wire(0);
                let lim = l.add_load_value(ConstInt::new_u(6, *times).unwrap());
                let more = l.add_dataflow_op(IntOpDef::ilt_u.with_log_width(6), [ctr, lim]).unwrap().out_wire(0);
                // continue (0, with the counter) or stop (1)
                let row: Vec<Type> = if *rest { vec![] } else { vec![it.clone()] };
                let sum = Type::new_sum([hugr::types::TypeRow::from(row.clone()), type_row![]]);
                let mut k = l.conditional_builder(([type_row![], type_row![]], more), [(it.clone(), ctr)], vec![sum].into()).unwrap();
                for case in 0..2 {
                    let mut d = k.case_builder(case).unwrap();
                    let c: Vec<Wire> = d.input_wires().collect();
                    let (tag, vals) = if case == 1 { (0, if *rest { vec![] } else { c }) } else { (1, vec![]) };
                    let s = d.make_sum(tag, [row.clone().into(), type_row![]], vals).unwrap();
                    d.finish_with_outputs([s]).unwrap();
                }
                let s = k.finish_sub_container().unwrap().out_wire(0);
                let mut outs = q;
                outs.extend(ps);
                outs.extend(f);
                if *rest {
                    outs.push(ctr);
                }
                assert_eq!(outs.len(), tys.len());
                let h: BuildHandle<_> = l.finish_with_outputs(s, outs).unwrap();
                *w = h.outputs().take(n).collect();
            }
            Op::Pack(at, kind) => {
                use hugr::std_extensions::collections::borrow_array::{BArrayFromArray, BArrayToArray};
                let q = take(w, at);
                let k = at.len() as u64;
                let mut a = b.add_new_array(qb_t(), q).unwrap();
                if *kind == 1 {
                    a = b.add_dataflow_op(BArrayFromArray::new(qb_t(), k), [a]).unwrap().out_wire(0);
                    a = b.add_dataflow_op(BArrayToArray::new(qb_t(), k), [a]).unwrap().out_wire(0);
                }
                let q = b.add_array_unpack(qb_t(), k, a).unwrap();
                put(w, at, q);
            }
        }
    }
}

/// The program, its entry, and what it calls.
fn build(fns: &[Func], calls: &[Call], q: usize) -> (Hugr, Node) {
    let mut m = ModuleBuilder::new();
    let mut ids: Vec<(FuncID<true>, Func)> = vec![];
    let ang = [1, 2].map(|k| {
        let mut b = m.define_function(format!("angle{k}"), Signature::new(vec![rotation_type(); k], vec![rotation_type()])).unwrap();
        let i: Vec<Wire> = b.input_wires().collect();
        let o = b.add_dataflow_op(RotationOp::radd, [i[0], i[k - 1]]).unwrap().out_wire(0);
        *b.finish_with_outputs([o]).unwrap().handle()
    });
    for (i, f) in fns.iter().enumerate() {
        let mut b = m.define_function(format!("f{i}"), f.sig()).unwrap();
        b.set_metadata("unitary", 7);
        let ins: Vec<Wire> = b.input_wires().collect();
        let nq = f.quantum().len();
        let (qs, oth) = unmix(f.order, nq, &ins);
        fn inner<B: Dataflow>(b: &mut B, f: &Func, mut qs: Vec<Wire>, oth: &[Wire], env: &Env) -> Vec<Wire> {
            let mut w = vec![];
            if f.arr > 0 {
                w = b.add_array_unpack(qb_t(), f.arr as u64, qs.remove(0)).unwrap();
            }
            w.extend(qs);
            let flag = f.flag.then(|| oth[f.params]);
            body(b, &f.ops, env, &mut w, &oth[..f.params], flag);
            let mut out = vec![];
            if f.arr > 0 {
                let first: Vec<Wire> = w.drain(..f.arr).collect();
                out.push(b.add_new_array(qb_t(), first).unwrap());
            }
            out.extend(w);
            out
        }
        let env = Env { fns: &ids, ang: &ang };
        let out = if f.cfg {
            let sig = f.sig();
            let args: Vec<(Type, Wire)> = sig.input.iter().cloned().zip(ins.iter().copied()).collect();
            let mut c = b.cfg_builder(args, sig.output.clone()).unwrap();
            let mut e = c.entry_builder([type_row![]], sig.output.clone()).unwrap();
            let ins: Vec<Wire> = e.input_wires().collect();
            let (qs, oth) = unmix(f.order, nq, &ins);
            let o = inner(&mut e, f, qs, &oth, &env);
            let s = e.add_load_value(Value::unary_unit_sum());
            let e = e.finish_with_outputs(s, o).unwrap();
            let x = c.exit_block();
            c.branch(&e, 0, &x).unwrap();
            c.finish_sub_container().unwrap().outputs().collect()
        } else {
            inner(&mut b, f, qs, &oth, &env)
        };
        let id = *b.finish_with_outputs(out).unwrap().handle();
        ids.push((id, f.clone()));
    }
    let mut b = m.define_function("main", Signature::new(Vec::<Type>::new(), vec![qb_t(); q])).unwrap();
    let mut w: Vec<Wire> = (0..q).map(|_| b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0)).collect();
    let env = Env { fns: &ids, ang: &ang };
    body(&mut b, &prep(q), &env, &mut w, &[], None);
    for c in calls {
        call(&mut b, c, &env, &mut w, &[]);
    }
    let main = b.finish_with_outputs(w).unwrap().node();
    let mut h = m.finish_hugr().unwrap();
    h.set_entrypoint(main);
    h.validate().unwrap_or_else(|e| panic!("harness: {e}"));
    (h, main)
}

/// A generic state of all qubits.
fn prep(q: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..q {
        v.push(Op::Gate(TketOp::Ry, vec![i], Some(Ang::Const(0.31 + 0.113 * i as f64))));
        v.push(Op::Gate(TketOp::Rz, vec![i], Some(Ang::Const(0.17 + 0.271 * i as f64))));
    }
    for i in 1..q {
        v.push(Op::Gate(TketOp::CX, vec![i - 1, i], None));
        v.push(Op::Gate(TketOp::Rx, vec![i], Some(Ang::Const(0.41 + 0.057 * i as f64))));
    }
    v
}

// ------------------------------------------------------------------- model

struct Model<'a> {
    fns: &'a [Func],
    s: State,
    /// V is the square root of X (true) or a rotation.
    sqrt: bool,
}

fn val(a: &Ang, params: &[f64]) -> f64 {
    match a {
        Ang::Const(x) => *x,
        Ang::Param(p) => params[*p],
        Ang::Add(p, x) => params[*p] + x,
        Ang::Fun(0 | 2, p, _) => 2. * params[*p],
        Ang::Fun(_, p, x) => params[*p] + x,
    }
}

impl Model<'_> {
    fn mat(&mut self, m: [C; 4], target: u64, ctl: &[u64]) {
        let k = 1usize << self.s.pos(target);
        let mask: usize = ctl.iter().map(|&c| 1usize << self.s.pos(c)).sum();
        for i in 0..self.s.amp.len() {
            if i & k == 0 && i & mask == mask {
                let (a, b) = (self.s.amp[i], self.s.amp[i | k]);
                self.s.amp[i] = m[0] * a + m[1] * b;
                self.s.amp[i | k] = m[2] * a + m[3] * b;
            }
        }
    }

    fn gate(&mut self, g: TketOp, a: f64, q: &[u64], ctl: &[u64], dag: bool) {
        let (k, gate) = match g {
            TketOp::X => (0, Gate::X),
            TketOp::Y => (0, Gate::Y),
            TketOp::Z => (0, Gate::Zg),
            TketOp::H => (0, Gate::H),
            TketOp::S => (0, Gate::S),
            TketOp::Sdg => (0, Gate::Sdg),
            TketOp::T => (0, Gate::T),
            TketOp::Tdg => (0, Gate::Tdg),
            TketOp::V => (0, Gate::V),
            TketOp::Vdg => (0, Gate::Vdg),
            TketOp::Rx => (0, Gate::Rx(a)),
            TketOp::Ry => (0, Gate::Ry(a)),
            TketOp::Rz => (0, Gate::Rz(a)),
            TketOp::CX => (1, Gate::X),
            TketOp::CY => (1, Gate::Y),
            TketOp::CZ => (1, Gate::Zg),
            TketOp::CRz => (1, Gate::Rz(a)),
            TketOp::Toffoli => (2, Gate::X),
            _ => unreachable!(),
        };
        let mut m = mat1(gate).unwrap();
        if self.sqrt {
            let ph = match g {
                TketOp::V => 0.25,
                TketOp::Vdg => -0.25,
                _ => 0.,
            };
            for x in &mut m {
                *x = *x * C::cis(ph * std::f64::consts::PI);
            }
        }
        if dag {
            m = [m[0].conj(), m[2].conj(), m[1].conj(), m[3].conj()];
        }
        let mut c = ctl.to_vec();
        c.extend(&q[..k]);
        self.mat(m, q[k], &c);
    }

    fn call(&mut self, c: &Call, ids: &[u64], params: &[f64], ctl: &[u64], dag: bool) {
        let mut ctl = ctl.to_vec();
        ctl.extend(c.ctl.iter().map(|&i| ids[i]));
        let (mut d, mut reps) = (dag, 1);
        for m in &c.mods {
            match m {
                Mod::Dagger => d = !d,
                Mod::Power(k) => reps *= k,
                Mod::Control(_) => {}
            }
        }
        let at: Vec<u64> = c.at.iter().map(|&i| ids[i]).collect();
        let ps: Vec<f64> = c.params.iter().map(|a| val(a, params)).collect();
        let fns = self.fns;
        for _ in 0..reps {
            self.ops(&fns[c.f].ops, &at, &ps, c.flag, &ctl, d);
        }
    }

    fn ops(&mut self, ops: &[Op], ids: &[u64], params: &[f64], flag: bool, ctl: &[u64], dag: bool) {
        let order: Vec<&Op> = if dag { ops.iter().rev().collect() } else { ops.iter().collect() };
        for o in order {
            match o {
                Op::Gate(g, at, a) => {
                    let q: Vec<u64> = at.iter().map(|&i| ids[i]).collect();
                    let a = a.as_ref().map_or(0., |a| val(a, params));
                    self.gate(*g, a, &q, ctl, dag);
                }
                Op::Phase(a) => {
                    let a = val(a, params) * if dag { -1. } else { 1. };
                    if let Some((t, rest)) = ctl.split_first() {
                        let p = C::cis(a * std::f64::consts::PI);
                        self.mat([C(1., 0.), C(0., 0.), C(0., 0.), p], *t, rest);
                    }
                }
                Op::Call(c) => self.call(c, ids, params, ctl, dag),
                Op::Block(b, _, _) => self.ops(b, ids, params, flag, ctl, dag),
                Op::Cond(c, k) => self.ops(&k[usize::from(c.unwrap_or(flag))], ids, params, flag, ctl, dag),
                Op::Loop(n, b, _) => {
                    for _ in 0..*n {
                        self.ops(b, ids, params, flag, ctl, dag);
                    }
                }
                Op::Pack(..) => {}
            }
        }
    }
}

fn model(fns: &[Func], calls: &[Call], q: usize, sqrt: bool) -> Vec<C> {
    let ids: Vec<u64> = (0..q as u64).collect();
    let mut m = Model { fns, s: State::default(), sqrt };
    for &i in &ids {
        m.s.alloc(i);
    }
    m.ops(&prep(q), &ids, &[], false, &[], false);
    for c in calls {
        m.call(c, &ids, &[], &[], false);
    }
    m.s.ordered(&ids)
}

/// What running the program leaves its qubits in.
fn run(h: &Hugr, main: Node, order: u64) -> Result<Vec<C>, String> {
    let mut dev = Dev::new(DevCfg { model: true, bare: true, ..DevCfg::default() });
    dev.cfg.limit = 400_000;
    let out = {
        let mut i = Interp::new(h, &mut dev, order, true);
        i.shuffle = order != 0;
        i.call(main, vec![])
    };
    match out {
        Ok(v) => {
            let ids: Vec<u64> = v.iter().map(|x| if let V::Q(q) = x { *q } else { u64::MAX }).collect();
            dev.state_of(&ids)
        }
        Err(Stop::Bad(m)) => Err(m),
        Err(Stop::Limit) => Err("LIMIT".into()),
        Err(e) => Err(format!("{e:?} {:?}", dev.viol)),
    }
}

/// Modifiers left in what can be reached from `main`.
fn left(h: &Hugr, main: Node) -> Option<String> {
    let mut todo = vec![main];
    let mut seen = std::collections::BTreeSet::new();
    while let Some(f) = todo.pop() {
        if !seen.insert(f) {
            continue;
        }
        for n in h.descendants(f) {
            let op = h.get_optype(n);
            if Modifier::from_optype(op).is_some() {
                return Some(format!("{op} at {n}"));
            }
            if matches!(op, OpType::Call(_) | OpType::LoadFunction(_)) {
                todo.extend(h.static_source(n));
            }
        }
    }
    None
}

/// A guess of how many gates the resolved program has.
fn cost(fns: &[Func], ops: &[Op], ctl: u32) -> u64 {
    let mut k = 0u64;
    for o in ops {
        k = k.saturating_add(match o {
            Op::Gate(..) | Op::Phase(_) => 4 << (2 * ctl),
            Op::Block(b, _, _) => cost(fns, b, ctl),
            Op::Loop(n, b, _) => n * cost(fns, b, ctl),
            Op::Cond(_, c) => cost(fns, &c[0], ctl) + cost(fns, &c[1], ctl),
            Op::Call(c) => cost(fns, &fns[c.f].ops, ctl + c.ctl.len() as u32),
            Op::Pack(..) => 2,
        });
    }
    k
}

pub fn c25(ctx: &mut Ctx) -> Result<(), Violation> {
    let t = &mut ctx.w;
    let loops = t.one_in(4);
    let powers = t.one_in(12);
    let mut g = Gen { fns: vec![], loops, powers };
    let k = 1 + t.draw(3) as usize;
    for _ in 0..k {
        let most = if t.one_in(3) { 4 } else { 2 };
        let n = 1 + t.draw(most) as usize;
        let params = if t.one_in(2) { 0 } else { 1 + t.draw(2) as usize };
        let flag = t.one_in(5);
        let ops = g.ops(t, n, params, flag, 2, 6);
        let arr = if t.one_in(4) { 1 + t.draw(n as u32) as usize } else { 0 };
        let (order, cfg) = ([0, 0, 0, 0, 0, 1, 2, 2][t.draw(8) as usize], t.one_in(4));
        g.fns.push(Func { n, arr, params, flag, order, ops, cfg });
    }
    // the last function can always be modified
    g.fns.last_mut().unwrap().order = 0;
    let most = g.fns.iter().map(|f| f.n).max().unwrap();
    let q = most + 1 + t.draw(3) as usize;
    let calls: Vec<Call> = (0..1 + t.draw(2)).filter_map(|_| g.call(t, q, 0, true, 4)).collect();
    let order = t.draw(1 << 20) as u64;
    let sig = format!("{:?} {calls:?}", g.fns);
    crate::simrt::event("program", || sig.clone());
    if std::env::var_os("DUMP").is_some() {
        for (i, f) in g.fns.iter().enumerate() {
            eprintln!("f{i}: {f:?}");
        }
        eprintln!("main({q}): {calls:?}");
    }
    let fns = g.fns;
    let size: u64 = calls.iter().map(|c| cost(&fns, &fns[c.f].ops, c.ctl.len() as u32)).fold(0, |a, b| a.saturating_add(b));
    if std::env::var_os("DUMP").is_some() {
        eprintln!("cost {size}");
    }
    if size > 4_000 {
        probe("too large");
        return Ok(());
    }
    let (src, main) = quiet(|| build(&fns, &calls, q));
    let any = |p: &dyn Fn(&Op) -> bool| fns.iter().any(|f| has(&f.ops, p));
    let powers = calls.iter().any(|c| c.mods.iter().any(|m| matches!(m, Mod::Power(_))))
        || any(&|o| matches!(o, Op::Call(c) if c.mods.iter().any(|m| matches!(m, Mod::Power(_)))));
    let mut h = src.clone();
    let pass = ModifierResolverPass;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pass.run(&mut h)));
    let dump = |h: &Hugr| {
        if std::env::var_os("DUMP").is_some() {
            eprintln!("{}", quiet(|| listing(h)));
        }
    };
    if std::env::var_os("DUMP").is_some() {
        dump(&src);
        eprintln!("--------");
        dump(&h);
    }
    match r {
        Err(_) => {
            let m = last_panic();
            if powers {
                probe("panic with powers");
                return Ok(());
            }
            return fail("panic", m);
        }
        Ok(Err(e)) => {
            let m = e.to_string();
            if powers {
                probe("refused with powers");
                return Ok(());
            }
            return fail("refused", m);
        }
        Ok(Ok(())) => {}
    }
    quiet(|| h.validate()).or_else(|e| fail("invalid", e.to_string()))?;
    if let Some(m) = left(&h, main) {
        return fail("modifier-left", m);
    }
    let got = match quiet(|| run(&h, main, order)) {
        Ok(v) => v,
        Err(m) if m == "LIMIT" => {
            probe("too long");
            return Ok(());
        }
        Err(m) => return fail("meaningless", m),
    };
    let want = model(&fns, &calls, q, true);
    let f = fidelity(&got, &want);
    ctx.sample = Some(sig.chars().take(300).collect());
    ctx.nontrivial = calls.iter().any(|c| !c.mods.is_empty());
    if (f - 1.).abs() < 1e-7 {
        return Ok(());
    }
    let f2 = fidelity(&got, &model(&fns, &calls, q, false));
    if (f2 - 1.).abs() < 1e-7 {
        probe("V as a rotation");
        return Ok(());
    }
    fail("state", format!("the final state overlaps the specified one by {f:.6} ({f2:.6} with V = Rx(1/2))"))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        title: "modifiers denote the controlled and inverse operation, or are refused",
        level: "exploration",
        rule: "one generated program with a modified call, resolved, run and compared with the operation the modifiers denote; distinct by event hash",
        components: "real: HUGR builders, the modifier resolver; simulated: the quantum device; the resolved program runs on a reference interpreter of HUGR, in a drawn order of unordered operations and with drawn hash seeds",
        assumptions: &[
            "the state vector model gives functions and modifiers the meaning their definitions state; states are compared up to a global phase",
            "the control states and arguments are in one generic state, so different operations are told apart except for a set of angles of measure zero",
        ],
        preload: || {},
        scenario: c25,
        quick_runs: 10_000,
        quick_secs: 40,
        thorough_secs: 600,
        max_decisions: 1_000_000,
        plain_sched: false,
    }]
}
