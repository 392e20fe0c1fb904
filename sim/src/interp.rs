//! A reference interpreter for HUGR programs, run on a simulated device.
//! Every dataflow region is evaluated in a topological order drawn at random:
//! the interpreter is the semantics, not the compiler's schedule.

use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use hugr::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr::ops::{OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::std_extensions::collections::array::{Array, GenericArrayValue};
use hugr::std_extensions::collections::borrow_array::BorrowArray;
use hugr::std_extensions::collections::static_array::StaticArrayValue;
use hugr::std_extensions::collections::value_array::ValueArray;
use hugr::types::{EdgeKind, Type, TypeArg};
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use tket::extension::bool::ConstBool;
use tket::extension::rotation::ConstRotation;

use crate::device::Dev;
use crate::qsim::Gate;
use crate::tape::Rng;

#[derive(Clone, Debug)]
pub enum V {
    Q(u64),
    Int(u8, u64),
    Usize(u64),
    F(f64),
    Rot(f64),
    TB(bool),
    Sum(usize, Rc<Vec<V>>),
    Arr(Rc<Vec<Option<V>>>),
    SArr(Rc<Vec<V>>),
    Fut(u64, bool),
    Fn(Node),
    Rng,
    Str(String),
    Err(u32, String),
    GpuModule(String, Option<String>),
    GpuCtx(u64),
    GpuFn(String),
    GpuResult(u64, Vec<u64>),
}

pub fn boolv(b: bool) -> V {
    V::Sum(b as usize, Rc::new(vec![]))
}
pub fn sum(tag: usize, v: Vec<V>) -> V {
    V::Sum(tag, Rc::new(v))
}

#[derive(Clone, Debug)]
pub enum Stop {
    /// (is_exit, code, message)
    End(bool, u32, String),
    /// A monitor fired (recorded in the device).
    Monitor,
    Limit,
    /// The program is not one this interpreter can run.
    Bad(String),
}
type R<T> = Result<T, Stop>;

fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Bad(m.into()))
}

struct Plan {
    nodes: Vec<Node>,
    npreds: Vec<usize>,
    succs: Vec<Vec<usize>>,
    input: Option<Node>,
    output: Option<Node>,
}

pub struct Interp<'a> {
    h: &'a Hugr,
    pub dev: &'a mut Dev,
    rng: Rng,
    plans: HashMap<Node, Rc<Plan>>,
    steps: u64,
    depth: u32,
    /// Order of evaluation: random, or (false) always the first ready node.
    pub shuffle: bool,
    /// Prelude barriers on qubits count as device barriers (source programs).
    pub source: bool,
    pub ops: BTreeMap<String, u64>,
}

type Frame = HashMap<(Node, usize), V>;

impl<'a> Interp<'a> {
    pub fn new(h: &'a Hugr, dev: &'a mut Dev, seed: u64, source: bool) -> Self {
        Interp { h, dev, rng: Rng::new(seed), plans: HashMap::new(), steps: 0, depth: 0, shuffle: true, source, ops: BTreeMap::new() }
    }

    fn plan(&mut self, parent: Node) -> R<Rc<Plan>> {
        if let Some(p) = self.plans.get(&parent) {
            return Ok(p.clone());
        }
        let h = self.h;
        let mut nodes = vec![];
        let (mut input, mut output) = (None, None);
        for n in h.children(parent) {
            match h.get_optype(n) {
                OpType::Input(_) => input = Some(n),
                OpType::Output(_) => {
                    output = Some(n);
                }
                OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
                _ => nodes.push(n),
            }
        }
        let idx: HashMap<Node, usize> = nodes.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut succs = vec![vec![]; nodes.len()];
        let mut npreds = vec![0; nodes.len()];
        for (i, &n) in nodes.iter().enumerate() {
            let mut ps: Vec<usize> = vec![];
            for p in h.node_inputs(n) {
                for (src, _) in h.linked_outputs(n, p) {
                    if let Some(&k) = idx.get(&src) {
                        ps.push(k);
                    }
                }
            }
            // values used inside the node from this region (non-local edges)
            if h.first_child(n).is_some() {
                for d in h.descendants(n) {
                    for p in h.node_inputs(d) {
                        for (src, _) in h.linked_outputs(d, p) {
                            if let Some(&k) = idx.get(&src) {
                                ps.push(k);
                            }
                        }
                    }
                }
            }
            ps.sort();
            ps.dedup();
            ps.retain(|&k| k != i);
            npreds[i] = ps.len();
            for k in ps {
                succs[k].push(i);
            }
        }
        let p = Rc::new(Plan { nodes, npreds, succs, input, output });
        self.plans.insert(parent, p.clone());
        Ok(p)
    }

    fn value(&self, frames: &[Frame], n: Node, p: IncomingPort) -> R<V> {
        let Some((src, sp)) = self.h.single_linked_output(n, p) else {
            return bad(format!("input {} of {n} is not connected", p.index()));
        };
        for f in frames.iter().rev() {
            if let Some(v) = f.get(&(src, sp.index())) {
                return Ok(v.clone());
            }
        }
        bad(format!("no value for output {} of {src} ({})", sp.index(), self.h.get_optype(src)))
    }

    fn inputs(&self, frames: &[Frame], n: Node) -> R<Vec<V>> {
        let h = self.h;
        let mut out = vec![];
        for p in h.node_inputs(n) {
            if let Some(EdgeKind::Value(_)) = h.get_optype(n).port_kind(p) {
                out.push(self.value(frames, n, p)?);
            }
        }
        Ok(out)
    }

    /// Runs a function definition.
    pub fn call(&mut self, f: Node, args: Vec<V>) -> R<Vec<V>> {
        if self.depth > 60 {
            return Err(Stop::Limit);
        }
        if self.h.get_optype(f).as_func_defn().is_none() {
            return bad(format!("call of {}", self.h.get_optype(f)));
        }
        self.depth += 1;
        let mut frames = vec![];
        let r = self.region(f, args, &mut frames);
        self.depth -= 1;
        r.map(|x| x.0)
    }

    /// Runs a dataflow region; the values it computed are returned too (needed
    /// by the blocks a CFG block dominates).
    fn region(&mut self, parent: Node, args: Vec<V>, frames: &mut Vec<Frame>) -> R<(Vec<V>, Frame)> {
        let plan = self.plan(parent)?;
        let mut f = Frame::new();
        if let Some(i) = plan.input {
            for (k, v) in args.into_iter().enumerate() {
                f.insert((i, k), v);
            }
        }
        frames.push(f);
        let mut left = plan.npreds.clone();
        let mut ready: Vec<usize> = (0..plan.nodes.len()).filter(|&i| left[i] == 0).collect();
        let mut done = 0;
        while !ready.is_empty() {
            let k = if self.shuffle { self.rng.below(ready.len() as u32) as usize } else { 0 };
            let i = ready.swap_remove(k);
            let n = plan.nodes[i];
            self.steps += 1;
            if self.steps > self.dev.cfg.limit.max(1000) {
                return Err(Stop::Limit);
            }
            let out = self.node(n, frames)?;
            if !self.dev.viol.is_empty() {
                return Err(Stop::Monitor);
            }
            let f = frames.last_mut().unwrap();
            for (p, v) in out.into_iter().enumerate() {
                f.insert((n, p), v);
            }
            done += 1;
            for &s in &plan.succs[i] {
                left[s] -= 1;
                if left[s] == 0 {
                    ready.push(s);
                }
            }
        }
        if done < plan.nodes.len() {
            return bad("cyclic region");
        }
        let Some(o) = plan.output else { return bad("region without output") };
        let r = self.inputs(frames, o)?;
        Ok((r, frames.pop().unwrap()))
    }

    fn static_src(&self, n: Node) -> R<Node> {
        match self.h.static_source(n) {
            Some(s) => Ok(s),
            None => bad("no static source"),
        }
    }

    fn node(&mut self, n: Node, frames: &mut Vec<Frame>) -> R<Vec<V>> {
        let h = self.h;
        let op = h.get_optype(n);
        match op {
            OpType::LoadConstant(_) => {
                let c = self.static_src(n)?;
                let OpType::Const(c) = h.get_optype(c) else { return bad("load of a non-constant") };
                Ok(vec![const_value(c.value())?])
            }
            OpType::LoadFunction(_) => Ok(vec![V::Fn(self.static_src(n)?)]),
            OpType::Call(_) => {
                let f = self.static_src(n)?;
                let args = self.inputs(frames, n)?;
                self.call(f, args)
            }
            OpType::CallIndirect(_) => {
                let mut args = self.inputs(frames, n)?;
                let V::Fn(f) = args.remove(0) else { return bad("indirect call of a non-function") };
                self.call(f, args)
            }
            OpType::DFG(_) => {
                let args = self.inputs(frames, n)?;
                Ok(self.region(n, args, frames)?.0)
            }
            OpType::Tag(t) => {
                let args = self.inputs(frames, n)?;
                Ok(vec![sum(t.tag, args)])
            }
            OpType::Conditional(_) => {
                let mut args = self.inputs(frames, n)?;
                let V::Sum(tag, vals) = args.remove(0) else { return bad("conditional on a non-sum") };
                let Some(case) = h.children(n).nth(tag) else { return bad("no such case") };
                let mut a: Vec<V> = vals.to_vec();
                a.extend(args);
                Ok(self.region(case, a, frames)?.0)
            }
            OpType::TailLoop(_) => {
                let mut args = self.inputs(frames, n)?;
                loop {
                    let (mut out, _) = self.region(n, args, frames)?;
                    let V::Sum(tag, vals) = out.remove(0) else { return bad("loop on a non-sum") };
                    let mut a: Vec<V> = vals.to_vec();
                    a.extend(out);
                    if tag == 1 {
                        return Ok(a);
                    }
                    args = a;
                }
            }
            OpType::CFG(_) => {
                let mut args = self.inputs(frames, n)?;
                let mut block = h.children(n).next().unwrap();
                let base = frames.len();
                loop {
                    if let OpType::ExitBlock(_) = h.get_optype(block) {
                        frames.truncate(base);
                        return Ok(args);
                    }
                    let (mut out, frame) = self.region(block, args, frames)?;
                    frames.push(frame);
                    let V::Sum(tag, vals) = out.remove(0) else { return bad("branch on a non-sum") };
                    let mut a: Vec<V> = vals.to_vec();
                    a.extend(out);
                    args = a;
                    block = match h.linked_inputs(block, OutgoingPort::from(tag)).next() {
                        Some((b, _)) => b,
                        None => return bad("branch to nowhere"),
                    };
                    self.steps += 1;
                    if self.steps > self.dev.cfg.limit.max(1000) {
                        return Err(Stop::Limit);
                    }
                }
            }
            OpType::ExtensionOp(e) => {
                let ext = e.extension_id().to_string();
                let name = e.def().name().to_string();
                let args = self.inputs(frames, n)?;
                let targs = e.args().to_vec();
                let r = self.ext_op(n, &ext, &name, &targs, args);
                if let Ok(v) = &r {
                    let want = h.get_optype(n).dataflow_signature().map_or(0, |s| s.output_count());
                    if v.len() != want {
                        return bad(format!("{ext}.{name}: {} outputs for {want}", v.len()));
                    }
                }
                r
            }
            o => bad(format!("unsupported operation {o}")),
        }
    }

    fn call_v(&mut self, f: &V, args: Vec<V>) -> R<Vec<V>> {
        let V::Fn(f) = f else { return bad("not a function") };
        self.call(*f, args)
    }

    fn ext_op(&mut self, n: Node, ext: &str, name: &str, targs: &[TypeArg], mut a: Vec<V>) -> R<Vec<V>> {
        *self.ops.entry(format!("{ext}.{name}")).or_default() += 1;
        match ext {
            "prelude" => self.prelude(name, n, a),
            "logic" => {
                let b: Vec<bool> = a.iter().map(as_bool).collect::<R<_>>()?;
                Ok(vec![boolv(match name {
                    "And" => b[0] && b[1],
                    "Or" => b[0] || b[1],
                    "Eq" => b[0] == b[1],
                    "Xor" => b[0] != b[1],
                    "Not" => !b[0],
                    _ => return bad(format!("logic.{name}")),
                })])
            }
            "tket.bool" => {
                if name == "make_opaque" {
                    return Ok(vec![V::TB(as_bool(&a[0])?)]);
                }
                let b: Vec<bool> = a
                    .iter()
                    .map(|v| match v {
                        V::TB(b) => Ok(*b),
                        _ => bad("not a tket.bool"),
                    })
                    .collect::<R<_>>()?;
                Ok(vec![match name {
                    "and" => V::TB(b[0] && b[1]),
                    "or" => V::TB(b[0] || b[1]),
                    "eq" => V::TB(b[0] == b[1]),
                    "xor" => V::TB(b[0] != b[1]),
                    "not" => V::TB(!b[0]),
                    "read" => boolv(b[0]),
                    _ => return bad(format!("tket.bool.{name}")),
                }])
            }
            "arithmetic.int" => int_op(name, targs, &a),
            "arithmetic.float" => float_op(name, &a),
            "arithmetic.conversions" => conv_op(name, targs, &a),
            "tket.rotation" => Ok(vec![match (name, &a[..]) {
                ("from_halfturns", [V::F(x)]) => {
                    if x.is_finite() {
                        sum(1, vec![V::Rot(*x)])
                    } else {
                        sum(0, vec![])
                    }
                }
                ("from_halfturns_unchecked", [V::F(x)]) => V::Rot(*x),
                ("to_halfturns", [V::Rot(x)]) => V::F(*x),
                ("radd", [V::Rot(x), V::Rot(y)]) => V::Rot(x + y),
                _ => return bad(format!("tket.rotation.{name}")),
            }]),
            "collections.array" | "collections.borrow_arr" | "collections.value_array" => self.array_op(ext, name, targs, a),
            "collections.static_array" => match (name, &a[..]) {
                ("len", [V::SArr(v)]) => Ok(vec![V::Usize(v.len() as u64)]),
                ("get", [V::SArr(v), V::Usize(i)]) => Ok(vec![match v.get(*i as usize) {
                    Some(x) => sum(1, vec![x.clone()]),
                    None => sum(0, vec![]),
                }]),
                _ => bad(format!("static_array.{name}")),
            },
            // nothing a device could see
            "tket.global_phase" => Ok(vec![]),
            "TKET1" => self.tk1_op(targs, a),
            "tket.quantum" => self.tket_op(name, a),
            "tket.qsystem" => self.qsystem_op(name, a),
            "tket.futures" => match (name, &a[..]) {
                ("Read", [V::Fut(id, b)]) => {
                    let v = self.dev.read_future(*id, *b);
                    self.dev.dec_future(*id);
                    Ok(vec![if *b { boolv(v == 1) } else { V::Int(6, v) }])
                }
                ("Dup", [V::Fut(id, b)]) => {
                    self.dev.inc_future(*id);
                    Ok(vec![V::Fut(*id, *b), V::Fut(*id, *b)])
                }
                ("Free", [V::Fut(id, _)]) => {
                    self.dev.dec_future(*id);
                    Ok(vec![])
                }
                _ => bad(format!("tket.futures.{name}")),
            },
            "tket.result" => {
                let Some(TypeArg::String(tag)) = targs.first() else { return bad("result without a tag") };
                let kind = match name {
                    "result_bool" => "USER:BOOL",
                    "result_int" => "USER:INT",
                    "result_uint" => "USER:UINT",
                    "result_f64" => "USER:FLOAT",
                    "result_array_bool" => "USER:BOOLARR",
                    "result_array_int" => "USER:INTARR",
                    "result_array_uint" => "USER:UINTARR",
                    "result_array_f64" => "USER:FLOATARR",
                    _ => return bad(format!("tket.result.{name}")),
                };
                let vals = match a.remove(0) {
                    V::Arr(v) => v.iter().map(|x| x.clone().ok_or(Stop::Bad("hole in a result".into()))).collect::<R<Vec<V>>>()?,
                    v => vec![v],
                };
                let bits = vals
                    .iter()
                    .map(|v| {
                        Ok(match v {
                            V::Sum(t, _) => *t as u64,
                            V::Int(_, x) => *x,
                            V::F(x) => x.to_bits(),
                            _ => return bad("result of an odd type"),
                        })
                    })
                    .collect::<R<Vec<u64>>>()?;
                self.dev.result(kind, tag, bits);
                Ok(vec![])
            }
            "tket.debug" => {
                let Some(TypeArg::String(tag)) = targs.first() else { return bad("result without a tag") };
                let mut ids = vec![];
                qubits_in(&a[0], &mut ids);
                self.dev.state_result(tag, &ids);
                Ok(a)
            }
            "tket.qsystem.random" => match (name, &a[..]) {
                ("NewRNGContext", [V::Int(_, s)]) => {
                    if self.dev.cfg.model && self.dev.rng_alive > 0 && !self.dev.cfg.rng_always {
                        return Ok(vec![sum(0, vec![])]);
                    }
                    self.dev.rng_alive += 1;
                    self.dev.random_seed(*s);
                    Ok(vec![sum(1, vec![V::Rng])])
                }
                ("DeleteRNGContext", [V::Rng]) => {
                    self.dev.rng_alive -= 1;
                    Ok(vec![])
                }
                ("RandomInt", [V::Rng]) => {
                    let v = self.dev.random_int();
                    Ok(vec![V::Int(5, v as u64), V::Rng])
                }
                ("RandomFloat", [V::Rng]) => Ok(vec![V::F(self.dev.random_float()), V::Rng]),
                ("RandomIntBounded", [V::Rng, V::Int(_, b)]) => {
                    let v = self.dev.random_bounded(*b as u32);
                    Ok(vec![V::Int(5, v as u64), V::Rng])
                }
                ("RandomAdvance", [V::Rng, V::Int(_, k)]) => {
                    self.dev.random_advance(*k);
                    Ok(vec![V::Rng])
                }
                _ => bad(format!("random.{name}")),
            },
            "tket.qsystem.utils" => Ok(vec![V::Int(6, self.dev.cfg.shot)]),
            "tket.guppy" => {
                self.drop_value(&a[0]);
                Ok(vec![])
            }
            "tket.gpu" => self.gpu_op(n, name, targs, a),
            _ => bad(format!("unsupported operation {ext}.{name}")),
        }
    }

    /// `drop` of a value: its measurement handles are released.
    fn drop_value(&mut self, v: &V) {
        match v {
            V::Fut(id, _) => self.dev.dec_future(*id),
            V::Sum(_, vs) => vs.iter().for_each(|x| self.drop_value(x)),
            V::Arr(vs) => vs.iter().flatten().for_each(|x| self.drop_value(x)),
            V::Q(_) => self.dev.bad("interp", "drop of a qubit"),
            _ => {}
        }
    }

    fn prelude(&mut self, name: &str, n: Node, mut a: Vec<V>) -> R<Vec<V>> {
        match name {
            "MakeTuple" => Ok(vec![sum(0, a)]),
            "UnpackTuple" => match a.remove(0) {
                V::Sum(_, v) => Ok(v.to_vec()),
                _ => bad("not a tuple"),
            },
            "Noop" => Ok(a),
            "Barrier" => {
                if self.source {
                    let sig = self.h.get_optype(n).dataflow_signature().unwrap();
                    let mut ids = vec![];
                    for (t, v) in sig.input().iter().zip(&a) {
                        covered(t, v, &mut ids);
                    }
                    self.dev.barrier(&ids);
                }
                Ok(a)
            }
            "panic" | "exit" => match a.remove(0) {
                V::Err(c, m) => Err(Stop::End(name == "exit", c, m)),
                _ => bad("panic without an error"),
            },
            "MakeError" => match (&a[0], &a[1]) {
                (V::Usize(c), V::Str(s)) => Ok(vec![V::Err(*c as u32, s.clone())]),
                _ => bad("MakeError"),
            },
            "load_nat" => {
                let OpType::ExtensionOp(e) = self.h.get_optype(n) else { unreachable!() };
                match e.args() {
                    [TypeArg::BoundedNat(k)] => Ok(vec![V::Usize(*k)]),
                    _ => bad("load_nat"),
                }
            }
            _ => bad(format!("prelude.{name}")),
        }
    }

    fn array_op(&mut self, ext: &str, name: &str, targs: &[TypeArg], mut a: Vec<V>) -> R<Vec<V>> {
        let take = |v: V| -> R<Vec<Option<V>>> {
            match v {
                V::Arr(v) => Ok(v.to_vec()),
                v => bad(format!("not an array: {v:?}")),
            }
        };
        let arr = |v: Vec<Option<V>>| V::Arr(Rc::new(v));
        let us = |v: &V| -> R<usize> {
            match v {
                V::Usize(i) => Ok((*i).min(1 << 40) as usize),
                _ => bad("not an index"),
            }
        };
        let nat = |k: usize| match targs.get(k) {
            Some(TypeArg::BoundedNat(n)) => Ok(*n as usize),
            _ => bad("not a size"),
        };
        let hole = || Stop::Bad(format!("{ext}.{name} on an element that is borrowed"));
        Ok(match name {
            "new_array" => vec![arr(a.into_iter().map(Some).collect())],
            "get" => {
                let i = us(&a[1])?;
                let v = take(a[0].clone())?;
                let r = match v.get(i) {
                    Some(Some(x)) => sum(1, vec![x.clone()]),
                    Some(None) => return Err(hole()),
                    None => sum(0, vec![]),
                };
                vec![r, arr(v)]
            }
            "set" => {
                let i = us(&a[1])?;
                let x = a.remove(2);
                let mut v = take(a.remove(0))?;
                if i >= v.len() {
                    vec![sum(0, vec![x, arr(v)])]
                } else {
                    let old = v[i].replace(x).ok_or_else(hole)?;
                    vec![sum(1, vec![old, arr(v)])]
                }
            }
            "swap" => {
                let (i, j) = (us(&a[1])?, us(&a[2])?);
                let mut v = take(a.remove(0))?;
                if i >= v.len() || j >= v.len() {
                    vec![sum(0, vec![arr(v)])]
                } else {
                    v.swap(i, j);
                    vec![sum(1, vec![arr(v)])]
                }
            }
            "pop_left" | "pop_right" => {
                let mut v = take(a.remove(0))?;
                if v.is_empty() {
                    vec![sum(0, vec![])]
                } else {
                    let x = if name == "pop_left" { v.remove(0) } else { v.pop().unwrap() };
                    vec![sum(1, vec![x.ok_or_else(hole)?, arr(v)])]
                }
            }
            "discard_empty" => vec![],
            "unpack" => take(a.remove(0))?.into_iter().map(|x| x.ok_or_else(hole)).collect::<R<Vec<V>>>()?,
            "repeat" => {
                let mut v = vec![];
                for _ in 0..nat(0)? {
                    v.push(Some(self.call_v(&a[0], vec![])?.remove(0)));
                }
                vec![arr(v)]
            }
            "scan" => {
                let v = take(a.remove(0))?;
                let f = a.remove(0);
                let mut acc = a;
                let mut out = vec![];
                for x in v {
                    let mut args = vec![x.ok_or_else(hole)?];
                    args.append(&mut acc);
                    let mut r = self.call_v(&f, args)?;
                    out.push(Some(r.remove(0)));
                    acc = r;
                }
                let mut r = vec![arr(out)];
                r.append(&mut acc);
                r
            }
            "clone" => vec![a[0].clone(), a[0].clone()],
            "discard" => vec![],
            "from_array" | "to_array" => {
                let v = take(a.remove(0))?;
                if v.iter().any(Option::is_none) {
                    return Err(hole());
                }
                vec![arr(v)]
            }
            "borrow" => {
                let i = us(&a[1])?;
                let mut v = take(a.remove(0))?;
                match v.get_mut(i) {
                    None => return Err(Stop::End(false, 2, "Index out of bounds".into())),
                    Some(e) => match e.take() {
                        Some(x) => vec![arr(v), x],
                        None => return Err(Stop::End(false, 2, "Array element is already borrowed".into())),
                    },
                }
            }
            "return" => {
                let i = us(&a[1])?;
                let x = a.remove(2);
                let mut v = take(a.remove(0))?;
                if i >= v.len() {
                    return Err(Stop::End(false, 2, "Index out of bounds".into()));
                }
                if v[i].is_some() {
                    return Err(Stop::End(false, 2, "Array already contains an element at this index".into()));
                }
                v[i] = Some(x);
                vec![arr(v)]
            }
            "discard_all_borrowed" => {
                if take(a.remove(0))?.iter().any(Option::is_some) {
                    return bad("discard_all_borrowed of a non-empty array");
                }
                vec![]
            }
            "new_all_borrowed" => vec![arr(vec![None; nat(0)?])],
            "is_borrowed" => {
                let i = us(&a[1])?;
                let v = take(a.remove(0))?;
                let b = v.get(i).ok_or(Stop::Bad("index".into()))?.is_none();
                vec![arr(v), boolv(b)]
            }
            _ => return bad(format!("{ext}.{name}")),
        })
    }

    fn tket_op(&mut self, name: &str, a: Vec<V>) -> R<Vec<V>> {
        let q: Vec<u64> = a
            .iter()
            .filter_map(|v| match v {
                V::Q(i) => Some(*i),
                _ => None,
            })
            .collect();
        let ang = a.iter().find_map(|v| match v {
            V::Rot(x) => Some(*x),
            _ => None,
        });
        let out: Vec<V> = q.iter().map(|&i| V::Q(i)).collect();
        let d = &mut *self.dev;
        let g = match (name, ang) {
            ("H", _) => Gate::H,
            ("X", _) => Gate::X,
            ("Y", _) => Gate::Y,
            ("Z", _) => Gate::Zg,
            ("S", _) => Gate::S,
            ("Sdg", _) => Gate::Sdg,
            ("T", _) => Gate::T,
            ("Tdg", _) => Gate::Tdg,
            ("V", _) => Gate::V,
            ("Vdg", _) => Gate::Vdg,
            ("Rx", Some(t)) => Gate::Rx(t),
            ("Ry", Some(t)) => Gate::Ry(t),
            ("Rz", Some(t)) => Gate::Rz(t),
            ("CX", _) => Gate::CX,
            ("CY", _) => Gate::CY,
            ("CZ", _) => Gate::CZ,
            ("CRz", Some(t)) => Gate::CRz(t),
            ("Toffoli", _) => Gate::Toffoli,
            ("Measure", _) => {
                let m = d.measure(q[0]);
                return Ok(vec![V::Q(q[0]), boolv(m == 1)]);
            }
            ("MeasureFree", _) => {
                let m = d.measure(q[0]);
                d.qfree(q[0]);
                return Ok(vec![V::TB(m == 1)]);
            }
            ("Reset", _) => {
                d.reset(q[0]);
                return Ok(out);
            }
            ("QFree", _) => {
                d.qfree(q[0]);
                return Ok(vec![]);
            }
            ("QAlloc", _) => {
                return match d.qalloc() {
                    Some(i) => {
                        d.reset(i);
                        Ok(vec![V::Q(i)])
                    }
                    None => Err(Stop::End(false, 1, "No more qubits available to allocate.".into())),
                }
            }
            ("TryQAlloc", _) => {
                return Ok(vec![match d.qalloc() {
                    Some(i) => {
                        d.reset(i);
                        sum(1, vec![V::Q(i)])
                    }
                    None => sum(0, vec![]),
                }])
            }
            _ => return bad(format!("tket.quantum.{name}")),
        };
        if let ("Rz", Some(t), true) = (name, ang, d.cfg.tk_labels) {
            // circuits from pytket have no native gates
            if d.try_label(q[0], t * std::f64::consts::PI) {
                return Ok(out);
            }
        }
        match q[..] {
            [i] => d.gate1(i, "tk2", g, ang.into_iter().collect()),
            [i, j] => d.gate2(i, j, "tk2", g, ang.into_iter().collect()),
            [i, j, k] => d.gate3([i, j, k], g),
            _ => return bad("gate arity"),
        }
        Ok(out)
    }

    /// Opaque pytket operations.
    fn tk1_op(&mut self, targs: &[TypeArg], a: Vec<V>) -> R<Vec<V>> {
        let Some(TypeArg::String(s)) = targs.first() else { return bad("tk1op without a definition") };
        let Ok(op) = serde_json::from_str::<serde_json::Value>(s) else { return bad("malformed tk1op") };
        let ty = op["op"]["type"].as_str().unwrap_or("").to_string();
        match ty.as_str() {
            "SetBits" => {
                let Some(v) = op["op"]["box"]["values"].as_array().or(op["op"]["classical"]["values"].as_array()) else { return bad(format!("SetBits {op}")) };
                Ok(v.iter().map(|x| boolv(x.as_bool().unwrap())).collect())
            }
            _ => bad(format!("tk1op {ty} of {a:?}")),
        }
    }

    fn qsystem_op(&mut self, name: &str, mut a: Vec<V>) -> R<Vec<V>> {
        use std::f64::consts::PI;
        let d = &mut *self.dev;
        Ok(match (name, &a[..]) {
            ("Rz", [V::Q(q), V::F(t)]) => {
                d.gate1(*q, "Rz", Gate::Rz(t / PI), vec![*t]);
                vec![V::Q(*q)]
            }
            ("PhasedX", [V::Q(q), V::F(t), V::F(p)]) => {
                d.gate1(*q, "PhasedX", Gate::PhasedX(t / PI, p / PI), vec![*t, *p]);
                vec![V::Q(*q)]
            }
            ("ZZPhase", [V::Q(p), V::Q(q), V::F(t)]) => {
                d.gate2(*p, *q, "ZZPhase", Gate::ZZPhase(t / PI), vec![*t]);
                vec![V::Q(*p), V::Q(*q)]
            }
            ("Measure", [V::Q(q)]) => {
                let m = d.measure(*q);
                d.qfree(*q);
                vec![V::TB(m == 1)]
            }
            ("LazyMeasure", [V::Q(q)]) => {
                let m = d.measure(*q);
                d.qfree(*q);
                vec![V::Fut(d.new_future(m as u64, true), true)]
            }
            ("LazyMeasureLeaked", [V::Q(q)]) => {
                let m = d.measure_leaked(*q);
                d.qfree(*q);
                vec![V::Fut(d.new_future(m as u64, false), false)]
            }
            ("MeasureReset", [V::Q(q)]) => {
                let m = d.measure(*q);
                d.reset(*q);
                vec![V::Q(*q), V::TB(m == 1)]
            }
            ("LazyMeasureReset", [V::Q(q)]) => {
                let m = d.measure(*q);
                d.reset(*q);
                vec![V::Q(*q), V::Fut(d.new_future(m as u64, true), true)]
            }
            ("Reset", [V::Q(q)]) => {
                d.reset(*q);
                vec![V::Q(*q)]
            }
            ("QFree", [V::Q(q)]) => {
                d.qfree(*q);
                vec![]
            }
            ("TryQAlloc", []) => vec![match d.qalloc() {
                Some(i) => {
                    d.reset(i);
                    sum(1, vec![V::Q(i)])
                }
                None => sum(0, vec![]),
            }],
            ("RuntimeBarrier", [v]) => {
                let mut ids = vec![];
                qubits_in(v, &mut ids);
                d.barrier(&ids);
                vec![a.remove(0)]
            }
            _ => return bad(format!("tket.qsystem.{name}")),
        })
    }

    fn gpu_op(&mut self, _n: Node, name: &str, targs: &[TypeArg], mut a: Vec<V>) -> R<Vec<V>> {
        let d = &mut *self.dev;
        let failed = |d: &Dev| Stop::End(false, 70002, d.gpu_error().unwrap_or("No error message available".into()));
        let chars = |t: Option<&TypeArg>| -> R<String> {
            let Some(TypeArg::List(l)) = t else { return bad("not a row") };
            l.iter()
                .map(|t| match t {
                    TypeArg::Runtime(t) if t.to_string().starts_with("float64") => Ok('f'),
                    TypeArg::Runtime(t) if *t == hugr::extension::prelude::bool_t() => Ok('b'),
                    TypeArg::Runtime(_) => Ok('i'),
                    _ => bad("not a type"),
                })
                .collect()
        };
        Ok(match (name, &a[..]) {
            ("get_context", [V::Usize(i)]) => match d.gpu_init(*i) {
                Ok(h) => vec![sum(1, vec![V::GpuCtx(h)])],
                Err(()) => return Err(failed(d)),
            },
            ("dispose_context", [V::GpuCtx(h)]) => match d.gpu_discard(*h) {
                Ok(()) => vec![],
                Err(()) => return Err(failed(d)),
            },
            ("lookup_by_id", _) => match targs.first() {
                Some(TypeArg::BoundedNat(k)) => vec![V::GpuFn(format!("#{k}"))],
                _ => return bad("lookup"),
            },
            ("lookup_by_name", _) => match targs.first() {
                Some(TypeArg::String(k)) => vec![V::GpuFn(k.clone())],
                _ => return bad("lookup"),
            },
            ("call", [V::GpuCtx(h), V::GpuFn(f), ..]) => {
                let sig = format!("{}:{}", chars(targs.first())?, Some(chars(targs.get(1))?).filter(|x| !x.is_empty()).unwrap_or("v".into()));
                let args = a[2..]
                    .iter()
                    .map(|v| {
                        Ok(match v {
                            V::Int(_, x) | V::Usize(x) => *x,
                            V::F(x) => x.to_bits(),
                            V::Sum(t, _) => *t as u64,
                            _ => return bad("argument"),
                        })
                    })
                    .collect::<R<Vec<u64>>>()?;
                match d.gpu_call(*h, f, &sig, &args) {
                    Ok(()) => vec![V::GpuResult(*h, vec![])],
                    Err(()) => return Err(failed(d)),
                }
            }
            ("read_result", [V::GpuResult(..)]) => {
                let V::GpuResult(h, _) = a.remove(0) else { unreachable!() };
                let out = chars(targs.first())?;
                if out.is_empty() {
                    return Ok(vec![V::GpuCtx(h)]);
                }
                match d.gpu_result(h) {
                    Ok(v) if out == "f" => vec![V::GpuCtx(h), V::F(f64::from_bits(v))],
                    Ok(v) => vec![V::GpuCtx(h), V::Int(6, v)],
                    Err(()) => return Err(failed(d)),
                }
            }
            _ => return bad(format!("tket.gpu.{name}")),
        })
    }
}

fn as_bool(v: &V) -> R<bool> {
    match v {
        V::Sum(t, x) if x.is_empty() => Ok(*t == 1),
        v => bad(format!("not a bool: {v:?}")),
    }
}

/// All qubits in a value, in order.
pub fn qubits_in(v: &V, out: &mut Vec<u64>) {
    match v {
        V::Q(i) => out.push(*i),
        V::Sum(_, vs) => vs.iter().for_each(|x| qubits_in(x, out)),
        V::Arr(vs) => vs.iter().flatten().for_each(|x| qubits_in(x, out)),
        _ => {}
    }
}

/// The qubits of a value that a barrier covers: through tuples and arrays, and
/// through options that are directly array elements.
fn covered(t: &Type, v: &V, out: &mut Vec<u64>) {
    match v {
        V::Q(i) => out.push(*i),
        V::Sum(_, vs) => {
            if let Some(row) = t.as_sum().and_then(|s| s.as_tuple()) {
                for (t, v) in row.iter().zip(vs.iter()) {
                    covered(&t.clone().try_into_type().unwrap(), v, out);
                }
            }
        }
        V::Arr(vs) => {
            let Some(TypeArg::Runtime(el)) = t.as_extension().and_then(|c| c.args().get(1)) else { return };
            let opt = el.as_sum().and_then(|s| s.as_unary_option()).is_some_and(|t| format!("{t}") == format!("{}", hugr::extension::prelude::qb_t()));
            for v in vs.iter().flatten() {
                if opt {
                    qubits_in(v, out);
                } else {
                    covered(el, v, out);
                }
            }
        }
        _ => {}
    }
}

pub fn const_value(v: &Value) -> R<V> {
    Ok(match v {
        Value::Sum(s) => sum(s.tag, s.values.iter().map(const_value).collect::<R<_>>()?),
        Value::Extension { e } => {
            let c = e.value();
            if let Some(i) = c.downcast_ref::<ConstInt>() {
                let w = i.log_width();
                V::Int(w, i.value_u() & mask(w))
            } else if let Some(f) = c.downcast_ref::<ConstF64>() {
                V::F(f.value())
            } else if let Some(u) = c.downcast_ref::<ConstUsize>() {
                V::Usize(u.value())
            } else if let Some(b) = c.downcast_ref::<ConstBool>() {
                V::TB(b.value())
            } else if let Some(r) = c.downcast_ref::<ConstRotation>() {
                V::Rot(r.half_turns())
            } else if let Some(s) = c.downcast_ref::<ConstString>() {
                V::Str(s.value().into())
            } else if let Some(e) = c.downcast_ref::<ConstError>() {
                V::Err(e.signal, e.message.clone())
            } else if let Some(a) = c.downcast_ref::<GenericArrayValue<Array>>() {
                arr_const(a.get_contents())?
            } else if let Some(a) = c.downcast_ref::<GenericArrayValue<BorrowArray>>() {
                arr_const(a.get_contents())?
            } else if let Some(a) = c.downcast_ref::<GenericArrayValue<ValueArray>>() {
                arr_const(a.get_contents())?
            } else if let Some(a) = c.downcast_ref::<StaticArrayValue>() {
                V::SArr(Rc::new(a.get_contents().iter().map(const_value).collect::<R<_>>()?))
            } else if let Some(m) = c.downcast_ref::<tket_qsystem::extension::classical_compute::gpu::ConstGpuModule>() {
                V::GpuModule(m.module_filename.clone(), m.config_filename.clone())
            } else {
                return bad(format!("unsupported constant {}", v.get_type()));
            }
        }
        Value::Function { .. } => return bad("function constant"),
    })
}

fn arr_const(v: &[Value]) -> R<V> {
    Ok(V::Arr(Rc::new(v.iter().map(|x| const_value(x).map(Some)).collect::<R<_>>()?)))
}

fn mask(log: u8) -> u64 {
    let w = 1u32 << log;
    if w >= 64 {
        u64::MAX
    } else {
        (1 << w) - 1
    }
}

fn sext(log: u8, x: u64) -> i64 {
    let w = 1u32 << log;
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

fn logw(t: Option<&TypeArg>) -> R<u8> {
    match t {
        Some(TypeArg::BoundedNat(n)) => Ok(*n as u8),
        _ => bad("not a width"),
    }
}

fn int_op(name: &str, targs: &[TypeArg], a: &[V]) -> R<Vec<V>> {
    let w = logw(targs.first())?;
    let x: Vec<u64> = a
        .iter()
        .map(|v| match v {
            V::Int(_, x) => Ok(*x),
            _ => bad("not an int"),
        })
        .collect::<R<_>>()?;
    let m = mask(w);
    let s = |k: usize| sext(w, x[k]);
    let int = |v: u64| Ok(vec![V::Int(w, v & m)]);
    let bits = 1u64 << w;
    match name {
        "iadd" => int(x[0].wrapping_add(x[1])),
        "isub" => int(x[0].wrapping_sub(x[1])),
        "imul" => int(x[0].wrapping_mul(x[1])),
        "ineg" => int(x[0].wrapping_neg()),
        "iand" => int(x[0] & x[1]),
        "ior" => int(x[0] | x[1]),
        "ixor" => int(x[0] ^ x[1]),
        "inot" => int(!x[0]),
        "iabs" => int(s(0).unsigned_abs()),
        "imax_u" => int(x[0].max(x[1])),
        "imin_u" => int(x[0].min(x[1])),
        "imax_s" => int(s(0).max(s(1)) as u64),
        "imin_s" => int(s(0).min(s(1)) as u64),
        "ieq" => Ok(vec![boolv(x[0] == x[1])]),
        "ine" => Ok(vec![boolv(x[0] != x[1])]),
        "ilt_u" => Ok(vec![boolv(x[0] < x[1])]),
        "ilt_s" => Ok(vec![boolv(s(0) < s(1))]),
        "igt_u" => Ok(vec![boolv(x[0] > x[1])]),
        "igt_s" => Ok(vec![boolv(s(0) > s(1))]),
        "ile_u" => Ok(vec![boolv(x[0] <= x[1])]),
        "ile_s" => Ok(vec![boolv(s(0) <= s(1))]),
        "ige_u" => Ok(vec![boolv(x[0] >= x[1])]),
        "ige_s" => Ok(vec![boolv(s(0) >= s(1))]),
        "ishl" if x[1] < bits => int(x[0] << x[1]),
        "ishr" if x[1] < bits => int(x[0] >> x[1]),
        "idivmod_u" if x[1] != 0 => Ok(vec![V::Int(w, x[0] / x[1]), V::Int(w, x[0] % x[1])]),
        "idiv_u" if x[1] != 0 => int(x[0] / x[1]),
        "imod_u" if x[1] != 0 => int(x[0] % x[1]),
        "idivmod_s" | "idiv_s" | "imod_s" if x[1] != 0 => {
            let (n, m) = (s(0) as i128, x[1] as i128);
            let (q, r) = (n.div_euclid(m) as u64 & mask(w), n.rem_euclid(m) as u64);
            Ok(match name {
                "idivmod_s" => vec![V::Int(w, q), V::Int(w, r)],
                "idiv_s" => vec![V::Int(w, q)],
                _ => vec![V::Int(w, r)],
            })
        }
        "inarrow_u" | "inarrow_s" => {
            let w2 = logw(targs.get(1))?;
            let y = x[0] & mask(w2);
            let fits = if name == "inarrow_u" { y == x[0] } else { sext(w2, y) == s(0) };
            if !fits {
                return bad("narrowing loses bits");
            }
            Ok(vec![sum(1, vec![V::Int(w2, y)])])
        }
        "iu_to_s" | "is_to_u" => int(x[0]),
        "iwiden_u" => {
            let w2 = logw(targs.get(1))?;
            Ok(vec![V::Int(w2, x[0])])
        }
        "iwiden_s" => {
            let w2 = logw(targs.get(1))?;
            Ok(vec![V::Int(w2, s(0) as u64 & mask(w2))])
        }
        _ => bad(format!("arithmetic.int.{name} {x:?}")),
    }
}

fn float_op(name: &str, a: &[V]) -> R<Vec<V>> {
    let x: Vec<f64> = a
        .iter()
        .map(|v| match v {
            V::F(x) => Ok(*x),
            _ => bad("not a float"),
        })
        .collect::<R<_>>()?;
    let f = |v| Ok(vec![V::F(v)]);
    let b = |v| Ok(vec![boolv(v)]);
    match name {
        "fadd" => f(x[0] + x[1]),
        "fsub" => f(x[0] - x[1]),
        "fmul" => f(x[0] * x[1]),
        "fdiv" => f(x[0] / x[1]),
        "fneg" => f(-x[0]),
        "fabs" => f(x[0].abs()),
        "ffloor" => f(x[0].floor()),
        "fceil" => f(x[0].ceil()),
        "fmax" => f(x[0].max(x[1])),
        "fmin" => f(x[0].min(x[1])),
        "feq" => b(x[0] == x[1]),
        "fne" => b(x[0] != x[1]),
        "flt" => b(x[0] < x[1]),
        "fgt" => b(x[0] > x[1]),
        "fle" => b(x[0] <= x[1]),
        "fge" => b(x[0] >= x[1]),
        _ => bad(format!("arithmetic.float.{name}")),
    }
}

fn conv_op(name: &str, targs: &[TypeArg], a: &[V]) -> R<Vec<V>> {
    Ok(vec![match (name, &a[0]) {
        ("convert_u", V::Int(_, x)) => V::F(*x as f64),
        ("convert_s", V::Int(w, x)) => V::F(sext(*w, *x) as f64),
        ("ifrombool", v) => V::Int(0, as_bool(v)? as u64),
        ("itobool", V::Int(_, x)) => boolv(*x == 1),
        ("itousize", V::Int(_, x)) => V::Usize(*x),
        ("ifromusize", V::Usize(x)) => V::Int(6, *x),
        ("bytecast_float64_to_int64", V::F(x)) => V::Int(6, x.to_bits()),
        ("bytecast_int64_to_float64", V::Int(_, x)) => V::F(f64::from_bits(*x)),
        ("trunc_u", V::F(x)) if *x >= 0. && *x < 1e15 => sum(1, vec![V::Int(logw(targs.first())?, *x as u64)]),
        ("trunc_s", V::F(x)) if x.abs() < 1e15 => {
            let w = logw(targs.first())?;
            sum(1, vec![V::Int(w, *x as i64 as u64 & mask(w))])
        }
        _ => return bad(format!("conversions.{name}")),
    }])
}

/// Where a dataflow function's ports lead is checked by validation; this only
/// says which direction is which.
#[allow(dead_code)]
const _D: Direction = Direction::Incoming;
