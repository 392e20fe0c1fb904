//! Random device programs, built directly as HUGRs.

use std::collections::BTreeMap;
use std::sync::Arc;

use hugr::builder::{Container, ModuleBuilder};
use hugr::extension::simple_op::{MakeRegisteredOp};
use hugr::extension::prelude::{
    bool_t, option_type, qb_t, usize_t, Barrier, ConstError, ConstUsize, MakeTuple, UnpackTuple, PRELUDE,
};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::dataflow::IOTrait;
use hugr::ops::{self, OpTrait, OpType, Value};
use hugr::std_extensions::arithmetic::conversions::EXTENSION as CONV;
use hugr::std_extensions::arithmetic::float_ops::EXTENSION as FLOAT;
use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
use hugr::std_extensions::arithmetic::int_ops::EXTENSION as INT;
use hugr::std_extensions::arithmetic::int_types::{ConstInt, INT_TYPES};
use hugr::std_extensions::collections::{array, borrow_array, static_array, value_array};
use hugr::std_extensions::logic::EXTENSION as LOGIC;
use hugr::types::{PolyFuncType, Signature, Type, TypeArg, TypeBound, TypeRow};
use hugr::{Extension, Hugr, HugrView, IncomingPort, Node, Wire};
use tket::extension::bool::{bool_type, ConstBool, BOOL_EXTENSION};
use tket::extension::debug::DEBUG_EXTENSION;
use tket::extension::guppy::GUPPY_EXTENSION;
use tket::extension::rotation::{rotation_type, ConstRotation, ROTATION_EXTENSION};
use tket::extension::TKET_EXTENSION;
use tket_qsystem::extension::{futures, gpu, qsystem, random, result, utils};

use crate::tape::Tape;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AK {
    Std,
    Borrow,
    Val,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Q,
    /// tket.bool
    TB,
    /// prelude bool
    B,
    I,
    F,
    Rot,
    U,
    Arr(AK, Box<Ty>, u64),
    Tup(Vec<Ty>),
    Opt(Box<Ty>),
    Rng,
    FutB,
    FutI,
    Gpu,
}
use Ty::*;

impl Ty {
    pub fn ty(&self) -> Type {
        match self {
            Q => qb_t(),
            TB => bool_type(),
            B => bool_t(),
            I => INT_TYPES[6].clone(),
            F => float64_type(),
            Rot => rotation_type(),
            U => usize_t(),
            Arr(AK::Std, t, n) => array::array_type(*n, t.ty()),
            Arr(AK::Borrow, t, n) => borrow_array::borrow_array_type(*n, t.ty()),
            Arr(AK::Val, t, n) => value_array::value_array_type(*n, t.ty()),
            Tup(v) => Type::new_tuple(row(v)),
            Opt(t) => option_type(t.ty()).into(),
            Rng => random::EXTENSION.get_type("context").unwrap().instantiate([]).unwrap().into(),
            FutB => futures::future_type(bool_t()),
            FutI => futures::future_type(INT_TYPES[6].clone()),
            Gpu => gpu::EXTENSION.get_type("context").unwrap().instantiate([]).unwrap().into(),
        }
    }
    pub fn linear(&self) -> bool {
        match self {
            Q | Rng | FutB | FutI | Gpu => true,
            Arr(AK::Val, t, _) => t.linear(),
            Arr(..) => true,
            Tup(v) => v.iter().any(Ty::linear),
            Opt(t) => t.linear(),
            _ => false,
        }
    }
    /// Number of qubits inside.
    pub fn nq(&self) -> usize {
        match self {
            Q => 1,
            Arr(_, t, n) => t.nq() * *n as usize,
            Tup(v) => v.iter().map(Ty::nq).sum(),
            Opt(t) => t.nq(),
            _ => 0,
        }
    }
    fn has_rng(&self) -> bool {
        match self {
            Rng => true,
            Tup(v) => v.iter().any(Ty::has_rng),
            Arr(_, t, _) | Opt(t) => t.has_rng(),
            _ => false,
        }
    }
    /// Can be discarded by `drop` (no qubits, contexts)
    fn droppable(&self) -> bool {
        match self {
            Q | Rng | FutI | Gpu => false,
            Arr(_, t, _) => t.droppable(),
            Tup(v) => v.iter().all(Ty::droppable),
            Opt(t) => t.droppable(),
            _ => true,
        }
    }
}

pub fn row(v: &[Ty]) -> TypeRow {
    v.iter().map(Ty::ty).collect::<Vec<_>>().into()
}

/// Statement kinds (indices into the weight table).
pub const KINDS: &[&str] = &[
    "alloc", "gate1", "gate2", "measure", "reset", "bool", "int", "float", "result", "array", "tuple", "cond", "loop",
    "cfg", "dfg", "call", "barrier", "random", "future", "shot", "stop", "drop", "static", "gpu",
    "borrow",
];

#[derive(Clone, Debug)]
pub struct Opts {
    pub weights: BTreeMap<&'static str, u32>,
    pub stmts: (u32, u32),
    pub max_q: usize,
    pub depth: u32,
    pub funcs: u32,
    /// Put allocations in the order chain (their numbering is then defined).
    pub chain_alloc: bool,
    /// Only gates native to the device.
    pub native: bool,
    pub value_arrays: bool,
    pub drops: bool,
    /// Only features the interpreter-level pipeline without lazification supports.
    pub futures: bool,
    pub second_rng: bool,
    /// No boolean equality (hugr-core 0.24.3 folds `Eq(x, false)` to false).
    pub no_eq: bool,
}

impl Default for Opts {
    fn default() -> Self {
        let w = [6, 12, 10, 8, 2, 4, 4, 3, 6, 5, 4, 4, 3, 2, 2, 4, 2, 2, 2, 1, 1, 1, 1, 0, 2];
        Opts {
            weights: KINDS.iter().copied().zip(w).collect(),
            stmts: (6, 26),
            max_q: 5,
            depth: 3,
            funcs: 2,
            chain_alloc: false,
            native: false,
            value_arrays: false,
            drops: false,
            futures: true,
            second_rng: false,
            no_eq: false,
        }
    }
}

struct FnInfo {
    node: Node,
    ins: Vec<Ty>,
    outs: Vec<Ty>,
    effects: bool,
    peak: usize,
    poly: bool,
    sig: PolyFuncType,
}

struct Rg {
    node: Node,
    last: Option<Node>,
    effects: bool,
    vars: Vec<(Wire, Ty)>,
    outer_q: usize,
    depth: u32,
}

impl Rg {
    fn qubits(&self) -> usize {
        self.outer_q + self.vars.iter().map(|v| v.1.nq()).sum::<usize>()
    }
}

pub struct Gen<'a> {
    t: &'a mut Tape,
    h: Hugr,
    o: Opts,
    site: u32,
    tags: u32,
    budget: i32,
    fns: Vec<FnInfo>,
    rng_live: bool,
    in_fn: bool,
    peak: usize,
    pub used: BTreeMap<&'static str, u32>,
    nested: u32,
    gpus: u64,
}

fn ext_op(e: &Arc<Extension>, name: &str, args: impl Into<Vec<TypeArg>>) -> OpType {
    e.instantiate_extension_op(name, args.into()).unwrap_or_else(|x| panic!("harness: {name}: {x}")).into()
}

fn ak(k: AK) -> &'static Arc<Extension> {
    match k {
        AK::Std => &array::EXTENSION,
        AK::Borrow => &borrow_array::EXTENSION,
        AK::Val => &value_array::EXTENSION,
    }
}

fn w(n: Node, p: usize) -> Wire {
    Wire::new(n, p)
}

impl<'a> Gen<'a> {
    fn connect(&mut self, src: Wire, n: Node, port: usize) {
        self.h.connect(src.node(), src.source(), n, IncomingPort::from(port));
    }

    fn op(&mut self, r: &Rg, op: impl Into<OpType>, ins: &[Wire]) -> (Node, Vec<Wire>) {
        let op = op.into();
        let outs = op.dataflow_signature().map_or(0, |s| s.output_count());
        let n = self.h.add_node_with_parent(r.node, op);
        for (i, x) in ins.iter().enumerate() {
            self.connect(*x, n, i);
        }
        (n, (0..outs).map(|p| w(n, p)).collect())
    }

    fn ext(&mut self, r: &Rg, e: &Arc<Extension>, name: &str, args: impl Into<Vec<TypeArg>>, ins: &[Wire]) -> Vec<Wire> {
        self.op(r, ext_op(e, name, args), ins).1
    }

    /// Puts a node in the region's order chain.
    fn chain(&mut self, r: &mut Rg, n: Node) {
        let l = r.last.or_else(|| self.h.children(r.node).next().filter(|&i| self.h.get_optype(i).is_input()));
        if let Some(l) = l {
            self.h.add_other_edge(l, n);
        }
        r.last = Some(n);
        r.effects = true;
    }

    fn konst(&mut self, r: &Rg, v: impl Into<Value>) -> Wire {
        let v = v.into();
        let ty = v.get_type();
        let parent = if self.t.one_in(4) { self.h.module_root() } else { r.node };
        let c = self.h.add_node_with_parent(parent, ops::Const::new(v));
        let l = self.h.add_node_with_parent(r.node, ops::LoadConstant { datatype: ty });
        self.h.connect(c, 0, l, 0);
        w(l, 0)
    }

    fn fconst(&mut self, r: &Rg, x: f64) -> Wire {
        self.konst(r, ConstF64::new(x))
    }

    fn angle(&mut self) -> f64 {
        *self.t.pick(&[0.25, 0.5, 1.0, -0.5, 0.3, -1.3, 1.75, 0.0625, -0.125, 3.7, -2.2])
    }

    fn tag(&mut self) -> String {
        self.tags += 1;
        let k = self.tags;
        match self.t.draw(12) {
            0 => "x".into(),
            1 => format!("r{k}: µ ∑"),
            2 => format!("{}{k}", "long_tag_".repeat(20)),
            3 => format!("a.b:c,\"{k}\"\n"),
            _ => format!("t{k}"),
        }
    }

    fn err(&mut self, what: &str) -> Value {
        let c = self.t.range(1, 900);
        Value::extension(ConstError::new(c, format!("{what} {c}")))
    }

    /// A panic or exit of the given shape.
    fn stop(&mut self, r: &mut Rg, exit: bool, ins: &[(Wire, Ty)], outs: &[Ty], what: &str) -> Vec<Wire> {
        let e = self.err(what);
        let e = self.konst(r, e);
        let a: TypeArg = TypeArg::List(ins.iter().map(|x| x.1.ty().into()).collect());
        let b: TypeArg = TypeArg::List(outs.iter().map(|x| x.ty().into()).collect());
        let mut iw = vec![e];
        iw.extend(ins.iter().map(|x| x.0));
        let (n, o) = self.op(r, ext_op(&PRELUDE, if exit { "exit" } else { "panic" }, vec![a, b]), &iw);
        self.chain(r, n);
        o
    }

    // Containers -----------------------------------------------------------

    /// Fills the body of a container whose node exists.
    fn body(
        &mut self,
        node: Node,
        ins: &[Ty],
        outs: &[Ty],
        ctl_ty: Option<Type>,
        outer_q: usize,
        depth: u32,
        stmts: u32,
        ctl: &mut dyn FnMut(&mut Self, &mut Rg) -> Option<Wire>,
    ) -> bool {
        let i = self.h.add_node_with_parent(node, ops::Input::new(row(ins)));
        let mut ot: Vec<Type> = ctl_ty.into_iter().collect();
        ot.extend(outs.iter().map(Ty::ty));
        let o = self.h.add_node_with_parent(node, ops::Output::new(ot));
        let mut r = Rg {
            node,
            last: None,
            effects: false,
            vars: ins.iter().enumerate().map(|(k, t)| (w(i, k), t.clone())).collect(),
            outer_q,
            depth,
        };
        for _ in 0..stmts {
            if self.budget <= 0 {
                break;
            }
            self.stmt(&mut r);
        }
        let mut k = 0;
        if let Some(c) = ctl(self, &mut r) {
            self.connect(c, o, 0);
            k = 1;
        }
        let mut ws = vec![];
        for t in outs {
            ws.push(self.produce(&mut r, t));
        }
        self.dispose_all(&mut r);
        for (j, x) in ws.into_iter().enumerate() {
            self.connect(x, o, k + j);
        }
        if let Some(l) = r.last {
            self.h.add_other_edge(l, o);
        }
        r.effects
    }

    fn nstmts(&mut self) -> u32 {
        self.t.draw(5)
    }

    /// Picks some variables to hand to a container; linear ones are taken.
    fn args(&mut self, r: &mut Rg, max: u32) -> Vec<(Wire, Ty)> {
        let n = self.t.draw(max + 1);
        let mut out = vec![];
        for _ in 0..n {
            if r.vars.is_empty() {
                break;
            }
            let k = self.t.draw(r.vars.len() as u32) as usize;
            let v = r.vars[k].clone();
            if v.1.linear() {
                r.vars.remove(k);
            }
            out.push(v);
        }
        out
    }

    /// Output types for a container that got `args`: the linear ones come back
    /// (mostly), and maybe something new.
    fn outs_for(&mut self, args: &[(Wire, Ty)]) -> Vec<Ty> {
        let mut outs = vec![];
        for (_, t) in args {
            if t.has_rng() || !self.t.one_in(4) {
                outs.push(t.clone());
            }
        }
        if self.t.one_in(2) {
            outs.push(self.t.pick(&[TB, B, I, F]).clone());
        }
        if outs.len() > 1 && self.t.one_in(3) {
            let k = self.t.draw(outs.len() as u32) as usize;
            outs.rotate_left(k);
        }
        outs
    }

    fn cond_bool(&mut self, r: &mut Rg) -> Wire {
        if let Some(x) = self.find(r, &TB) {
            if !self.t.one_in(3) {
                return self.ext(r, &BOOL_EXTENSION, "read", [], &[x])[0];
            }
        }
        self.produce(r, &B)
    }

    /// A conditional on a wire of sum type with one row of types per variant.
    fn conditional(
        &mut self,
        r: &mut Rg,
        sum: Wire,
        rows: &[Vec<Ty>],
        other: &[(Wire, Ty)],
        outs: &[Ty],
        case: &mut dyn FnMut(&mut Self, usize, Node, &[Ty], usize) -> bool,
    ) -> Vec<Wire> {
        let ot: Vec<Ty> = other.iter().map(|x| x.1.clone()).collect();
        let mut iw = vec![sum];
        iw.extend(other.iter().map(|x| x.0));
        let (n, o) = self.op(
            r,
            ops::Conditional {
                sum_rows: rows.iter().map(|x| row(x)).collect(),
                other_inputs: row(&ot),
                outputs: row(outs),
            },
            &iw,
        );
        let rest = r.qubits();
        let rng0 = self.rng_live;
        let mut eff = false;
        for (k, rw) in rows.iter().enumerate() {
            let mut ins = rw.clone();
            ins.extend(ot.iter().cloned());
            let c = self.h.add_node_with_parent(n, ops::Case { signature: Signature::new(row(&ins), row(outs)) });
            self.rng_live = rng0;
            eff |= case(self, k, c, &ins, rest);
        }
        if eff {
            self.chain(r, n);
        }
        o
    }

    /// A case that returns its inputs.
    fn pass(&mut self, node: Node, ins: &[Ty], outs: &[Ty]) -> bool {
        let i = self.h.add_node_with_parent(node, ops::Input::new(row(ins)));
        let o = self.h.add_node_with_parent(node, ops::Output::new(row(outs)));
        let mut used = vec![false; ins.len()];
        for (k, t) in outs.iter().enumerate() {
            let j = (0..ins.len()).find(|&j| !used[j] && ins[j] == *t).expect("harness: pass");
            used[j] = true;
            self.connect(w(i, j), o, k);
        }
        false
    }

    /// A case that stops the program.
    fn stop_case(&mut self, node: Node, ins: &[Ty], outs: &[Ty], exit: bool, what: &str) -> bool {
        let i = self.h.add_node_with_parent(node, ops::Input::new(row(ins)));
        let o = self.h.add_node_with_parent(node, ops::Output::new(row(outs)));
        let mut r = Rg { node, last: None, effects: false, vars: vec![], outer_q: 0, depth: 0 };
        if self.t.one_in(3) {
            let tag = self.tag();
            let c = self.konst(&r, ConstInt::new_s(6, -7).unwrap());
            let (n, _) = self.op(&r, ext_op(&result::EXTENSION, "result_int", vec![tag.into(), 6u64.into()]), &[c]);
            self.chain(&mut r, n);
        }
        let iv: Vec<(Wire, Ty)> = ins.iter().enumerate().map(|(k, t)| (w(i, k), t.clone())).collect();
        let ws = self.stop(&mut r, exit, &iv, outs, what);
        for (k, x) in ws.into_iter().enumerate() {
            self.connect(x, o, k);
        }
        true
    }

    /// Takes the payload of variant 1 of an option-like sum; panics otherwise.
    fn unwrap(&mut self, r: &mut Rg, sum: Wire, none: Vec<Ty>, some: Vec<Ty>, what: &str) -> Vec<Wire> {
        let exit = self.t.one_in(4);
        let outs = some.clone();
        self.conditional(r, sum, &[none, some], &[], &outs.clone(), &mut |g, k, node, ins, _| {
            if k == 1 {
                g.pass(node, ins, &outs)
            } else {
                g.stop_case(node, ins, &outs, exit, what)
            }
        })
    }

    /// As `unwrap`; `soft`: a missing value is replaced, the program goes on.
    fn unwrap_or(&mut self, r: &mut Rg, soft: bool, sum: Wire, none: Vec<Ty>, some: Vec<Ty>, what: &str) -> Vec<Wire> {
        if !soft {
            return self.unwrap(r, sum, none, some, what);
        }
        let outs = some.clone();
        self.conditional(r, sum, &[none, some], &[], &outs.clone(), &mut |g, k, node, ins, rest| {
            if k == 1 {
                g.pass(node, ins, &outs)
            } else {
                g.body(node, ins, &outs, None, rest, 0, 0, &mut |_, _| None)
            }
        })
    }

    // Values ---------------------------------------------------------------

    fn find(&mut self, r: &Rg, t: &Ty) -> Option<Wire> {
        let c: Vec<Wire> = r.vars.iter().filter(|v| v.1 == *t).map(|v| v.0).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.t.pick(&c))
        }
    }

    fn take(&mut self, r: &mut Rg, t: &Ty) -> Option<Wire> {
        let c: Vec<usize> = (0..r.vars.len()).filter(|&k| r.vars[k].1 == *t).collect();
        if c.is_empty() {
            return None;
        }
        let k = *self.t.pick(&c);
        Some(if t.linear() { r.vars.remove(k).0 } else { r.vars[k].0 })
    }

    fn take_where(&mut self, r: &mut Rg, f: impl Fn(&Ty) -> bool) -> Option<(Wire, Ty)> {
        let c: Vec<usize> = (0..r.vars.len()).filter(|&k| f(&r.vars[k].1)).collect();
        if c.is_empty() {
            return None;
        }
        let k = *self.t.pick(&c);
        Some(if r.vars[k].1.linear() { r.vars.remove(k) } else { r.vars[k].clone() })
    }

    fn alloc(&mut self, r: &mut Rg) -> Wire {
        self.peak = self.peak.max(r.qubits() + 1);
        let kind = self.t.weighted(&[5, 2, 2]);
        let q = if kind == 0 {
            let (n, o) = self.op(r, ext_op(&TKET_EXTENSION, "QAlloc", []), &[]);
            if self.o.chain_alloc {
                self.chain(r, n);
            }
            o[0]
        } else {
            let e = if kind == 1 { &*TKET_EXTENSION } else { &*qsystem::EXTENSION };
            let (n, o) = self.op(r, ext_op(e, "TryQAlloc", []), &[]);
            if self.o.chain_alloc {
                self.chain(r, n);
            }
            self.unwrap(r, o[0], vec![], vec![Q], "no qubit")[0]
        };
        self.label(r, q)
    }

    /// A qubit: one there is or, if there is room, a new one.
    fn qubit(&mut self, r: &mut Rg) -> Option<Wire> {
        match self.take(r, &Q) {
            Some(q) => Some(q),
            None if self.room(r, 1) => Some(self.alloc(r)),
            None => None,
        }
    }

    /// The operation that names a new qubit in the device's log.
    fn label(&mut self, r: &Rg, q: Wire) -> Wire {
        let s = self.site;
        self.site += 1;
        let a = self.fconst(r, crate::device::LABEL_BASE + s as f64);
        self.ext(r, &qsystem::EXTENSION, "Rz", [], &[q, a])[0]
    }

    fn produce(&mut self, r: &mut Rg, t: &Ty) -> Wire {
        let reuse = if t.linear() { self.t.chance(9, 10) } else { self.t.chance(3, 4) };
        if reuse || t.has_rng() {
            if let Some(x) = self.take(r, t) {
                return x;
            }
        }
        match t {
            Q => self.alloc(r),
            TB => {
                if self.t.one_in(2) {
                    let b = self.t.one_in(2);
                    self.konst(r, ConstBool::new(b))
                } else {
                    let b = self.produce(r, &B);
                    self.ext(r, &BOOL_EXTENSION, "make_opaque", [], &[b])[0]
                }
            }
            B => match self.t.draw(4) {
                0 | 1 => {
                    if let Some(x) = self.find(r, &TB) {
                        return self.ext(r, &BOOL_EXTENSION, "read", [], &[x])[0];
                    }
                    let b = self.t.one_in(2);
                    self.konst(r, Value::from_bool(b))
                }
                2 => {
                    let (a, b) = (self.produce(r, &I), self.produce(r, &I));
                    let c = *self.t.pick(&["ilt_u", "ilt_s", "ieq", "ige_s", "igt_u", "ine", "ile_u", "ile_s", "igt_s", "ige_u"]);
                    self.ext(r, &INT, c, [6u64.into()], &[a, b])[0]
                }
                _ => {
                    let b = self.t.one_in(2);
                    self.konst(r, Value::from_bool(b))
                }
            },
            I => {
                let v = *self.t.pick(&[0i64, 1, 2, 3, 5, -1, 42, -1000, i64::MIN, i64::MAX, 0x1234_5678_9abc]);
                self.konst(r, ConstInt::new_s(6, v).unwrap())
            }
            F => {
                let v = *self.t.pick(&[0.0, 1.0, -1.5, 0.1, 3.25e10, -1e-9, 2.5, 1e300, f64::MIN_POSITIVE]);
                self.fconst(r, v)
            }
            U => {
                let v = self.t.draw(5) as u64;
                self.konst(r, ConstUsize::new(v))
            }
            Rot => {
                if self.t.one_in(3) {
                    let x = self.angle();
                    let f = self.fconst(r, x);
                    self.ext(r, &ROTATION_EXTENSION, "from_halfturns_unchecked", [], &[f])[0]
                } else {
                    let x = self.angle();
                    self.konst(r, ConstRotation::new(x).unwrap())
                }
            }
            Arr(k, t, n) => {
                if **t == TB && *k == AK::Std && false {
                    unreachable!()
                }
                let mut ws = vec![];
                let mut held = 0;
                for _ in 0..*n {
                    r.outer_q += held;
                    ws.push(self.produce(r, t));
                    r.outer_q -= held;
                    held += t.nq();
                }
                self.new_array(r, *k, t, &ws)
            }
            Tup(v) => {
                let mut ws = vec![];
                let mut held = 0;
                for t in v {
                    r.outer_q += held;
                    ws.push(self.produce(r, t));
                    r.outer_q -= held;
                    held += t.nq();
                }
                self.op(r, MakeTuple::new(row(v)), &ws).1[0]
            }
            Opt(t) => {
                if self.t.one_in(4) && t.nq() == 0 {
                    self.op(r, ops::Tag::new(0, vec![TypeRow::new(), row(&[(**t).clone()])]), &[]).1[0]
                } else {
                    let x = self.produce(r, t);
                    self.op(r, ops::Tag::new(1, vec![TypeRow::new(), row(&[(**t).clone()])]), &[x]).1[0]
                }
            }
            FutB => {
                let q = self.produce(r, &Q);
                self.ext(r, &qsystem::EXTENSION, "LazyMeasure", [], &[q])[0]
            }
            FutI => {
                let q = self.produce(r, &Q);
                self.ext(r, &qsystem::EXTENSION, "LazyMeasureLeaked", [], &[q])[0]
            }
            Gpu => {
                let k = self.gpus;
                self.gpus += 1;
                let k = [k, k, k + 100, 1 << 40 | k][self.t.draw(4) as usize];
                let i = self.konst(r, ConstUsize::new(k));
                let (n, o) = self.op(r, gpu::GpuOp::GetContext.to_extension_op().unwrap(), &[i]);
                self.chain(r, n);
                self.unwrap(r, o[0], vec![], vec![Gpu], "no GPU context")[0]
            }
            Rng => panic!("harness: no random context to produce"),
        }
    }

    fn new_array(&mut self, r: &Rg, k: AK, t: &Ty, ws: &[Wire]) -> Wire {
        self.ext(r, ak(k), "new_array", [(ws.len() as u64).into(), t.ty().into()], ws)[0]
    }

    fn measure(&mut self, r: &mut Rg, q: Wire) {
        let kind = self.t.weighted(&[4, 2, 2, 2, if self.o.futures { 2 } else { 0 }, if self.o.futures { 1 } else { 0 }, if self.o.futures { 1 } else { 0 }]);
        match kind {
            0 => {
                let o = self.ext(r, &TKET_EXTENSION, "MeasureFree", [], &[q]);
                r.vars.push((o[0], TB));
            }
            1 => {
                let o = self.ext(r, &TKET_EXTENSION, "Measure", [], &[q]);
                r.vars.push((o[0], Q));
                r.vars.push((o[1], B));
            }
            2 => {
                let o = self.ext(r, &qsystem::EXTENSION, "Measure", [], &[q]);
                r.vars.push((o[0], TB));
            }
            3 => {
                let o = self.ext(r, &qsystem::EXTENSION, "MeasureReset", [], &[q]);
                r.vars.push((o[0], Q));
                r.vars.push((o[1], TB));
            }
            4 => {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasure", [], &[q]);
                r.vars.push((o[0], FutB));
            }
            5 => {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasureReset", [], &[q]);
                r.vars.push((o[0], Q));
                r.vars.push((o[1], FutB));
            }
            _ => {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasureLeaked", [], &[q]);
                r.vars.push((o[0], FutI));
            }
        }
    }

    fn dispose(&mut self, r: &mut Rg, x: Wire, t: &Ty) {
        if !t.linear() {
            return;
        }
        if self.o.drops && t.droppable() && !matches!(t, FutB) && self.t.one_in(2) {
            self.ext(r, &GUPPY_EXTENSION, "drop", [t.ty().into()], &[x]);
            return;
        }
        match t {
            Q => match self.t.draw(3) {
                0 => {
                    let e = if self.t.one_in(3) { &*qsystem::EXTENSION } else { &*TKET_EXTENSION };
                    self.ext(r, e, "QFree", [], &[x]);
                }
                _ => {
                    let o = self.ext(r, &TKET_EXTENSION, "MeasureFree", [], &[x]);
                    r.vars.push((o[0], TB));
                }
            },
            Arr(k, t, n) => {
                if **t == Q && *n > 0 && self.t.one_in(3) && *k != AK::Val {
                    // scan with a measuring function
                    if let Some(f) = self.fns.iter().position(|f| !f.poly && f.ins == [Q] && f.outs == [TB] && !f.effects) {
                        let fv = self.load_fn(r, f, vec![]);
                        let (nd, o) = self.op(
                            r,
                            ext_op(ak(*k), "scan", vec![(*n).into(), qb_t().into(), bool_type().into(), TypeArg::List(vec![])]),
                            &[x, fv],
                        );
                        // labels number the qubits a function allocates, call by call
                        self.chain(r, nd);
                        r.vars.push((o[0], Arr(*k, Box::new(TB), *n)));
                        return;
                    }
                }
                if !t.linear() && self.t.one_in(2) {
                    self.ext(r, ak(*k), "discard", [(*n).into(), t.ty().into()], &[x]);
                } else {
                    let ws = self.ext(r, ak(*k), "unpack", [(*n).into(), t.ty().into()], &[x]);
                    for y in ws {
                        self.dispose(r, y, t);
                    }
                }
            }
            Tup(v) => {
                let ws = self.op(r, UnpackTuple::new(row(v)), &[x]).1;
                for (y, t) in ws.into_iter().zip(v) {
                    self.dispose(r, y, t);
                }
            }
            Opt(t) => {
                let t2 = (**t).clone();
                self.conditional(r, x, &[vec![], vec![t2]], &[], &[], &mut |g, _, node, ins, rest| {
                    g.body(node, ins, &[], None, rest, 0, 0, &mut |_, _| None)
                });
            }
            Rng => {
                let (n, _) = self.op(r, ext_op(&random::EXTENSION, "DeleteRNGContext", []), &[x]);
                self.chain(r, n);
                self.rng_live = false;
            }
            Gpu => {
                let (n, _) = self.op(r, gpu::GpuOp::DisposeContext.to_extension_op().unwrap(), &[x]);
                self.chain(r, n);
            }
            FutB => {
                if self.t.one_in(2) {
                    let o = self.ext(r, &futures::EXTENSION, "Read", [bool_t().into()], &[x]);
                    r.vars.push((o[0], B));
                } else {
                    self.ext(r, &futures::EXTENSION, "Free", [bool_t().into()], &[x]);
                }
            }
            FutI => {
                let a: TypeArg = INT_TYPES[6].clone().into();
                if self.t.one_in(2) {
                    let o = self.ext(r, &futures::EXTENSION, "Read", [a], &[x]);
                    r.vars.push((o[0], I));
                } else {
                    self.ext(r, &futures::EXTENSION, "Free", [a], &[x]);
                }
            }
            _ => unreachable!(),
        }
    }

    fn dispose_all(&mut self, r: &mut Rg) {
        while let Some(k) = r.vars.iter().position(|v| v.1.linear()) {
            let (x, t) = r.vars.remove(k);
            self.dispose(r, x, &t);
        }
        // report some of what was measured
        for _ in 0..2 {
            if self.t.one_in(3) && self.o.weights["result"] > 0 {
                self.s_result(r);
            }
        }
        while let Some(k) = r.vars.iter().position(|v| v.1.linear()) {
            let (x, t) = r.vars.remove(k);
            self.dispose(r, x, &t);
        }
    }

    fn load_fn(&mut self, r: &Rg, f: usize, targs: Vec<TypeArg>) -> Wire {
        let lf = ops::LoadFunction::try_new(self.fns[f].sig.clone(), targs).unwrap();
        let p = lf.function_port();
        let n = self.h.add_node_with_parent(r.node, lf);
        self.h.connect(self.fns[f].node, 0, n, p);
        w(n, 0)
    }

    // Statements -----------------------------------------------------------

    fn small_ty(&mut self, r: &Rg) -> Ty {
        let q = r.qubits() + 2 <= self.o.max_q;
        let leaf = |g: &mut Self| -> Ty {
            let k = g.t.weighted(&[if q { 6 } else { 0 }, 3, 2, 2, 2, 1]);
            [Q, TB, B, I, F, Rot][k].clone()
        };
        match self.t.weighted(&[5, 2, 2, 1, 1]) {
            0 => leaf(self),
            1 => {
                let t = leaf(self);
                Arr(AK::Std, Box::new(t), self.t.range(1, 3) as u64)
            }
            2 => {
                let t = leaf(self);
                Arr(AK::Borrow, Box::new(t), self.t.range(1, 3) as u64)
            }
            3 => Tup((0..self.t.range(1, 3)).map(|_| leaf(self)).collect()),
            _ => Opt(Box::new(leaf(self))),
        }
    }

    fn room(&self, r: &Rg, n: usize) -> bool {
        r.qubits() + n <= self.o.max_q
    }

    fn stmt(&mut self, r: &mut Rg) {
        self.budget -= 1;
        let ws: Vec<u32> = KINDS.iter().map(|k| self.o.weights.get(k).copied().unwrap_or(0)).collect();
        let k = KINDS[self.t.weighted(&ws)];
        *self.used.entry(k).or_default() += 1;
        match k {
            "alloc" => {
                if self.room(r, 1) {
                    if self.t.one_in(8) && self.room(r, 2) {
                        // keep the option
                        let (n, o) = self.op(r, ext_op(&TKET_EXTENSION, "TryQAlloc", []), &[]);
                        if self.o.chain_alloc {
                            self.chain(r, n);
                        }
                        let s = self.site;
                        self.site += 1;
                        let outs = [Opt(Box::new(Q))];
                        let x = self.conditional(r, o[0], &[vec![], vec![Q]], &[], &outs, &mut |g, k, node, ins, _| {
                            let i = g.h.add_node_with_parent(node, ops::Input::new(row(ins)));
                            let o = g.h.add_node_with_parent(node, ops::Output::new(row(&[Opt(Box::new(Q))])));
                            let rr = Rg { node, last: None, effects: false, vars: vec![], outer_q: 0, depth: 0 };
                            let variants = vec![TypeRow::new(), row(&[Q])];
                            let x = if k == 1 {
                                let a = g.fconst(&rr, crate::device::LABEL_BASE + s as f64);
                                let q = g.ext(&rr, &qsystem::EXTENSION, "Rz", [], &[w(i, 0), a])[0];
                                g.op(&rr, ops::Tag::new(1, variants), &[q]).1[0]
                            } else {
                                g.op(&rr, ops::Tag::new(0, variants), &[]).1[0]
                            };
                            g.connect(x, o, 0);
                            false
                        });
                        r.vars.push((x[0], Opt(Box::new(Q))));
                    } else {
                        let q = self.alloc(r);
                        r.vars.push((q, Q));
                    }
                }
            }
            "gate1" => self.s_gate1(r),
            "gate2" => self.s_gate2(r),
            "measure" => {
                if let Some(q) = self.qubit(r) {
                    self.measure(r, q);
                }
            }
            "reset" => {
                if let Some(q) = self.take(r, &Q) {
                    if self.t.one_in(3) {
                        self.dispose(r, q, &Q);
                    } else {
                        let e = if self.t.one_in(2) { &*qsystem::EXTENSION } else { &*TKET_EXTENSION };
                        let q = self.ext(r, e, "Reset", [], &[q])[0];
                        r.vars.push((q, Q));
                    }
                }
            }
            "bool" => self.s_bool(r),
            "int" => self.s_int(r),
            "float" => self.s_float(r),
            "result" => self.s_result(r),
            "array" => self.s_array(r),
            "tuple" => self.s_tuple(r),
            "cond" => self.s_cond(r),
            "loop" => self.s_loop(r),
            "cfg" => self.s_cfg(r),
            "dfg" => self.s_dfg(r),
            "call" => self.s_call(r),
            "barrier" => self.s_barrier(r),
            "random" => self.s_random(r),
            "future" => self.s_future(r),
            "shot" => self.s_shot(r),
            "stop" => self.s_stop(r),
            "drop" => {
                if self.o.drops {
                    if let Some((x, t)) = self.take_where(r, |t| t.linear() && t.droppable() && *t != FutB) {
                        self.ext(r, &GUPPY_EXTENSION, "drop", [t.ty().into()], &[x]);
                    }
                }
            }
            "static" => self.s_static(r),
            "borrow" => self.s_borrow(r),
            "gpu" => self.s_gpu(r),
            _ => unreachable!(),
        }
    }

    fn s_gate1(&mut self, r: &mut Rg) {
        let Some(q) = self.qubit(r) else { return };
        let native = self.o.native || self.t.one_in(4);
        let q = if native {
            let a = self.angle() * std::f64::consts::PI;
            let aw = self.fconst(r, a);
            if self.t.one_in(2) {
                self.ext(r, &qsystem::EXTENSION, "Rz", [], &[q, aw])[0]
            } else {
                let b = self.angle();
                let bw = self.fconst(r, b);
                self.ext(r, &qsystem::EXTENSION, "PhasedX", [], &[q, aw, bw])[0]
            }
        } else if self.t.one_in(3) {
            let a = self.produce(r, &Rot);
            let n = *self.t.pick(&["Rx", "Ry", "Rz"]);
            self.ext(r, &TKET_EXTENSION, n, [], &[q, a])[0]
        } else {
            let n = *self.t.pick(&["H", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "V", "Vdg", "H"]);
            self.ext(r, &TKET_EXTENSION, n, [], &[q])[0]
        };
        r.vars.push((q, Q));
    }

    fn s_gate2(&mut self, r: &mut Rg) {
        let Some(p) = self.qubit(r) else { return };
        let have = self.take(r, &Q);
        let q = match have {
            Some(q) => q,
            None if r.qubits() + 2 <= self.o.max_q => self.alloc(r),
            None => {
                r.vars.push((p, Q));
                return;
            }
        };
        let o = if self.o.native || self.t.one_in(4) {
            let a = self.angle();
            let a = self.fconst(r, a);
            self.ext(r, &qsystem::EXTENSION, "ZZPhase", [], &[p, q, a])
        } else {
            match self.t.draw(6) {
                0 => {
                    let a = self.produce(r, &Rot);
                    self.ext(r, &TKET_EXTENSION, "CRz", [], &[p, q, a])
                }
                1 => match self.take(r, &Q) {
                    Some(s) => self.ext(r, &TKET_EXTENSION, "Toffoli", [], &[p, q, s]),
                    None => self.ext(r, &TKET_EXTENSION, "CX", [], &[p, q]),
                },
                k => {
                    let n = ["CX", "CY", "CZ", "CX"][k as usize - 2];
                    self.ext(r, &TKET_EXTENSION, n, [], &[p, q])
                }
            }
        };
        for x in o {
            r.vars.push((x, Q));
        }
    }

    fn s_bool(&mut self, r: &mut Rg) {
        if self.t.chance(2, 3) {
            let a = self.produce(r, &TB);
            let n = *self.t.pick(&["and", "or", "xor", "eq", "not", "read"]);
            let n = if n == "eq" && self.o.no_eq { "xor" } else { n };
            let x = match n {
                "not" | "read" => self.ext(r, &BOOL_EXTENSION, n, [], &[a]),
                _ => {
                    let b = self.produce(r, &TB);
                    self.ext(r, &BOOL_EXTENSION, n, [], &[a, b])
                }
            };
            r.vars.push((x[0], if n == "read" { B } else { TB }));
        } else {
            let a = self.produce(r, &B);
            let n = *self.t.pick(&["And", "Or", "Xor", "Eq", "Not"]);
            let n = if n == "Eq" && self.o.no_eq { "Xor" } else { n };
            let x = if n == "Not" {
                self.ext(r, &LOGIC, n, [], &[a])
            } else {
                let b = self.produce(r, &B);
                self.ext(r, &LOGIC, n, [], &[a, b])
            };
            r.vars.push((x[0], B));
        }
    }

    fn s_int(&mut self, r: &mut Rg) {
        let a = self.produce(r, &I);
        let six: [TypeArg; 1] = [6u64.into()];
        match self.t.draw(8) {
            0 => {
                let n = *self.t.pick(&["ineg", "inot"]);
                let x = self.ext(r, &INT, n, six, &[a]);
                r.vars.push((x[0], I));
            }
            1 => {
                let d = self.t.range(1, 9) as u64;
                let d = self.konst(r, ConstInt::new_u(6, d).unwrap());
                let x = self.ext(r, &INT, "idivmod_u", six, &[a, d]);
                r.vars.push((x[0], I));
                r.vars.push((x[1], I));
            }
            2 => {
                let b = self.produce(r, &B);
                let i0 = self.ext(r, &CONV, "ifrombool", [], &[b])[0];
                let x = self.ext(r, &INT, "iwiden_u", [0u64.into(), 6u64.into()], &[i0]);
                r.vars.push((x[0], I));
            }
            3 => {
                let s = self.t.draw(60) as u64;
                let s = self.konst(r, ConstInt::new_u(6, s).unwrap());
                let n = *self.t.pick(&["ishl", "ishr"]);
                let x = self.ext(r, &INT, n, six, &[a, s]);
                r.vars.push((x[0], I));
            }
            _ => {
                let b = self.produce(r, &I);
                let n = *self.t.pick(&["iadd", "isub", "imul", "iand", "ior", "ixor", "imax_u", "imin_s", "imax_s", "imin_u"]);
                let x = self.ext(r, &INT, n, six, &[a, b]);
                r.vars.push((x[0], I));
            }
        }
    }

    fn s_float(&mut self, r: &mut Rg) {
        match self.t.draw(6) {
            0 => {
                let (a, b) = (self.produce(r, &Rot), self.produce(r, &Rot));
                let x = self.ext(r, &ROTATION_EXTENSION, "radd", [], &[a, b]);
                r.vars.push((x[0], Rot));
            }
            1 => {
                let a = self.produce(r, &Rot);
                let x = self.ext(r, &ROTATION_EXTENSION, "to_halfturns", [], &[a]);
                r.vars.push((x[0], F));
            }
            2 => {
                let a = self.produce(r, &I);
                let n = *self.t.pick(&["convert_u", "convert_s"]);
                let x = self.ext(r, &CONV, n, [6u64.into()], &[a]);
                r.vars.push((x[0], F));
            }
            3 => {
                // a checked conversion that works for finite values
                let x = self.angle();
                let f = self.fconst(r, x);
                let o = self.ext(r, &ROTATION_EXTENSION, "from_halfturns", [], &[f]);
                let x = self.unwrap(r, o[0], vec![], vec![Rot], "bad angle");
                r.vars.push((x[0], Rot));
            }
            _ => {
                let (a, b) = (self.produce(r, &F), self.produce(r, &F));
                if self.t.one_in(3) {
                    let n = *self.t.pick(&["flt", "fgt", "feq", "fle"]);
                    let x = self.ext(r, &FLOAT, n, [], &[a, b]);
                    r.vars.push((x[0], B));
                } else {
                    // Values stay finite: the operands are scaled constants.
                    let c = *self.t.pick(&[1.5, -2.25, 1e-3]);
                    let c = self.fconst(r, c);
                    let n = *self.t.pick(&["fadd", "fsub"]);
                    let x = self.ext(r, &FLOAT, n, [], &[a, c]);
                    r.vars.push((x[0], F));
                }
            }
        }
    }

    fn s_result(&mut self, r: &mut Rg) {
        let tag: TypeArg = self.tag().into();
        let k = self.t.weighted(&[4, 2, 2, 2, 3]);
        let (n, ins): (OpType, Vec<Wire>) = match k {
            0 => {
                let b = self.cond_bool(r);
                (ext_op(&result::EXTENSION, "result_bool", vec![tag]), vec![b])
            }
            1 | 2 => {
                let x = self.produce(r, &I);
                let name = if k == 1 { "result_int" } else { "result_uint" };
                (ext_op(&result::EXTENSION, name, vec![tag, 6u64.into()]), vec![x])
            }
            3 => {
                let x = self.produce(r, &F);
                (ext_op(&result::EXTENSION, "result_f64", vec![tag]), vec![x])
            }
            _ => {
                let t = self.t.pick(&[B, I, F]).clone();
                let have: Vec<u64> = r
                    .vars
                    .iter()
                    .filter_map(|v| match &v.1 {
                        Arr(AK::Std, e, n) if **e == t => Some(*n),
                        _ => None,
                    })
                    .collect();
                let n = if have.is_empty() { self.t.range(0, 4) as u64 } else { *self.t.pick(&have) };
                let x = self.produce(r, &Arr(AK::Std, Box::new(t.clone()), n));
                let op = match t {
                    B => ext_op(&result::EXTENSION, "result_array_bool", vec![tag, n.into()]),
                    F => ext_op(&result::EXTENSION, "result_array_f64", vec![tag, n.into()]),
                    _ => {
                        let name = if self.t.one_in(2) { "result_array_int" } else { "result_array_uint" };
                        ext_op(&result::EXTENSION, name, vec![tag, n.into(), 6u64.into()])
                    }
                };
                (op, vec![x])
            }
        };
        let (n, _) = self.op(r, n, &ins);
        self.chain(r, n);
    }

    fn s_tuple(&mut self, r: &mut Rg) {
        match self.t.draw(4) {
            0 => {
                let mut v = self.args(r, 3);
                if r.depth > 0 {
                    // a context has to stay where the region can return it
                    let (a, b) = v.into_iter().partition(|x| !x.1.has_rng());
                    v = a;
                    r.vars.extend::<Vec<_>>(b);
                }
                let ts: Vec<Ty> = v.iter().map(|x| x.1.clone()).collect();
                let ws: Vec<Wire> = v.iter().map(|x| x.0).collect();
                let x = self.op(r, MakeTuple::new(row(&ts)), &ws).1[0];
                r.vars.push((x, Tup(ts)));
            }
            1 => {
                if let Some((x, Tup(ts))) = self.take_where(r, |t| matches!(t, Tup(_))) {
                    let ws = self.op(r, UnpackTuple::new(row(&ts)), &[x]).1;
                    r.vars.extend(ws.into_iter().zip(ts));
                }
            }
            2 => {
                if let Some((x, t)) = self.take_where(r, |t| !t.has_rng()) {
                    let x = self.op(r, ops::Tag::new(1, vec![TypeRow::new(), row(&[t.clone()])]), &[x]).1[0];
                    r.vars.push((x, Opt(Box::new(t))));
                }
            }
            _ => {
                // only options that are certainly full can be unwrapped safely;
                // an empty one stops the program
                if let Some((x, Opt(t))) = self.take_where(r, |t| matches!(t, Opt(_))) {
                    let y = self.unwrap(r, x, vec![], vec![(*t).clone()], "empty option");
                    r.vars.push((y[0], *t));
                }
            }
        }
    }

    fn index(&mut self, r: &mut Rg, n: u64, soft: bool) -> Wire {
        if n == 0 || self.t.one_in(if soft { 4 } else { 24 }) {
            let v = n + self.t.draw(3) as u64;
            return self.konst(r, ConstUsize::new(v));
        }
        if self.t.one_in(3) {
            let i = self.produce(r, &I);
            let m = self.konst(r, ConstInt::new_u(6, n).unwrap());
            let i = self.ext(r, &INT, "imod_u", [6u64.into()], &[i, m])[0];
            return self.ext(r, &CONV, "itousize", [], &[i])[0];
        }
        let v = self.t.draw(n as u32) as u64;
        self.konst(r, ConstUsize::new(v))
    }

    fn s_array(&mut self, r: &mut Rg) {
        for _ in 0..self.t.range(1, 3) {
            if !self.t.chance(3, 4) || !r.vars.iter().any(|v| matches!(v.1, Arr(..))) {
                self.make_array(r);
            }
            if self.t.one_in(6) {
                return;
            }
            self.array_op(r);
        }
    }

    fn make_array(&mut self, r: &mut Rg) {
        let k = match self.t.draw(5) {
            0 | 1 => AK::Std,
            4 if self.o.value_arrays => AK::Val,
            _ => AK::Borrow,
        };
        let q = self.room(r, 2);
        let c = self.t.weighted(&[if q { 5 } else { 0 }, 3, 2, 2, 1, if q { 1 } else { 0 }, 1, 1]);
        let t = match c {
            7 => {
                let k = if self.t.one_in(2) { AK::Std } else { AK::Borrow };
                let el = [Q, TB, I][self.t.weighted(&[if q { 3 } else { 0 }, 1, 1])].clone();
                let n = self.t.draw(if el == Q { 2 } else { 3 });
                Arr(k, Box::new(el), n as u64)
            }
            c => [Q, TB, B, I, F, Opt(Box::new(Q)), Tup(vec![TB, I])][c].clone(),
        };
        let max = if t.nq() > 0 { (self.o.max_q - r.qubits()).min(3) } else { 4 };
        let n = self.t.range(0, max as u32) as u64;
        if !self.t.one_in(6) || t.linear() {
            let x = self.produce(r, &Arr(k, Box::new(t.clone()), n));
            r.vars.push((x, Arr(k, Box::new(t), n)));
        } else if let Some(f) = self.fns.iter().position(|f| !f.poly && f.ins.is_empty() && f.outs.len() == 1 && f.outs[0].nq() == 0) {
            let t = self.fns[f].outs[0].clone();
            let eff = self.fns[f].effects;
            let fv = self.load_fn(r, f, vec![]);
            let (nd, o) = self.op(r, ext_op(ak(k), "repeat", vec![n.into(), t.ty().into()]), &[fv]);
            if eff || self.fns[f].peak > 0 {
                self.chain(r, nd);
            }
            r.vars.push((o[0], Arr(k, Box::new(t), n)));
        }
    }

    fn array_op(&mut self, r: &mut Rg) {
        let Some((x, t)) = self.take_where(r, |t| matches!(t, Arr(..))) else {
            return;
        };
        let Arr(k, el, n) = t.clone() else { unreachable!() };
        let e = ak(k);
        let na: [TypeArg; 2] = [n.into(), el.ty().into()];
        let at = || t.clone();
        match self.t.weighted(&[2, 3, 3, 2, 2, 2, 2, 2, 2, 2]) {
            0 if n > 0 => {
                let side = self.t.one_in(2);
                let o = self.ext(r, e, if side { "pop_left" } else { "pop_right" }, na, &[x]);
                let rest = Arr(k, el.clone(), n - 1);
                let y = self.unwrap(r, o[0], vec![], vec![(*el).clone(), rest.clone()], "empty array");
                r.vars.push((y[0], *el));
                r.vars.push((y[1], rest));
            }
            1 if !el.linear() && n > 0 && !(*el == TB && k != AK::Borrow) && !matches!(*el, Tup(_)) => {
                let soft = self.t.one_in(2);
                let i = self.index(r, n, soft);
                let o = self.ext(r, e, "get", na, &[x, i]);
                let y = self.unwrap_or(r, soft, o[0], vec![], vec![(*el).clone()], "index");
                r.vars.push((y[0], *el.clone()));
                r.vars.push((o[1], at()));
            }
            2 if n > 0 && (el.nq() == 0 || self.room(r, n as usize + 1)) => {
                let soft = self.t.one_in(2);
                let i = self.index(r, n, soft);
                r.outer_q += t.nq();
                let v = self.produce(r, &el);
                r.outer_q -= t.nq();
                let o = self.ext(r, e, "set", na, &[x, i, v]);
                let pair = vec![(*el).clone(), at()];
                let y = self.unwrap_or(r, soft, o[0], pair.clone(), pair, "index");
                r.vars.push((y[0], *el));
                r.vars.push((y[1], t));
            }
            3 if n > 0 => {
                let soft = self.t.one_in(2);
                let (i, j) = (self.index(r, n, soft), self.index(r, n, soft));
                let o = self.ext(r, e, "swap", na, &[x, i, j]);
                let y = self.unwrap_or(r, soft, o[0], vec![at()], vec![at()], "index");
                r.vars.push((y[0], t));
            }
            4 if !el.linear() && k != AK::Val => {
                let o = self.ext(r, e, "clone", na, &[x]);
                r.vars.push((o[0], at()));
                r.vars.push((o[1], t));
            }
            5 | 6 if k == AK::Borrow && n > 0 => {
                // borrow one or two elements, work on them, put them back
                let two = n > 1 && self.t.one_in(2);
                let i = self.t.draw(n as u32) as u64;
                let j = (i + 1) % n;
                let iw = self.konst(r, ConstUsize::new(i));
                let o = self.ext(r, e, "borrow", na.clone(), &[x, iw]);
                self.chain(r, o[0].node());
                let (mut a, mut p) = (o[0], o[1]);
                let mut s = None;
                if two {
                    let jw = self.konst(r, ConstUsize::new(j));
                    let o = self.ext(r, e, "borrow", na.clone(), &[a, jw]);
                    self.chain(r, o[0].node());
                    a = o[0];
                    s = Some((o[1], jw));
                }
                if self.t.one_in(3) {
                    let o = self.ext(r, e, "is_borrowed", na.clone(), &[a, iw]);
                    self.chain(r, o[0].node());
                    a = o[0];
                    r.vars.push((o[1], B));
                }
                if *el == Q {
                    match s {
                        Some((q, jw)) => {
                            let o = if self.o.native {
                                let c = self.fconst(r, 0.7);
                                self.ext(r, &qsystem::EXTENSION, "ZZPhase", [], &[p, q, c])
                            } else {
                                self.ext(r, &TKET_EXTENSION, "CX", [], &[p, q])
                            };
                            p = o[0];
                            s = Some((o[1], jw));
                        }
                        None => {
                            let c = self.fconst(r, 0.4);
                            p = self.ext(r, &qsystem::EXTENSION, "Rz", [], &[p, c])[0];
                        }
                    }
                }
                let swap = two && self.t.one_in(3);
                if let Some((q, jw)) = s {
                    let (v, idx) = if swap { (q, iw) } else { (q, jw) };
                    a = self.ext(r, e, "return", na.clone(), &[a, idx, v])[0];
                    self.chain(r, a.node());
                    let idx = if swap { jw } else { iw };
                    a = self.ext(r, e, "return", na, &[a, idx, p])[0];
                } else {
                    a = self.ext(r, e, "return", na, &[a, iw, p])[0];
                }
                self.chain(r, a.node());
                r.vars.push((a, t));
            }
            7 if k != AK::Val => {
                let (o, k2) = if k == AK::Std {
                    (self.ext(r, &borrow_array::EXTENSION, "from_array", na, &[x]), AK::Borrow)
                } else {
                    (self.ext(r, &borrow_array::EXTENSION, "to_array", na, &[x]), AK::Std)
                };
                if k == AK::Borrow {
                    self.chain(r, o[0].node());
                }
                r.vars.push((o[0], Arr(k2, el, n)));
            }
            8 if *el == Q && k != AK::Val => {
                // scan with a function on single qubits
                match self.fns.iter().position(|f| !f.poly && f.ins == [Q] && f.outs == [TB]) {
                    Some(f) if n > 0 => {
                        let fv = self.load_fn(r, f, vec![]);
                        let (nd, o) = self.op(
                            r,
                            ext_op(e, "scan", vec![n.into(), qb_t().into(), bool_type().into(), TypeArg::List(vec![])]),
                            &[x, fv],
                        );
                        if self.fns[f].effects || self.fns[f].peak > 0 {
                            self.chain(r, nd);
                        }
                        r.vars.push((o[0], Arr(k, Box::new(TB), n)));
                    }
                    _ => r.vars.push((x, t)),
                }
            }
            9 => {
                let ws = self.ext(r, e, "unpack", na, &[x]);
                r.vars.extend(ws.into_iter().map(|y| (y, (*el).clone())));
            }
            _ => {
                if t.linear() {
                    r.vars.push((x, t));
                }
            }
        }
    }

    /// A long series of borrows and returns on one array.
    fn s_borrow(&mut self, r: &mut Rg) {
        fn fits(t: &Ty) -> bool {
            matches!(t, Arr(AK::Borrow, e, n) if *n > 0 && (**e == Q || fits(e)))
        }
        let found = self.take_where(r, fits);
        let (x, t) = match found {
            Some(x) => x,
            None => {
                if !self.room(r, 2) {
                    return;
                }
                let max = (self.o.max_q - r.qubits()).min(3) as u32;
                let t = if max >= 2 && self.t.one_in(3) {
                    Arr(AK::Borrow, Box::new(Arr(AK::Borrow, Box::new(Q), (max / 2) as u64)), 2)
                } else {
                    Arr(AK::Borrow, Box::new(Q), self.t.range(1, max) as u64)
                };
                (self.produce(r, &t), t)
            }
        };
        let chained = self.t.one_in(3);
        let x = self.borrows(r, x, &t, chained);
        r.vars.push((x, t));
    }

    fn borrows(&mut self, r: &mut Rg, x: Wire, t: &Ty, chained: bool) -> Wire {
        let Arr(AK::Borrow, el, n) = t.clone() else { unreachable!() };
        let e = ak(AK::Borrow);
        let na: [TypeArg; 2] = [n.into(), el.ty().into()];
        let consts: Vec<Wire> = (0..n).map(|i| self.konst(r, ConstUsize::new(i))).collect();
        let mut arr = x;
        // what is outside, and the free places
        let mut out: Vec<(u64, Wire)> = vec![];
        let mut free: Vec<u64> = vec![];
        let mut wrong = false;
        for _ in 0..self.t.range(2, 9) {
            if wrong {
                break;
            }
            let c = self.t.draw(6);
            if c == 0 && !out.is_empty() {
                // work on an element
                let k = self.t.draw(out.len() as u32) as usize;
                out[k].1 = self.work(r, out[k].1, &el, chained);
                continue;
            }
            if c == 1 && out.len() > 1 {
                if *el == Q {
                    let o = self.ext(r, &TKET_EXTENSION, "CX", [], &[out[0].1, out[1].1]);
                    (out[0].1, out[1].1) = (o[0], o[1]);
                } else {
                    // the elements change places
                    let a = out[0].1;
                    out[0].1 = out[1].1;
                    out[1].1 = a;
                }
                continue;
            }
            if c == 2 && r.depth < 4 && self.t.one_in(3) {
                let tag = self.tag();
                let v = self.konst(r, ConstInt::new_u(6, self.site as u64).unwrap());
                let (nd, _) = self.op(r, ext_op(&result::EXTENSION, "result_uint", vec![TypeArg::from(tag), 6u64.into()]), &[v]);
                self.chain(r, nd);
                continue;
            }
            let borrow = out.is_empty() || (out.len() < n as usize && self.t.one_in(3));
            if borrow {
                let ins: Vec<u64> = (0..n).filter(|i| !free.contains(i)).collect();
                let mut i = *self.t.pick(&ins);
                let mut ch = chained;
                if !free.is_empty() && self.t.one_in(24) {
                    // already borrowed
                    i = free[0];
                    (ch, wrong) = (true, true);
                }
                let iw = self.place(r, i, consts[i as usize]);
                let o = self.ext(r, e, "borrow", na.clone(), &[arr, iw]);
                if ch {
                    self.chain(r, o[0].node());
                }
                arr = o[0];
                free.push(i);
                out.push((i, o[1]));
            } else {
                let k = self.t.draw(out.len() as u32) as usize;
                let (home, v) = out.swap_remove(k);
                let mut i = if self.t.one_in(3) { *self.t.pick(&free) } else { home };
                if !free.contains(&i) {
                    i = free[0];
                }
                let mut ch = chained;
                let legal = i;
                if free.len() < n as usize && self.t.one_in(24) {
                    // not borrowed
                    i = (0..n).find(|i| !free.contains(i)).unwrap();
                    (ch, wrong) = (true, true);
                }
                let iw = self.place(r, i, consts[i as usize]);
                let o = self.ext(r, e, "return", na.clone(), &[arr, iw, v]);
                if ch {
                    self.chain(r, o[0].node());
                }
                arr = o[0];
                free.retain(|&j| j != legal);
            }
        }
        while let Some((home, v)) = out.pop() {
            let i = if free.contains(&home) { home } else { free.first().copied().unwrap_or(0) };
            let iw = self.place(r, i, consts[i as usize]);
            arr = self.ext(r, e, "return", na.clone(), &[arr, iw, v])[0];
            if chained {
                self.chain(r, arr.node());
            }
            free.retain(|&j| j != i);
        }
        arr
    }

    /// A wire that holds `i`.
    fn place(&mut self, r: &mut Rg, i: u64, known: Wire) -> Wire {
        match self.t.draw(8) {
            0 => {
                let c = self.konst(r, ConstInt::new_u(6, i).unwrap());
                self.ext(r, &CONV, "itousize", [], &[c])[0]
            }
            1 | 2 => self.konst(r, ConstUsize::new(i)),
            _ => known,
        }
    }

    fn work(&mut self, r: &mut Rg, x: Wire, t: &Ty, chained: bool) -> Wire {
        if *t != Q {
            return self.borrows(r, x, t, chained);
        }
        match self.t.draw(3) {
            0 => self.ext(r, &TKET_EXTENSION, "H", [], &[x])[0],
            1 => self.ext(r, &TKET_EXTENSION, "T", [], &[x])[0],
            _ => {
                let c = self.fconst(r, 0.3);
                self.ext(r, &qsystem::EXTENSION, "Rz", [], &[x, c])[0]
            }
        }
    }

    fn container_ok(&mut self, r: &Rg) -> bool {
        r.depth < self.o.depth && self.budget > 0
    }

    fn s_cond(&mut self, r: &mut Rg) {
        if !self.container_ok(r) {
            return;
        }
        let opt = if self.t.one_in(4) { self.take_where(r, |t| matches!(t, Opt(_))) } else { None };
        let (sum, rows) = match opt {
            Some((x, Opt(t))) => (x, vec![vec![], vec![*t]]),
            _ => (self.cond_bool(r), vec![vec![], vec![]]),
        };
        let args = self.args(r, 3);
        let outs = self.outs_for(&args);
        let depth = r.depth + 1;
        let rng0 = self.rng_live;
        let o = self.conditional(r, sum, &rows, &args, &outs.clone(), &mut |g, _, node, ins, rest| {
            let n = g.nstmts();
            let e = g.body(node, ins, &outs, None, rest, depth, n, &mut |_, _| None);
            e
        });
        self.rng_live = rng0;
        r.vars.extend(o.into_iter().zip(outs));
    }

    fn s_dfg(&mut self, r: &mut Rg) {
        if !self.container_ok(r) {
            return;
        }
        let args = self.args(r, 4);
        let outs = self.outs_for(&args);
        let ins: Vec<Ty> = args.iter().map(|x| x.1.clone()).collect();
        let ws: Vec<Wire> = args.iter().map(|x| x.0).collect();
        let (n, o) = self.op(r, ops::DFG { signature: Signature::new(row(&ins), row(&outs)) }, &ws);
        let k = self.nstmts();
        let rest = r.qubits();
        if self.body(n, &ins, &outs, None, rest, r.depth + 1, k, &mut |_, _| None) {
            self.chain(r, n);
        }
        r.vars.extend(o.into_iter().zip(outs));
    }

    fn s_loop(&mut self, r: &mut Rg) {
        if !self.container_ok(r) || self.nested >= 2 {
            return;
        }
        let args: Vec<(Wire, Ty)> = self.args(r, 3);
        let rest: Vec<Ty> = args.iter().map(|x| x.1.clone()).collect();
        let zero = self.konst(r, ConstInt::new_u(6, 0).unwrap());
        let mut ws = vec![zero];
        ws.extend(args.iter().map(|x| x.0));
        let (n, o) = self.op(
            r,
            ops::TailLoop { just_inputs: row(&[I]), just_outputs: row(&[I]), rest: row(&rest) },
            &ws,
        );
        let mut ins = vec![I];
        ins.extend(rest.iter().cloned());
        let bound = self.t.range(1, 4) as u64;
        let until = self.t.one_in(2);
        let ctl_ty: Type = hugr::types::SumType::new([row(&[I]), row(&[I])]).into();
        let k = self.nstmts();
        let outer = r.qubits();
        self.nested += 1;
        let rng0 = self.rng_live;
        let input = |g: &Self| g.h.children(n).next().unwrap();
        let eff = self.body(n, &ins, &rest, Some(ctl_ty), outer, r.depth + 1, k, &mut |g, r| {
            let i = input(g);
            let one = g.konst(r, ConstInt::new_u(6, 1).unwrap());
            let c = g.ext(r, &INT, "iadd", [6u64.into()], &[w(i, 0), one])[0];
            let lim = g.konst(r, ConstInt::new_u(6, bound).unwrap());
            let mut go = g.ext(r, &INT, "ilt_u", [6u64.into()], &[c, lim])[0];
            if until {
                let b = g.cond_bool(r);
                go = g.ext(r, &LOGIC, "And", [], &[go, b])[0];
            }
            let st = Type::from(hugr::types::SumType::new([row(&[I]), row(&[I])]));
            let cn = g.h.add_node_with_parent(
                r.node,
                ops::Conditional {
                    sum_rows: vec![TypeRow::new(), TypeRow::new()],
                    other_inputs: row(&[I]),
                    outputs: vec![st.clone()].into(),
                },
            );
            g.connect(go, cn, 0);
            g.connect(c, cn, 1);
            for case in 0..2 {
                let cs = g.h.add_node_with_parent(cn, ops::Case { signature: Signature::new(row(&[I]), vec![st.clone()]) });
                let i = g.h.add_node_with_parent(cs, ops::Input::new(row(&[I])));
                let o = g.h.add_node_with_parent(cs, ops::Output::new(vec![st.clone()]));
                let tg = g.h.add_node_with_parent(cs, ops::Tag::new(1 - case, vec![row(&[I]), row(&[I])]));
                g.connect(w(i, 0), tg, 0);
                g.connect(w(tg, 0), o, 0);
            }
            Some(w(cn, 0))
        });
        self.rng_live = rng0;
        self.nested -= 1;
        if eff {
            self.chain(r, n);
        }
        let mut ts = vec![I];
        ts.extend(rest);
        r.vars.extend(o.into_iter().zip(ts));
    }

    fn s_cfg(&mut self, r: &mut Rg) {
        if !self.container_ok(r) || self.nested >= 2 {
            return;
        }
        let args: Vec<(Wire, Ty)> = self.args(r, 3);
        let ts: Vec<Ty> = args.iter().map(|x| x.1.clone()).collect();
        let mut st = vec![I];
        st.extend(ts.iter().cloned());
        let zero = self.konst(r, ConstInt::new_u(6, 0).unwrap());
        let mut ws = vec![zero];
        ws.extend(args.iter().map(|x| x.0));
        let (n, o) = self.op(r, ops::CFG { signature: Signature::new_endo(row(&st)) }, &ws);
        let unit = || vec![TypeRow::new()];
        let two = || vec![TypeRow::new(), TypeRow::new()];
        let blk = |rows: Vec<TypeRow>| ops::DataflowBlock { inputs: row(&st), other_outputs: row(&st), sum_rows: rows };
        let entry = self.h.add_node_with_parent(n, blk(two()));
        let exit = self.h.add_node_with_parent(n, ops::ExitBlock { cfg_outputs: row(&st) });
        let b1 = self.h.add_node_with_parent(n, blk(unit()));
        let b2 = self.h.add_node_with_parent(n, blk(unit()));
        let b3 = self.h.add_node_with_parent(n, blk(two()));
        let bound = self.t.range(1, 3) as u64;
        let outer = r.qubits();
        let d = r.depth + 1;
        self.nested += 1;
        let rng0 = self.rng_live;
        let unit_ty: Type = Type::new_unit_sum(1);
        let mut eff = false;
        let k = self.nstmts();
        eff |= self.body(entry, &st, &st, Some(bool_t()), outer, d, k, &mut |g, r| Some(g.cond_bool(r)));
        for b in [b1, b2] {
            self.rng_live = rng0;
            let k = self.nstmts();
            eff |= self.body(b, &st, &st, Some(unit_ty.clone()), outer, d, k, &mut |g, r| {
                Some(g.op(r, ops::Tag::new(0, vec![TypeRow::new()]), &[]).1[0])
            });
        }
        self.rng_live = rng0;
        // The counter keeps its value in the blocks, so that the loop ends:
        // where in a program an endless loop is reached is not fixed.
        for b in [entry, b1, b2] {
            let [i, o] = self.h.get_io(b).unwrap();
            self.h.disconnect(o, IncomingPort::from(1));
            self.connect(w(i, 0), o, 1);
        }
        // last block: counter + 1; tag 0 leaves, tag 1 goes back
        {
            let i = self.h.add_node_with_parent(b3, ops::Input::new(row(&st)));
            let mut ot = vec![bool_t()];
            ot.extend(st.iter().map(Ty::ty));
            let ou = self.h.add_node_with_parent(b3, ops::Output::new(ot));
            let rr = Rg { node: b3, last: None, effects: false, vars: vec![], outer_q: 0, depth: 9 };
            let one = self.konst(&rr, ConstInt::new_u(6, 1).unwrap());
            let m = self.konst(&rr, ConstInt::new_u(6, bound).unwrap());
            let c = self.ext(&rr, &INT, "iadd", [6u64.into()], &[w(i, 0), one])[0];
            let go = self.ext(&rr, &INT, "ilt_u", [6u64.into()], &[c, m])[0];
            self.connect(go, ou, 0);
            self.connect(c, ou, 1);
            for k in 0..ts.len() {
                self.connect(w(i, k + 1), ou, k + 2);
            }
        }
        self.nested -= 1;
        let (a, b) = if self.t.one_in(2) { (b1, b2) } else { (b2, b1) };
        self.h.connect(entry, 0, a, 0);
        self.h.connect(entry, 1, b, 0);
        self.h.connect(b1, 0, b3, 0);
        self.h.connect(b2, 0, b3, 0);
        self.h.connect(b3, 0, exit, 0);
        self.h.connect(b3, 1, entry, 0);
        if eff {
            self.chain(r, n);
        }
        r.vars.extend(o.into_iter().zip(st));
    }

    fn s_call(&mut self, r: &mut Rg) {
        if self.fns.is_empty() {
            return;
        }
        let f = self.t.draw(self.fns.len() as u32) as usize;
        let (ins, outs, poly, eff, peak) = {
            let f = &self.fns[f];
            (f.ins.clone(), f.outs.clone(), f.poly, f.effects, f.peak)
        };
        let mut targs: Vec<TypeArg> = vec![];
        let (ins, outs) = if poly {
            let Some(t) = r.vars.iter().map(|v| v.1.clone()).filter(|t| !t.has_rng()).last() else { return };
            targs.push(t.ty().into());
            (vec![t.clone()], vec![t])
        } else {
            (ins, outs)
        };
        if r.qubits() + peak.max(ins.iter().map(Ty::nq).sum()) > self.o.max_q + 3 {
            return;
        }
        let mut ws = vec![];
        let mut held = 0;
        for t in &ins {
            r.outer_q += held;
            ws.push(self.produce(r, t));
            r.outer_q -= held;
            held += t.nq();
        }
        let (n, o) = if self.t.one_in(4) {
            let fv = self.load_fn(r, f, targs);
            let mut a = vec![fv];
            a.extend(ws);
            self.op(r, ops::CallIndirect { signature: Signature::new(row(&ins), row(&outs)) }, &a)
        } else {
            let call = ops::Call::try_new(self.fns[f].sig.clone(), targs).unwrap();
            let p = call.called_function_port();
            let (n, o) = self.op(r, call, &ws);
            self.h.connect(self.fns[f].node, 0, n, p);
            (n, o)
        };
        if eff || peak > 0 {
            self.chain(r, n);
        }
        r.vars.extend(o.into_iter().zip(outs));
    }

    fn s_barrier(&mut self, r: &mut Rg) {
        if self.t.one_in(4) {
            if let Some((x, Arr(k, t, n))) = self.take_where(r, |t| matches!(t, Arr(AK::Std, t, _) if **t == Q)) {
                let o = self.ext(r, &qsystem::EXTENSION, "RuntimeBarrier", [n.into()], &[x]);
                r.vars.push((o[0], Arr(k, t, n)));
                return;
            }
        }
        let mut v: Vec<(Wire, Ty)> = vec![];
        for _ in 0..self.t.range(1, 4) {
            // options in arrays must be full (they are: see `produce`), bare ones are not covered
            if let Some(x) = self.take_where(r, |t| t.linear() && t.nq() > 0) {
                v.push(x);
            }
        }
        if self.t.one_in(3) {
            if let Some(x) = self.take_where(r, |t| t.nq() == 0 && !t.has_rng()) {
                v.push(x);
            }
        }
        if v.is_empty() {
            return;
        }
        let ts: Vec<Ty> = v.iter().map(|x| x.1.clone()).collect();
        let ws: Vec<Wire> = v.iter().map(|x| x.0).collect();
        let b: OpType = Barrier::new(row(&ts)).to_extension_op().unwrap().into();
        let o = self.op(r, b, &ws).1;
        // marks around the barrier, so that its position shows in the log
        for (x, t) in o.into_iter().zip(ts) {
            if t == Q && self.t.one_in(2) {
                let a = self.angle();
                let a = self.fconst(r, a);
                let x = self.ext(r, &qsystem::EXTENSION, "Rz", [], &[x, a])[0];
                r.vars.push((x, t));
            } else {
                r.vars.push((x, t));
            }
        }
    }

    fn s_random(&mut self, r: &mut Rg) {
        let Some(c) = self.take(r, &Rng) else {
            if self.rng_live && !self.o.second_rng {
                return;
            }
            if self.in_fn {
                return;
            }
            let s = self.produce(r, &I);
            let (n, o) = self.op(r, ext_op(&random::EXTENSION, "NewRNGContext", []), &[s]);
            self.chain(r, n);
            if self.rng_live {
                // a second context while one is alive: report which way it went
                let tag = self.tag();
                self.conditional(r, o[0], &[vec![], vec![Rng]], &[], &[], &mut |g, k, node, ins, _| {
                    let i = g.h.add_node_with_parent(node, ops::Input::new(row(ins)));
                    let o = g.h.add_node_with_parent(node, ops::Output::new(TypeRow::new()));
                    let _ = o;
                    let mut rr = Rg { node, last: None, effects: false, vars: vec![], outer_q: 0, depth: 9 };
                    let c = g.konst(&rr, ConstInt::new_u(6, k as u64).unwrap());
                    let (n, _) = g.op(&rr, ext_op(&result::EXTENSION, "result_int", vec![tag.clone().into(), 6u64.into()]), &[c]);
                    g.chain(&mut rr, n);
                    if k == 1 {
                        let (n, _) = g.op(&rr, ext_op(&random::EXTENSION, "DeleteRNGContext", []), &[w(i, 0)]);
                        g.chain(&mut rr, n);
                    }
                    true
                });
                return;
            }
            let x = self.unwrap(r, o[0], vec![], vec![Rng], "no random context");
            self.rng_live = true;
            r.vars.push((x[0], Rng));
            return;
        };
        let kind = self.t.weighted(&[3, 3, 3, 2, 1]);
        let kind = if kind == 4 && r.depth > 0 { 3 } else { kind };
        if kind == 4 {
            self.dispose(r, c, &Rng);
            return;
        }
        let (n, o) = match kind {
            0 => self.op(r, ext_op(&random::EXTENSION, "RandomInt", []), &[c]),
            1 => self.op(r, ext_op(&random::EXTENSION, "RandomFloat", []), &[c]),
            2 => {
                let b = *self.t.pick(&[1u64, 2, 7, 100, 0x7fff_ffff]);
                let b = self.konst(r, ConstInt::new_u(5, b).unwrap());
                self.op(r, ext_op(&random::EXTENSION, "RandomIntBounded", []), &[c, b])
            }
            _ => {
                let k = self.produce(r, &I);
                self.op(r, ext_op(&random::EXTENSION, "RandomAdvance", []), &[c, k])
            }
        };
        self.chain(r, n);
        match kind {
            3 => r.vars.push((o[0], Rng)),
            1 => {
                r.vars.push((o[0], F));
                r.vars.push((o[1], Rng));
            }
            _ => {
                let wn = if self.t.one_in(2) { "iwiden_u" } else { "iwiden_s" };
                let x = self.ext(r, &INT, wn, [5u64.into(), 6u64.into()], &[o[0]]);
                r.vars.push((x[0], I));
                r.vars.push((o[1], Rng));
            }
        }
    }

    fn s_future(&mut self, r: &mut Rg) {
        if !self.o.futures {
            return;
        }
        if let Some((x, t)) = self.take_where(r, |t| matches!(t, FutB | FutI)) {
            let (a, v): (TypeArg, Ty) = if t == FutB { (bool_t().into(), B) } else { (INT_TYPES[6].clone().into(), I) };
            match self.t.draw(3) {
                0 => {
                    let o = self.ext(r, &futures::EXTENSION, "Dup", [a], &[x]);
                    r.vars.push((o[0], t.clone()));
                    r.vars.push((o[1], t));
                }
                1 => {
                    let o = self.ext(r, &futures::EXTENSION, "Read", [a], &[x]);
                    r.vars.push((o[0], v));
                }
                _ => {
                    self.ext(r, &futures::EXTENSION, "Free", [a], &[x]);
                }
            }
        } else if let Some(q) = self.qubit(r) {
            if self.t.one_in(3) {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasureReset", [], &[q]);
                r.vars.push((o[0], Q));
                r.vars.push((o[1], FutB));
            } else if self.t.one_in(2) {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasureLeaked", [], &[q]);
                r.vars.push((o[0], FutI));
            } else {
                let o = self.ext(r, &qsystem::EXTENSION, "LazyMeasure", [], &[q]);
                r.vars.push((o[0], FutB));
            }
        }
    }

    fn s_shot(&mut self, r: &mut Rg) {
        if self.t.one_in(2) {
            let x = self.ext(r, &utils::EXTENSION, "GetCurrentShot", [], &[]);
            r.vars.push((x[0], I));
        } else {
            let n = self.t.range(1, 3) as u64;
            let have = self.take_where(r, |t| matches!(t, Arr(AK::Std, t, n) if **t == Q && *n > 0));
            let (x, k, t, n) = match have {
                Some((x, Arr(k, t, n))) => (x, k, t, n),
                _ if self.room(r, n as usize) => (self.produce(r, &Arr(AK::Std, Box::new(Q), n)), AK::Std, Box::new(Q), n),
                _ => return,
            };
            let tag = self.tag();
            let (nd, o) = self.op(r, ext_op(&DEBUG_EXTENSION, "StateResult", vec![tag.into(), n.into()]), &[x]);
            self.chain(r, nd);
            r.vars.push((o[0], Arr(k, t, n)));
        }
    }

    fn s_gpu(&mut self, r: &mut Rg) {
        let old = if self.t.one_in(6) { None } else { self.take(r, &Gpu) };
        let c = match old {
            Some(c) => c,
            None => self.produce(r, &Gpu),
        };
        if self.t.one_in(8) {
            self.dispose(r, c, &Gpu);
            return;
        }
        let config_filename = self.t.one_in(3).then(|| "cfg".into());
        let m = self.konst(r, gpu::ConstGpuModule { module_filename: "lib.so".into(), config_filename });
        let ins: Vec<Ty> = (0..self.t.draw(4)).map(|_| self.t.pick(&[I, F, B, I, U]).clone()).collect();
        let outs: Vec<Ty> = [vec![], vec![I], vec![F]][self.t.draw(3) as usize].clone();
        let (it, ot) = (row(&ins), row(&outs));
        let lookup = if self.t.one_in(3) {
            gpu::GpuOp::LookupById { id: self.t.draw(4) as u64, inputs: it.clone().into(), outputs: ot.clone().into() }
        } else {
            let name = self.t.pick(&["alpha", "beta", "fn 3", "δ"]).to_string();
            gpu::GpuOp::LookupByName { name, inputs: it.clone().into(), outputs: ot.clone().into() }
        };
        let (_, f) = self.op(r, lookup.to_extension_op().unwrap(), &[m]);
        let mut iw = vec![c, f[0]];
        for t in &ins {
            let x = self.produce(r, t);
            iw.push(x);
        }
        let (n, res) = self.op(r, gpu::GpuOp::Call { inputs: it, outputs: ot.clone() }.to_extension_op().unwrap(), &iw);
        self.chain(r, n);
        let (n, o) = self.op(r, gpu::GpuOp::ReadResult { outputs: ot }.to_extension_op().unwrap(), &[res[0]]);
        self.chain(r, n);
        r.vars.push((o[0], Gpu));
        if let Some(t) = outs.first() {
            r.vars.push((o[1], t.clone()));
        }
    }

    fn s_stop(&mut self, r: &mut Rg) {
        let b = self.cond_bool(r);
        let c = self.cond_bool(r);
        let b = self.ext(r, &LOGIC, "And", [], &[b, c])[0];
        let args = self.args(r, 2);
        let outs: Vec<Ty> = args.iter().map(|x| x.1.clone()).collect();
        let exit = self.t.one_in(2);
        let o = self.conditional(r, b, &[vec![], vec![]], &args, &outs.clone(), &mut |g, k, node, ins, _| {
            if k == 0 {
                g.pass(node, ins, &outs)
            } else {
                g.stop_case(node, ins, &outs, exit, "stop")
            }
        });
        r.vars.extend(o.into_iter().zip(outs));
    }

    fn s_static(&mut self, r: &mut Rg) {
        let n = self.t.range(1, 4) as u64;
        let t = self.t.pick(&[I, TB, B, F]).clone();
        let mut vals: Vec<Value> = vec![];
        for k in 0..n {
            vals.push(match t {
                I => ConstInt::new_u(6, 10 + k).unwrap().into(),
                TB => ConstBool::new(self.t.one_in(2)).into(),
                F => ConstF64::new(k as f64 * 0.5).into(),
                _ => Value::from_bool(self.t.one_in(2)),
            });
        }
        self.site += 1;
        let name = format!("arr{}", self.site);
        let c = static_array::StaticArrayValue::try_new(name, t.ty(), vals).unwrap();
        let a = self.konst(r, c);
        let e = &*static_array::EXTENSION;
        if self.t.one_in(4) {
            let l = self.ext(r, e, "len", [t.ty().into()], &[a])[0];
            let l = self.ext(r, &CONV, "ifromusize", [], &[l])[0];
            r.vars.push((l, I));
        }
        let soft = self.t.one_in(2);
        let i = self.index(r, n, soft);
        let o = self.ext(r, e, "get", [t.ty().into()], &[a, i])[0];
        let x = self.unwrap_or(r, soft, o, vec![], vec![t.clone()], "static index");
        r.vars.push((x[0], t));
    }
}

/// A program made by the Guppy compiler, with its qubits labelled. None: it
/// cannot be used.
pub fn guppy(data: &[u8], reg: &hugr::extension::ExtensionRegistry) -> Option<Program> {
    use hugr::hugr::hugrmut::HugrMut;
    let mut h = Hugr::load(data, Some(reg)).ok()?;
    let main = h.entrypoint();
    let sig = h.get_optype(main).as_func_defn()?.signature().clone();
    if !sig.params().is_empty() || !sig.body().input().is_empty() {
        return None;
    }
    let mut sites = 0;
    let all: Vec<Node> = h.nodes().collect();
    if all.iter().any(|n| h.get_optype(*n).as_extension_op().is_some_and(|o| o.extension_id().starts_with("TKET1"))) {
        return None;
    }
    let mut last: BTreeMap<Node, Node> = BTreeMap::new();
    for n in all {
        if n == h.module_root() {
            continue;
        }
        // What nothing depends on may be removed as dead code: old versions of
        // Guppy did not order the last effects of a block before its end.
        let p = h.get_parent(n);
        let effect = match h.get_optype(n) {
            hugr::ops::OpType::CFG(_) | hugr::ops::OpType::DFG(_) | hugr::ops::OpType::Conditional(_) | hugr::ops::OpType::TailLoop(_) | hugr::ops::OpType::Call(_) => true,
            o => o.as_extension_op().is_some_and(|o| o.extension_id().starts_with("tket")),
        };
        if effect && h.all_linked_inputs(n).next().is_none() {
            if let Some([_, out]) = p.and_then(|p| h.get_io(p)) {
                h.add_other_edge(n, out);
            }
        }
        let p = p?;
        // Where failing calls, random generators and results stand to each other
        // is not fixed in these programs: fix it.
        let classical = effect
            && h.get_optype(n).as_extension_op().is_none_or(|o| !["tket.quantum", "tket.qsystem", "tket.rotation", "tket.bool"].contains(&&**o.extension_id()));
        if classical {
            if let Some(l) = last.insert(p, n) {
                h.add_other_edge(l, n);
            }
        }
        if !h.get_optype(n).as_extension_op().is_some_and(|o| o.qualified_id() == "tket.quantum.QAlloc") {
            continue;
        }
        let users: Vec<_> = h.linked_inputs(n, 0).collect();
        let k = h.add_node_with_parent(p, hugr::ops::Const::new(ConstF64::new(crate::device::LABEL_BASE + sites as f64).into()));
        let l = h.add_node_with_parent(p, hugr::ops::LoadConstant { datatype: float64_type() });
        let z = h.add_node_with_parent(p, ext_op(&qsystem::EXTENSION, "Rz", []));
        h.connect(k, 0, l, 0);
        h.disconnect(n, hugr::OutgoingPort::from(0));
        h.connect(n, 0, z, 0);
        h.connect(l, 0, z, 1);
        for (u, i) in users {
            h.connect(z, 0, u, i);
        }
        sites += 1;
    }
    h.validate().ok()?;
    Some(Program { hugr: h, main, sites, used: BTreeMap::from([("guppy", 1)]), poly: true })
}

pub struct Program {
    pub hugr: Hugr,
    pub main: Node,
    pub sites: u32,
    pub used: BTreeMap<&'static str, u32>,
    pub poly: bool,
}

/// Generates a program whose `main` takes and returns nothing.
pub fn generate(t: &mut Tape, o: &Opts) -> Program {
    let mut mb = ModuleBuilder::new();
    let h = std::mem::take(mb.hugr_mut());
    let budget = t.range(o.stmts.0, o.stmts.1) as i32;
    let mut g = Gen {
        t,
        h,
        o: o.clone(),
        site: 0,
        tags: 0,
        budget,
        fns: vec![],
        rng_live: false,
        in_fn: true,
        peak: 0,
        used: BTreeMap::new(),
        nested: 0,
        gpus: 0,
    };
    let root = g.h.module_root();
    let mut poly = false;
    for k in 0..g.t.draw(o.funcs + 1) {
        if g.t.one_in(4) {
            // identity on any type
            let v = Type::new_var_use(0, TypeBound::Linear);
            let sig = PolyFuncType::new([TypeBound::Linear.into()], Signature::new_endo(vec![v.clone()]));
            let n = g.h.add_node_with_parent(root, ops::FuncDefn::new(format!("id{k}"), sig.clone()));
            let i = g.h.add_node_with_parent(n, ops::Input::new(vec![v.clone()]));
            let out = g.h.add_node_with_parent(n, ops::Output::new(vec![v.clone()]));
            let nop = g.h.add_node_with_parent(n, ext_op(&PRELUDE, "Noop", vec![v.into()]));
            g.connect(w(i, 0), nop, 0);
            g.connect(w(nop, 0), out, 0);
            g.fns.push(FnInfo { node: n, ins: vec![], outs: vec![], effects: false, peak: 0, poly: true, sig });
            poly = true;
            continue;
        }
        let shape = g.t.draw(5);
        let (ins, outs): (Vec<Ty>, Vec<Ty>) = match shape {
            0 => (vec![Q], vec![TB]),
            1 => (vec![Q, Q], vec![Q, Q]),
            2 => (vec![], vec![g.t.pick(&[TB, I, F, B]).clone()]),
            3 => (vec![Q, TB, Rot], vec![Q, B]),
            _ => {
                let rr = Rg { node: root, last: None, effects: false, vars: vec![], outer_q: o.max_q.saturating_sub(4), depth: 0 };
                let a = g.small_ty(&rr);
                let b = g.small_ty(&rr);
                (vec![a, b.clone()], vec![b, I])
            }
        };
        let sig = PolyFuncType::from(Signature::new(row(&ins), row(&outs)));
        let n = g.h.add_node_with_parent(root, ops::FuncDefn::new(format!("f{k}"), sig.clone()));
        g.peak = 0;
        let outer = o.max_q.saturating_sub(3);
        let st = g.t.draw(5);
        let site0 = g.site;
        let eff = g.body(n, &ins, &outs, None, outer, 1, st, &mut |_, _| None);
        let peak = if g.site > site0 { 3 } else { ins.iter().map(Ty::nq).sum::<usize>().min(0) };
        g.fns.push(FnInfo { node: n, ins, outs, effects: eff, peak, poly: false, sig });
    }
    g.in_fn = false;
    let main = g.h.add_node_with_parent(root, ops::FuncDefn::new_vis("main", Signature::new_endo(TypeRow::new()), hugr_core::Visibility::Public));
    let n = g.t.range(o.stmts.0, o.stmts.1);
    g.budget = g.budget.max(n as i32);
    g.body(main, &[], &[], None, 0, 0, n, &mut |_, _| None);
    let (site, used) = (g.site, std::mem::take(&mut g.used));
    let mut h = g.h;
    // Side effects are ordered before the end of their region.
    let all: Vec<Node> = h.descendants(h.module_root()).collect();
    for n in all {
        let op = h.get_optype(n);
        let stops = op.as_extension_op().is_some_and(|e| matches!(e.unqualified_id(), "panic" | "exit"));
        let order = |d: hugr::Direction| {
            let p = match d {
                hugr::Direction::Incoming => op.other_input_port().map(hugr::Port::from),
                hugr::Direction::Outgoing => op.other_output_port().map(hugr::Port::from),
            };
            p.is_some_and(|p| h.linked_ports(n, p).next().is_some())
        };
        if op.is_output() || op.is_input() || order(hugr::Direction::Outgoing) || !(stops || order(hugr::Direction::Incoming)) {
            continue;
        }
        let o = h.get_parent(n).and_then(|p| h.get_io(p)).map(|x| x[1]);
        if let Some(o) = o {
            h.add_other_edge(n, o);
        }
    }
    h.set_entrypoint(main);
    let mut exts = vec![];
    for e in [
        &*PRELUDE, &*INT, &*FLOAT, &*CONV, &*LOGIC, &*array::EXTENSION, &*borrow_array::EXTENSION, &*value_array::EXTENSION,
        &*static_array::EXTENSION, &*futures::EXTENSION, &*qsystem::EXTENSION, &*result::EXTENSION, &*random::EXTENSION,
        &*utils::EXTENSION, &*gpu::EXTENSION,
    ] {
        exts.push(e.clone());
    }
    h.use_extensions(exts);
    h.use_extensions([
        ROTATION_EXTENSION.clone(),
        TKET_EXTENSION.clone(),
        BOOL_EXTENSION.clone(),
        DEBUG_EXTENSION.clone(),
        GUPPY_EXTENSION.clone(),
        hugr::std_extensions::arithmetic::int_types::EXTENSION.clone(),
        hugr::std_extensions::arithmetic::float_types::EXTENSION.clone(),
    ]);
    Program { hugr: h, main, sites: site, used, poly }
}
