//! C14, C24: the same work in several simulated processes, and as the first
//! work of a process from many threads at once.

use std::sync::{Arc, Mutex};

use hugr::algorithms::ComposablePass;
use hugr::envelope::EnvelopeConfig;
use hugr::{Hugr, HugrView};
use serde::{Deserialize, Serialize};
use tket::circuit::CircuitHash;
use tket::optimiser::badger::BadgerOptions;
use tket::optimiser::BadgerOptimiser;
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, EncodedCircuit, TKETDecode};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;
use tket_qsystem::QSystemPass;

use crate::circ::{self, GenOpts};
use crate::dev;
use crate::io::deep;
use crate::prog;
use crate::runner::*;
use crate::simrt;
use crate::tape::{Rng, Tape};

/// What a library call is given: everything is bytes and numbers, so that a
/// process can be given it without having used the library.
#[derive(Clone, Serialize, Deserialize)]
pub struct Job {
    pub kind: String,
    pub arg: u32,
    pub bytes: Vec<u8>,
    pub more: Vec<u8>,
}

const KINDS: &[(&str, u32)] = &[
    ("load", 5),
    ("load-q", 4),
    ("registries", 4),
    ("decode", 6),
    ("encode", 6),
    ("encode-q", 5),
    ("optimise", 4),
    ("rules", 4),
    ("rwr", 4),
    ("lower", 4),
    ("compile", 3),
    ("normalise", 3),
    ("passes", 3),
    ("hash", 3),
    ("types", 3),
    ("bad", 3),
    ("modify", 4),
    ("guppy", 4),
];

/// Programs made by the Guppy compiler.
pub fn guppy_files() -> Vec<std::path::PathBuf> {
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, v);
            } else if p.extension().is_some_and(|x| x == "hugr") && p.metadata().is_ok_and(|m| m.len() > 0 && m.len() < 60_000) {
                v.push(p);
            }
        }
    }
    let mut v = vec![];
    for d in ["/repo/test_files", "/repo/qis-compiler/python/tests/resources"] {
        walk(d.as_ref(), &mut v);
    }
    v.sort();
    v
}

/// A function of gates and calls, applied under modifiers.
fn modified(t: &mut Tape) -> Hugr {
    use hugr::builder::{Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder};
    use hugr::extension::prelude::qb_t;
    use hugr::ops::{handle::FuncID, CallIndirect};
    use hugr::std_extensions::arithmetic::int_types::ConstInt;
    use hugr::std_extensions::collections::array::{array_type, ArrayOpBuilder};
    use hugr::types::{Signature, Term, Type};
    use tket::extension::modifier::{CONTROL_OP_ID, DAGGER_OP_ID, MODIFIER_EXTENSION, POWER_OP_ID};
    use tket::extension::rotation::ConstRotation;
    use tket::TketOp;
    let mut m = ModuleBuilder::new();
    let mut fns: Vec<(FuncID<true>, usize)> = vec![];
    let qs = |n: usize| vec![qb_t(); n];
    let rows = |n: usize| Term::from(vec![Term::from(qb_t()); n]);
    let k = 1 + t.draw(3) as usize;
    for f in 0..k {
        let n = 1 + t.draw(3) as usize;
        let mut b = m.define_function(format!("f{f}"), Signature::new_endo(qs(n))).unwrap();
        b.set_metadata("unitary", 7);
        let mut w: Vec<_> = b.input_wires().collect();
        for _ in 0..1 + t.draw(6) {
            let q = t.draw(n as u32) as usize;
            match t.draw(7) {
                0 if n > 1 => {
                    let r = (q + 1 + t.draw(n as u32 - 1) as usize) % n;
                    let o = b.add_dataflow_op([TketOp::CX, TketOp::CZ, TketOp::CY][t.draw(3) as usize], [w[q], w[r]]).unwrap();
                    (w[q], w[r]) = (o.out_wire(0), o.out_wire(1));
                }
                1 => {
                    let a = b.add_load_value(ConstRotation::new([0.25, 0.3, 1.0, -0.125][t.draw(4) as usize]).unwrap());
                    w[q] = b.add_dataflow_op([TketOp::Rz, TketOp::Rx, TketOp::Ry][t.draw(3) as usize], [w[q], a]).unwrap().out_wire(0);
                }
                2 | 3 if !fns.is_empty() => {
                    let (g, gn) = *t.pick(&fns);
                    if gn <= n {
                        let mut at: Vec<usize> = (0..n).collect();
                        at.rotate_left(q);
                        let at = &at[..gn];
                        let args: Vec<_> = at.iter().map(|&i| w[i]).collect();
                        let o: Vec<_> = if t.one_in(3) {
                            let mut h = b.load_func(&g, &[]).unwrap();
                            if t.one_in(2) {
                                let op = MODIFIER_EXTENSION.instantiate_extension_op(&DAGGER_OP_ID, [rows(gn), Term::from(Vec::<Term>::new())]).unwrap();
                                h = b.add_dataflow_op(op, [h]).unwrap().out_wire(0);
                            }
                            b.add_dataflow_op(CallIndirect { signature: Signature::new_endo(qs(gn)) }, [h].into_iter().chain(args)).unwrap().outputs().collect()
                        } else {
                            b.call(&g, &[], args).unwrap().outputs().collect()
                        };
                        for (i, x) in at.iter().zip(o) {
                            w[*i] = x;
                        }
                    }
                }
                _ => w[q] = b.add_dataflow_op([TketOp::H, TketOp::T, TketOp::S, TketOp::X, TketOp::Z, TketOp::Vdg][t.draw(6) as usize], [w[q]]).unwrap().out_wire(0),
            }
        }
        let id = *b.finish_with_outputs(w).unwrap().handle();
        fns.push((id, n));
    }
    let mut b = m.define_function("main", Signature::new(Vec::<Type>::new(), Vec::<Type>::new())).unwrap();
    for _ in 0..1 + t.draw(2) {
        let (g, n) = *t.pick(&fns);
        let mut h = b.load_func(&g, &[]).unwrap();
        let mut ctl: Vec<u64> = vec![];
        for _ in 0..1 + t.draw(3) {
            // the operands of the function so far
            let mut row: Vec<Term> = ctl.iter().rev().map(|&c| Term::from(array_type(c, qb_t()))).collect();
            row.extend(vec![Term::from(qb_t()); n]);
            let (row, none) = (Term::from(row), Term::from(Vec::<Term>::new()));
            match t.draw(3) {
                0 => {
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&DAGGER_OP_ID, [row, none]).unwrap();
                    h = b.add_dataflow_op(op, [h]).unwrap().out_wire(0);
                }
                1 => {
                    let c = 1 + t.draw(2) as u64;
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&CONTROL_OP_ID, [Term::BoundedNat(c), row, none]).unwrap();
                    h = b.add_dataflow_op(op, [h]).unwrap().out_wire(0);
                    ctl.push(c);
                }
                _ => {
                    let op = MODIFIER_EXTENSION.instantiate_extension_op(&POWER_OP_ID, [row, none]).unwrap();
                    let e = b.add_load_value(ConstInt::new_u(6, 1 + t.draw(3) as u64).unwrap());
                    h = b.add_dataflow_op(op, [h, e]).unwrap().out_wire(0);
                }
            }
        }
        let mut args = vec![h];
        let mut sig: Vec<Type> = vec![];
        for &c in ctl.iter().rev() {
            let q: Vec<_> = (0..c).map(|_| b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0)).collect();
            args.push(b.add_new_array(qb_t(), q).unwrap());
            sig.push(array_type(c, qb_t()));
        }
        for _ in 0..n {
            args.push(b.add_dataflow_op(TketOp::QAlloc, []).unwrap().out_wire(0));
            sig.push(qb_t());
        }
        let o: Vec<_> = b.add_dataflow_op(CallIndirect { signature: Signature::new_endo(sig) }, args).unwrap().outputs().collect();
        let mut o = o.into_iter();
        for &c in ctl.iter().rev() {
            let q = b.add_array_unpack(qb_t(), c, o.next().unwrap()).unwrap();
            for q in q {
                b.add_dataflow_op(TketOp::QFree, [q]).unwrap();
            }
        }
        for q in o {
            b.add_dataflow_op(TketOp::QFree, [q]).unwrap();
        }
    }
    b.finish_with_outputs([]).unwrap();
    let h = m.finish_hugr().unwrap();
    h.validate().unwrap_or_else(|e| panic!("{e}"));
    h
}

fn small(t: &mut Tape) -> GenOpts {
    GenOpts {
        qubits: (1, 4),
        gates: (2, 14),
        set: if t.one_in(2) { circ::NAM } else { circ::CLIFFT },
        params: 2,
        arith: t.one_in(2),
        alloc: t.one_in(3),
        dfg_root: false,
        patterns: true,
    }
}

fn bytes(h: &Hugr, arg: u32) -> Vec<u8> {
    let mut v = vec![];
    let c = match arg % 3 {
        0 => EnvelopeConfig::binary(),
        1 => EnvelopeConfig::text(),
        _ => EnvelopeConfig::new(hugr::envelope::EnvelopeFormat::ModelWithExtensions),
    };
    match h.store(&mut v, c) {
        Ok(()) => v,
        Err(_) => {
            v.clear();
            h.store(&mut v, EnvelopeConfig::text()).unwrap();
            v
        }
    }
}

/// The rule files of the repository, cut down to some of their classes.
pub fn rule_file(t: &mut Tape, most: u32) -> Vec<u8> {
    let f = *t.pick(&["small_eccs.json", "h_rz_cxcomplete_ECC_set.json", "nam_4_2.json", "cx_cx_eccs.json"]);
    let s = std::fs::read_to_string(format!("/repo/test_files/eccs/{f}")).unwrap();
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let all: Vec<(String, serde_json::Value)> = v[1].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let n = 1 + t.draw(most.min(all.len() as u32)) as usize;
    let mut r = Rng::new(t.draw(1 << 30) as u64);
    let mut left = all;
    let mut m = serde_json::Map::new();
    for _ in 0..n {
        let (k, v) = left.swap_remove(r.below(left.len() as u32) as usize);
        m.insert(k, v);
    }
    serde_json::to_vec(&serde_json::json!([[], m])).unwrap()
}

fn program(t: &mut Tape) -> prog::Program {
    let mut o = dev::opts(t);
    o.stmts = (2, 8);
    prog::generate(t, &o)
}

fn scratch(name: &str, data: &[u8]) -> String {
    let p = format!("/simfs/{name}");
    crate::simfs::disk().put(&p, data.to_vec());
    p
}

/// Makes the input of a job. Runs in a process of its own.
fn make(kind: &str, seed: u64) -> Job {
    let mut t = Tape::generate(seed);
    let t = &mut t;
    let arg = t.draw(1 << 16);
    let (mut b, mut more) = (vec![], vec![]);
    match kind {
        "load" | "hash" | "passes" => {
            let o = small(t);
            b = bytes(circ::gen(t, &o).0.hugr(), arg)
        }
        "load-q" | "lower" | "normalise" | "encode-q" => b = bytes(&dev::mono(&program(t)), arg),
        "compile" => b = bytes(&program(t).hugr, arg),
        "registries" | "types" => {}
        "modify" => b = bytes(&modified(t), arg),
        "guppy" => {
            let f = guppy_files();
            if !f.is_empty() {
                b = std::fs::read(t.pick(&f)).unwrap();
            }
        }
        "encode" => {
            let mut o = small(t);
            o.patterns = false;
            b = bytes(circ::gen(t, &o).0.hugr(), arg);
        }
        "decode" => {
            let mut o = small(t);
            o.patterns = false;
            o.set = crate::io::PYTKET;
            let (c, _) = circ::gen(t, &o);
            let s = tket::serialize::save_tk1_json_str(&c, EncodeOptions::new()).unwrap();
            let mut s: SerialCircuit = serde_json::from_str(&s).unwrap();
            let forms = ["2*pi/3", "0.25+1/8", "-(0.5)", "a", "a+b*0.5", "sin(0.25)", "2^3", "1 + (a - 0.5)", "", "-a/2"];
            for c in &mut s.commands {
                for p in c.op.params.iter_mut().flatten() {
                    if t.one_in(2) {
                        *p = t.pick(&forms).to_string();
                    }
                }
            }
            b = serde_json::to_vec(&s).unwrap();
        }
        "optimise" | "rules" => {
            let o = small(t);
            b = bytes(circ::gen(t, &o).0.hugr(), arg);
            more = rule_file(t, 12);
        }
        "rwr" => {
            let o = small(t);
            b = bytes(circ::gen(t, &o).0.hugr(), arg);
            crate::simfs::mount(Default::default());
            let f = rule_file(t, 8);
            let f = scratch("rules.json", &f);
            ECCRewriter::try_from_eccs_json_file(f).unwrap().save_binary_io(&mut more).unwrap();
        }
        _ => {
            let o = small(t);
            b = bytes(circ::gen(t, &o).0.hugr(), arg);
            if arg % 4 == 1 && b.len() > 20 {
                b.truncate(b.len() / 2);
            }
        }
    }
    Job { kind: kind.into(), arg, bytes: b, more }
}

/// A stream whose reader panics, fails or stalls half-way.
struct Trap<'a>(&'a [u8], usize, u32);
impl std::io::Read for Trap<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        simrt::yield_point();
        if self.1 >= self.0.len() / 2 {
            match self.2 % 4 {
                0 => std::panic::resume_unwind(Box::new("reader died")),
                2 => return Err(std::io::Error::other("broken")),
                _ => {}
            }
        }
        let n = b.len().min(self.0.len() - self.1).min(64);
        b[..n].copy_from_slice(&self.0[self.1..self.1 + n]);
        self.1 += n;
        Ok(n)
    }
}

/// All extensions, first used in some order.
pub fn registry(first: u32) -> hugr::extension::ExtensionRegistry {
    use tket::extension as te;
    use tket_qsystem::extension as qe;
    let all: [fn() -> Arc<hugr::Extension>; 14] = [
        || qe::futures::EXTENSION.clone(),
        || qe::qsystem::EXTENSION.clone(),
        || qe::result::EXTENSION.clone(),
        || qe::random::EXTENSION.clone(),
        || qe::utils::EXTENSION.clone(),
        || qe::gpu::EXTENSION.clone(),
        || qe::wasm::EXTENSION.clone(),
        || te::rotation::ROTATION_EXTENSION.clone(),
        || te::TKET_EXTENSION.clone(),
        || te::TKET1_EXTENSION.clone(),
        || te::bool::BOOL_EXTENSION.clone(),
        || te::debug::DEBUG_EXTENSION.clone(),
        || te::guppy::GUPPY_EXTENSION.clone(),
        || te::modifier::MODIFIER_EXTENSION.clone(),
    ];
    let n = all.len();
    let mut v: Vec<_> = (0..n).map(|k| all[(k + first as usize) % n]()).collect();
    v.extend(hugr::std_extensions::std_reg().iter().cloned());
    hugr::extension::ExtensionRegistry::new(v)
}

fn qload(j: &Job) -> Result<Hugr, String> {
    Hugr::load(&j.bytes[..], Some(&registry(j.arg))).map_err(|e| format!("load: {e}"))
}

const AUTOMATON: &str = "automaton ";

fn fnv(v: &[u8]) -> u64 {
    v.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
}

/// Where the MessagePack value that starts at `p` ends.
fn msgpack_end(v: &[u8], p: usize) -> Option<usize> {
    let num = |n: usize| -> Option<usize> { Some(v.get(p + 1..p + 1 + n)?.iter().fold(0usize, |x, b| x << 8 | *b as usize)) };
    let many = |start: usize, n: usize| (0..n).try_fold(start, |p, _| msgpack_end(v, p));
    let b = *v.get(p)?;
    let end = match b {
        0..=0x7f | 0xe0..=0xff | 0xc0 | 0xc2 | 0xc3 => p + 1,
        0x80..=0x8f => many(p + 1, 2 * (b & 15) as usize)?,
        0x90..=0x9f => many(p + 1, (b & 15) as usize)?,
        0xa0..=0xbf => p + 1 + (b & 31) as usize,
        0xc4 | 0xd9 => p + 2 + num(1)?,
        0xc5 | 0xda => p + 3 + num(2)?,
        0xc6 | 0xdb => p + 5 + num(4)?,
        0xc7..=0xc9 => return None,
        0xca => p + 5,
        0xcb => p + 9,
        0xcc | 0xd0 => p + 2,
        0xcd | 0xd1 => p + 3,
        0xce | 0xd2 => p + 5,
        0xcf | 0xd3 => p + 9,
        0xd4..=0xd8 => p + 2 + (1 << (b - 0xd4)),
        0xdc => many(p + 3, num(2)?)?,
        0xdd => many(p + 5, num(4)?)?,
        0xde => many(p + 3, 2 * num(2)?)?,
        0xdf => many(p + 5, 2 * num(4)?)?,
        0xc1 => return None,
    };
    (end <= v.len()).then_some(end)
}

/// The text without the numbering of the pattern automaton's states and of
/// the values in LLVM code made from normalised programs, and the name of
/// what was left out.
fn but_numbering(kind: &str, s: &str) -> (String, &'static str) {
    match kind {
        "rules" | "rwr" => (s.lines().filter(|l| !l.starts_with(AUTOMATON)).collect::<Vec<_>>().join("\n"), "automaton-numbering"),
        "guppy" => {
            let mut names = std::collections::BTreeMap::new();
            let mut out = String::new();
            let mut rest = s;
            while let Some(k) = rest.find(|c: char| c.is_ascii_digit()) {
                out += &rest[..k];
                let from = rest[..k].chars().next_back();
                rest = &rest[k..];
                let n = rest.find(|c: char| !(c.is_ascii_digit() || c == '_')).unwrap_or(rest.len());
                let t = &rest[..n];
                if from.is_some_and(|c| c == '%' || c == '"' || c == '\n') && t.contains('_') {
                    let k = names.len();
                    out += &format!("v{}", names.entry(t).or_insert(k));
                } else {
                    out += t;
                }
                rest = &rest[n..];
            }
            (out + rest, "value-names")
        }
        _ => (s.into(), ""),
    }
}

/// Does the job and describes its result, all of it, as text.
pub fn work(j: &Job, id: usize) -> String {
    match run(j, id) {
        Ok(s) => s,
        Err(e) => format!("error: {e}"),
    }
}

fn run(j: &Job, id: usize) -> Result<String, String> {
    let circuit = || Circuit::<Hugr>::load(&j.bytes[..], None).map_err(|e| format!("load: {e}"));
    Ok(match j.kind.as_str() {
        "load" => {
            let c = circuit()?;
            format!("{} {}", deep(c.hugr(), true), c.num_operations())
        }
        "load-q" => deep(&qload(j)?, true),
        "registries" => {
            let mut out = String::new();
            let list = |r: &hugr::extension::ExtensionRegistry| {
                r.iter().map(|e| format!("{} {} {} {}\n", e.name(), e.version(), e.operations().count(), e.types().count())).collect::<String>()
            };
            let mut which: Vec<u32> = (0..4).collect();
            which.rotate_left(j.arg as usize % 4);
            let mut parts = vec![];
            for w in which {
                parts.push((w, match w {
                    0 => list(&registry(j.arg)),
                    1 => list(&tket_qsystem::extension::qsystem::REGISTRY),
                    2 => list(&tket_qsystem::extension::wasm::REGISTRY) + &list(&tket_qsystem::extension::gpu::REGISTRY),
                    _ => list(&tket_qsystem::extension::random::REGISTRY) + &list(&tket_qsystem::extension::utils::REGISTRY),
                }));
            }
            parts.sort();
            for (_, p) in parts {
                out += &p;
            }
            out
        }
        "decode" => {
            let s: SerialCircuit = serde_json::from_slice(&j.bytes).map_err(|e| e.to_string())?;
            let mut o = DecodeOptions::new();
            if j.arg % 2 == 0 {
                o = o.with_config(tket_qsystem::pytket::qsystem_decoder_config());
            }
            if j.arg % 3 == 0 {
                o = o.with_input_params(["a".to_string(), "b".to_string()]);
            }
            let c: Circuit = s.decode(o).map_err(|e| format!("decode: {e}"))?;
            deep(c.hugr(), true)
        }
        "encode" => {
            let c = circuit()?;
            let mut o = EncodeOptions::new();
            if j.arg % 2 == 0 {
                o = o.with_config(tket_qsystem::pytket::qsystem_encoder_config());
            }
            tket::serialize::save_tk1_json_str(&c, o).map_err(|e| format!("encode: {e}"))?
        }
        "encode-q" => {
            use hugr::hugr::hugrmut::HugrMut;
            let mut h = qload(j)?;
            let fns: Vec<_> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            h.set_entrypoint(fns[j.arg as usize % fns.len()]);
            let c = Circuit::new(h);
            let mut o = EncodeOptions::<Hugr>::new().with_subcircuits(j.arg % 5 != 0);
            if j.arg % 2 == 0 {
                o = o.with_config(Arc::new(tket_qsystem::pytket::qsystem_encoder_config()));
            }
            let e = EncodedCircuit::new(&c, o).map_err(|e| format!("encode: {e}"))?;
            crate::conf::regions(&e)
        }
        "optimise" => {
            let c = circuit()?;
            let f = scratch(&format!("rules{id}.json"), &j.more);
            let o = BadgerOptimiser::default_with_eccs_json_file(f).map_err(|e| e.to_string())?;
            let out = o.optimise(
                &c,
                BadgerOptions { max_circuit_count: Some(2 + j.arg as usize % 12), queue_size: 1 + j.arg as usize % 20, ..Default::default() },
            );
            deep(out.hugr(), true)
        }
        "rules" | "rwr" => {
            let c = circuit()?;
            let r = if j.kind == "rules" {
                let f = scratch(&format!("rules{id}.json"), &j.more);
                ECCRewriter::try_from_eccs_json_file(f).map_err(|e| e.to_string())?
            } else {
                ECCRewriter::load_binary_io(&j.more[..]).map_err(|e| e.to_string())?
            };
            let mut out = String::new();
            for w in r.get_rewrites(&c) {
                let mut d = c.clone();
                let ok = w.apply(&mut d).is_ok();
                out += &format!("{ok} {}\n", circ::canon_circ(&d));
            }
            let mut v = vec![];
            r.save_binary_io(&mut v).map_err(|e| e.to_string())?;
            let v = zstd::decode_all(&v[..]).map_err(|e| e.to_string())?;
            // [[automaton, patterns], targets, rules, empty wires]
            let end = if v.len() > 2 { msgpack_end(&v, 2) } else { None }.ok_or("not a rule file")?;
            format!("{out}{:?} rest {} {:x}\n{AUTOMATON}{} {:x}", &v[..2], v.len() - end, fnv(&v[end..]), end, fnv(&v[2..end]))
        }
        "lower" => {
            let mut h = qload(j)?;
            let p = QSystemPass::default().with_constant_fold(j.arg % 3 == 0).with_force_order(j.arg % 5 != 0).with_lazify(j.arg % 7 != 0);
            p.run(&mut h).map_err(|e| format!("{e}"))?;
            deep(&h, true)
        }
        #[cfg(feature = "device")]
        "compile" => {
            let h = qload(j)?;
            crate::jit::llvm_text(h, j.arg % 4)?
        }
        "normalise" => {
            let mut h = qload(j)?;
            let mut n = tket::passes::NormalizeGuppy::default();
            n.constant_folding(j.arg % 2 == 0);
            n.run(&mut h).map_err(|e| e.to_string())?;
            deep(&h, true)
        }
        "modify" => {
            let mut h = qload(j)?;
            let e = h.entrypoint();
            tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints(&mut h, [e]).map_err(|e| e.to_string())?;
            deep(&h, true)
        }
        "guppy" => {
            let mut h = qload(j)?;
            let n = tket::passes::NormalizeGuppy::default();
            n.run(&mut h).map_err(|e| e.to_string())?;
            let mut out = deep(&h, true);
            #[cfg(feature = "device")]
            if j.arg % 2 == 0 {
                out += &crate::jit::llvm_text(h.clone(), j.arg % 4)?;
            }
            if j.arg % 3 == 0 {
                let root = h.module_root();
                hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, root);
                QSystemPass::default().run(&mut h).map_err(|e| format!("{e}"))?;
                out += &deep(&h, true);
            }
            out
        }
        "passes" => {
            let mut c = circuit()?;
            let mut out = String::new();
            if j.arg % 2 == 0 {
                let n = tket::passes::apply_greedy_commutation(&mut c).map_err(|e| e.to_string())?;
                out += &format!("{n} moves\n");
            }
            let ch = tket::passes::CircuitChunks::split(&c, 1 + j.arg as usize % 5);
            out += &format!("{} chunks\n", ch.len());
            let c = ch.reassemble().map_err(|e| e.to_string())?;
            out + &deep(c.hugr(), true)
        }
        "hash" => {
            let c = circuit()?;
            let h = c.circuit_hash(c.parent()).map_err(|e| e.to_string())?;
            format!("{h:x} {:?} {:?}", c.circuit_cost(|o| o.to_string().len()), c.circuit_signature().to_string())
        }
        "types" => {
            let d = tket_qsystem::pytket::qsystem_decoder_config();
            crate::conf::pool(j.arg as u64).iter().map(|t| format!("{t} {:?}\n", d.type_to_pytket(t))).collect()
        }
        _ => match Circuit::<Hugr>::load(std::io::BufReader::new(Trap(&j.bytes, 0, j.arg)), None) {
            Ok(c) => deep(c.hugr(), true),
            Err(e) => format!("refused: {e}"),
        },
    })
}

/// The job's result when a thread does it, whatever happens.
fn guarded(j: &Job, id: usize) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(j, id))) {
        Ok(s) => s,
        Err(p) if p.downcast_ref::<&str>() == Some(&"reader died") => "the reader died".into(),
        Err(_) => format!("panic: {}", last_panic()),
    }
}

const LIMIT: u64 = 3_000_000;

/// The inputs of the jobs, made in a process that ends.
fn inputs(picks: &[(String, u64)]) -> Result<Vec<Job>, Violation> {
    let p = picks.to_vec();
    let r = simrt::process(1, u64::MAX, move || {
        simrt::quiet(|| serde_json::to_string(&p.iter().map(|(k, s)| make(k, *s)).collect::<Vec<_>>()).unwrap())
    });
    match r {
        Ok(s) => Ok(serde_json::from_str(&s).unwrap()),
        Err(e) => dev::harness(format!("inputs: {e}")),
    }
}

fn pick(t: &mut Tape, only: &[&str]) -> String {
    if let Ok(k) = std::env::var("SIM_ONLY") {
        return k;
    }
    let k: Vec<_> = KINDS.iter().filter(|k| only.is_empty() || only.contains(&k.0)).filter(|k| cfg!(feature = "device") || k.0 != "compile").collect();
    let w: Vec<u32> = k.iter().map(|k| k.1).collect();
    k[t.weighted(&w)].0.to_string()
}

/// In a process of its own. Differences between processes must not matter.
fn alone(j: &Job, seed: u64, before: &[Job], noise: &[Job]) -> Result<String, String> {
    simrt::process(seed, LIMIT * 10, || {
        for (k, b) in before.iter().enumerate() {
            guarded(b, 100 + k);
        }
        if noise.is_empty() {
            return guarded(j, 0);
        }
        std::thread::scope(|s| {
            for (k, n) in noise.iter().enumerate() {
                std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, move || guarded(n, 200 + k)).unwrap();
            }
            guarded(j, 0)
        })
    })
}

fn differ(a: &str, b: &str) -> String {
    if std::env::var_os("DUMP").is_some() {
        eprintln!("FIRST\n{a}\nSECOND\n{b}");
    }
    crate::io::diff(a, b).chars().take(600).collect()
}

fn c14(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let kind = pick(t, &["rules", "optimise", "encode", "encode-q", "compile", "lower", "decode", "rwr", "hash", "passes", "normalise", "modify", "guppy"]);
    let mut picks = vec![(kind.clone(), t.draw(1 << 30) as u64)];
    let (before, noise) = (t.draw(3) as usize, if t.one_in(2) { t.draw(3) as usize } else { 0 });
    for _ in 0..before + noise {
        // prior work is often of the same kind, or the same work
        let k = if t.one_in(3) { kind.clone() } else { pick(t, &[]) };
        let s = if t.one_in(4) { picks[0].1 } else { t.draw(1 << 30) as u64 };
        picks.push((k, s));
    }
    let seeds: Vec<u64> = (0..3).map(|_| t.draw(1 << 30) as u64 + 2).collect();
    ctx.sample = Some(format!("{kind} after {before}, beside {noise}: {:?}", picks));
    crate::simfs::mount(Default::default());
    let jobs = inputs(&picks)?;
    let j = &jobs[0];
    let a = match alone(j, seeds[0], &[], &[]) {
        Ok(a) => a,
        Err(e) => return fail("process", format!("{kind}: {e}")),
    };
    ctx.nontrivial = !a.starts_with("error") && !a.starts_with("panic");
    probe(&kind);
    if !ctx.nontrivial {
        probe(&format!("{kind} refused"));
    }
    simrt::event("process", || format!("{kind} {a}"));
    for (k, what) in ["in another process", "after other work"].iter().enumerate() {
        let b = match alone(j, seeds[k + 1], if k == 1 { &jobs[1..1 + before] } else { &[] }, if k == 1 { &jobs[1 + before..] } else { &[] }) {
            Ok(b) => b,
            Err(e) => return fail("process", format!("{kind}: {e}")),
        };
        fault("other process");
        if a != b {
            let ((x, what_else), (y, _)) = (but_numbering(&kind, &a), but_numbering(&kind, &b));
            let c = if x == y { what_else } else { "differs" };
            return fail(format!("{kind}-{c}"), format!("{kind} {what}: {}", differ(&a, &b)));
        }
    }
    Ok(())
}

fn c24(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let threads = 2 + t.draw(5) as usize;
    let mut picks = vec![];
    let same = t.one_in(4);
    let first = pick(t, &[]);
    let mut plan = vec![];
    for k in 0..threads {
        let n = 1 + t.weighted(&[5, 3, 1]);
        let mut mine = vec![];
        for i in 0..n {
            if k > 0 && t.one_in(4) {
                mine.push(t.draw(picks.len() as u32) as usize);
                continue;
            }
            mine.push(picks.len());
            picks.push((if same && i == 0 { first.clone() } else { pick(t, &[]) }, t.draw(1 << 30) as u64));
        }
        plan.push(mine);
    }
    let barrier = t.one_in(2);
    ctx.sample = Some(format!("{threads} threads: {:?}", plan.iter().map(|p| p.iter().map(|&i| &picks[i].0[..]).collect::<Vec<_>>()).collect::<Vec<_>>()));
    crate::simfs::mount(Default::default());
    let jobs = inputs(&picks)?;
    let mut want = vec![];
    for j in &jobs {
        match alone(j, 7, &[], &[]) {
            Ok(s) => want.push(s),
            Err(e) => return fail("process", format!("{}: {e}", j.kind)),
        }
    }
    ctx.nontrivial = threads > 1;
    let got: Mutex<Vec<(usize, usize, String)>> = Mutex::default();
    let gate = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for (k, mine) in plan.iter().enumerate() {
            let (jobs, got, gate) = (&jobs, &got, &gate);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    if barrier {
                        gate.wait();
                    }
                    for (n, &i) in mine.iter().enumerate() {
                        simrt::event("start", || jobs[i].kind.clone());
                        let r = guarded(&jobs[i], 10 + k * 8 + n);
                        simrt::event("done", || jobs[i].kind.clone());
                        got.lock().unwrap().push((k, i, r));
                    }
                })
                .unwrap();
        }
    });
    for (k, i, r) in got.into_inner().unwrap() {
        probe(&jobs[i].kind);
        if r == "the reader died" {
            fault("reader died");
        }
        let kind = &jobs[i].kind;
        if but_numbering(kind, &r) != but_numbering(kind, &want[i]) {
            let c = if r.starts_with("panic") { "first-use-panic" } else { "first-use-differs" };
            return fail(format!("{c}-{}", jobs[i].kind), format!("thread {k}, {}: {}", jobs[i].kind, differ(&want[i], &r)));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            title: "equal inputs, equal outputs",
            level: "exploration",
            rule: "one call of the library in three processes: with other hash seeds, addresses, clock and schedule, and after and beside other calls; distinct by event hash",
            components: "real: rule loading and matching, sequential optimiser, pytket encoding and decoding, QSystemPass, qis compiler with LLVM, passes; simulated: processes (forked before the library is used), hash seeds, addresses, clock, OS scheduler, disk",
            assumptions: &["programs and rule sets of bounded size; the optimiser runs under a circuit-count limit without time limits"],
            preload: || {},
            scenario: c14,
            quick_runs: 1200,
            quick_secs: 60,
            thorough_secs: 600,
            max_decisions: 1_000_000,
            plain_sched: false,
        },
        Prop {
            id: "C24",
            title: "first use from many threads",
            level: "exploration",
            rule: "a process whose first library calls are made by two to six threads at once; each result compared with that of a process that makes only this call; distinct by event hash",
            components: "real: lazily initialised registries, tables and parsers of tket, tket-qsystem, the qis compiler and hugr, std::sync::Once and locks, and the library calls behind them; simulated: OS scheduler, futexes, hash seeds, clock, disk, processes",
            assumptions: &["sequentially consistent memory: one simulated thread runs at a time"],
            preload: || {},
            scenario: c24,
            quick_runs: 1200,
            quick_secs: 60,
            thorough_secs: 600,
            max_decisions: LIMIT,
            plain_sched: false,
        },
    ]
}

/// What of the Guppy programs can be run (for development).
pub fn guppy_report() {
    for f in guppy_files() {
        let name = f.display().to_string();
        let b = std::fs::read(&f).unwrap();
        let r = std::panic::catch_unwind(|| -> String {
            let Some(p) = prog::guppy(&b, &registry(0)) else { return "unusable".into() };
            let m = dev::mono(&p);
            let mut out = String::new();
            for k in 0..3 {
                match dev::interpret(&m, p.main, Default::default(), k * 7, true) {
                    Ok(r) => out += &format!("{} seq {} {:?} ", r.end, r.dev.seq, r.dev.viol.first()),
                    Err(e) => out += &format!("ERR {e} "),
                }
            }
            out
        });
        println!("{name}: {}", r.unwrap_or_else(|_| "panic".into()));
    }
}


/// Development aid: which stage of normalising FILE numbers nodes differently?
pub fn stages(file: &str) {
    use tket::passes::NormalizeGuppy;
    let data = std::fs::read(file).unwrap();
    for mask in [0, 62, 63u32] {
        let mut seen = std::collections::BTreeSet::new();
        for _ in 0..40 {
            let data = data.clone();
            let t = std::thread::spawn(move || {
                let mut h = Hugr::load(&data[..], Some(&registry(0))).unwrap();
                let mut n = NormalizeGuppy::default();
                let f = |k: u32| mask >> k & 1 == 1;
                n.simplify_cfgs(f(0)).remove_tuple_untuple(f(1)).constant_folding(f(2)).remove_dead_funcs(f(3)).inline_dfgs(f(4)).squash_borrows(f(5));
                n.run(&mut h).unwrap();
                if std::env::var_os("LOWER").is_some() {
                    let root = h.module_root();
                    hugr::hugr::hugrmut::HugrMut::set_entrypoint(&mut h, root);
                    QSystemPass::default().with_lazify(std::env::var_os("NOLAZY").is_none()).with_force_order(std::env::var_os("NOORD").is_none()).run(&mut h).unwrap();
                }
                let mut s = String::new();
                for n in h.nodes() {
                    s += &format!("{n} {} {:?} {:?}\n", h.get_optype(n), h.get_parent(n), h.output_neighbours(n).collect::<Vec<_>>());
                }
                s
            });
            seen.insert(t.join().unwrap_or_default());
        }
        println!("{mask:06b}: {}", seen.len());
    }
}
