//! C12: pytket configurations shared by threads, some of which die.

use std::cell::Cell;
use std::sync::{Arc, Mutex};

use hugr::extension::prelude::{bool_t, qb_t, usize_t};
use hugr::extension::{ExtensionId, TypeDefBound, Version};
use hugr::std_extensions::arithmetic::{float_types, int_types};
use hugr::std_extensions::collections::array::array_type;
use hugr::types::{CustomType, Signature, SumType, Term, Type, TypeBound};
use hugr::{Extension, Hugr};
use tket::serialize::pytket::decoder::{DecodeStatus, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit};
use tket::serialize::pytket::encoder::EncodeStatus;
use tket::serialize::pytket::extension::{self as ext, PytketDecoder, PytketEmitter, PytketTypeTranslator, RegisterCount};
use tket::serialize::pytket::{
    DecodeOptions, EncodeOptions, EncodedCircuit, PytketDecodeError, PytketDecoderConfig, PytketEncodeError, PytketEncoderConfig,
    PytketEncoderContext, TKETDecode, TypeTranslatorSet,
};
use tket::Circuit;
use tket_json_rs::circuit_json::SerialCircuit;
use tket_json_rs::OpType as PyOp;

use crate::circ::{self, GenOpts};
use crate::dev;
use crate::io::deep;
use crate::prog;
use crate::runner::*;
use crate::simrt::{self, quiet};
use crate::tape::Rng;

thread_local! {
    /// After how many calls of custom code this thread dies (0: never).
    static FUSE: Cell<u32> = const { Cell::new(0) };
}

/// Custom code of the user: a place to be descheduled, or to die.
fn custom() {
    simrt::yield_point();
    let n = FUSE.get();
    if n > 0 {
        FUSE.set(n - 1);
        if n == 1 {
            fault("user code panicked");
            std::panic::resume_unwind(Box::new("user code died"));
        }
    }
}

const BOX: ExtensionId = ExtensionId::new_unchecked("verif.boxes");

fn boxes() -> Arc<Extension> {
    Extension::new_arc(BOX, Version::new(0, 1, 0), |e, w| {
        for n in ["crate", "ghost", "odd"] {
            e.add_type(n.into(), vec![TypeBound::Linear.into()], "".into(), TypeDefBound::any(), w).unwrap();
        }
    })
}

fn boxed(e: &Arc<Extension>, name: &str, t: Type) -> Type {
    e.get_type(name).unwrap().instantiate([Term::from(t)]).unwrap().into()
}

/// The circuits of an encoded program, in the order of its regions.
pub fn regions<N: hugr::core::HugrNode>(c: &EncodedCircuit<N>) -> String {
    let mut v: Vec<_> = c.iter().collect();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|(n, c)| format!("{n}: {}\n", serde_json::to_string(c).unwrap())).collect()
}

/// Types, simple and nested.
pub fn pool(seed: u64) -> Vec<Type> {
    let mut r = Rng::new(seed);
    let e = boxes();
    let mut v = vec![
        qb_t(),
        bool_t(),
        usize_t(),
        tket::extension::bool::bool_type(),
        float_types::float64_type(),
        tket::extension::rotation::rotation_type(),
        int_types::int_type(6),
        SumType::new_tuple(vec![]).into(),
        SumType::new_unary(1).into(),
        SumType::new_unary(3).into(),
        Type::new_var_use(0, TypeBound::Linear),
        Type::new_function(Signature::new_endo(vec![qb_t()])),
        tket_qsystem::extension::futures::future_type(bool_t()),
        tket_qsystem::extension::futures::future_type(tket::extension::bool::bool_type()),
    ];
    for _ in 0..14 {
        let a = v[r.below(v.len() as u32) as usize].clone();
        let b = v[r.below(v.len() as u32) as usize].clone();
        v.push(match r.below(8) {
            0 | 1 => SumType::new_tuple(vec![a, b]).into(),
            2 => SumType::new_tuple(vec![a.clone(), b, a]).into(),
            3 => SumType::new([vec![a], vec![b]]).into(),
            4 => array_type(r.below(4) as u64, a),
            5 => boxed(&e, "crate", a),
            6 => boxed(&e, "ghost", b),
            _ => boxed(&e, "odd", SumType::new_tuple(vec![a, b]).into()),
        });
    }
    // The definitions must stay alive for as long as the types.
    std::mem::forget(e);
    v
}

struct Boxes;
impl PytketTypeTranslator for Boxes {
    fn extensions(&self) -> Vec<ExtensionId> {
        vec![BOX]
    }
    fn type_to_pytket(&self, t: &CustomType, set: &TypeTranslatorSet) -> Option<RegisterCount> {
        custom();
        let Term::Runtime(inner) = &t.args()[0] else { return None };
        match t.name().as_str() {
            "crate" => {
                let a = set.type_to_pytket(inner);
                custom();
                a
            }
            // Only things without bits
            "ghost" => set.type_to_pytket(inner).filter(|c| c.bits == 0),
            _ => None,
        }
    }
}

/// A second opinion on the same types, and one on arrays.
struct Rest;
impl PytketTypeTranslator for Rest {
    fn extensions(&self) -> Vec<ExtensionId> {
        vec![BOX, hugr::std_extensions::collections::array::EXTENSION_ID]
    }
    fn type_to_pytket(&self, t: &CustomType, set: &TypeTranslatorSet) -> Option<RegisterCount> {
        custom();
        match (t.name().as_str(), t.args()) {
            ("odd", [Term::Runtime(x)]) => {
                let c = set.type_to_pytket(x)?;
                (c.qubits % 2 == 1).then_some(c)
            }
            ("array", [Term::BoundedNat(n), Term::Runtime(x)]) => {
                let mut sum = RegisterCount::default();
                for _ in 0..*n {
                    sum += set.type_to_pytket(x)?;
                }
                Some(sum)
            }
            _ => None,
        }
    }
}

/// Looks at gates and leaves them to others.
struct Looker;
impl PytketDecoder for Looker {
    fn op_types(&self) -> Vec<PyOp> {
        vec![PyOp::H, PyOp::CX, PyOp::Rz, PyOp::CircBox]
    }
    fn op_to_hugr<'h>(
        &self,
        _: &tket_json_rs::circuit_json::Operation,
        _: &[TrackedQubit],
        _: &[TrackedBit],
        _: &[LoadedParameter],
        _: Option<&str>,
        _: &mut PytketDecoderContext<'h>,
    ) -> Result<DecodeStatus, PytketDecodeError> {
        custom();
        Ok(DecodeStatus::Unsupported)
    }
}
impl PytketEmitter<Hugr> for Looker {
    fn extensions(&self) -> Option<Vec<ExtensionId>> {
        None
    }
    fn op_to_pytket(
        &self,
        _: hugr::Node,
        _: &hugr::ops::ExtensionOp,
        _: &Circuit<Hugr>,
        _: &mut PytketEncoderContext<Hugr>,
    ) -> Result<EncodeStatus, PytketEncodeError<hugr::Node>> {
        custom();
        Ok(EncodeStatus::Unsupported)
    }
}

fn decoder(kind: u32) -> PytketDecoderConfig {
    let mut c = match kind {
        0 => tket_qsystem::pytket::qsystem_decoder_config(),
        1 => tket::serialize::pytket::default_decoder_config(),
        _ => {
            let mut c = PytketDecoderConfig::new();
            c.add_decoder(Looker);
            c.add_type_translator(Rest);
            c.add_decoder(ext::CoreDecoder);
            c.add_decoder(ext::PreludeEmitter);
            c.add_decoder(ext::BoolEmitter);
            c.add_decoder(ext::TketOpEmitter);
            c.add_type_translator(ext::RotationEmitter);
            c.add_type_translator(ext::FloatEmitter);
            c.add_type_translator(ext::BoolEmitter);
            c.add_type_translator(ext::PreludeEmitter);
            c
        }
    };
    c.add_decoder(Looker);
    c.add_type_translator(Boxes);
    if kind != 2 {
        c.add_type_translator(Rest);
    }
    c
}

fn encoder(kind: u32) -> PytketEncoderConfig<Hugr> {
    let mut c = match kind {
        0 => tket_qsystem::pytket::qsystem_encoder_config(),
        _ => tket::serialize::pytket::default_encoder_config(),
    };
    c.add_emitter(Looker);
    c.add_type_translator(Boxes);
    c.add_type_translator(Rest);
    c
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Job {
    /// Registers of some types.
    Types(usize, usize),
    Iso(usize, usize),
    Decode(usize),
    /// Encode with the thread's own configuration.
    Encode(usize),
    /// Put encoded circuits back with the shared configuration.
    Fit(usize),
}

struct World {
    types: Vec<Type>,
    circuits: Vec<SerialCircuit>,
    programs: Vec<Hugr>,
}

fn run(w: &World, j: Job, d: &Arc<PytketDecoderConfig>, e: &Arc<PytketEncoderConfig<Hugr>>) -> String {
    let enc = |i: usize| EncodedCircuit::new(&Circuit::new(w.programs[i].clone()), EncodeOptions::<Hugr>::new().with_subcircuits(true).with_config(e.clone()));
    match j {
        Job::Types(a, n) => (a..a + n).map(|i| &w.types[i % w.types.len()]).map(|t| format!("{t}: {:?}\n", d.type_to_pytket(t))).collect(),
        Job::Iso(a, b) => format!("{}", d.types_are_isomorphic(&w.types[a], &w.types[b])),
        Job::Decode(i) => match w.circuits[i].decode(DecodeOptions::new().with_config(d.clone())) {
            Ok(c) => deep(c.hugr(), true),
            Err(e) => format!("error: {e}"),
        },
        Job::Encode(i) => match enc(i) {
            Ok(c) => regions(&c),
            Err(e) => format!("error: {e}"),
        },
        Job::Fit(i) => {
            let mut h = w.programs[i].clone();
            match enc(i).map_err(|e| e.to_string()).and_then(|c| c.reassemble_inplace(&mut h, Some(d.clone())).map_err(|e| e.to_string())) {
                Ok(n) => format!("{} {}", n.len(), deep(&h, true)),
                Err(e) => format!("error: {e}"),
            }
        }
    }
}

pub fn c12(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let kind = t.draw(3);
    let threads = 2 + t.draw(4) as usize;
    let seed = t.draw(1 << 30) as u64;
    let (nc, np) = (1 + t.draw(2) as usize, 1 + t.draw(2) as usize);
    let w = quiet(|| World {
        types: pool(seed),
        circuits: (0..nc)
            .map(|_| {
                let o = GenOpts { qubits: (1, 3), gates: (1, 9), set: circ::CLIFFT, params: 2, arith: false, alloc: false, dfg_root: false, patterns: false };
                let (c, _) = circ::gen(t, &o);
                SerialCircuit::encode(&c, EncodeOptions::new()).unwrap()
            })
            .collect(),
        programs: (0..np)
            .map(|_| {
                let mut o = dev::opts(t);
                o.stmts = (2, 7);
                o.futures = false;
                dev::mono(&prog::generate(t, &o))
            })
            .collect(),
    });
    let mut plan: Vec<(Vec<Job>, u32)> = vec![];
    for _ in 0..threads {
        let n = 1 + t.draw(4);
        let jobs = (0..n)
            .map(|_| match t.weighted(&[6, 1, 3, 2, 3]) {
                0 => Job::Types(t.draw(w.types.len() as u32) as usize, 1 + t.draw(8) as usize),
                1 => Job::Iso(t.draw(w.types.len() as u32) as usize, t.draw(w.types.len() as u32) as usize),
                2 => Job::Decode(t.draw(nc as u32) as usize),
                3 => Job::Encode(t.draw(np as u32) as usize),
                _ => Job::Fit(t.draw(np as u32) as usize),
            })
            .collect();
        // some threads die in user code, possibly more than once
        let fuse = if t.one_in(3) { 1 + t.draw(12) } else { 0 };
        plan.push((jobs, fuse));
    }
    ctx.sample = Some(format!("config {kind}: {plan:?}"));
    ctx.nontrivial = true;
    let alone = |j: Job| quiet(|| run(&w, j, &Arc::new(decoder(kind)), &Arc::new(encoder(kind))));
    let shared = Arc::new(decoder(kind));
    let got: Mutex<Vec<(usize, Job, Option<String>)>> = Mutex::default();
    std::thread::scope(|s| {
        for (k, (jobs, fuse)) in plan.iter().enumerate() {
            let (w, got, shared) = (&w, &got, &shared);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    let own = Arc::new(encoder(kind));
                    FUSE.set(*fuse);
                    for &j in jobs {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(w, j, shared, &own)));
                        simrt::event("did", || format!("{j:?} {}", r.is_ok()));
                        let r = match r {
                            Ok(s) => Some(s),
                            Err(p) if p.downcast_ref::<&str>() == Some(&"user code died") => {
                                // it happens again
                                FUSE.set(fuse * 2);
                                None
                            }
                            Err(_) => Some(format!("panic: {}", last_panic())),
                        };
                        got.lock().unwrap().push((k, j, r));
                    }
                    FUSE.set(0);
                })
                .unwrap();
        }
    });
    let mut got = got.into_inner().unwrap();
    let died = got.iter().any(|g| g.2.is_none());
    if died {
        probe("used after a panic");
    }
    // The configuration is as good as new.
    let own = Arc::new(encoder(kind));
    let mut seen: Vec<Job> = vec![];
    for (jobs, _) in &plan {
        for &j in jobs {
            if !seen.contains(&j) {
                seen.push(j);
                got.push((threads, j, Some(run(&w, j, &shared, &own))));
            }
        }
    }
    let mut want: Vec<(Job, String)> = vec![];
    for j in seen {
        want.push((j, alone(j)));
    }
    for (k, j, r) in got {
        let Some(r) = r else { continue };
        probe(match j {
            Job::Types(..) => "types",
            Job::Iso(..) => "isomorphic",
            Job::Decode(_) => "decode",
            Job::Encode(_) => "encode",
            Job::Fit(_) => "reassemble",
        });
        let s = &want.iter().find(|x| x.0 == j).unwrap().1;
        if &r != s {
            let class = if r.starts_with("panic") { "panic" } else { "differs" };
            let who = if k == threads { "after the threads ended".to_string() } else { format!("thread {k}") };
            return fail(class, format!("{who}, {j:?}: {}", crate::io::diff(s, &r).chars().take(600).collect::<String>()));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C12",
        title: "pytket configurations are shared safely",
        level: "exploration",
        rule: "two to five threads that translate types, decode circuits and put programs back together through one configuration, some of them dying in user code, compared with fresh configurations; distinct by event hash",
        components: "real: decoder and encoder configurations, type cache, all built-in decoders, emitters and translators, encoding, decoding and reassembly, std locks; simulated: OS scheduler, user-defined translators, decoders and emitters",
        assumptions: &["encoder configurations are used by one thread (their emitters are not Send)"],
        preload: || {},
        scenario: c12,
        quick_runs: 4000,
        quick_secs: 50,
        thorough_secs: 600,
        max_decisions: 2_000_000,
        plain_sched: false,
    }]
}
