//! C07-C09: storing and loading through streams and files that misbehave.

use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{self, Read, Write};
use std::sync::OnceLock;
use std::panic::{catch_unwind, AssertUnwindSafe};

use hugr::envelope::{EnvelopeConfig, EnvelopeFormat, ZstdConfig};
use hugr::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr::ops::{OpTrait, OpType};
use hugr::{Direction, Hugr, HugrView, Node, PortIndex};
use tket::optimiser::badger::EqCircClass;
use tket::rewrite::{ECCRewriter, Rewriter};
use tket::serialize::pytket::{DecodeOptions, EncodeOptions, TKETDecode, METADATA_INPUT_PARAMETERS};
use tket::serialize::{load_tk1_json_file, load_tk1_json_reader, save_tk1_json_file, save_tk1_json_str, save_tk1_json_writer};
use tket::{Circuit, TketOp};
use tket_json_rs::circuit_json::SerialCircuit;

use crate::badger;
use crate::circ::{self, GenOpts};
use crate::runner::{fail, fault, probe, Ctx, Prop, Verdict};
use crate::simfs;
use crate::simrt::{self, quiet};
use crate::tape::Tape;

// ------------------------------------------------------------- canonical form

/// A listing of the whole program, independent of node numbers.
pub fn deep<H: HugrView<Node = Node>>(h: &H, meta: bool) -> String {
    let mut order = vec![];
    let mut todo = vec![h.module_root()];
    while let Some(n) = todo.pop() {
        order.push(n);
        let c: Vec<_> = h.children(n).collect();
        todo.extend(c.into_iter().rev());
    }
    let idx: HashMap<Node, usize> = order.iter().enumerate().map(|(i, &n)| (n, i)).collect();
    let mut s = String::new();
    let _ = writeln!(s, "entry {}", idx[&h.entrypoint()]);
    for &n in &order {
        let op = h.get_optype(n);
        let p = h.get_parent(n).map(|p| idx[&p]);
        let _ = write!(s, "{} in {p:?}: {} <-", idx[&n], op_text(op));
        for port in h.node_inputs(n) {
            let mut l: Vec<String> = h.linked_outputs(n, port).map(|(m, q)| format!("{}.{}", idx[&m], q.index())).collect();
            l.sort();
            let _ = write!(s, " [{}]", l.join(","));
        }
        let outs = h.num_ports(n, Direction::Outgoing);
        let _ = write!(s, " ->{outs}");
        if meta {
            let mut m: Vec<_> = h
                .node_metadata_map(n)
                .iter()
                .filter(|(k, _)| !k.starts_with("core."))
                .map(|(k, v)| format!("{k}={v}"))
                .collect();
            m.sort();
            let _ = write!(s, " {}", m.join(" "));
        }
        s.push('\n');
    }
    s
}

/// The functions of a program and its entry point, up to the order of nodes.
pub fn loose<H: HugrView<Node = Node>>(h: &H) -> String {
    let mut v: Vec<String> = h
        .children(h.module_root())
        .filter(|n| !matches!(h.get_optype(*n), OpType::Const(_)))
        .map(|f| {
            let op = match h.get_optype(f) {
                OpType::FuncDefn(d) => format!("{} {}", d.func_name(), d.signature()),
                OpType::FuncDecl(d) => format!("decl {} {}", d.func_name(), d.signature()),
                o => op_text(o),
            };
            format!("{op}: {}", circ::canon(h, f))
        })
        .collect();
    v.sort();
    let e = h.entrypoint();
    let mut path = vec![];
    let mut n = e;
    while n != h.module_root() {
        path.push(match h.get_optype(n) {
            OpType::FuncDefn(d) => d.func_name().to_string(),
            o => o.to_string(),
        });
        n = h.get_parent(n).unwrap();
    }
    format!("{}\nentry {} {}", v.join("\n"), path.join(" in "), circ::canon(h, e))
}

/// Operations loaded from files and built in memory print alike.
fn op_text(op: &OpType) -> String {
    match op {
        OpType::ExtensionOp(e) => format!("{}.{} {:?} {:?}", e.def().extension_id(), e.def().name(), e.args(), e.dataflow_signature().map(|s| s.to_string())),
        OpType::OpaqueOp(e) => format!("{}.{} {:?} {:?}", e.extension(), e.unqualified_id(), e.args(), e.dataflow_signature().map(|s| s.to_string())),
        OpType::Const(c) => format!("const {:?}", c.value()),
        o => format!("{o:?}"),
    }
}

pub fn diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("`{x}` became `{y}`");
        }
    }
    format!("{} lines became {}", a.lines().count(), b.lines().count())
}

// -------------------------------------------------------------- faulty streams

#[derive(Clone, Debug, Default)]
pub struct StreamPlan {
    /// Bytes accepted before a permanent failure, and its kind.
    fail_at: Option<(usize, u32)>,
    /// The n-th flush fails.
    flush_fail: Option<u32>,
    short: u32,
    eintr: u32,
}

impl StreamPlan {
    fn draw(t: &mut Tape, size: usize, writing: bool) -> Self {
        let mut p = StreamPlan::default();
        match t.draw(4) {
            0 => {}
            1 => p.short = [2, 1, 5][t.draw(3) as usize],
            2 => p.eintr = [3, 2, 8][t.draw(3) as usize],
            _ => {
                p.short = 2;
                p.eintr = 3;
            }
        }
        if t.chance(3, 5) {
            let at = match t.draw(6) {
                0 => size.saturating_sub(1 + t.draw(24) as usize),
                1 => t.draw(16) as usize,
                2 => size,
                _ => t.draw(size as u32 + 1) as usize,
            };
            p.fail_at = Some((at, t.draw(if writing { 4 } else { 2 })));
        } else if writing && t.chance(1, 4) {
            p.flush_fail = Some(1 + t.draw(2));
        }
        p
    }
}

fn kinds(k: u32) -> io::Error {
    match k {
        0 => io::Error::from_raw_os_error(libc::ENOSPC),
        1 => io::Error::from_raw_os_error(libc::EIO),
        _ => io::Error::from(io::ErrorKind::BrokenPipe),
    }
}

#[derive(Default)]
pub struct Sink {
    data: Vec<u8>,
    plan: StreamPlan,
    flushes: u32,
    /// A byte was refused for good.
    refused: bool,
}
impl Write for &mut Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simrt::yield_point();
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        if self.plan.eintr > 0 && simrt::fault_one_in(self.plan.eintr) {
            fault("interrupted_write");
            return Err(io::ErrorKind::Interrupted.into());
        }
        if n > 1 && self.plan.short > 0 && simrt::fault_one_in(self.plan.short) {
            fault("short_write");
            n = 1 + simrt::fault_draw(n as u32 - 1) as usize;
        }
        if let Some((at, k)) = self.plan.fail_at {
            let left = at.saturating_sub(self.data.len());
            if left == 0 {
                fault(["disk_full", "write_error", "broken_pipe", "write_zero"][k as usize]);
                self.refused = true;
                return if k == 3 { Ok(0) } else { Err(kinds(k)) };
            }
            n = n.min(left);
        }
        quiet(|| self.data.extend_from_slice(&b[..n]));
        simrt::event("write", || format!("{n} of {}", b.len()));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.plan.flush_fail == Some(self.flushes) {
            fault("flush_error");
            self.refused = true;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        Ok(())
    }
}

pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    plan: StreamPlan,
    failed: bool,
    eof: bool,
}
impl<'a> Source<'a> {
    fn new(data: &'a [u8], plan: StreamPlan) -> Self {
        Source { data, pos: 0, plan, failed: false, eof: false }
    }
}
impl Read for &mut Source<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        simrt::yield_point();
        if b.is_empty() {
            return Ok(0);
        }
        if self.plan.eintr > 0 && simrt::fault_one_in(self.plan.eintr) {
            fault("interrupted_read");
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if n > 1 && self.plan.short > 0 && simrt::fault_one_in(self.plan.short) {
            fault("short_read");
            n = 1 + simrt::fault_draw(n as u32 - 1) as usize;
        }
        if let Some((at, k)) = self.plan.fail_at {
            let left = at.saturating_sub(self.pos);
            if left == 0 {
                fault("read_error");
                self.failed = true;
                return Err(kinds(k + 1));
            }
            n = n.min(left);
        }
        if n == 0 {
            self.eof = true;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        simrt::event("read", || format!("{n} of {}", b.len()));
        Ok(n)
    }
}

/// Buffering in front of the sink, as callers use it.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Buf {
    None,
    /// The callee owns the buffer.
    Owned(usize),
    /// The caller keeps it and flushes it afterwards.
    Lent(usize),
}
impl Buf {
    fn draw(t: &mut Tape) -> Buf {
        match t.draw(4) {
            0 => Buf::None,
            1 => Buf::Owned(8192),
            2 => Buf::Owned([1, 13, 64, 1 << 20][t.draw(4) as usize]),
            _ => Buf::Lent([8192, 64, 7][t.draw(3) as usize]),
        }
    }
}

/// Runs a storing function against a sink with the given buffering.
macro_rules! store_through {
    ($buf:expr, $sink:expr, |$w:ident| $e:expr) => {{
        let mut sink: &mut Sink = $sink;
        match $buf {
            Buf::None => {
                let $w = &mut sink;
                $e.map_err(|e| e.to_string())
            }
            Buf::Owned(n) => {
                let $w = io::BufWriter::with_capacity(n, &mut sink);
                $e.map_err(|e| e.to_string())
            }
            Buf::Lent(n) => {
                let mut bw = io::BufWriter::with_capacity(n, &mut sink);
                let r = {
                    let $w = &mut bw;
                    $e.map_err(|e| e.to_string())
                };
                match r {
                    Ok(()) => bw.flush().map_err(|e| e.to_string()),
                    e => e,
                }
            }
        }
    }};
}

macro_rules! no_panic {
    ($what:expr, $e:expr) => {
        match catch_unwind(AssertUnwindSafe(|| $e)) {
            Ok(x) => x,
            Err(_) => {
                let m = crate::runner::last_panic();
                return fail(format!("{}-panic", $what), format!("{} panicked: {m}", $what));
            }
        }
    };
}

/// Damages stored bytes.
fn damage(t: &mut Tape, d: &mut Vec<u8>) -> String {
    let n = d.len() as u32;
    match t.draw(5) {
        0 => {
            let k = t.draw(n) as usize;
            let b = 1u8 << t.draw(8);
            d[k] ^= b;
            format!("bit {b:#x} of byte {k} flipped")
        }
        1 => {
            let k = t.draw(n) as usize;
            d[k] = t.draw(256) as u8;
            format!("byte {k} set to {}", d[k])
        }
        2 => {
            let k = t.draw(n) as usize;
            let l = (1 + t.draw(40) as usize).min(d.len() - k);
            d.drain(k..k + l);
            format!("{l} bytes lost at {k}")
        }
        3 => {
            let k = t.draw(n) as usize;
            let l = (1 + t.draw(40) as usize).min(d.len() - k);
            let c = d[k..k + l].to_vec();
            let at = t.draw(n) as usize;
            for (i, b) in c.into_iter().enumerate() {
                d.insert(at + i, b);
            }
            format!("{l} bytes of {k} duplicated at {at}")
        }
        _ => {
            // a torn block
            let k = t.draw(n) as usize;
            let l = (1 + t.draw(64) as usize).min(d.len() - k);
            for b in &mut d[k..k + l] {
                *b = 0;
            }
            format!("{l} zero bytes at {k}")
        }
    }
}

/// Damage that keeps the document well-formed: values lost, repeated, exchanged or changed.
fn damage_json(t: &mut Tape, d: &mut Vec<u8>) -> Option<String> {
    use serde_json::Value;
    fn count(v: &Value) -> u32 {
        1 + match v {
            Value::Array(a) => a.iter().map(count).sum(),
            Value::Object(o) => o.values().map(count).sum(),
            _ => 0,
        }
    }
    fn nth<'a>(v: &'a mut Value, n: &mut u32) -> Option<&'a mut Value> {
        if *n == 0 {
            return Some(v);
        }
        *n -= 1;
        match v {
            Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
            Value::Object(o) => o.values_mut().find_map(|x| nth(x, n)),
            _ => None,
        }
    }
    let mut v: Value = serde_json::from_slice(d).ok()?;
    let n = count(&v);
    let k = t.draw(n);
    let other = {
        let mut k2 = t.draw(n);
        nth(&mut v, &mut k2)?.clone()
    };
    let (how, a, b) = (t.draw(6), t.draw(8), t.draw(8));
    let mut k1 = k;
    let x = nth(&mut v, &mut k1)?;
    let before = x.to_string();
    match x {
        Value::Array(l) if how < 4 && !l.is_empty() => {
            let i = a as usize % l.len();
            let j = b as usize % l.len();
            match how {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let c = l[i].clone();
                    l.insert(j, c);
                }
                2 => l.swap(i, j),
                _ => l[i] = l[j].clone(),
            }
        }
        Value::Object(o) if how < 2 && !o.is_empty() => {
            let key = o.keys().nth(a as usize % o.len()).unwrap().clone();
            o.remove(&key);
        }
        Value::Number(_) => *x = [0i64, 1, 2, 3, 7, -1, 1 << 40, i64::MAX][a as usize].into(),
        Value::String(s) if how < 3 => {
            *x = ["", "q", "c", "Rz", "CX", "Barrier", "f0 +", "Measure"][a as usize].into();
        }
        Value::Null => *x = [Value::from(1), Value::from(""), Value::Array(vec![]), Value::from(true)][a as usize % 4].clone(),
        _ => *x = other,
    }
    let after = {
        let mut k = k;
        nth(&mut v, &mut k).map(|x| x.to_string()).unwrap_or_default()
    };
    *d = v.to_string().into_bytes();
    let short = |s: String| s.chars().take(120).collect::<String>();
    Some(format!("`{}` became `{}`", short(before), short(after)))
}

// ------------------------------------------------------------------------ C07

fn gen_opts(t: &mut Tape) -> GenOpts {
    GenOpts {
        qubits: (1, 4),
        gates: (0, 14),
        set: circ::CLIFFT,
        params: 2,
        arith: t.one_in(2),
        alloc: t.one_in(3),
        dfg_root: false,
        patterns: false,
    }
}

/// A program with one or more functions; returns the entry point's kind.
fn program(t: &mut Tape) -> (Circuit, String) {
    let o = gen_opts(t);
    let (c, d) = circ::gen(t, &o);
    let mut h: Hugr = c.into_hugr();
    let extra = t.draw(3);
    let mut funcs = vec![h.entrypoint()];
    for i in 0..extra {
        let (c2, _) = circ::gen(t, &o);
        let mut h2 = c2.into_hugr();
        let e = h2.entrypoint();
        if let OpType::FuncDefn(f) = h2.optype_mut(e) {
            *f.func_name_mut() = format!("f{i}");
        }
        let root = h.module_root();
        let m = h.insert_hugr(root, h2);
        funcs.push(m.inserted_entrypoint);
    }
    let f = funcs[t.draw(funcs.len() as u32) as usize];
    h.set_entrypoint(f);
    if t.one_in(3) {
        h.set_metadata(f, "note", "some text \u{1F980} \"quoted\"");
    }
    // An inner region: wrap the function's gates in a nested dataflow region.
    let mut what = "function".to_string();
    if t.one_in(2) {
        if let Some(d) = nest(&mut h, f) {
            if t.one_in(2) {
                h.set_entrypoint(d);
                what = "inner region".into();
            }
        }
    }
    (Circuit::new(h), format!("{what} of {} functions; {}", funcs.len(), d.join("; ")))
}

/// Moves the body of function `f` into a nested dataflow region.
fn nest(h: &mut Hugr, f: Node) -> Option<Node> {
    let [inp, out] = h.get_io(f)?;
    let ot = h.get_optype(inp).clone();
    let it = h.get_optype(out).clone();
    let OpType::FuncDefn(fd) = h.get_optype(f).clone() else { return None };
    let sig = fd.signature().body().clone();
    let kids: Vec<Node> = h.children(f).filter(|n| *n != inp && *n != out).collect();
    let dfg = h.add_node_with_parent(f, hugr::ops::DFG { signature: sig.clone() });
    let ni = h.add_node_with_parent(dfg, ot);
    let no = h.add_node_with_parent(dfg, it);
    for k in kids {
        h.set_parent(k, dfg);
    }
    for p in 0..sig.input().len() {
        let tg: Vec<_> = h.linked_inputs(inp, p).collect();
        h.disconnect(inp, hugr::OutgoingPort::from(p));
        for (n, q) in tg {
            let n = if n == out { no } else { n };
            h.connect(ni, p, n, q);
        }
        h.connect(inp, p, dfg, p);
    }
    for p in 0..sig.output().len() {
        let l = h.linked_outputs(out, p).next();
        if let Some((n, q)) = l {
            h.disconnect(out, hugr::IncomingPort::from(p));
            if n != inp && n != dfg {
                h.connect(n, q, no, p);
            }
        }
        h.connect(dfg, p, out, p);
    }
    // keep order edges and extra inputs out of it
    if h.validate().is_err() {
        panic!("HARNESS: nested program invalid: {:?}", h.validate());
    }
    Some(dfg)
}

fn configs() -> Vec<(&'static str, EnvelopeConfig)> {
    let z = |f, l| EnvelopeConfig::new(f).with_zstd(ZstdConfig::new(l));
    vec![
        ("json", EnvelopeConfig::new(EnvelopeFormat::PackageJson)),
        ("json+zstd", z(EnvelopeFormat::PackageJson, 3)),
        ("binary", EnvelopeConfig::binary()),
        ("text", EnvelopeConfig::text()),
        ("model", EnvelopeConfig::new(EnvelopeFormat::Model)),
        ("model+ext", EnvelopeConfig::new(EnvelopeFormat::ModelWithExtensions)),
        ("model+ext+zstd", z(EnvelopeFormat::ModelWithExtensions, 0)),
        ("modeltext", EnvelopeConfig::new(EnvelopeFormat::ModelText)),
        ("modeltext+ext", EnvelopeConfig::new(EnvelopeFormat::ModelTextWithExtensions)),
        ("model+zstd", z(EnvelopeFormat::Model, 19)),
    ]
}

fn load_some(data: &[u8], plan: StreamPlan, buf: usize, func: Option<&str>) -> Result<Circuit, String> {
    let mut src = Source::new(data, plan);
    let rd = io::BufReader::with_capacity(buf, &mut src);
    match func {
        None => Circuit::load(rd, None).map_err(|e| e.to_string()),
        Some(f) => Circuit::load_function(rd, f).map_err(|e| e.to_string()),
    }
}

fn c07(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let (input, desc) = program(t);
    let cfgs = configs();
    let (fmt, cfg) = cfgs[t.draw(cfgs.len() as u32) as usize].clone();
    let model = fmt.starts_with("model") || fmt == "binary";
    let original = quiet(|| deep(input.hugr(), true));
    // Fault-free.
    let mut clean = Sink::default();
    let r = no_panic!("store", input.store(&mut &mut clean, cfg.clone()));
    if let Err(e) = r {
        return fail("store-error", format!("storing as {fmt} fails without any fault: {e}"));
    }
    let bytes = clean.data;
    let full = no_panic!("load", load_some(&bytes, StreamPlan::default(), 8192, None));
    let full = match full {
        Ok(c) => c,
        Err(e) => return fail("load-error", format!("loading {fmt} back fails without any fault: {e}; {desc}")),
    };
    let got = quiet(|| deep(full.hugr(), true));
    // Model formats may reorder siblings: compare them up to node order.
    let reloaded = got.clone();
    let (x, y) = if model { (quiet(|| loose(input.hugr())), quiet(|| loose(full.hugr()))) } else { (original.clone(), got) };
    if x != y {
        return fail("round-trip", format!("{fmt}: {}", diff(&x, &y)));
    }
    let buf = Buf::draw(t);
    let wplan = StreamPlan::draw(t, bytes.len(), true);
    let rplan = StreamPlan::draw(t, bytes.len(), false);
    let rbuf = [8192, 1, 3, 64][t.draw(4) as usize];
    let mode = t.draw(4);
    ctx.sample = Some(format!("{fmt} {} bytes, mode {mode}, {buf:?} {wplan:?} / {rbuf} {rplan:?}; {desc}", bytes.len()));
    ctx.nontrivial = bytes.len() > 200;

    // Storing under faults.
    let mut sink = Sink { plan: wplan.clone(), ..Default::default() };
    let r = no_panic!("store", store_through!(buf, &mut sink, |w| input.store(w, cfg.clone())));
    match &r {
        Ok(()) => {
            if sink.refused {
                return fail("store-lost", format!("storing as {fmt} through {buf:?} reported success although the writer refused bytes ({} of {} accepted)", sink.data.len(), bytes.len()));
            }
            if sink.data != bytes {
                return fail("store-incomplete", format!("storing as {fmt} through {buf:?} reported success with {} of {} bytes delivered", sink.data.len(), bytes.len()));
            }
        }
        Err(e) => {
            if !sink.refused {
                return fail("store-spurious-error", format!("storing as {fmt} failed although the writer accepted everything: {e}"));
            }
            probe("store_error_reported");
        }
    }
    // Loading.
    let mut data = bytes.clone();
    let mut plan = StreamPlan { short: rplan.short, eintr: rplan.eintr, ..Default::default() };
    let mut harmless = false;
    let what = match mode {
        0 => {
            harmless = true;
            "split reads".to_string()
        }
        1 => {
            let k = rplan.fail_at.map_or(data.len() / 2, |x| x.0.min(data.len().saturating_sub(1)));
            data.truncate(k);
            fault("truncated_data");
            format!("truncated to {k} of {} bytes", bytes.len())
        }
        2 => {
            plan.fail_at = rplan.fail_at.or(Some((data.len() / 3, 0)));
            format!("reads fail at {:?} of {}", plan.fail_at, bytes.len())
        }
        _ => {
            fault("damaged_data");
            let json = fmt == "json" && data.len() > 10 && ctx.w.one_in(2);
            if json {
                let mut body = data.split_off(10);
                let d = damage_json(&mut ctx.w, &mut body).unwrap_or_default();
                data.extend(body);
                d
            } else {
                damage(&mut ctx.w, &mut data)
            }
        }
    };
    ctx.sample.as_mut().unwrap().push_str(&format!("; {what}"));
    let name = match full.hugr().get_optype(full.parent()) {
        OpType::FuncDefn(f) => Some(f.func_name().clone()),
        _ => None,
    };
    let by_name = name.is_some() && ctx.w.one_in(3);
    let func = if by_name { name.as_deref() } else { None };
    // The decoders of the hugr crates trust the structure of what they are given.
    if mode == 3 {
        crate::runner::phase("load-damaged");
    }
    let r = catch_unwind(AssertUnwindSafe(|| load_some(&data, plan.clone(), rbuf, func)));
    crate::runner::phase("");
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let site = crate::runner::panic_site();
            let m = crate::runner::last_panic();
            let class = match (mode == 3, site.is_empty()) {
                (true, false) => "load-damaged-panic-in-dependency".to_string(),
                _ => format!("load-panic{site}"),
            };
            return fail(class, format!("{fmt}, {what}: load panicked: {m}"));
        }
    };
    match r {
        Ok(c) => {
            let v = quiet(|| c.hugr().validate());
            if let Err(e) = v {
                return fail("load-invalid", format!("{fmt}, {what}: loading gave an invalid program: {e}"));
            }
            let got = quiet(|| deep(c.hugr(), true));
            let same = got == reloaded;
            if harmless && !same {
                return fail("load-differs", format!("{fmt}, {what}: {}", diff(&reloaded, &got)));
            }
            if !same {
                probe("damage_gives_valid_program");
            }
            // A prefix of a textual module may be a complete module.
            if mode == 1 && !same && !fmt.starts_with("modeltext") && fmt != "text" {
                return fail("load-truncated", format!("{fmt}, {what}: a different program was loaded: {}", diff(&reloaded, &got)));
            }
        }
        Err(e) => {
            if harmless {
                return fail("load-error", format!("{fmt}, {what}: {e}"));
            }
            probe("load_error_reported");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C08

fn own_eccs() -> &'static Vec<ECCRewriter> {
    static R: OnceLock<Vec<ECCRewriter>> = OnceLock::new();
    R.get_or_init(|| {
        use crate::rules::{circuits_of, RULES};
        let class = |names: &[&str]| {
            let mut v = vec![];
            for n in names {
                let r = RULES.iter().find(|r| r.name == *n).unwrap();
                let (l, rr) = circuits_of(r);
                if v.is_empty() {
                    v.push(l);
                }
                v.push(rr);
            }
            let first = v.remove(0);
            EqCircClass::new(first, v)
        };
        vec![
            ECCRewriter::from_eccs(vec![class(&["hxh"]), class(&["tt"]), class(&["cxx"])]),
            ECCRewriter::from_eccs(vec![class(&["hh"]), class(&["swap3"])]),
            ECCRewriter::from_eccs(vec![class(&["chain3"]), class(&["h1cxh1"]), class(&["cxcxc"]), class(&["ss"])]),
            ECCRewriter::from_eccs(vec![class(&["cxcx"])]),
            ECCRewriter::from_eccs(Vec::<EqCircClass>::new()),
        ]
    })
}

fn preload08() {
    badger::preload();
    own_eccs();
    encoded_all();
}

fn all_rewriters() -> Vec<&'static ECCRewriter> {
    badger::eccs().iter().chain(own_eccs().iter()).collect()
}

fn encoded_all() -> &'static Vec<Vec<u8>> {
    static R: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    R.get_or_init(|| {
        all_rewriters()
            .iter()
            .map(|r| {
                let mut v = vec![];
                r.save_binary_io(&mut v).unwrap();
                v
            })
            .collect()
    })
}

/// What the rewriter proposes, in order.
pub fn proposals(r: &ECCRewriter, c: &Circuit) -> Vec<String> {
    r.get_rewrites(c)
        .into_iter()
        .map(|rw| {
            let mut d = c.clone();
            match rw.apply(&mut d) {
                Ok(_) => circ::canon_circ(&d),
                Err(e) => format!("error {e}"),
            }
        })
        .collect()
}

pub fn same_rewriter(a: &ECCRewriter, b: &ECCRewriter, t: &mut Tape) -> Result<usize, String> {
    let mut seen = 0;
    for _ in 0..3 {
        let o = GenOpts {
            qubits: (1, 5),
            gates: (2, 16),
            set: [circ::NAM, circ::CLIFFT, &circ::CLIFFT[..4]][t.draw(3) as usize],
            params: 1,
            arith: false,
            alloc: false,
            dfg_root: t.one_in(2),
            patterns: true,
        };
        let (c, _) = circ::gen(t, &o);
        let mut x = proposals(a, &c);
        let mut y = proposals(b, &c);
        seen += x.len();
        x.sort();
        y.sort();
        if x != y {
            return Err(format!("{} rewrites before, {} after, for {}", x.len(), y.len(), circ::canon_circ(&c)));
        }
    }
    Ok(seen)
}

/// A plan for a file of this size.
fn file_plan(t: &mut Tape, size: usize, writing: bool) -> simfs::Plan {
    let mut p = simfs::Plan::default();
    match t.draw(4) {
        0 => {}
        1 => p.short = 2,
        2 => p.eintr = 3,
        _ => {
            p.short = 3;
            p.eintr = 4;
        }
    }
    let at = match t.draw(6) {
        0 => size.saturating_sub(1 + t.draw(24) as usize),
        1 => t.draw(16) as usize,
        2 => size,
        _ => t.draw(size as u32 + 1) as usize,
    };
    let err = [libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG][t.draw(4) as usize];
    match t.draw(6) {
        0 => {}
        1 => p.open_err = Some((1, [libc::EACCES, libc::EMFILE, libc::EIO][t.draw(3) as usize])),
        2 if writing => p.budget = Some(at),
        3 if writing => p.write_err = Some((1 + t.draw(4), err)),
        _ if writing => p.write_err_at = Some((at, err)),
        _ => p.read_err_at = Some((at, libc::EIO)),
    }
    p
}

fn c08(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let all = all_rewriters();
    let k = t.draw(all.len() as u32) as usize;
    let orig = all[k];
    // A second generation must behave like the first.
    let second;
    let generation = t.one_in(4);
    let orig = if generation {
        second = match ECCRewriter::load_binary_io(&encoded_all()[k][..]) {
            Ok(r) => r,
            Err(e) => return fail("load-error", format!("rewriter {k}: loading saved bytes failed: {e}")),
        };
        &second
    } else {
        orig
    };
    let mut bytes = vec![];
    if let Err(e) = no_panic!("save", orig.save_binary_io(&mut bytes)) {
        return fail("save-error", format!("rewriter {k}: saving fails without any fault: {e}"));
    }
    let files = t.one_in(2);
    let mut stored: Option<Vec<u8>> = None;
    if files {
        let plan = file_plan(t, bytes.len(), true);
        simfs::mount(plan.clone());
        let name = ["/simfs/r", "/simfs/r.rwr", "/simfs/rules.json"][t.draw(3) as usize];
        ctx.sample = Some(format!("rewriter {k} (gen {generation}), {} bytes, file {name} {plan:?}", bytes.len()));
        let r = no_panic!("save", orig.save_binary(name));
        let fired = simfs::disk().fired.clone();
        match r {
            Ok(path) => {
                let Some(data) = simfs::disk().get(path.to_str().unwrap()) else {
                    return fail("save-lost", format!("saving reported success at {path:?} but there is no such file"));
                };
                if !fired.is_empty() {
                    return fail("save-lost", format!("saving to {path:?} reported success although the disk failed ({fired:?}); {} of {} bytes are there", data.len(), bytes.len()));
                }
                if data != bytes {
                    return fail("save-incomplete", format!("saving to {path:?} reported success with {} of {} bytes", data.len(), bytes.len()));
                }
                stored = Some(data);
            }
            Err(e) => {
                if fired.is_empty() {
                    return fail("save-spurious-error", format!("saving failed without a disk error: {e}"));
                }
                probe("save_error_reported");
            }
        }
    } else {
        let plan = StreamPlan::draw(t, bytes.len(), true);
        let buf = Buf::draw(t);
        ctx.sample = Some(format!("rewriter {k} (gen {generation}), {} bytes, stream {buf:?} {plan:?}", bytes.len()));
        let mut sink = Sink { plan, ..Default::default() };
        let r = no_panic!("save", store_through!(buf, &mut sink, |w| orig.save_binary_io(w)));
        match r {
            Ok(()) => {
                if sink.refused {
                    return fail("save-lost", format!("saving through {buf:?} reported success although the writer refused bytes ({} of {} accepted)", sink.data.len(), bytes.len()));
                }
                if sink.data != bytes {
                    return fail("save-incomplete", format!("saving through {buf:?} reported success with {} of {} bytes delivered", sink.data.len(), bytes.len()));
                }
                stored = Some(sink.data);
            }
            Err(e) => {
                if !sink.refused {
                    return fail("save-spurious-error", format!("saving failed although the writer accepted everything: {e}"));
                }
                probe("save_error_reported");
            }
        }
    }
    ctx.nontrivial = bytes.len() > 200;
    let data = stored.unwrap_or(bytes);
    // Loading.
    let t = &mut ctx.w;
    let mode = t.draw(4);
    let mut plan = file_plan(t, data.len(), false);
    let mut d = data.clone();
    let harmless = mode < 2;
    match mode {
        0 | 1 => plan = simfs::Plan { short: plan.short, eintr: plan.eintr, ..Default::default() },
        2 => {
            let k = [t.draw(d.len() as u32) as usize, d.len().saturating_sub(1 + t.draw(8) as usize)][t.draw(2) as usize];
            d.truncate(k);
            fault("truncated_data");
        }
        _ => {}
    }
    ctx.sample.as_mut().unwrap().push_str(&format!("; load mode {mode} {} of {} bytes {plan:?}", d.len(), data.len()));
    let short = d.len() < data.len();
    let mut expect_error = short;
    let r = if files {
        simfs::mount(plan);
        simfs::disk().put("/simfs/in.rwr", d);
        let r = no_panic!("load", ECCRewriter::load_binary("/simfs/in.rwr").map_err(|e| e.to_string()));
        expect_error |= !simfs::disk().fired.is_empty();
        r
    } else {
        let p = StreamPlan { short: plan.short, eintr: plan.eintr, fail_at: plan.read_err_at.map(|x| (x.0, 0)), flush_fail: None };
        let mut src = Source::new(&d, p);
        let r = no_panic!("load", ECCRewriter::load_binary_io(&mut src).map_err(|e| e.to_string()));
        expect_error |= src.failed;
        r
    };
    match r {
        Ok(l) => {
            if expect_error {
                return fail("load-partial", "loading a truncated or failing file gave a rewriter".to_string());
            }
            match same_rewriter(orig, &l, &mut ctx.w) {
                Ok(n) => {
                    if n > 0 {
                        probe("rewrites_compared");
                    }
                }
                Err(e) => return fail("behaves-differently", format!("rewriter {k}: {e}")),
            }
            let mut again = vec![];
            if let Err(e) = no_panic!("save", l.save_binary_io(&mut again)) {
                return fail("save-error", format!("saving a loaded rewriter fails: {e}"));
            }
        }
        Err(e) => {
            if harmless || !expect_error {
                return fail("load-error", format!("rewriter {k}: loading failed without a fault: {e}"));
            }
            probe("load_error_reported");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C09

pub const PYTKET: &[TketOp] = circ::CLIFFT;

fn c09(ctx: &mut Ctx) -> Verdict {
    let t = &mut ctx.w;
    let o = GenOpts {
        qubits: (1, 4),
        gates: (0, 16),
        set: PYTKET,
        params: 2,
        arith: t.one_in(2),
        alloc: t.one_in(4),
        dfg_root: t.one_in(3),
        patterns: false,
    };
    let (input, desc) = circ::gen(t, &o);
    let text = match no_panic!("save", save_tk1_json_str(&input, EncodeOptions::new())) {
        Ok(s) => s,
        Err(e) => return fail("save-error", format!("encoding fails without any fault: {e}")),
    };
    let want: SerialCircuit = match serde_json::from_str(&text) {
        Ok(s) => s,
        Err(e) => return fail("save-garbage", format!("the saved document is not a pytket circuit: {e}")),
    };
    let files = t.one_in(2);
    ctx.nontrivial = want.commands.len() > 2;
    let mut stored = None;
    let check = |data: &[u8], bad: bool, place: &str| -> Verdict {
        if bad {
            return fail("save-lost", format!("saving to {place} reported success although the storage refused data; {} of {} bytes are there", data.len(), text.len()));
        }
        match serde_json::from_slice::<SerialCircuit>(data) {
            Err(e) => fail("save-incomplete", format!("saving to {place} reported success with {} of {} bytes: {e}", data.len(), text.len())),
            Ok(s) if s != want => fail("save-differs", format!("saving to {place} wrote another circuit than saving to a string")),
            _ => Ok(()),
        }
    };
    if files {
        let plan = file_plan(t, text.len(), true);
        ctx.sample = Some(format!("{} bytes, file {plan:?}; {}", text.len(), desc.join("; ")));
        simfs::mount(plan);
        match no_panic!("save", save_tk1_json_file(&input, "/simfs/c.json", EncodeOptions::new()).map_err(|e| e.to_string())) {
            Ok(()) => {
                let data = simfs::disk().get("/simfs/c.json").unwrap_or_default();
                check(&data, !simfs::disk().fired.is_empty(), "a file")?;
                stored = Some(data);
            }
            Err(e) => {
                if simfs::disk().fired.is_empty() {
                    return fail("save-spurious-error", format!("saving failed without a disk error: {e}"));
                }
                probe("save_error_reported");
            }
        }
    } else {
        let plan = StreamPlan::draw(t, text.len(), true);
        let buf = Buf::draw(t);
        ctx.sample = Some(format!("{} bytes, stream {buf:?} {plan:?}; {}", text.len(), desc.join("; ")));
        let mut sink = Sink { plan, ..Default::default() };
        match no_panic!("save", store_through!(buf, &mut sink, |w| save_tk1_json_writer(&input, w, EncodeOptions::new()))) {
            Ok(()) => {
                check(&sink.data, sink.refused, &format!("a stream through {buf:?}"))?;
                stored = Some(sink.data);
            }
            Err(e) => {
                if !sink.refused {
                    return fail("save-spurious-error", format!("saving failed although the writer accepted everything: {e}"));
                }
                probe("save_error_reported");
            }
        }
    }
    let data = stored.unwrap_or(text.clone().into_bytes());
    let t = &mut ctx.w;
    let mode = t.draw(5);
    let mut plan = file_plan(t, data.len(), false);
    let mut d = data.clone();
    let mut what = "split reads".to_string();
    match mode {
        0 | 1 => plan = simfs::Plan { short: plan.short, eintr: plan.eintr, ..Default::default() },
        2 => {
            let k = t.draw(d.len() as u32) as usize;
            d.truncate(k);
            what = format!("truncated to {k}");
            fault("truncated_data");
        }
        3 => what = "failing reads".into(),
        _ => {
            what = if t.one_in(2) { damage(t, &mut d) } else { damage_json(t, &mut d).unwrap_or_else(|| "no damage".into()) };
            fault("damaged_data");
        }
    }
    ctx.sample.as_mut().unwrap().push_str(&format!("; load: {what} {plan:?}"));
    let cut = d.len() < data.len() && mode == 2;
    let failed;
    let r = if files {
        simfs::mount(plan);
        simfs::disk().put("/simfs/c.json", d);
        let r = no_panic!("load", load_tk1_json_file("/simfs/c.json", DecodeOptions::new()).map_err(|e| e.to_string()));
        failed = !simfs::disk().fired.is_empty();
        r
    } else {
        let p = StreamPlan { short: plan.short, eintr: plan.eintr, fail_at: plan.read_err_at.map(|x| (x.0, 0)), flush_fail: None };
        let mut src = Source::new(&d, p);
        let r = no_panic!("load", load_tk1_json_reader(&mut src, DecodeOptions::new()).map_err(|e| e.to_string()));
        failed = src.failed;
        r
    };
    match r {
        Ok(c) => {
            if cut || failed {
                return fail("load-partial", format!("{what}: loading gave a circuit"));
            }
            if let Err(e) = quiet(|| c.hugr().validate()) {
                return fail("load-invalid", format!("{what}: loading gave an invalid circuit: {e}"));
            }
            if mode < 2 || mode == 3 {
                let again = match no_panic!("save", SerialCircuit::encode(&c, EncodeOptions::new())) {
                    Ok(s) => s,
                    Err(e) => return fail("round-trip", format!("a loaded circuit cannot be saved again: {e}")),
                };
                if let Err(e) = same_serial(&want, &again) {
                    return fail("round-trip", e);
                }
                // Ancillas become inputs of a pytket circuit.
                if !o.alloc {
                    if let Err(e) = pytket_equivalent(&input, &c) {
                        return fail("round-trip-meaning", e);
                    }
                }
                probe("round_trip");
            } else {
                probe("damage_gives_valid_circuit");
            }
        }
        Err(e) => {
            if mode != 4 && !cut && !failed {
                return fail("load-error", format!("{what}: loading failed without a fault: {e}"));
            }
            probe("load_error_reported");
        }
    }
    Ok(())
}

fn same_serial(a: &SerialCircuit, b: &SerialCircuit) -> Result<(), String> {
    if a.qubits != b.qubits || a.bits != b.bits {
        return Err(format!("registers {:?} {:?} became {:?} {:?}", a.qubits, a.bits, b.qubits, b.bits));
    }
    let perm = |c: &SerialCircuit| {
        let mut v: Vec<_> = c.implicit_permutation.iter().map(|p| format!("{:?}->{:?}", p.0.id, p.1.id)).collect();
        v.sort();
        v
    };
    if perm(a) != perm(b) {
        return Err(format!("implicit permutation {:?} became {:?}", a.implicit_permutation, b.implicit_permutation));
    }
    if a.commands.len() != b.commands.len() {
        return Err(format!("{} commands became {}", a.commands.len(), b.commands.len()));
    }
    // Independent commands may be listed in another order: compare them register by register.
    let per_reg = |c: &SerialCircuit| {
        let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        for x in &c.commands {
            for r in &x.args {
                m.entry(format!("{r:?}")).or_default().push(format!("{x:?}"));
            }
        }
        m
    };
    let (x, y) = (per_reg(a), per_reg(b));
    for (r, l) in &x {
        let empty = vec![];
        let k = y.get(r).unwrap_or(&empty);
        if l != k {
            let i = l.iter().zip(k).position(|(p, q)| p != q).unwrap_or(l.len().min(k.len()));
            return Err(format!("command {i} on {r}: {:?} became {:?}", l.get(i), k.get(i)));
        }
    }
    if a.phase != b.phase {
        return Err(format!("phase {} became {}", a.phase, b.phase));
    }
    Ok(())
}

/// Loaded circuits take only the parameters that are used, in order of use.
fn pytket_equivalent(a: &Circuit, b: &Circuit) -> Result<(), String> {
    let (x, y) = (circ::io_shape(a), circ::io_shape(b));
    let q = |v: &Vec<hugr::types::Type>| v.iter().filter(|t| **t == hugr::extension::prelude::qb_t()).count();
    if q(&x.0) != q(&y.0) || q(&x.1) != q(&y.1) {
        return Err(format!("{} -> {} qubits became {} -> {}", q(&x.0), q(&x.1), q(&y.0), q(&y.1)));
    }
    let names: Vec<String> = b
        .hugr()
        .get_metadata(b.parent(), METADATA_INPUT_PARAMETERS)
        .and_then(|v| serde_json::from_value(v.clone()).ok())
        .unwrap_or_default();
    let np = x.0.len() - q(&x.0);
    let map: Option<Vec<usize>> = names.iter().map(|n| n.strip_prefix('f')?.parse().ok().filter(|i| *i < np)).collect();
    let Some(map) = map else { return Err(format!("parameters {names:?} of {np}")) };
    if y.0.len() - q(&y.0) != map.len() {
        return Err(format!("{} parameters named {names:?}", y.0.len() - q(&y.0)));
    }
    circ::equivalent_with(a, b, Some(&map))
}

// -----------------------------------------------------------------------------

pub fn props() -> Vec<Prop> {
    let base = |id, title, components, scenario: fn(&mut Ctx) -> Verdict, preload: fn()| Prop {
        id,
        title,
        level: "exploration",
        rule: "one store and one load through a stream or file with drawn faults; distinct by the sequence of stream calls and their outcomes",
        components,
        assumptions: &["the simulated disk and streams behave as POSIX files do: no silent loss of accepted bytes"],
        preload,
        scenario,
        quick_runs: 6000,
        quick_secs: 35,
        thorough_secs: 600,
        max_decisions: 2_000_000,
        plain_sched: false,
    };
    vec![
        base("C07", "storing and loading circuits", "real: Circuit::store/load, hugr envelopes, zstd, std::io buffering; simulated: reader and writer", c07, || {}),
        base("C08", "compiled rewriter files", "real: ECCRewriter save/load, messagepack, zstd, std::fs/std::io, pattern matcher; simulated: disk (libc file calls), streams", c08, preload08),
        base("C09", "pytket JSON storage", "real: pytket encoder/decoder, serde_json, std::fs/std::io; simulated: disk (libc file calls), streams", c09, || {}),
    ]
}
