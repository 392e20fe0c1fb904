//! The simulated device: qubits, measurement outcomes and their delays, result
//! stream, random numbers, GPU library, heap. Shared by the HUGR interpreter
//! (`interp`) and the run-time library the compiled code calls (`jit`).

use std::collections::{BTreeMap, BTreeSet};

use crate::qsim::{Gate, State, C};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| mix2(h, b as u64))
}

/// (allocation site, occurrence)
pub type Label = (u32, u32);

/// First angle (radians) that marks a labelling operation.
pub const LABEL_BASE: f64 = 1000.;

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    /// Gate: name, angles, partner label (two-qubit gates) and whether this qubit is the first operand
    G(&'static str, Vec<f64>, Option<(Label, bool)>),
    M(u8),
    Leaked(u8),
    Reset,
    Free,
    Barrier,
}

impl std::fmt::Display for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Rec::G(n, a, p) => {
                write!(f, "{n}")?;
                if !a.is_empty() {
                    write!(f, "{a:?}")?;
                }
                if let Some((l, first)) = p {
                    write!(f, "{}({}.{})", if *first { "->" } else { "<-" }, l.0, l.1)?;
                }
                Ok(())
            }
            Rec::M(b) => write!(f, "M={b}"),
            Rec::Leaked(b) => write!(f, "ML={b}"),
            Rec::Reset => write!(f, "reset"),
            Rec::Free => write!(f, "free"),
            Rec::Barrier => write!(f, "|"),
        }
    }
}

pub fn rec_eq(a: &Rec, b: &Rec) -> bool {
    match (a, b) {
        (Rec::G(n, x, p), Rec::G(m, y, q)) => {
            n == m && p == q && x.len() == y.len() && x.iter().zip(y).all(|(u, v)| (u - v).abs() <= 1e-9 * (1. + u.abs()))
        }
        _ => a == b,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub kind: &'static str,
    pub tag: String,
    pub bits: Vec<u64>,
}
impl std::fmt::Display for Res {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {:?} ", self.kind, self.tag)?;
        if self.kind.contains("FLOAT") {
            write!(f, "{:?}", self.bits.iter().map(|&b| f64::from_bits(b)).collect::<Vec<_>>())
        } else {
            write!(f, "{:?}", self.bits.iter().map(|&b| b as i64).collect::<Vec<_>>())
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Normal,
    /// (is_exit, code, message)
    Stop(bool, u32, String),
    /// stopped by a monitor (see `viol`) or a limit
    Aborted,
}
impl std::fmt::Display for End {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            End::Normal => write!(f, "normal end"),
            End::Stop(e, c, m) => write!(f, "{} {c} {m:?}", if *e { "exit" } else { "panic" }),
            End::Aborted => write!(f, "aborted"),
        }
    }
}

struct Qb {
    key: u64,
    label: Option<Label>,
    measured: u32,
    dirty: bool,
}

struct Fut {
    value: u64,
    is_bool: bool,
    refs: u64,
    reads: u64,
}

#[derive(Clone, Debug, Default)]
pub struct DevCfg {
    pub seed: u64,
    /// Allocations (by number within the shot) that fail.
    pub fail_alloc: BTreeSet<u64>,
    /// All allocations from this number on fail.
    pub fail_from: Option<u64>,
    /// 0: small ids, 1: sparse ids, 2: immediate reuse
    pub id_mode: u8,
    /// Allocated qubits arrive in |1> until reset.
    pub dirty: bool,
    pub shot: u64,
    /// GPU operation that fails: kind ("init", "call", "result", "discard") and number among its kind.
    pub gpu_fail: Option<(&'static str, u64)>,
    /// The GPU library refuses the API version.
    pub gpu_bad_api: bool,
    /// The function the GPU library does not know.
    pub gpu_bad_name: Option<&'static str>,
    /// The GPU library has no text for its errors.
    pub gpu_null_error: bool,
    /// Device is only a model for the source program (accepts RNG semantics of the spec).
    pub model: bool,
    pub limit: u64,
    /// New random contexts are handed out even while one is alive.
    pub rng_always: bool,
    /// Rotations of the circuit level may name a qubit too.
    pub tk_labels: bool,
    /// Qubits are not named.
    pub bare: bool,
}

pub struct Dev {
    pub cfg: DevCfg,
    state: State,
    next_key: u64,
    live: BTreeMap<u64, Qb>,
    freed: BTreeSet<u64>,
    occ: BTreeMap<u32, u32>,
    futs: BTreeMap<u64, Fut>,
    next_fut: u64,
    pub hist: BTreeMap<Label, Vec<(u64, Rec)>>,
    pub barriers: Vec<(u64, Vec<Label>)>,
    pub results: Vec<Res>,
    pub rng: Vec<String>,
    rng_draws: u64,
    rng_seed: u64,
    pub rng_alive: u32,
    pub gpu: Vec<String>,
    gpu_counts: BTreeMap<&'static str, u64>,
    /// live contexts: handle -> (index, calls so far, result waiting)
    gpu_alive: BTreeMap<u64, (u64, u64, Option<char>)>,
    /// A GPU operation failed.
    pub gpu_failed: Option<&'static str>,
    pub gpu_names: BTreeMap<u64, String>,
    pub gpu_validated: u64,
    pub viol: Vec<(&'static str, String)>,
    pub allocs: u64,
    pub failed_allocs: u64,
    pub seq: u64,
    pub steps: u64,
    pub order: Vec<(u64, Label)>,
    pub max_live: usize,
    pub n_measured: u64,
    pub n_futures: u64,
}

pub const NO_QUBIT: u64 = u64::MAX;

fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 53) as f64
}

impl Dev {
    pub fn new(cfg: DevCfg) -> Dev {
        Dev {
            cfg,
            state: State::default(),
            next_key: 0,
            live: BTreeMap::new(),
            freed: BTreeSet::new(),
            occ: BTreeMap::new(),
            futs: BTreeMap::new(),
            next_fut: 0,
            hist: BTreeMap::new(),
            barriers: vec![],
            results: vec![],
            rng: vec![],
            rng_draws: 0,
            rng_seed: 0,
            rng_alive: 0,
            gpu: vec![],
            gpu_counts: BTreeMap::new(),
            gpu_alive: BTreeMap::new(),
            gpu_failed: None,
            gpu_names: BTreeMap::new(),
            gpu_validated: 0,
            viol: vec![],
            allocs: 0,
            failed_allocs: 0,
            seq: 0,
            steps: 0,
            order: vec![],
            max_live: 0,
            n_measured: 0,
            n_futures: 0,
        }
    }

    pub fn bad(&mut self, class: &'static str, msg: impl Into<String>) {
        if self.viol.len() < 5 {
            self.viol.push((class, msg.into()));
        }
    }

    fn log(&mut self, label: Option<Label>, r: Rec) {
        self.seq += 1;
        if let Some(l) = label {
            self.hist.entry(l).or_default().push((self.seq, r));
        }
    }

    fn qb(&mut self, id: u64, what: &str) -> Option<(u64, Option<Label>)> {
        match self.live.get(&id) {
            Some(q) => Some((q.key, q.label)),
            None => {
                if id == NO_QUBIT {
                    self.bad("missing-qubit", format!("{what} on the qubit that could not be allocated"));
                } else if self.freed.contains(&id) {
                    self.bad("dead-qubit", format!("{what} on released qubit {id:#x}"));
                } else {
                    self.bad("dead-qubit", format!("{what} on {id:#x}, which is not an allocated qubit"));
                }
                None
            }
        }
    }

    pub fn label_of(&self, id: u64) -> Option<Label> {
        self.live.get(&id).and_then(|q| q.label)
    }

    pub fn qalloc(&mut self) -> Option<u64> {
        let n = self.allocs;
        self.allocs += 1;
        if self.cfg.fail_alloc.contains(&n) || self.cfg.fail_from.is_some_and(|k| n >= k) {
            self.failed_allocs += 1;
            return None;
        }
        if self.live.len() >= crate::qsim::MAX_QUBITS - 1 {
            self.bad("too-many-qubits", format!("{} qubits held at once", self.live.len() + 1));
            return None;
        }
        let id = match self.cfg.id_mode {
            2 if !self.freed.is_empty() => *self.freed.iter().next().unwrap(),
            1 => mix2(self.cfg.seed ^ 0x77, n) >> 2,
            _ => (0..).find(|i| !self.live.contains_key(i) && (self.cfg.id_mode == 2 || !self.freed.contains(i))).unwrap(),
        };
        self.freed.remove(&id);
        let key = self.next_key;
        self.next_key += 1;
        self.state.alloc(key);
        if self.cfg.dirty {
            self.state.gate(Gate::X, &[key]);
        }
        self.live.insert(id, Qb { key, label: self.cfg.bare.then_some((0, 0)), measured: 0, dirty: self.cfg.dirty });
        self.max_live = self.max_live.max(self.live.len());
        Some(id)
    }

    /// The first operation on a qubit may be the one that names it.
    pub fn try_label(&mut self, id: u64, angle: f64) -> bool {
        if angle < LABEL_BASE - 0.5 || (angle - angle.round()).abs() > 1e-6 {
            return false;
        }
        let site = (angle.round() - LABEL_BASE) as u32;
        let Some(q) = self.live.get_mut(&id) else { return false };
        if q.label.is_some() {
            return false;
        }
        let o = self.occ.entry(site).or_default();
        q.label = Some((site, *o));
        *o += 1;
        if q.dirty {
            self.bad("unreset-qubit", format!("a new qubit (site {site}) is used without having been reset"));
        }
        true
    }

    pub fn gate1(&mut self, id: u64, name: &'static str, g: Gate, angles: Vec<f64>) {
        let Some((key, label)) = self.qb(id, name) else { return };
        if name == "Rz" && self.try_label(id, angles[0]) {
            return;
        }
        if label.is_none() {
            self.bad("unlabelled", format!("{name}{angles:?} before the qubit's first operation in the program"));
        }
        self.state.gate(g, &[key]);
        self.log(label, Rec::G(name, angles, None));
    }

    pub fn gate2(&mut self, a: u64, b: u64, name: &'static str, g: Gate, angles: Vec<f64>) {
        let Some((ka, la)) = self.qb(a, name) else { return };
        let Some((kb, lb)) = self.qb(b, name) else { return };
        if a == b {
            self.bad("same-qubit", format!("{name} with the same qubit twice"));
            return;
        }
        if la.is_none() || lb.is_none() {
            self.bad("unlabelled", format!("{name} before the qubit's first operation in the program"));
        }
        self.state.gate(g, &[ka, kb]);
        // ZZ is symmetric; the operands' order is not observable
        let sym = name == "ZZPhase";
        self.log(la, Rec::G(name, angles.clone(), lb.map(|l| (l, sym || true))));
        self.log(lb, Rec::G(name, angles, la.map(|l| (l, sym))));
    }

    pub fn gate3(&mut self, q: [u64; 3], g: Gate) {
        let mut k = vec![];
        for id in q {
            let Some((key, _)) = self.qb(id, "Toffoli") else { return };
            k.push(key);
        }
        self.state.gate(g, &k);
        for id in q {
            let l = self.label_of(id);
            self.log(l, Rec::G("Toffoli", vec![], None));
        }
    }

    /// Observes the qubit; leaves it in the state of the outcome.
    fn observe(&mut self, id: u64) -> u8 {
        let (key, label) = {
            let q = &self.live[&id];
            (q.key, q.label)
        };
        let (w0, w1) = self.state.weights(key);
        let tot = w0 + w1;
        if w1 <= 1e-9 * tot {
            return 0;
        }
        if w0 <= 1e-9 * tot {
            return 1;
        }
        self.n_measured += 1;
        let q = self.live.get_mut(&id).unwrap();
        q.measured += 1;
        let n = q.measured;
        let (s, o) = label.unwrap_or((u32::MAX, 0));
        let h = mix2(mix2(mix2(self.cfg.seed, s as u64), o as u64), n as u64);
        let m = (h & 1) as u8;
        let v0 = C::cis(unit(mix(h ^ 1)) * 6.);
        let c = 0.4 + 0.5 * unit(mix(h ^ 2));
        let v1 = C::cis(unit(mix(h ^ 3)) * 6.);
        self.state.collapse(key, [C(v0.0 * c, v0.1 * c), v1], m == 1);
        m
    }

    pub fn measure(&mut self, id: u64) -> u8 {
        let Some((_, label)) = self.qb(id, "measurement") else { return 0 };
        if label.is_none() {
            self.bad("unlabelled", "measurement before the qubit's first operation in the program");
        }
        let m = self.observe(id);
        self.log(label, Rec::M(m));
        m
    }

    /// Outcome 0, 1 or 2 (leaked); the qubit is left in the outcome's state.
    pub fn measure_leaked(&mut self, id: u64) -> u8 {
        let Some((key, label)) = self.qb(id, "measurement") else { return 0 };
        let m = self.observe(id);
        let (s, o) = label.unwrap_or((u32::MAX, 0));
        let h = mix2(mix2(self.cfg.seed ^ 0x1EA4, s as u64), o as u64);
        let m = if h % 4 == 0 { 2 } else { m };
        let _ = key;
        self.log(label, Rec::Leaked(m));
        m
    }

    pub fn reset(&mut self, id: u64) {
        let Some((key, label)) = self.qb(id, "reset") else { return };
        let m = self.observe(id);
        if m == 1 {
            self.state.gate(Gate::X, &[key]);
        }
        self.live.get_mut(&id).unwrap().dirty = false;
        if label.is_some() {
            self.log(label, Rec::Reset);
        }
    }

    pub fn qfree(&mut self, id: u64) {
        let Some((key, label)) = self.qb(id, "release") else { return };
        let m = self.observe(id);
        self.state.remove_definite(key, m == 1);
        self.log(label, Rec::Free);
        self.live.remove(&id);
        self.freed.insert(id);
    }

    pub fn barrier(&mut self, ids: &[u64]) {
        if ids.is_empty() {
            return;
        }
        let mut ls = vec![];
        for &id in ids {
            let Some((_, l)) = self.qb(id, "barrier") else { return };
            ls.push(l.unwrap_or((u32::MAX, 0)));
        }
        self.seq += 1;
        for &l in &ls {
            self.hist.entry(l).or_default().push((self.seq, Rec::Barrier));
        }
        ls.sort();
        self.barriers.push((self.seq, ls));
    }

    // Futures

    pub fn new_future(&mut self, value: u64, is_bool: bool) -> u64 {
        self.n_futures += 1;
        let id = match self.cfg.id_mode {
            1 => mix2(self.cfg.seed ^ 0xF7, self.next_fut) >> 1,
            _ => self.next_fut + 17,
        };
        self.next_fut += 1;
        self.futs.insert(id, Fut { value, is_bool, refs: 1, reads: 0 });
        id
    }

    pub fn read_future(&mut self, id: u64, want_bool: bool) -> u64 {
        let Some(f) = self.futs.get_mut(&id) else {
            self.bad("future-unknown", format!("read of {id:#x}, which is not a measurement handle"));
            return 0;
        };
        f.reads += 1;
        let (refs, v, b) = (f.refs, f.value, f.is_bool);
        if refs == 0 {
            self.bad("future-read-released", format!("handle {id:#x} read after its last reference was released"));
        }
        if b != want_bool {
            self.bad("future-kind", format!("handle {id:#x} read as the wrong kind"));
        }
        v
    }

    pub fn inc_future(&mut self, id: u64) {
        match self.futs.get_mut(&id) {
            Some(f) if f.refs > 0 => f.refs += 1,
            Some(_) => self.bad("future-inc-released", format!("handle {id:#x} duplicated after its release")),
            None => self.bad("future-unknown", format!("duplication of {id:#x}, which is not a measurement handle")),
        }
    }

    pub fn dec_future(&mut self, id: u64) {
        match self.futs.get_mut(&id) {
            Some(f) if f.refs > 0 => f.refs -= 1,
            Some(_) => self.bad("future-double-release", format!("handle {id:#x} released more often than acquired")),
            None => self.bad("future-unknown", format!("release of {id:#x}, which is not a measurement handle")),
        }
    }

    // Results

    pub fn result(&mut self, kind: &'static str, tag: &str, bits: Vec<u64>) {
        self.results.push(Res { kind, tag: tag.into(), bits });
    }

    /// The state of the listed qubits: their labels, in order (the amplitudes
    /// are compared through the final amplitude).
    pub fn state_result(&mut self, tag: &str, ids: &[u64]) {
        let mut bits = vec![];
        for &id in ids {
            let Some((_, l)) = self.qb(id, "state result") else { return };
            let l = l.unwrap_or((u32::MAX, 0));
            bits.push((l.0 as u64) << 32 | l.1 as u64);
        }
        self.results.push(Res { kind: "USER:STATE", tag: tag.into(), bits });
    }

    // Random numbers

    pub fn random_seed(&mut self, seed: u64) {
        self.rng.push(format!("seed {}", seed as i64));
        self.rng_seed = seed;
        self.rng_draws = 0;
    }
    fn draw(&mut self) -> u64 {
        self.rng_draws = self.rng_draws.wrapping_add(1);
        mix2(mix2(self.cfg.seed ^ 0xA11CE, self.rng_seed), self.rng_draws)
    }
    pub fn random_int(&mut self) -> u32 {
        let v = self.draw() as u32;
        self.rng.push(format!("int = {v}"));
        v
    }
    pub fn random_float(&mut self) -> f64 {
        let v = unit(self.draw());
        self.rng.push(format!("float = {v}"));
        v
    }
    pub fn random_bounded(&mut self, n: u32) -> u32 {
        let v = if n == 0 { 0 } else { (self.draw() % n as u64) as u32 };
        self.rng.push(format!("bounded {n} = {v}"));
        v
    }
    pub fn random_advance(&mut self, n: u64) {
        self.rng.push(format!("advance {}", n as i64));
        self.rng_draws = self.rng_draws.wrapping_add(n);
    }

    // GPU library. Err: the operation failed.

    pub fn gpu_error(&self) -> Option<String> {
        if self.cfg.gpu_null_error {
            return None;
        }
        let what = self.gpu_failed.unwrap_or("nothing");
        Some(format!("GPU library: {what} failed; {}", "details ".repeat(1 + (self.cfg.seed % 60) as usize)))
    }

    fn gpu_op(&mut self, kind: &'static str) -> Result<(), ()> {
        let n = self.gpu_counts.entry(kind).or_default();
        let k = *n;
        *n += 1;
        if self.cfg.gpu_fail == Some((kind, k)) {
            self.gpu.push(format!("{kind} fails"));
            self.gpu_failed = Some(kind);
            return Err(());
        }
        Ok(())
    }

    fn gpu_ctx(&mut self, what: &str, h: u64) -> Option<&mut (u64, u64, Option<char>)> {
        if !self.gpu_alive.contains_key(&h) {
            self.bad("gpu-context", format!("{what} on {h:#x}, which is not a live GPU context"));
        }
        self.gpu_alive.get_mut(&h)
    }

    pub fn gpu_validate(&mut self, v: [u64; 3]) -> Result<(), ()> {
        self.gpu_validated += 1;
        if v != [0, 1, 0] {
            self.bad("gpu-api", format!("API version {v:?}"));
        }
        if self.cfg.gpu_bad_api {
            self.gpu_failed = Some("validate");
            return Err(());
        }
        Ok(())
    }

    pub fn gpu_init(&mut self, index: u64) -> Result<u64, ()> {
        self.gpu_op("init")?;
        if self.gpu_alive.values().any(|c| c.0 == index) {
            self.gpu.push(format!("init {index} fails"));
            self.gpu_failed = Some("init of a context in use");
            return Err(());
        }
        let h = mix2(self.cfg.seed ^ 0x69, self.gpu_counts["init"]);
        self.gpu_alive.insert(h, (index, 0, None));
        self.gpu.push(format!("init {index}"));
        Ok(h)
    }

    pub fn gpu_function(&mut self, name: &str) -> Result<u64, ()> {
        if self.cfg.gpu_bad_name == Some(name) {
            self.gpu_failed = Some("lookup");
            return Err(());
        }
        let id = hash_str(name) | 1 << 40;
        self.gpu_names.insert(id, name.to_string());
        Ok(id)
    }

    pub fn gpu_call(&mut self, h: u64, f: &str, sig: &str, args: &[u64]) -> Result<(), ()> {
        self.gpu_op("call")?;
        let out = sig.chars().last().unwrap_or('v');
        let Some(c) = self.gpu_ctx("call", h) else { return Ok(()) };
        let index = c.0;
        let pending = c.2.is_some();
        c.1 += 1;
        c.2 = (out != 'v').then_some(out);
        if pending {
            self.bad("gpu-result", "call while a result has not been read");
        }
        self.gpu.push(format!("call {index} {f}({sig}) {args:?}"));
        Ok(())
    }

    pub fn gpu_result(&mut self, h: u64) -> Result<u64, ()> {
        self.gpu_op("result")?;
        let seed = self.cfg.seed;
        let Some(c) = self.gpu_ctx("read", h) else { return Ok(0) };
        let (index, n) = (c.0, c.1);
        let kind = c.2.take();
        let v = match kind {
            Some('f') => (unit(mix2(seed ^ index, n)) * 100. - 50.).to_bits(),
            _ => mix2(seed ^ index, n),
        };
        if kind.is_none() {
            self.bad("gpu-result", "read of a result that is not there");
        }
        self.gpu.push(format!("result {index} {v:#x}"));
        Ok(v)
    }

    pub fn gpu_discard(&mut self, h: u64) -> Result<(), ()> {
        self.gpu_op("discard")?;
        let Some(c) = self.gpu_ctx("discard", h) else { return Ok(()) };
        let index = c.0;
        self.gpu_alive.remove(&h);
        self.gpu.push(format!("discard {index}"));
        Ok(())
    }

    // Ends

    /// Checks that hold once the program has ended normally.
    pub fn check_end(&mut self) {
        let left: Vec<String> = self.live.values().map(|q| format!("{:?}", q.label)).collect();
        if !left.is_empty() {
            self.bad("qubit-leak", format!("{} qubits not released at the normal end: {}", left.len(), left.join(" ")));
        }
        if !self.gpu_alive.is_empty() {
            self.bad("gpu-context", format!("{} GPU contexts not discarded at the normal end", self.gpu_alive.len()));
        }
        if let Some(k) = self.gpu_failed {
            self.bad("gpu-ignored", format!("{k} failed in the GPU library, the program ended normally"));
        }
        if self.rng_alive > 0 {
            self.bad("random-context", "a random context was not deleted at the normal end");
        }
        let n = self.futs.values().filter(|f| f.refs > 0).count();
        if n > 0 {
            self.bad("future-leak", format!("{n} measurement handles not released at the normal end"));
        }
    }

    pub fn live_ids(&self) -> usize {
        self.live.len()
    }

    /// The amplitudes of the qubits, in order, if these are all there are.
    pub fn state_of(&self, ids: &[u64]) -> Result<Vec<C>, String> {
        let mut keys = vec![];
        for id in ids {
            match self.live.get(id) {
                Some(q) if !keys.contains(&q.key) => keys.push(q.key),
                _ => return Err(format!("{id} is not a qubit of its own")),
            }
        }
        if keys.len() != self.state.ids.len() {
            return Err(format!("{} qubits are alive, {} were returned", self.state.ids.len(), keys.len()));
        }
        Ok(self.state.ordered(&keys))
    }

    /// Squared modulus of what is left of the state.
    pub fn amplitude(&self) -> f64 {
        self.state.norm2()
    }

    pub fn multi_read(&self) -> u64 {
        self.futs.values().map(|f| f.reads).max().unwrap_or(0)
    }
}
