//! State-vector simulation with forced (not sampled) measurement outcomes.

use std::f64::consts::{FRAC_1_SQRT_2, PI};

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct C(pub f64, pub f64);
impl std::ops::Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl std::ops::Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl C {
    pub fn conj(self) -> C {
        C(self.0, -self.1)
    }
    pub fn abs2(self) -> f64 {
        self.0 * self.0 + self.1 * self.1
    }
    pub fn cis(t: f64) -> C {
        C(t.cos(), t.sin())
    }
}

const Z: C = C(0., 0.);
const ONE: C = C(1., 0.);

/// A gate on 1..=3 qubits; angles in half turns (multiples of pi).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Gate {
    H,
    X,
    Y,
    Zg,
    S,
    Sdg,
    T,
    Tdg,
    V,
    Vdg,
    Rx(f64),
    Ry(f64),
    Rz(f64),
    CX,
    CY,
    CZ,
    CRz(f64),
    Toffoli,
    /// PhasedX(theta, phi) = Rz(phi) Rx(theta) Rz(-phi)
    PhasedX(f64, f64),
    ZZPhase(f64),
    Phase(f64),
}

pub fn mat1(g: Gate) -> Option<[C; 4]> {
    use Gate::*;
    let r = FRAC_1_SQRT_2;
    let rx = |t: f64| {
        let (s, c) = (t * PI / 2.).sin_cos();
        [C(c, 0.), C(0., -s), C(0., -s), C(c, 0.)]
    };
    Some(match g {
        H => [C(r, 0.), C(r, 0.), C(r, 0.), C(-r, 0.)],
        X => [Z, ONE, ONE, Z],
        Y => [Z, C(0., -1.), C(0., 1.), Z],
        Zg => [ONE, Z, Z, C(-1., 0.)],
        S => [ONE, Z, Z, C(0., 1.)],
        Sdg => [ONE, Z, Z, C(0., -1.)],
        T => [ONE, Z, Z, C::cis(PI / 4.)],
        Tdg => [ONE, Z, Z, C::cis(-PI / 4.)],
        V => rx(0.5),
        Vdg => rx(-0.5),
        Rx(t) => rx(t),
        Ry(t) => {
            let (s, c) = (t * PI / 2.).sin_cos();
            [C(c, 0.), C(-s, 0.), C(s, 0.), C(c, 0.)]
        }
        Rz(t) => [C::cis(-t * PI / 2.), Z, Z, C::cis(t * PI / 2.)],
        Phase(t) => [C::cis(t * PI), Z, Z, C::cis(t * PI)],
        PhasedX(t, p) => {
            let (s, c) = (t * PI / 2.).sin_cos();
            let a = C(0., -s);
            [C(c, 0.), a * C::cis(-p * PI), a * C::cis(p * PI), C(c, 0.)]
        }
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct State {
    /// Ids of the qubits, least significant bit first.
    pub ids: Vec<u64>,
    pub amp: Vec<C>,
}

impl Default for State {
    fn default() -> Self {
        State { ids: vec![], amp: vec![ONE] }
    }
}

pub const MAX_QUBITS: usize = 16;

impl State {
    pub fn alloc(&mut self, id: u64) {
        assert!(!self.ids.contains(&id));
        self.ids.push(id);
        let n = self.amp.len();
        self.amp.resize(2 * n, Z);
    }

    pub fn pos(&self, id: u64) -> usize {
        self.ids.iter().position(|&x| x == id).unwrap_or_else(|| panic!("harness: no qubit {id}"))
    }

    pub fn gate(&mut self, g: Gate, q: &[u64]) {
        if let Some(m) = mat1(g) {
            let k = 1 << self.pos(q[0]);
            for i in 0..self.amp.len() {
                if i & k == 0 {
                    let (a, b) = (self.amp[i], self.amp[i | k]);
                    self.amp[i] = m[0] * a + m[1] * b;
                    self.amp[i | k] = m[2] * a + m[3] * b;
                }
            }
            return;
        }
        let k: Vec<usize> = q.iter().map(|&x| 1 << self.pos(x)).collect();
        match g {
            Gate::CX | Gate::CY | Gate::CZ | Gate::CRz(_) => {
                let m = mat1(match g {
                    Gate::CX => Gate::X,
                    Gate::CY => Gate::Y,
                    Gate::CZ => Gate::Zg,
                    Gate::CRz(t) => Gate::Rz(t),
                    _ => unreachable!(),
                })
                .unwrap();
                for i in 0..self.amp.len() {
                    if i & k[0] != 0 && i & k[1] == 0 {
                        let (a, b) = (self.amp[i], self.amp[i | k[1]]);
                        self.amp[i] = m[0] * a + m[1] * b;
                        self.amp[i | k[1]] = m[2] * a + m[3] * b;
                    }
                }
            }
            Gate::Toffoli => {
                for i in 0..self.amp.len() {
                    if i & k[0] != 0 && i & k[1] != 0 && i & k[2] == 0 {
                        self.amp.swap(i, i | k[2]);
                    }
                }
            }
            Gate::ZZPhase(t) => {
                let (p, m) = (C::cis(-t * PI / 2.), C::cis(t * PI / 2.));
                for i in 0..self.amp.len() {
                    let par = (i & k[0] != 0) ^ (i & k[1] != 0);
                    self.amp[i] = self.amp[i] * if par { m } else { p };
                }
            }
            _ => unreachable!(),
        }
    }

    /// Projects onto an outcome, whatever its probability, scaling by sqrt 2.
    pub fn project(&mut self, id: u64, bit: bool) {
        let k = 1 << self.pos(id);
        for i in 0..self.amp.len() {
            if (i & k != 0) != bit {
                self.amp[i] = Z;
            } else {
                self.amp[i] = self.amp[i] * C(std::f64::consts::SQRT_2, 0.);
            }
        }
    }

    /// Applies `|bit><v|` to the qubit (`v` given by its two weights).
    pub fn collapse(&mut self, id: u64, v: [C; 2], bit: bool) {
        let k = 1 << self.pos(id);
        for i in 0..self.amp.len() {
            if i & k == 0 {
                let x = v[0] * self.amp[i] + v[1] * self.amp[i | k];
                self.amp[i] = if bit { Z } else { x };
                self.amp[i | k] = if bit { x } else { Z };
            }
        }
    }

    /// Removes a qubit that is in the definite state `bit`.
    pub fn remove_definite(&mut self, id: u64, bit: bool) {
        let p = self.pos(id);
        let k = 1usize << p;
        let mut out = Vec::with_capacity(self.amp.len() / 2);
        for i in 0..self.amp.len() {
            if (i & k != 0) == bit {
                out.push(self.amp[i]);
            }
        }
        self.amp = out;
        self.ids.remove(p);
    }

    pub fn rename(&mut self, old: u64, new: u64) {
        let p = self.pos(old);
        self.ids[p] = new;
    }

    pub fn norm2(&self) -> f64 {
        self.amp.iter().map(|a| a.abs2()).sum()
    }

    /// Probability weights of 0 and 1 for a qubit (unnormalised).
    pub fn weights(&self, id: u64) -> (f64, f64) {
        let k = 1 << self.pos(id);
        let mut w = (0., 0.);
        for (i, a) in self.amp.iter().enumerate() {
            if i & k == 0 {
                w.0 += a.abs2()
            } else {
                w.1 += a.abs2()
            }
        }
        w
    }

    /// Reorders the qubits to the given ids (the others must be absent).
    pub fn ordered(&self, ids: &[u64]) -> Vec<C> {
        assert_eq!(ids.len(), self.ids.len());
        let pos: Vec<usize> = ids.iter().map(|&i| self.pos(i)).collect();
        (0..self.amp.len())
            .map(|i| {
                let mut j = 0;
                for (b, p) in pos.iter().enumerate() {
                    if i >> b & 1 == 1 {
                        j |= 1 << p;
                    }
                }
                self.amp[j]
            })
            .collect()
    }

    /// Reduced density matrix on `ids`, in that order.
    pub fn reduced(&self, ids: &[u64]) -> Vec<C> {
        let keep: Vec<usize> = ids.iter().map(|&i| self.pos(i)).collect();
        let rest: Vec<usize> = (0..self.ids.len()).filter(|p| !keep.contains(p)).collect();
        let d = 1 << keep.len();
        let mut rho = vec![Z; d * d];
        let idx = |a: usize, e: usize| {
            let mut j = 0;
            for (b, p) in keep.iter().enumerate() {
                j |= (a >> b & 1) << p;
            }
            for (b, p) in rest.iter().enumerate() {
                j |= (e >> b & 1) << p;
            }
            j
        };
        for e in 0..1 << rest.len() {
            for a in 0..d {
                let x = self.amp[idx(a, e)];
                if x.abs2() == 0. {
                    continue;
                }
                for b in 0..d {
                    rho[a * d + b] = rho[a * d + b] + x * self.amp[idx(b, e)].conj();
                }
            }
        }
        rho
    }
}

/// |<a|b>|^2 / (|a|^2 |b|^2)
pub fn fidelity(a: &[C], b: &[C]) -> f64 {
    let mut s = Z;
    let (mut na, mut nb) = (0., 0.);
    for (x, y) in a.iter().zip(b) {
        s = s + x.conj() * *y;
        na += x.abs2();
        nb += y.abs2();
    }
    s.abs2() / (na * nb)
}

pub fn max_diff(a: &[C], b: &[C]) -> f64 {
    a.iter().zip(b).map(|(x, y)| C(x.0 - y.0, x.1 - y.1).abs2().sqrt()).fold(0., f64::max)
}
