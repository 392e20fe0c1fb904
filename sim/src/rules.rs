//! Rewrite rules for the optimiser checks: a small pattern matcher that is
//! independent of the repository's one, over gate-list patterns.

use std::collections::HashMap;
use std::sync::Arc;

use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr::extension::prelude::qb_t;
use hugr::hugr::views::SiblingSubgraph;
use hugr::types::Signature;
use hugr::{HugrView, IncomingPort, Node, OutgoingPort};
use tket::extension::rotation::{rotation_type, RotationOp};
use tket::rewrite::{CircuitRewrite, ECCRewriter, Rewriter};
use tket::{Circuit, TketOp};

use crate::circ;
use crate::tape::Tape;

/// (gate, qubits, angle variables to add up)
pub type G = (TketOp, &'static [usize], &'static [usize]);

#[derive(Clone, Copy)]
pub struct Rule {
    pub name: &'static str,
    pub qubits: usize,
    pub angles: usize,
    pub lhs: &'static [G],
    pub rhs: &'static [G],
}

use TketOp::{CX, CZ, H, Rz, S, T, X, Z};

macro_rules! rule {
    ($n:literal, $q:literal, $a:literal, $l:expr => $r:expr) => {
        Rule { name: $n, qubits: $q, angles: $a, lhs: &$l, rhs: &$r }
    };
}

pub const RULES: &[Rule] = &[
    rule!("hh", 1, 0, [(H, &[0], &[]), (H, &[0], &[])] => []),
    rule!("xx", 1, 0, [(X, &[0], &[]), (X, &[0], &[])] => []),
    rule!("cxcx", 2, 0, [(CX, &[0, 1], &[]), (CX, &[0, 1], &[])] => []),
    rule!("rzrz", 1, 2, [(Rz, &[0], &[0]), (Rz, &[0], &[1])] => [(Rz, &[0], &[0, 1])]),
    rule!("cxx", 2, 0, [(CX, &[0, 1], &[]), (X, &[1], &[])] => [(X, &[1], &[]), (CX, &[0, 1], &[])]),
    rule!("xcx", 2, 0, [(X, &[1], &[]), (CX, &[0, 1], &[])] => [(CX, &[0, 1], &[]), (X, &[1], &[])]),
    rule!("cxrz", 2, 1, [(CX, &[0, 1], &[]), (Rz, &[0], &[0])] => [(Rz, &[0], &[0]), (CX, &[0, 1], &[])]),
    rule!("rzcx", 2, 1, [(Rz, &[0], &[0]), (CX, &[0, 1], &[])] => [(CX, &[0, 1], &[]), (Rz, &[0], &[0])]),
    rule!("cxcxc", 3, 0, [(CX, &[0, 1], &[]), (CX, &[0, 2], &[])] => [(CX, &[0, 2], &[]), (CX, &[0, 1], &[])]),
    rule!("cxcxt", 3, 0, [(CX, &[0, 2], &[]), (CX, &[1, 2], &[])] => [(CX, &[1, 2], &[]), (CX, &[0, 2], &[])]),
    rule!("chain3", 3, 0, [(CX, &[1, 2], &[]), (CX, &[0, 1], &[]), (CX, &[0, 2], &[])] => [(CX, &[0, 1], &[]), (CX, &[1, 2], &[])]),
    rule!("swap3", 2, 0, [(CX, &[0, 1], &[]), (CX, &[1, 0], &[]), (CX, &[0, 1], &[])] => [(CX, &[1, 0], &[]), (CX, &[0, 1], &[]), (CX, &[1, 0], &[])]),
    rule!("h1cxh1", 2, 0, [(H, &[1], &[]), (CX, &[0, 1], &[]), (H, &[1], &[])] => [(CZ, &[0, 1], &[])]),
    rule!("hxh", 1, 0, [(H, &[0], &[]), (X, &[0], &[]), (H, &[0], &[])] => [(Z, &[0], &[])]),
    rule!("tt", 1, 0, [(T, &[0], &[]), (T, &[0], &[])] => [(S, &[0], &[])]),
    rule!("ss", 1, 0, [(S, &[0], &[]), (S, &[0], &[])] => [(Z, &[0], &[])]),
    rule!("same", 1, 0, [(H, &[0], &[])] => [(H, &[0], &[])]),
    rule!("grow", 1, 0, [(H, &[0], &[])] => [(X, &[0], &[]), (X, &[0], &[]), (H, &[0], &[])]),
];

fn build(r: &Rule, gates: &[G]) -> Circuit {
    let mut ins = vec![qb_t(); r.qubits];
    ins.extend(vec![rotation_type(); r.angles]);
    let mut b = DFGBuilder::new(Signature::new(ins, vec![qb_t(); r.qubits])).unwrap();
    let w: Vec<_> = b.input_wires().collect();
    let mut q = w[..r.qubits].to_vec();
    for (op, qs, angs) in gates {
        let mut args: Vec<_> = qs.iter().map(|&i| q[i]).collect();
        if let Some((&a0, rest)) = angs.split_first() {
            let mut a = w[r.qubits + a0];
            for &x in rest {
                a = b.add_dataflow_op(RotationOp::radd, [a, w[r.qubits + x]]).unwrap().out_wire(0);
            }
            args.push(a);
        }
        let o = b.add_dataflow_op(*op, args).unwrap();
        for (&i, x) in qs.iter().zip(o.outputs()) {
            q[i] = x;
        }
    }
    b.finish_hugr_with_outputs(q).unwrap().into()
}

/// Both sides as circuits.
pub fn circuits_of(r: &Rule) -> (Circuit, Circuit) {
    (build(r, r.lhs), build(r, r.rhs))
}

/// A rule with its replacement circuit built.
pub struct Built {
    pub rule: &'static Rule,
    rhs: Circuit,
}

pub fn built(i: usize) -> Built {
    let rule = &RULES[i];
    let lhs = build(rule, rule.lhs);
    let rhs = build(rule, rule.rhs);
    if let Err(e) = circ::equivalent(&lhs, &rhs) {
        panic!("harness rule {} is wrong: {e}", rule.name);
    }
    Built { rule, rhs }
}

impl Built {
    fn match_at<H: HugrView<Node = Node>>(&self, h: &H, root: Node) -> Option<CircuitRewrite> {
        let r = self.rule;
        let mut first: HashMap<usize, (Node, usize)> = HashMap::new();
        let mut last: HashMap<usize, (Node, usize)> = HashMap::new();
        let mut ang: HashMap<usize, (Node, usize)> = HashMap::new();
        let mut used: Vec<Node> = vec![];
        for (k, (op, qs, angs)) in r.lhs.iter().enumerate() {
            let n = if k == 0 {
                root
            } else {
                let q = qs.iter().find(|q| last.contains_key(q))?;
                let (m, p) = last[q];
                circ::consumer(h, m, p)?.0
            };
            if used.contains(&n) || h.get_optype(n).cast::<TketOp>() != Some(*op) {
                return None;
            }
            for (i, q) in qs.iter().enumerate() {
                match last.get(q) {
                    Some(&(m, p)) => {
                        if circ::consumer(h, m, p) != Some((n, i)) {
                            return None;
                        }
                    }
                    None => {
                        // must not be a wire coming out of the match
                        let (m, p) = h.single_linked_output(n, IncomingPort::from(i))?;
                        if last.values().any(|&(x, y)| x == m && OutgoingPort::from(y) == p) {
                            return None;
                        }
                        first.insert(*q, (n, i));
                    }
                }
            }
            for (i, q) in qs.iter().enumerate() {
                last.insert(*q, (n, i));
            }
            if let Some(&a) = angs.first() {
                ang.insert(a, (n, qs.len()));
            }
            used.push(n);
        }
        let mut incoming: Vec<Vec<(Node, IncomingPort)>> = vec![];
        let mut outgoing: Vec<(Node, OutgoingPort)> = vec![];
        for q in 0..r.qubits {
            let (n, p) = first[&q];
            incoming.push(vec![(n, p.into())]);
            let (n, p) = last[&q];
            outgoing.push((n, p.into()));
        }
        for a in 0..r.angles {
            let (n, p) = ang[&a];
            incoming.push(vec![(n, p.into())]);
        }
        let sub = SiblingSubgraph::try_new(incoming, outgoing, h).ok()?;
        if sub.node_count() != used.len() {
            return None;
        }
        CircuitRewrite::try_new(&sub, h, self.rhs.clone()).ok()
    }
}

#[derive(Clone)]
pub enum Rules {
    Own(Arc<Vec<Built>>),
    Ecc(&'static ECCRewriter),
}

impl Rules {
    pub fn describe(&self) -> String {
        match self {
            Rules::Own(v) => v.iter().map(|b| b.rule.name).collect::<Vec<_>>().join("+"),
            Rules::Ecc(_) => "ecc".into(),
        }
    }
    /// A rule set drawn from the tape. `growth`: include cost-increasing rules.
    pub fn draw(t: &mut Tape, eccs: &'static [ECCRewriter], growth: bool) -> Rules {
        if !eccs.is_empty() && t.one_in(3) {
            return Rules::Ecc(&eccs[t.draw(eccs.len() as u32) as usize]);
        }
        let n = RULES.len() - if growth { 0 } else { 1 };
        let mut v = vec![built(0)];
        for i in 1..n {
            if t.chance(3, 5) {
                v.push(built(i));
            }
        }
        Rules::Own(Arc::new(v))
    }
}

impl Rewriter for Rules {
    fn get_rewrites(&self, c: &Circuit<impl HugrView<Node = Node>>) -> Vec<CircuitRewrite> {
        match self {
            Rules::Ecc(e) => e.get_rewrites(c),
            Rules::Own(v) => {
                let mut out = vec![];
                for n in circ::topo(c.hugr(), c.parent()) {
                    for b in v.iter() {
                        if let Some(r) = b.match_at(c.hugr(), n) {
                            out.push(r);
                        }
                    }
                }
                out
            }
        }
    }
}
