//! Circuits: build them with the crate's builder, run its witness generation on symbolic inputs, and
//! decide the gate constraints and copy constraints of every row.
use crate::cx::*;
use crate::dfield::OutM;
use crate::sfield::{Big, Modulus, MC, S};
use plonky::*;
use std::collections::HashMap;

pub const NW: usize = 9;
pub const NR: usize = 6;
pub const NC: usize = 6;
pub const GRID: usize = 65;

pub type B<M> = CircuitBuilder<OutM<M>>;
pub type T<M> = Target<S<M>>;

pub struct Ran<M: Modulus> {
    pub circuit: Circuit<OutM<M>>,
    pub pw: PartialWitness<S<M>>,
}
pub fn wire<M: Modulus>(gate: usize, input: usize) -> T<M> {
    Target::Wire(Wire { gate, input })
}
/// Builds, generates the witness; decides every row's constraints and every copy constraint.
pub fn run_circuit<M: Modulus>(l: &str, b: B<M>, inputs: &[(T<M>, S<M>)]) -> Ran<M> {
    let r = run_only(b, inputs);
    check_rows(l, &r);
    r
}
pub fn run_only<M: Modulus>(b: B<M>, inputs: &[(T<M>, S<M>)]) -> Ran<M> {
    let circuit = b.build();
    let mut pw = PartialWitness::new();
    for (t, v) in inputs {
        pw.set_target(*t, *v);
    }
    let pw = circuit.generate_partial_witness(pw);
    Ran { circuit, pw }
}
pub fn val<M: Modulus>(r: &Ran<M>, t: T<M>) -> S<M> {
    let t = resolve_pi(r.circuit.num_gates_without_pis, t);
    r.pw.get_target(t)
}
pub fn resolve_pi<M: Modulus>(off: usize, t: T<M>) -> T<M> {
    match t {
        Target::PublicInput(p) => wire(off + p.index / NW * 2, p.index % NW),
        t => t,
    }
}
fn wit<M: Modulus>(r: &Ran<M>, g: usize) -> Vec<S<M>> {
    let g = g % r.circuit.degree();
    (0..NW)
        .map(|i| {
            let t = wire(g, i);
            if r.pw.contains_target(t) {
                r.pw.get_target(t)
            } else {
                S::<M>::ZERO
            }
        })
        .collect()
}
pub fn check_rows<M: Modulus>(l: &str, r: &Ran<M>) {
    let n = r.circuit.degree();
    prove(&format!("{}: degree is a power of two", l), n.is_power_of_two());
    let w = Witness::from_partial(&r.pw, n);
    for g in 0..n {
        let loc = wit(r, g);
        for i in 0..NW {
            prove_eq(&format!("{}: wire table", l), w.get(Wire { gate: g, input: i }), loc[i]);
        }
        let c = evaluate_all_constraints::<OutM<M>, MC<M>>(&r.circuit.gate_constants[g], &loc, &wit(r, g + 1), &wit(r, g + GRID));
        for x in c.iter() {
            prove_zero(&format!("{}: gate constraint (prefix {:?})", l, prefix_of(&r.circuit.gate_constants[g])), *x);
        }
    }
    check_copies(l, r);
}
fn prefix_of<M: Modulus>(c: &[S<M>]) -> String {
    let mut s = String::new();
    for x in c {
        match format!("{}", x).as_str() {
            "0" => s.push('0'),
            "1" => s.push('1'),
            _ => break,
        }
    }
    s
}
pub fn check_copies<M: Modulus>(l: &str, r: &Ran<M>) {
    let n = r.circuit.degree();
    for g in 0..n {
        for i in 0..NR {
            let t = wire(g, i);
            let p = r.circuit.routing_target_partitions.get_partition(t);
            if p.len() < 2 || p[0] != t {
                continue;
            }
            let known: Vec<_> = p.iter().filter(|x| r.pw.contains_target(**x)).collect();
            prove(&format!("{}: all or none of a routing class is assigned", l), known.is_empty() || known.len() == p.len());
            if known.len() > 1 {
                let v = r.pw.get_target(*known[0]);
                for x in &known[1..] {
                    prove_eq(&format!("{}: copy constraint", l), r.pw.get_target(**x), v);
                }
            }
        }
    }
}

/// What the permutation argument ties together: routable wires joined by copies (directly or through
/// virtual targets). Copies into advice wires only guide witness generation.
fn class<M: Modulus>(c: &Circuit<OutM<M>>, t: T<M>) -> Vec<T<M>> {
    let advice = |t: &T<M>| match t {
        Target::Wire(w) => w.input >= NR,
        _ => false,
    };
    if advice(&t) {
        return vec![t];
    }
    c.routing_target_partitions.get_partition(t).iter().cloned().filter(|x| !advice(x)).collect()
}
/// An arbitrary assignment satisfying every gate and copy constraint: fresh symbols for every wire class.
pub struct Any<M: Modulus> {
    pub circuit: Circuit<OutM<M>>,
    vals: HashMap<T<M>, S<M>>,
    tag: usize,
}
impl<M: Modulus> Any<M> {
    pub fn get(&mut self, t: T<M>) -> S<M> {
        let t = resolve_pi(self.circuit.num_gates_without_pis, t);
        if let Some(v) = self.vals.get(&t) {
            return *v;
        }
        let p = class(&self.circuit, t);
        let name = match p[0] {
            Target::Wire(w) => format!("w{}_{}_{}", self.tag, w.gate, w.input),
            Target::VirtualTarget(v) => format!("v{}_{}", self.tag, v.index),
            _ => format!("p"),
        };
        let v: S<M> = var(&name);
        for x in p {
            self.vals.insert(x, v);
        }
        v
    }
    fn row(&mut self, g: usize) -> Vec<S<M>> {
        let n = self.circuit.degree();
        (0..NW).map(|i| self.get(wire(g % n, i))).collect()
    }
}
/// `pre` fixes the values of some targets; everything else is constrained only by the gates.
pub fn any_assignment<M: Modulus>(b: B<M>, pre: &[(T<M>, S<M>)]) -> Any<M> {
    let circuit = b.build();
    let mut a = Any { circuit, vals: HashMap::new(), tag: crate::engine::eng().tag() };
    for (t, v) in pre {
        let t = resolve_pi(a.circuit.num_gates_without_pis, *t);
        let p = class(&a.circuit, t);
        for x in p {
            if let Some(old) = a.vals.insert(x, *v) {
                require_zero(old - *v);
            }
        }
    }
    let n = a.circuit.degree();
    for g in 0..n {
        let (l, r, d) = (a.row(g), a.row(g + 1), a.row(g + GRID));
        let c = evaluate_all_constraints::<OutM<M>, MC<M>>(&a.circuit.gate_constants[g], &l, &r, &d);
        for x in c {
            require_zero(x);
        }
    }
    a
}
pub fn bld() -> B<Big> {
    CircuitBuilder::new(128)
}
