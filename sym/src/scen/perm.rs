//! P15 (copy constraints and the permutation), P16 (public inputs), P26 (witness generation).
use super::circ::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, F};
use plonky::*;
use std::collections::HashMap;

type BB = B<Big>;
type TT = T<Big>;
type Circ = Circuit<crate::dfield::Out>;

fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}

// ------------------------------------------------------------------------------------------- P15
/// The classes that a list of copies generates (textbook union-find), as a map to representatives.
struct Classes {
    parent: HashMap<TT, TT>,
}
impl Classes {
    fn new() -> Self {
        Classes { parent: HashMap::new() }
    }
    fn find(&self, t: TT) -> TT {
        let mut t = t;
        while let Some(p) = self.parent.get(&t) {
            t = *p;
        }
        t
    }
    fn union(&mut self, a: TT, b: TT) {
        let (a, b) = (self.find(a), self.find(b));
        if a != b {
            self.parent.insert(a, b);
        }
    }
}
fn sigma_values(c: &Circ) -> Vec<Vec<F>> {
    (0..NR).map(|j| (0..c.degree()).map(|i| c.s_sigma_values_8n[j][8 * i]).collect()).collect()
}
/// The identity permutation's field encoding, taken from a circuit of the same size without copies.
fn identity_table(n: usize) -> HashMap<F, (usize, usize)> {
    let mut b = bld();
    for _ in 0..n - 3 {
        let i = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(i));
    }
    let c = b.build();
    let s = sigma_values(&c);
    let mut m = HashMap::new();
    for j in 0..NR {
        for i in 0..c.degree() {
            m.insert(s[j][i], (j, i));
        }
    }
    prove("the wires' permutation labels are pairwise distinct", m.len() == NR * n);
    m
}
/// Decodes the circuit's permutation; checks that it is a bijection whose cycles are exactly the classes.
fn check_cycles(l: &str, c: &Circ, cl: &Classes) {
    let n = c.degree();
    let ids = identity_table(n);
    let s = sigma_values(c);
    let mut next: HashMap<(usize, usize), (usize, usize)> = HashMap::new();
    let mut hit: HashMap<(usize, usize), usize> = HashMap::new();
    for j in 0..NR {
        for i in 0..n {
            match ids.get(&s[j][i]) {
                Some(t) => {
                    next.insert((j, i), *t);
                    *hit.entry(*t).or_insert(0) += 1;
                }
                None => {
                    prove(&format!("{}: every permutation value is the label of a wire", l), false);
                    return;
                }
            }
        }
    }
    prove(&format!("{}: the permutation is a bijection", l), hit.len() == NR * n && hit.values().all(|v| *v == 1));
    // cycles
    let mut cyc: HashMap<(usize, usize), usize> = HashMap::new();
    let mut k = 0;
    for j in 0..NR {
        for i in 0..n {
            if cyc.contains_key(&(j, i)) {
                continue;
            }
            let mut at = (j, i);
            let mut steps = 0;
            while !cyc.contains_key(&at) && steps <= NR * n {
                cyc.insert(at, k);
                at = next[&at];
                steps += 1;
            }
            k += 1;
        }
    }
    let off = c.num_gates_without_pis;
    let mut ok_sep = true;
    let mut ok_join = true;
    let rep = |j: usize, i: usize| cl.find(wire(i, j));
    let ws: Vec<(usize, usize)> = (0..NR).flat_map(|j| (0..n).map(move |i| (j, i))).collect();
    let _ = off;
    for a in &ws {
        for b in &ws {
            let same_cycle = cyc[a] == cyc[b];
            let same_class = rep(a.0, a.1) == rep(b.0, b.1);
            if same_cycle && !same_class {
                ok_sep = false;
            }
            if !same_cycle && same_class {
                ok_join = false;
            }
        }
    }
    prove(&format!("{}: wires in one cycle are joined by copies", l), ok_sep);
    prove(&format!("{}: wires joined by copies are in one cycle", l), ok_join);
    // the partitions that witness generation uses are the same classes
    for a in &ws {
        let p = c.routing_target_partitions.get_partition(wire(a.1, a.0));
        let want: usize = ws.iter().filter(|b| rep(b.0, b.1) == rep(a.0, a.1)).count();
        let got = p
            .iter()
            .filter(|t| match t {
                Target::Wire(w) => w.input < NR,
                _ => false,
            })
            .count();
        prove(&format!("{}: routing classes hold exactly the joined wires", l), got == want && p.iter().all(|t| cl.find(*t) == rep(a.0, a.1)));
    }
}
/// The routable stand-in of a public input (what `add_public_input` targets denote in copy constraints).
fn routable(off: usize, t: TT) -> TT {
    match t {
        Target::PublicInput(p) => {
            let (g, i) = (off + p.index / NW * 2, p.index % NW);
            if i < NR {
                wire(g, i)
            } else {
                wire(g + 1, i - NR)
            }
        }
        t => t,
    }
}
/// Lays out a few gates, virtual targets and public inputs, applies the copies, and checks the result.
fn graph(l: &str, targets: &dyn Fn(&mut BB) -> Vec<TT>, copies: &[(usize, usize)]) -> (Circ, Classes) {
    let mut b = bld();
    let t = targets(&mut b);
    for (x, y) in copies {
        b.copy(t[*x], t[*y]);
    }
    let c = b.build();
    let off = c.num_gates_without_pis;
    let mut cl = Classes::new();
    for (x, y) in copies {
        cl.union(routable(off, t[*x]), routable(off, t[*y]));
    }
    check_cycles(l, &c, &cl);
    (c, cl)
}
fn mixed_targets(b: &mut BB) -> Vec<TT> {
    for _ in 0..2 {
        let i = b.num_gates();
        b.add_gate_no_constants(BufferGate::new(i));
    }
    let v = b.add_virtual_target();
    let pis = b.add_public_inputs(8);
    vec![wire(0, 0), v, wire(1, 5), pis[7], wire(0, 5), pis[0]]
}
/// every copy graph over four targets, in two insertion orders and orientations
fn q_graphs4() {
    let pairs = [(0usize, 1usize), (1, 2), (2, 3), (0, 2), (0, 3), (1, 3)];
    let mut cs = vec![];
    for (i, p) in pairs.iter().enumerate() {
        if choose(&format!("copy {}", i)) {
            cs.push(*p);
        }
    }
    if choose("reversed") {
        cs.reverse();
        cs = cs.into_iter().map(|(a, b)| (b, a)).collect();
    }
    graph("copy graph on four targets", &mixed_targets, &cs);
}
/// paths and joins of paths over six targets, each edge in either orientation, late joins included
fn q_paths() {
    let seqs: Vec<Vec<(usize, usize)>> = vec![
        vec![(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)],
        vec![(0, 1), (2, 3), (4, 5), (1, 2), (3, 4)],
        vec![(0, 5), (1, 4), (2, 3), (0, 1), (2, 0)],
        vec![(5, 4), (4, 3), (0, 1), (1, 2), (0, 4)],
        vec![(0, 2), (0, 2), (2, 4), (4, 0), (1, 3)],
    ];
    for (k, s) in seqs.iter().enumerate() {
        if k + 1 == seqs.len() || choose(&format!("sequence {}", k)) {
            let mut cs = vec![];
            for (i, (a, b)) in s.iter().enumerate() {
                cs.push(if choose(&format!("flip {}", i)) { (*b, *a) } else { (*a, *b) });
            }
            graph("copy path on six targets", &mixed_targets, &cs);
            return;
        }
    }
}
/// classes of many wires: chains, stars, and two halves joined last
fn q_large() {
    for &k in &[13usize, 40, 75, 144] {
        let shapes: Vec<Vec<(usize, usize)>> = vec![
            (1..k).map(|i| (i - 1, i)).collect(),
            (1..k).rev().map(|i| (i, 0)).collect(),
            (1..k).filter(|i| *i != k / 2).map(|i| (i - 1, i)).chain(vec![(k - 1, 0)]).collect(),
            (0..k / 2).map(|i| (2 * i, 2 * i + 1)).chain((0..k / 2 - 1).map(|i| (2 * i + 3, 2 * i))).collect(),
        ];
        for s in &shapes {
            graph(
                &format!("class of {} wires", k),
                &|b: &mut BB| {
                    for _ in 0..24 {
                        let i = b.num_gates();
                        b.add_gate_no_constants(BufferGate::new(i));
                    }
                    (0..144).map(|i| wire(i / NR, i % NR)).collect()
                },
                s,
            );
        }
    }
}
fn wires_only(b: &mut BB) -> Vec<TT> {
    let i = b.num_gates();
    b.add_gate_no_constants(BufferGate::new(i));
    vec![wire(0, 0), wire(0, 1), wire(0, 2), wire(0, 3), wire(0, 4), wire(0, 5)]
}
/// Witness whose classes carry `val(class index)`; the grand product of the crate's own
/// `permutation_polynomial` starts at one, steps by each row's ratio and closes.
fn product(l: &str, c: &Circ, cl: &Classes, symbolic: usize, beta: F, gamma: F) {
    let n = c.degree();
    let mut names: HashMap<TT, F> = HashMap::new();
    let mut k = 0;
    // classes with several members first, so that they are the symbolic ones
    let mut rows = vec![vec![F::ZERO; NW]; n];
    let mut sizes: HashMap<TT, usize> = HashMap::new();
    for g in 0..n {
        for i in 0..NR {
            *sizes.entry(cl.find(wire(g, i))).or_insert(0) += 1;
        }
    }
    for g in 0..n {
        for i in 0..NW {
            let r = cl.find(wire(g, i));
            let v = match names.get(&r) {
                Some(v) => *v,
                None => {
                    let v = if k < symbolic && sizes.get(&r).cloned().unwrap_or(1) > 1 {
                        k += 1;
                        var(&format!("w{}", k))
                    } else {
                        f((g * NW + i) as u64 * 7 + 3)
                    };
                    names.insert(r, v);
                    v
                }
            };
            rows[g][i] = v;
        }
    }
    let ids = {
        let mut b = bld();
        for _ in 0..n - 3 {
            let i = b.num_gates();
            b.add_gate_no_constants(BufferGate::new(i));
        }
        sigma_values(&b.build())
    };
    let s = sigma_values(c);
    let (mut num, mut den) = (vec![], vec![]);
    for g in 0..n {
        let (mut a, mut b) = (F::ONE, F::ONE);
        for j in 0..NR {
            let (x, y) = (rows[g][j] + beta * ids[j][g] + gamma, rows[g][j] + beta * s[j][g] + gamma);
            assume_nonzero(x);
            assume_nonzero(y);
            a = a * x;
            b = b * y;
        }
        num.push(a);
        den.push(b);
    }
    let w = Witness::new(rows);
    let z = plonk_util::permutation_polynomial(n, &c.subgroup_n, &w, &c.s_sigma_values_8n, beta, gamma);
    prove(&format!("{}: one value per row", l), z.len() == n);
    prove_eq(&format!("{}: the product starts at one", l), z[0], F::ONE);
    for g in 0..n {
        let nx = if g + 1 < n { z[g + 1] } else { F::ONE };
        prove_eq(&format!("{}: row {} steps by its ratio{}", l, g, if g + 1 < n { "" } else { " and the product closes" }), nx * den[g], z[g] * num[g]);
    }
}
fn q_product_challenges() {
    let (c, cl) = graph("small circuit", &wires_only, &[(0, 1), (1, 2), (3, 5)]);
    product("grand product", &c, &cl, 0, var("beta"), var("gamma"));
}
fn q_product_witness() {
    let (c, cl) = graph("small circuit", &wires_only, &[(0, 4), (2, 3), (3, 1)]);
    product("grand product", &c, &cl, 2, f(11), f(5));
    product("grand product", &c, &cl, 1, var("beta"), f(5));
    product("grand product", &c, &cl, 1, f(3), var("gamma"));
}
fn q_product_larger() {
    set_cap(20000);
    let (c, cl) = graph("mixed circuit", &mixed_targets, &[(0, 1), (1, 2), (3, 4), (2, 5)]);
    product("grand product", &c, &cl, 2, f(11), f(5));
    product("grand product", &c, &cl, 0, var("beta"), f(5));
}
fn q_product_all() {
    set_cap(60000);
    let (c, cl) = graph("small circuit", &wires_only, &[(0, 1), (1, 2), (3, 5)]);
    product("grand product", &c, &cl, 2, var("beta"), var("gamma"));
}
/// a witness that breaks one copy does not close, for any two different values
fn q_product_broken() {
    let (c, _) = graph("small circuit", &wires_only, &[(0, 1), (1, 2), (3, 5)]);
    let n = c.degree();
    let s = sigma_values(&c);
    let ids = {
        let b = bld();
        let mut b = b;
        b.add_gate_no_constants(BufferGate::new(0));
        sigma_values(&b.build())
    };
    // wires 0, 1, 2 of row 0 carry a, b, c: the product closes identically in beta and gamma only when a = b = c
    let (x, d, e) = (var::<Big>("x"), var::<Big>("d"), var::<Big>("e"));
    assume_nonzero(d);
    assume_nonzero(e);
    for (k, row) in [vec![x, x + d, x], vec![x, x, x + d], vec![x, x + d, x + e]].iter().enumerate() {
        // as polynomials in gamma at beta = 1: a root of the left side that is no root of the right side
        for (j, v) in row.iter().enumerate() {
            let gamma = F::ZERO - *v - ids[j][0];
            let mut rhs = F::ONE;
            for (i, w) in row.iter().enumerate() {
                rhs = rhs * (*w + s[i][0] + gamma);
            }
            if rhs.is_zero() {
                // then this label must pair with the wire of equal value that sigma points from
                let back = (0..3).find(|i| s[*i][0] == ids[j][0]).unwrap();
                let mut other = false;
                for i in 0..3 {
                    if i != back && (row[i] + s[i][0] + gamma).is_zero() {
                        other = true;
                    }
                }
                if !other {
                    prove_eq(&format!("case {}: a closing factor has the value of the wire it is copied from", k), row[back], *v);
                }
            }
        }
    }
    let _ = n;
}

// ------------------------------------------------------------------------------------------- P16
/// n public inputs: given as inputs, used by gates; or computed by the circuit and copied out.
fn pis(n: usize) {
    let x: Vec<F> = vars("pi", n);
    // given
    {
        let mut b = bld();
        let t = b.add_public_inputs(n);
        let sums: Vec<TT> = (0..n).map(|i| b.mul_add(t[i], t[(i + 1) % n], t[(i + 7) % n])).collect();
        let ins: Vec<(TT, F)> = t.iter().cloned().zip(x.iter().cloned()).collect();
        let r = run_circuit(&format!("{} given public inputs", n), b, &ins);
        let w = Witness::from_partial(&r.pw, r.circuit.degree());
        prove(&format!("{}: number of public inputs", n), r.circuit.num_public_inputs == n);
        prove_eqs(&format!("{} given public inputs in declared order", n), &r.circuit.get_public_inputs(&w), &x);
        for i in 0..n {
            prove_eq(&format!("{}: gates read the public inputs", n), val(&r, sums[i]), x[i] * x[(i + 1) % n] + x[(i + 7) % n]);
        }
    }
    // computed: public input i is copied from a gate's output
    {
        let mut b = bld();
        let v = b.add_virtual_targets(n);
        let t = b.add_public_inputs(n);
        let two = b.constant_wire(f(3));
        for i in 0..n {
            let o = b.mul_add(v[i], v[i], two);
            b.copy(o, t[i]);
        }
        let ins: Vec<(TT, F)> = v.iter().cloned().zip(x.iter().cloned()).collect();
        let r = run_circuit(&format!("{} computed public inputs", n), b, &ins);
        let w = Witness::from_partial(&r.pw, r.circuit.degree());
        let want: Vec<F> = x.iter().map(|a| *a * *a + f(3)).collect();
        prove_eqs(&format!("{} computed public inputs in declared order", n), &r.circuit.get_public_inputs(&w), &want);
    }
    // whatever assignment satisfies the circuit, its gates see the values at the public input positions
    {
        let mut b = bld();
        let t = b.add_public_inputs(n);
        let outs: Vec<TT> = (0..n).map(|i| b.mul_add(t[i], t[(i + 1) % n], t[(i + 7) % n])).collect();
        let mut a = any_assignment(b, &[]);
        let off = a.circuit.num_gates_without_pis;
        let pos: Vec<F> = (0..n).map(|i| a.get(wire(off + i / NW * 2, i % NW))).collect();
        let got: Vec<F> = outs.iter().map(|o| a.get(*o)).collect();
        for i in 0..n {
            prove_eq(&format!("{}: any satisfying assignment ties gates to public inputs", n), got[i], pos[i] * pos[(i + 1) % n] + pos[(i + 7) % n]);
        }
    }
}
fn i_few() {
    for n in 1..7 {
        pis(n);
    }
}
fn i_around_advice() {
    for n in 7..9 {
        pis(n);
    }
}
fn i_full_row() {
    for n in 9..11 {
        pis(n);
    }
}
fn i_two_rows() {
    for n in 15..20 {
        pis(n);
    }
}
fn i_three_rows() {
    for n in 24..30 {
        pis(n);
    }
}
fn i_none_and_layout() {
    let mut b = bld();
    let t = b.add_virtual_target();
    let _ = b.square(t);
    let r = run_circuit("no public inputs", b, &[(t, var("x"))]);
    let w = Witness::from_partial(&r.pw, r.circuit.degree());
    prove("no public inputs", r.circuit.get_public_inputs(&w).is_empty() && r.circuit.num_public_inputs == 0);
    // interleaved declarations keep declaration order
    let mut b = bld();
    let x: Vec<F> = vars("x", 12);
    let mut ts = vec![];
    for i in 0..12usize {
        if i % 3 == 0 {
            ts.extend(b.add_public_inputs(2));
        }
        if ts.len() > i {
            let s = b.square(ts[i]);
            let _ = b.add(s, ts[i]);
        }
        if i % 3 != 0 && ts.len() < 12 {
            ts.push(b.add_public_input());
        }
    }
    let n = ts.len();
    prove("twelve or more declared", n >= 12);
    let all: Vec<F> = (0..n).map(|i| if i < 12 { x[i] } else { f(i as u64) }).collect();
    let ins: Vec<(TT, F)> = ts.iter().cloned().zip(all.iter().cloned()).collect();
    let r = run_circuit("interleaved declarations", b, &ins);
    let w = Witness::from_partial(&r.pw, r.circuit.degree());
    prove_eqs("interleaved declarations keep their order", &r.circuit.get_public_inputs(&w), &all);
    // copies between public inputs and from one public input to many places
    let mut b = bld();
    let t = b.add_public_inputs(17);
    b.copy(t[0], t[16]);
    b.copy(t[8], t[3]);
    b.copy(t[15], t[7]);
    let y: Vec<F> = vars("y", 17);
    let ins: Vec<(TT, F)> = (0..17).filter(|i| ![16, 8, 7].contains(i)).map(|i| (t[i], y[i])).collect();
    let r = run_circuit("copied public inputs", b, &ins);
    let w = Witness::from_partial(&r.pw, r.circuit.degree());
    let mut want = y.clone();
    want[16] = y[0];
    want[8] = y[3];
    want[7] = y[15];
    prove_eqs("copied public inputs", &r.circuit.get_public_inputs(&w), &want);
}

// ------------------------------------------------------------------------------------------- P26
/// out_k = a * b + k  (or constants, or several outputs)
struct Gen {
    deps: Vec<TT>,
    outs: Vec<(TT, F)>,
}
impl WitnessGenerator<F> for Gen {
    fn dependencies(&self) -> Vec<TT> {
        self.deps.clone()
    }
    fn generate(&self, _c: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        let v = spec_value(&self.deps.iter().map(|d| w.get_target(*d)).collect::<Vec<_>>());
        let mut r = PartialWitness::new();
        for (t, k) in &self.outs {
            r.set_target(*t, v + *k);
        }
        r
    }
}
fn spec_value(d: &[F]) -> F {
    let mut acc = f(1);
    for (i, x) in d.iter().enumerate() {
        acc = acc * (*x + f(i as u64 + 2));
    }
    acc
}
/// A pool of generators and copies over virtual targets and wires.
struct Net {
    n: usize,
    gens: Vec<(Vec<usize>, Vec<(usize, u64)>)>,
    copies: Vec<(usize, usize)>,
}
fn place(b: &mut BB, n: usize) -> Vec<TT> {
    let g = b.num_gates();
    b.add_gate_no_constants(BufferGate::new(g));
    (0..n)
        .map(|i| match i % 3 {
            0 => b.add_virtual_target(),
            1 if i / 3 < NR => wire(g, i / 3),
            _ => b.add_virtual_target(),
        })
        .collect()
}
/// what must come out: least fixpoint over classes
fn closure(net: &Net, given: &[(usize, F)]) -> (Vec<Option<F>>, bool) {
    let mut v: Vec<Option<F>> = vec![None; net.n];
    let mut cl: Vec<usize> = (0..net.n).collect();
    for _ in 0..net.n {
        for (a, b) in &net.copies {
            let m = cl[*a].min(cl[*b]);
            let (x, y) = (cl[*a], cl[*b]);
            for c in cl.iter_mut() {
                if *c == x || *c == y {
                    *c = m;
                }
            }
        }
    }
    let mut clash = false;
    let mut put = |v: &mut Vec<Option<F>>, t: usize, x: F| {
        for i in 0..cl.len() {
            if cl[i] == cl[t] {
                match v[i] {
                    None => v[i] = Some(x),
                    Some(y) => {
                        if i == t && x != y {
                            clash = true
                        }
                    }
                }
            }
        }
    };
    for (t, x) in given {
        put(&mut v, *t, *x);
    }
    let mut ran = vec![false; net.gens.len()];
    loop {
        let mut more = false;
        for (k, (d, o)) in net.gens.iter().enumerate() {
            if !ran[k] && d.iter().all(|i| v[*i].is_some()) {
                ran[k] = true;
                more = true;
                let x = spec_value(&d.iter().map(|i| v[*i].unwrap()).collect::<Vec<_>>());
                for (t, c) in o {
                    put(&mut v, *t, x + f(*c));
                }
            }
        }
        if !more {
            break;
        }
    }
    (v, clash)
}
fn run_net(l: &str, net: &Net, order: &[usize], given: &[(usize, F)]) {
    let mut b = bld();
    let t = place(&mut b, net.n);
    for k in order {
        let (d, o) = &net.gens[*k];
        b.add_generator(Gen { deps: d.iter().map(|i| t[*i]).collect(), outs: o.iter().map(|(i, c)| (t[*i], f(*c))).collect() });
    }
    for (a, c) in &net.copies {
        b.copy(t[*a], t[*c]);
    }
    let c = b.build();
    let (want, _) = closure(net, given);
    let mut pw = PartialWitness::new();
    for (i, x) in given {
        pw.set_target(t[*i], *x);
    }
    let pw = c.generate_partial_witness(pw);
    for i in 0..net.n {
        prove(&format!("{}: exactly the derivable targets are assigned", l), pw.contains_target(t[i]) == want[i].is_some());
        if pw.contains_target(t[i]) {
            if let Some(w) = want[i] {
                prove_eq(&format!("{}: target {} has its derived value", l, i), pw.get_target(t[i]), w);
            }
        }
    }
    // the wire table holds the generated values and zero elsewhere
    let n = c.degree();
    let w = Witness::from_partial(&pw, n);
    for g in 0..n {
        for i in 0..NW {
            let x = w.get(Wire { gate: g, input: i });
            let y = if pw.contains_target(wire(g, i)) { pw.get_target(wire(g, i)) } else { F::ZERO };
            prove_eq(&format!("{}: wire table", l), x, y);
            prove_eq(&format!("{}: transposed wire table", l), w.transpose()[i][g], y);
        }
    }
}
fn pick_order(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut o = vec![];
    while left.len() > 1 {
        let mut k = 0;
        while k + 1 < left.len() && !choose(&format!("take {} at {}", k, o.len())) {
            k += 1;
        }
        o.push(left.remove(k));
    }
    o.extend(left);
    o
}
/// chains and diamonds through copies, every registration order
fn n_diamond() {
    let net = Net {
        n: 12,
        gens: vec![(vec![0], vec![(1, 0)]), (vec![2, 0], vec![(3, 1)]), (vec![4, 5], vec![(6, 0), (7, 9)]), (vec![8, 0], vec![(9, 2)])],
        copies: vec![(1, 2), (3, 4), (1, 5), (6, 8), (9, 10)],
    };
    let o = pick_order(4);
    run_net("diamond", &net, &o, &[(0, var("x"))]);
    run_net("diamond, more inputs", &net, &o, &[(0, var("x")), (11, var("y"))]);
}
/// generators with no dependencies, with partly missing inputs, with shared dependencies
fn n_partial() {
    let net = Net {
        n: 12,
        gens: vec![(vec![], vec![(0, 4)]), (vec![0, 1], vec![(2, 0)]), (vec![3, 2], vec![(4, 1)]), (vec![5, 6], vec![(7, 0)]), (vec![2], vec![(5, 3)])],
        copies: vec![(2, 8), (8, 9), (10, 6), (4, 11)],
    };
    let o = if choose("in order") { vec![0, 1, 2, 3, 4] } else { vec![4, 3, 2, 1, 0] };
    let mut given = vec![];
    for i in &[1usize, 3, 10] {
        if choose(&format!("given {}", i)) {
            given.push((*i, var(&format!("x{}", i))));
        }
    }
    run_net("partial", &net, &o, &given);
}
/// long chains: every generator becomes ready one step after the previous one
fn n_chain() {
    let k = 9;
    let net = Net {
        n: 2 * k + 2,
        gens: (0..k).map(|i| (vec![2 * i], vec![(2 * i + 1, i as u64)])).collect(),
        copies: (0..k).map(|i| (2 * i + 1, 2 * i + 2)).collect(),
    };
    set_cap(200);
    for rev in 0..2 {
        let mut o: Vec<usize> = (0..k).collect();
        if rev == 1 {
            o.reverse();
        }
        run_net("chain", &net, &o, &[(0, var("x"))]);
    }
}
/// Generation that finishes has met no conflicting values.
fn n_conflict() {
    let (x, y) = (var::<Big>("x"), var::<Big>("y"));
    let which = (choose("c0"), choose("c1"), choose("c2"));
    let mut b = bld();
    let t = place(&mut b, 8);
    let must: Vec<(F, F)> = match which {
        // two inputs tied by a copy
        (false, false, false) => {
            b.copy(t[0], t[1]);
            vec![(x, y)]
        }
        // tied through a chain
        (false, false, true) => {
            b.copy(t[0], t[2]);
            b.copy(t[3], t[1]);
            b.copy(t[2], t[3]);
            vec![(x, y)]
        }
        // a generator's output tied to an input
        (false, true, false) => {
            b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[2], f(0))] });
            b.copy(t[2], t[1]);
            vec![(spec_value(&[x]), y)]
        }
        // a generator's output is itself an input
        (false, true, true) => {
            b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[1], f(0))] });
            vec![(spec_value(&[x]), y)]
        }
        // two generators write one target
        (true, false, false) => {
            b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[2], f(0))] });
            b.add_generator(Gen { deps: vec![t[1]], outs: vec![(t[2], f(0))] });
            vec![(spec_value(&[x]), spec_value(&[y]))]
        }
        // two generators write two tied targets, at the same time
        (true, false, true) => {
            b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[2], f(0))] });
            b.add_generator(Gen { deps: vec![t[1]], outs: vec![(t[3], f(0))] });
            b.copy(t[2], t[3]);
            vec![(spec_value(&[x]), spec_value(&[y]))]
        }
        // ... one of them later than the other
        (true, true, false) => {
            b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[2], f(0))] });
            b.add_generator(Gen { deps: vec![t[2]], outs: vec![(t[4], f(0))] });
            b.add_generator(Gen { deps: vec![t[1]], outs: vec![(t[3], f(0))] });
            b.copy(t[4], t[3]);
            vec![(spec_value(&[spec_value(&[x])]), spec_value(&[y]))]
        }
        // tied through a public input
        (true, true, true) => {
            let p = b.add_public_inputs(9);
            b.copy(t[0], p[8]);
            b.copy(p[8], t[2]);
            b.copy(t[3], t[1]);
            b.copy(t[3], t[2]);
            vec![(x, y)]
        }
    };
    let c = b.build();
    let mut pw = PartialWitness::new();
    pw.set_target(t[0], x);
    pw.set_target(t[1], y);
    let _ = c.generate_partial_witness(pw);
    for (a, b) in must {
        prove_eq(&format!("case {:?}: generation that finishes found equal values", which), a, b);
    }
}
/// agreement is accepted: equal values from different sources do not fail
fn n_agree() {
    let x = var::<Big>("x");
    let mut b = bld();
    let t = place(&mut b, 8);
    b.add_generator(Gen { deps: vec![t[0]], outs: vec![(t[2], f(0))] });
    b.add_generator(Gen { deps: vec![t[1]], outs: vec![(t[3], f(0))] });
    b.copy(t[2], t[3]);
    b.copy(t[3], t[4]);
    let c = b.build();
    let mut pw = PartialWitness::new();
    for (i, v) in &[(0usize, x), (1, x), (4, spec_value(&[x]))] {
        pw.set_target(t[*i], *v);
    }
    let pw = c.generate_partial_witness(pw);
    for i in 2..5 {
        prove_eq("agreeing sources", pw.get_target(t[i]), spec_value(&[x]));
    }
}

pub fn all() -> Vec<Scenario> {
    let mut conflict = scenario!(Big, "P26", 0, n_conflict, "conflicting values from inputs, generators and copies: generation that finishes has met none");
    conflict.panics_ok = true;
    vec![
        scenario!(Big, "P15", 0, q_graphs4, "all copy graphs on four targets (wires, virtual, public input), two orders"),
        scenario!(Big, "P15", 0, q_paths, "joins of paths over six targets, every orientation"),
        scenario!(Big, "P15", 0, q_large, "classes of 13 to 144 wires: chains, stars, joined halves"),
        scenario!(Big, "P15", 0, q_product_challenges, "grand product, symbolic beta and gamma, degree 4"),
        scenario!(Big, "P15", 0, q_product_witness, "grand product, symbolic class values, degree 4"),
        scenario!(Big, "P15", 0, q_product_larger, "grand product, symbolic class values or beta, degree 8"),
        scenario!(Big, "P15", 0, q_product_broken, "a broken copy leaves an unmatched factor"),
        scenario!(Big, "P15", 1, q_product_all, "grand product, all symbolic, degree 4"),
        scenario!(Big, "P16", 0, i_few, "1-6 public inputs"),
        scenario!(Big, "P16", 0, i_around_advice, "7-8 public inputs (advice wires)"),
        scenario!(Big, "P16", 0, i_full_row, "9-10 public inputs"),
        scenario!(Big, "P16", 0, i_two_rows, "15-19 public inputs"),
        scenario!(Big, "P16", 0, i_three_rows, "24-29 public inputs"),
        scenario!(Big, "P16", 0, i_none_and_layout, "none; interleaved declarations; copies between public inputs"),
        scenario!(Big, "P26", 0, n_diamond, "a diamond of generators and copies in every registration order"),
        scenario!(Big, "P26", 0, n_partial, "underivable targets stay unassigned, for every subset of three inputs"),
        scenario!(Big, "P26", 0, n_chain, "chains of nine generators"),
        conflict,
        scenario!(Big, "P26", 0, n_agree, "agreeing sources are accepted"),
    ]
}
