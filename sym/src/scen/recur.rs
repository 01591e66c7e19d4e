//! P25: what the recursive verifier circuit computes equals the native verifier's formulas.
use super::circ::*;
use super::cusp::set_cusp;
use crate::cx::*;
use crate::dfield::Out;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::{halo_g, reduce_with_powers};
use plonky::*;

type TT = T<Big>;
type Rec = RecursiveCircuit<Out, C>;
const NT: usize = 7;

fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}
fn rec(degree_pow: usize, old: usize) -> Rec {
    set_cusp();
    set_slot(ZETA, super::curve::cube_root());
    set_slot(ZETA_SCALAR, super::curve::cube_root());
    recursive_verification_circuit::<Out, C>(degree_pow, 128, 54 + 2 * old * (2 + degree_pow), old)
}
/// The inner proof's public inputs, in the order in which the recursive circuit declares them.
struct Inner {
    beta: F,
    gamma: F,
    alpha: F,
    zeta: F,
    constants: Vec<F>,
    sigmas: Vec<F>,
    local: Vec<F>,
    right: Vec<F>,
    below: Vec<F>,
    z: F,
    z_right: F,
    t: Vec<F>,
}
impl Inner {
    fn flat(&self) -> Vec<F> {
        let mut v = vec![self.beta, self.gamma, self.alpha, self.zeta];
        for x in &[&self.constants, &self.sigmas, &self.local, &self.right, &self.below] {
            v.extend(x.iter().cloned());
        }
        v.push(self.z);
        v.push(self.z_right);
        v.extend(self.t.iter().cloned());
        v
    }
    /// the value of t's first component that makes the quotient relation hold
    fn spec_t0(&self, degree_pow: usize) -> F {
        let n = 1usize << degree_pow;
        let mut zn = F::ONE;
        for _ in 0..n {
            zn = zn * self.zeta;
        }
        let zh = zn - F::ONE;
        let l1 = zh / (f(n as u64) * (self.zeta - F::ONE));
        let (mut a, mut b) = (F::ONE, F::ONE);
        let k = shifts();
        for i in 0..NR {
            a = a * (self.local[i] + self.beta * k[i] * self.zeta + self.gamma);
            b = b * (self.local[i] + self.beta * self.sigmas[i] + self.gamma);
        }
        let c = evaluate_all_constraints::<Out, C>(&self.constants, &self.local, &self.right, &self.below);
        let mut terms = vec![(self.z - F::ONE) * l1, self.z * a - self.z_right * b];
        terms.extend(c);
        let mut total = F::ZERO;
        let mut ap = F::ONE;
        for x in terms {
            total = total + ap * x;
            ap = ap * self.alpha;
        }
        // t(zeta) = sum t_i zeta^(n i)
        let mut rest = F::ZERO;
        let mut p = zn;
        for x in &self.t[1..] {
            rest = rest + p * *x;
            p = p * zn;
        }
        total / zh - rest
    }
}
/// the coset shifts k_0..k_5, read off a copy-free circuit's permutation labels at row 0
fn shifts() -> Vec<F> {
    let mut b = bld();
    b.add_gate_no_constants(BufferGate::new(0));
    let c = b.build();
    (0..NR).map(|j| c.s_sigma_values_8n[j][0]).collect()
}
fn inner(label: &str, wires: bool, constants: Vec<F>) -> Inner {
    let w = |n: &str, k: usize, c: u64| -> Vec<F> {
        if wires {
            vars(&format!("{}{}", label, n), k)
        } else {
            (0..k).map(|i| f(c + 3 * i as u64)).collect()
        }
    };
    Inner {
        beta: f(11),
        gamma: f(12),
        alpha: f(13),
        zeta: f(14),
        constants,
        sigmas: (0..NR).map(|i| f(100 + i as u64)).collect(),
        local: w("l", NW, 200),
        right: w("r", NW, 300),
        below: w("b", NW, 400),
        z: f(5),
        z_right: f(6),
        t: (0..NT).map(|i| f(500 + i as u64)).collect(),
    }
}
fn feed(r: &Rec, x: &Inner) -> PartialWitness<F> {
    let sets = r.proof.o_public_inputs.as_ref().unwrap();
    let targets: Vec<TT> = sets.iter().flat_map(|s| s.o_wires.clone()).collect();
    let mut pw = PartialWitness::new();
    for (t, v) in targets.iter().zip(x.flat()) {
        pw.set_target(*t, v);
    }
    pw
}
/// generation, with assertion failures caught (a conflict between two values of one routing class panics)
fn generates(r: &Rec, pw: PartialWitness<F>) -> Option<PartialWitness<F>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.circuit.generate_partial_witness(pw))) {
        Ok(w) => Some(w),
        Err(e) => {
            if e.is::<crate::engine::Infeasible>() || e.is::<crate::engine::Unsupported>() {
                std::panic::resume_unwind(e);
            }
            None
        }
    }
}
/// With t_0 as the formula demands, generation meets no conflict; shifted by delta it must meet one.
fn quotient(l: &str, r: &Rec, degree_pow: usize, mut x: Inner, delta: F) {
    assume_nonzero(x.zeta - F::ONE);
    let mut zn = x.zeta;
    for _ in 0..degree_pow {
        zn = zn * zn;
    }
    assume_nonzero(zn - F::ONE);
    x.t[0] = x.spec_t0(degree_pow);
    prove(&format!("{}: the native quotient value is accepted", l), generates(r, feed(r, &x)).is_some());
    x.t[0] = x.t[0] + delta;
    prove(&format!("{}: any other quotient value is rejected", l), generates(r, feed(r, &x)).is_none());
}
fn v_quotient() {
    let r = rec(1, 0);
    let delta: F = var("delta");
    assume_nonzero(delta);
    // the permutation and boundary terms, the combination of t's components, and the challenges
    {
        let mut x = inner("c", false, vec![f(0); 6]);
        x.beta = var("beta");
        x.gamma = var("gamma");
        x.z = var("z");
        x.z_right = var("zr");
        x.t = vars("t", NT);
        quotient("permutation part, symbolic beta, gamma, Z, t", &r, 1, x, delta);
    }
    {
        let mut x = inner("c", false, vec![f(0); 6]);
        x.alpha = var("alpha");
        x.zeta = var("zeta");
        x.z = var("z");
        x.t = vars("t", NT);
        quotient("symbolic alpha, zeta, Z, t", &r, 1, x, delta);
    }
    {
        let mut x = inner("c", false, vec![f(0); 6]);
        x.sigmas = vars("sigma", NR);
        x.local = vars("w", NW);
        x.z = var("z");
        x.z_right = var("zr");
        quotient("symbolic permutation openings and wires", &r, 1, x, delta);
    }
    // every gate's constraints in the vanishing sum
    let prefixes: Vec<(&str, &[bool])> = vec![
        ("CurveAdd", CurveAddGate::<Out, C>::PREFIX),
        ("CurveDbl", CurveDblGate::<Out, C>::PREFIX),
        ("CurveEndo", CurveEndoGate::<Out, C>::PREFIX),
        ("Base4Sum", Base4SumGate::<Out>::PREFIX),
        ("PublicInput", PublicInputGate::<Out>::PREFIX),
        ("Buffer", BufferGate::<Out>::PREFIX),
        ("Constant", ConstantGate::<Out>::PREFIX),
        ("Arithmetic", ArithmeticGate::<Out>::PREFIX),
        ("RescueStepA", RescueStepAGate::<Out>::PREFIX),
        ("RescueStepB", RescueStepBGate::<Out>::PREFIX),
    ];
    for (name, p) in prefixes {
        let mut c: Vec<F> = p.iter().map(|b| F::from_canonical_bool(*b)).collect();
        while c.len() < NC {
            let n = format!("c{}", c.len());
            c.push(var(&n));
        }
        let mut x = inner("g", true, c);
        x.alpha = var("alpha");
        quotient(&format!("{} row", name), &r, 1, x, delta);
    }
    // symbolic selectors
    {
        let mut x = inner("s", false, vars("k", NC));
        x.alpha = var("alpha");
        quotient("symbolic selector openings", &r, 1, x, delta);
    }
}
fn set_points(pw: &mut PartialWitness<F>, p: &[AffinePointTarget<C>], v: &[F]) {
    for (i, t) in p.iter().enumerate() {
        pw.set_target(t.x, v[2 * i]);
        pw.set_target(t.y, v[2 * i + 1]);
    }
}
fn pi(r: &Rec, pw: &PartialWitness<F>, i: usize) -> F {
    pw.get_target(resolve_pi(r.circuit.num_gates_without_pis, Target::PublicInput(PublicInput::new(i))))
}
/// Challenges drawn by the circuit, evaluation of old proofs' folding products, and forwarded values.
fn v_outputs() {
    let d = 1;
    let r = rec(d, 2);
    let off = 52 + d;
    // beta, gamma, alpha, zeta as drawn by the native transcript from the same commitments
    for (s, l) in &[(0usize, "symbolic wire commitments"), (1, "symbolic Z and t commitments")] {
        let cw: Vec<F> = (0..18).map(|i| if *s == 0 && i % 5 == 1 { var(&format!("cw{}", i)) } else { f(3 + i) }).collect();
        let cz: Vec<F> = (0..2).map(|i| if *s == 1 { var(&format!("cz{}", i)) } else { f(300 + i) }).collect();
        let ct: Vec<F> = (0..14).map(|i| if *s == 1 && i == 13 { var("ct") } else { f(400 + i) }).collect();
        let mut ch = Challenger::new(128);
        ch.observe_elements(&cw);
        let (beta, gamma) = ch.get_2_challenges();
        ch.observe_elements(&cz);
        let alpha = ch.get_challenge();
        ch.observe_elements(&ct);
        let zeta = ch.get_challenge();
        let mut pw = PartialWitness::new();
        set_points(&mut pw, &r.proof.c_wires, &cw);
        set_points(&mut pw, &[r.proof.c_plonk_z], &cz);
        set_points(&mut pw, &r.proof.c_plonk_t, &ct);
        // the old proofs' products at zeta
        let us: Vec<F> = (0..2 * d).map(|i| if *s == 0 { f(70 + i as u64) } else { var(&format!("u{}", i)) }).collect();
        for u in &us {
            assume_nonzero(*u);
        }
        for k in 0..2 {
            pw.set_targets(&Target::convert_slice(&r.old_proofs[k].halo_us), &us[k * d..(k + 1) * d]);
        }
        let g = generates(&r, pw);
        prove(&format!("{}: generation", l), g.is_some());
        if let Some(w) = g {
            for (i, x) in [beta, gamma, alpha, zeta].iter().enumerate() {
                prove_eq(&format!("{}: challenge {}", l, i), pi(&r, &w, i), *x);
            }
            for k in 0..2 {
                prove_eq(&format!("{}: folding product of old proof {}", l, k), w.get_target(r.proof.o_local.o_old_proofs[k]), halo_g(zeta, &us[k * d..(k + 1) * d]));
            }
        }
    }
    // a wrong opening of an old proof is rejected
    {
        let delta: F = var("delta");
        assume_nonzero(delta);
        for k in 0..2 {
            for wrong in &[false, true] {
                let cw: Vec<F> = (0..18).map(|i| f(3 + i)).collect();
                let cz: Vec<F> = (0..2).map(|i| f(300 + i)).collect();
                let ct: Vec<F> = (0..14).map(|i| f(400 + i)).collect();
                let mut ch = Challenger::new(128);
                ch.observe_elements(&cw);
                ch.get_2_challenges();
                ch.observe_elements(&cz);
                ch.get_challenge();
                ch.observe_elements(&ct);
                let zeta = ch.get_challenge();
                let us: Vec<F> = vars("old", d);
                for u in &us {
                    assume_nonzero(*u);
                }
                let mut pw = PartialWitness::new();
                set_points(&mut pw, &r.proof.c_wires, &cw);
                set_points(&mut pw, &[r.proof.c_plonk_z], &cz);
                set_points(&mut pw, &r.proof.c_plonk_t, &ct);
                pw.set_targets(&Target::convert_slice(&r.old_proofs[k].halo_us), &us);
                let v = halo_g(zeta, &us);
                pw.set_target(r.proof.o_local.o_old_proofs[k], if *wrong { v + delta } else { v });
                prove(&format!("old proof {} opening, wrong: {}", k, wrong), generates(&r, pw).is_some() != *wrong);
            }
        }
    }
    // forwarded openings and old proofs
    {
        let o: Vec<F> = vars("o", NC + NR + NW + 1 + NT);
        let rt: Vec<F> = vars("right", NW + 1);
        let bl: Vec<F> = vars("below", NW);
        let op: Vec<F> = vars("oldp", 2 * (2 + d));
        let mut pw = PartialWitness::new();
        let l = &r.proof.o_local;
        let lt: Vec<TT> = [l.o_constants.clone(), l.o_plonk_sigmas.clone(), l.o_wires.clone(), vec![l.o_plonk_z], l.o_plonk_t.clone()].concat();
        pw.set_targets(&lt, &o);
        pw.set_targets(&r.proof.o_right.o_wires, &rt[..NW]);
        pw.set_target(r.proof.o_right.o_plonk_z, rt[NW]);
        pw.set_targets(&r.proof.o_below.o_wires, &bl);
        for k in 0..2 {
            let v = &op[k * (2 + d)..(k + 1) * (2 + d)];
            set_points(&mut pw, &[r.old_proofs[k].halo_g], &v[..2]);
            for x in &v[2..] {
                assume_nonzero(*x);
            }
            pw.set_targets(&Target::convert_slice(&r.old_proofs[k].halo_us), &v[2..]);
        }
        let g = generates(&r, pw);
        prove("forwarding: generation", g.is_some());
        if let Some(w) = g {
            let mut want = o[..NC + NR + NW].to_vec();
            want.extend(rt[..NW].iter().cloned());
            want.extend(bl.iter().cloned());
            want.push(o[NC + NR + NW]);
            want.push(rt[NW]);
            want.extend(o[NC + NR + NW + 1..].iter().cloned());
            for (i, x) in want.iter().enumerate() {
                prove_eq(&format!("forwarded public input {}", 4 + i), pi(&r, &w, 4 + i), *x);
            }
            for (i, x) in op.iter().enumerate() {
                prove_eq(&format!("forwarded old proof value {}", i), pi(&r, &w, off + i), *x);
            }
        }
    }
}
/// the native combination by powers of a challenge
fn v_native() {
    let a: F = var("alpha");
    for n in 0..7 {
        let x: Vec<F> = vars("x", n);
        let mut want = F::ZERO;
        let mut p = F::ONE;
        for v in &x {
            want = want + p * *v;
            p = p * a;
        }
        prove_eq(&format!("combination of {} terms", n), reduce_with_powers(&x, a), want);
        let us: Vec<F> = vars("u", n);
        let mut want = F::ONE;
        for (i, u) in us.iter().enumerate() {
            assume_nonzero(*u);
            want = want * (*u * a.exp_usize(1 << (n - 1 - i)) + F::ONE / *u);
        }
        prove_eq(&format!("folding product of {} challenges", n), halo_g(a, &us), want);
    }
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P25", 0, v_quotient, "in-circuit quotient check = native formula, every gate, symbolic openings and challenges"),
        scenario!(Big, "P25", 0, v_outputs, "challenges, old proofs' products and forwarded values"),
        scenario!(Big, "P25", 0, v_native, "native combination and folding product"),
    ]
}
