//! P11-P14: the gates' native constraints, their in-circuit counterparts, witness generation, soundness
//! and selector prefixes.
use super::circ::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::*;

type BB = B<Big>;
type TT = T<Big>;
type O = crate::dfield::Out;

type Native = fn(&[F], &[F], &[F], &[F]) -> Vec<F>;
type Rec = fn(&mut BB, &[TT], &[TT], &[TT], &[TT]) -> Vec<TT>;
/// One gate type, as seen through the crate's `Gate` trait.
struct G {
    name: &'static str,
    prefix: &'static [bool],
    plain: Native,
    filtered: Native,
    filter: fn(&[F]) -> F,
    plain_rec: Rec,
    filtered_rec: Rec,
    filter_rec: fn(&mut BB, &[TT]) -> TT,
    /// adds the gate through the builder, with `k` configuration constants
    add: fn(&mut BB, Vec<F>),
}
fn g<X: Gate<O>>(new: fn(usize) -> X, add: fn(&mut BB, Vec<F>)) -> G {
    let _ = new;
    G {
        name: X::NAME,
        prefix: X::PREFIX,
        plain: X::evaluate_unfiltered,
        filtered: X::evaluate_filtered,
        filter: X::evaluate_prefix_filter,
        plain_rec: X::evaluate_unfiltered_recursively,
        filtered_rec: X::evaluate_filtered_recursively,
        filter_rec: X::evaluate_prefix_filter_recursively,
        add,
    }
}
macro_rules! gate {
    ($t:ty) => {
        g::<$t>(<$t>::new, |b, k| b.add_gate(<$t>::new(b.num_gates()), k))
    };
}
fn gates() -> Vec<G> {
    vec![
        gate!(CurveAddGate<O, C>),
        gate!(CurveDblGate<O, C>),
        gate!(CurveEndoGate<O, C>),
        gate!(Base4SumGate<O>),
        gate!(PublicInputGate<O>),
        gate!(BufferGate<O>),
        gate!(ConstantGate<O>),
        gate!(ArithmeticGate<O>),
        gate!(RescueStepAGate<O>),
        gate!(RescueStepBGate<O>),
    ]
}
/// arbitrary curve and endomorphism parameters
fn params() {
    set_slot(A, var::<Big>("curve_a"));
    set_slot(B, var::<Big>("curve_b"));
    set_slot(ZETA, var::<Big>("zeta"));
}
/// constants laid down by the in-circuit evaluation are circuit constants: concrete
fn params_konst() {
    let n = |k: u64| F::from_canonical_u64(k);
    set_slot(A, n(7));
    set_slot(B, n(11));
    set_slot(ZETA, n(13));
}
struct Rows {
    k: Vec<F>,
    l: Vec<F>,
    r: Vec<F>,
    d: Vec<F>,
}
fn rows() -> Rows {
    Rows { k: vars("k", NC), l: vars("l", NW), r: vars("r", NW), d: vars("d", NW) }
}
fn native(f: Native, x: &Rows) -> Vec<F> {
    f(&x.k, &x.l, &x.r, &x.d)
}
/// evaluates `f` on targets holding `x` and returns the generated values
fn in_circuit(x: &Rows, f: &dyn Fn(&mut BB, &[TT], &[TT], &[TT], &[TT]) -> Vec<TT>) -> Vec<F> {
    let mut b = bld();
    let (k, l, r, d) = (b.add_virtual_targets(NC), b.add_virtual_targets(NW), b.add_virtual_targets(NW), b.add_virtual_targets(NW));
    let outs = f(&mut b, &k, &l, &r, &d);
    let mut ins: Vec<(TT, F)> = vec![];
    for (t, v) in vec![(&k, &x.k), (&l, &x.l), (&r, &x.r), (&d, &x.d)] {
        ins.extend(t.iter().cloned().zip(v.iter().cloned()));
    }
    let r = run_only(b, &ins);
    outs.iter().map(|o| val(&r, *o)).collect()
}
fn rec_one(i: usize) {
    set_cap(200_000);
    params_konst();
    let x = rows();
    let g = &gates()[i];
    prove_eqs(&format!("{} unfiltered: in circuit = native", g.name), &in_circuit(&x, &|b, k, l, r, d| (g.plain_rec)(b, k, l, r, d)), &native(g.plain, &x));
    prove_eqs(&format!("{} filter: in circuit = native", g.name), &in_circuit(&x, &|b, k, _, _, _| vec![(g.filter_rec)(b, k)]), &[(g.filter)(&x.k)]);
    prove_eqs(&format!("{} filtered: in circuit = native", g.name), &in_circuit(&x, &|b, k, l, r, d| (g.filtered_rec)(b, k, l, r, d)), &native(g.filtered, &x));
}
fn r_curve_add() {
    rec_one(0)
}
fn r_curve_dbl() {
    rec_one(1)
}
fn r_curve_endo() {
    rec_one(2)
}
fn r_base4() {
    rec_one(3)
}
fn r_small() {
    rec_one(4);
    rec_one(5);
    rec_one(6);
    rec_one(7);
}
fn r_rescue_a() {
    rec_one(8)
}
fn r_rescue_b() {
    rec_one(9)
}
fn r_all() {
    set_cap(200_000);
    params_konst();
    let x = rows();
    let n = evaluate_all_constraints::<O, C>(&x.k, &x.l, &x.r, &x.d);
    let c = in_circuit(&x, &|b, k, l, r, d| evaluate_all_constraints_recursively::<O, C>(b, k, l, r, d));
    prove_eqs("all gates: in circuit = native", &c, &n);
}
/// the in-circuit evaluation is itself constrained: no other value can be passed off as the constraint
fn r_forced() {
    params_konst();
    for i in 4..8 {
        let x = rows();
        let g = &gates()[i];
        let mut b = bld();
        let (k, l, r, d) = (b.add_virtual_targets(NC), b.add_virtual_targets(NW), b.add_virtual_targets(NW), b.add_virtual_targets(NW));
        let outs = (g.filtered_rec)(&mut b, &k, &l, &r, &d);
        let mut ins: Vec<(TT, F)> = vec![];
        for (t, v) in vec![(&k, &x.k), (&l, &x.l), (&r, &x.r), (&d, &x.d)] {
            ins.extend(t.iter().cloned().zip(v.iter().cloned()));
        }
        let mut a = any_assignment(b, &ins);
        let got: Vec<F> = outs.iter().map(|o| a.get(*o)).collect();
        prove_eqs(&format!("{} filtered: the circuit's constraints force the native value", g.name), &got, &native(g.filtered, &x));
    }
}

// ---- P14 -------------------------------------------------------------------------------------------

/// the unified set, with the row's selectors set to this gate's prefix, is this gate's own constraints
fn sel_one(i: usize) {
    set_cap(200_000);
    params();
    let gs = gates();
    let g = &gs[i];
    let mut x = rows();
    for (j, b) in g.prefix.iter().enumerate() {
        x.k[j] = F::from_canonical_bool(*b);
    }
    let all = evaluate_all_constraints::<O, C>(&x.k, &x.l, &x.r, &x.d);
    let f = (g.filter)(&x.k);
    let live = f.is_nonzero();
    prove(&format!("{}: its own selector is nonzero", g.name), live);
    let own = native(g.plain, &x);
    prove(&format!("{}: no constraint lost", g.name), all.len() >= own.len());
    for (j, a) in all.iter().enumerate() {
        if j < own.len() {
            prove_eq(&format!("{}: unified constraint {} is its own, times its selector", g.name, j), *a, f * own[j]);
        } else {
            prove_zero(&format!("{}: unified constraint {} is inactive", g.name, j), *a);
        }
    }
    for h in gs.iter() {
        if h.name != g.name {
            prove_zero(&format!("{}: selector of {} vanishes", g.name, h.name), (h.filter)(&x.k));
        }
    }
    // configuration constants start after the prefix
    let other = rows_named("s");
    let mut y = Rows { k: x.k.clone(), l: x.l.clone(), r: x.r.clone(), d: x.d.clone() };
    for j in 0..g.prefix.len() {
        y.k[j] = other.k[j];
    }
    prove_eqs(&format!("{}: constraints do not read the selector", g.name), &native(g.plain, &y), &own);
}
fn rows_named(p: &str) -> Rows {
    Rows { k: vars(&format!("{}k", p), NC), l: vec![], r: vec![], d: vec![] }
}
fn s_first() {
    for i in 0..5 {
        sel_one(i);
    }
}
fn s_second() {
    for i in 5..10 {
        sel_one(i);
    }
}
/// the builder writes prefix, constants and zero padding
fn s_builder() {
    params();
    for g in gates() {
        for n in 0..=(NC - g.prefix.len()) {
            let mut b = bld();
            b.add_gate_no_constants(BufferGate::new(0));
            let ks: Vec<F> = (0..n as u64).map(|j| F::from_canonical_u64(1000 + j)).collect();
            (g.add)(&mut b, ks.clone());
            b.add_gate_no_constants(BufferGate::new(b.num_gates()));
            let c = b.build();
            let mut want: Vec<F> = g.prefix.iter().map(|p| F::from_canonical_bool(*p)).collect();
            want.extend(ks);
            want.resize(NC, F::ZERO);
            prove_eqs(&format!("{}: row constants", g.name), &c.gate_constants[1], &want);
        }
    }
}
/// Total degree of a polynomial along the line through the origin, by finite differences: along every
/// line the (m+1)-st difference of a polynomial of degree <= m vanishes.
fn degree_at_most(l: &str, m: u64, f: &dyn Fn(F) -> Vec<F>) {
    let vals: Vec<Vec<F>> = (0..=m + 1).map(|t| f(F::from_canonical_u64(t))).collect();
    for j in 0..vals[0].len() {
        let mut s = F::ZERO;
        let mut binom = 1u64;
        for t in 0..=m + 1 {
            let term = F::from_canonical_u64(binom) * vals[t as usize][j];
            s = if t % 2 == 0 { s + term } else { s - term };
            binom = binom * (m + 1 - t) / (t + 1);
        }
        prove_zero(&format!("{}[{}]: degree at most {}", l, j, m), s);
    }
}
fn deg_one(i: usize) {
    set_cap(400_000);
    params();
    let x = rows();
    let g = &gates()[i];
    let scale = |v: &Vec<F>, t: F| -> Vec<F> { v.iter().map(|a| *a * t).collect() };
    // quotient times vanishing polynomial: the prover sizes its quotient for 8 times the row count
    let m = 8;
    degree_at_most(g.name, m, &|t| (g.filtered)(&scale(&x.k, t), &scale(&x.l, t), &scale(&x.r, t), &scale(&x.d, t)));
}
fn d_curve_add() {
    deg_one(0)
}
fn d_curve_dbl_endo() {
    deg_one(1);
    deg_one(2);
}
fn d_small() {
    for i in 3..8 {
        deg_one(i);
    }
}
fn d_rescue() {
    deg_one(8);
    deg_one(9);
}

// ---- P12 -------------------------------------------------------------------------------------------

const AT: usize = 3;
/// Runs the gate's generator at row `at` on the given wires and returns (local, right, below) rows of the
/// resulting witness; every declared dependency must be among the inputs.
fn generate<X: Gate<O>>(l: &str, gate: &X, at: usize, k: &[F], ins: &[(usize, usize, F)], known: &[(usize, usize)]) -> Rows {
    let mut consts: Vec<Vec<F>> = vec![vars("unrelated", NC); at + 2];
    consts[at] = k.to_vec();
    let mut pw = PartialWitness::<F>::new();
    // the generator runs as soon as its declared dependencies are known, so these alone must do
    for d in gate.dependencies() {
        let hit = ins.iter().find(|(g, i, _)| d == wire::<Big>(*g, *i));
        match hit {
            Some((_, _, v)) => pw.set_target(d, *v),
            None => prove(&format!("{}: depends on {:?} which is not an input", l, d), false),
        }
    }
    let declared = pw.all_populated_targets();
    let optional: Vec<_> = ins.iter().filter(|(g, i, _)| !declared.contains(&wire::<Big>(*g, *i))).collect();
    for (g, i, v) in optional {
        if known.contains(&(*g, *i)) {
            pw.set_target(wire::<Big>(*g, *i), *v);
        } else {
            prove(&format!("{}: input wire {} is a declared dependency", l, i), false);
        }
    }
    let out = gate.generate(&consts, &pw);
    for t in out.all_populated_targets() {
        if pw.contains_target(t) {
            prove_eq(&format!("{}: generator agrees with what is already set", l), out.get_target(t), pw.get_target(t));
        } else {
            let v = out.get_target(t);
            pw.set_target(t, v);
        }
    }
    let row = |g: usize| -> Vec<F> {
        (0..NW)
            .map(|i| {
                let t = wire::<Big>(g, i);
                if pw.contains_target(t) {
                    pw.get_target(t)
                } else {
                    // left open: must not matter
                    var(&format!("free{}_{}", g, i))
                }
            })
            .collect()
    };
    let x = Rows { k: k.to_vec(), l: row(at), r: row(at + 1), d: row(at + GRID) };
    for (j, c) in X::evaluate_unfiltered(&x.k, &x.l, &x.r, &x.d).iter().enumerate() {
        prove_zero(&format!("{}: generated witness satisfies constraint {}", l, j), *c);
    }
    x
}
/// (x3, y3) is the chord sum of two points with different x
fn chord(l: &str, p1: (F, F), p2: (F, F), p3: (F, F)) {
    let (dx, dy) = (p1.0 - p2.0, p1.1 - p2.1);
    prove_eq(&format!("{}: x of the sum", l), p3.0 * dx * dx, dy * dy - (p1.0 + p2.0) * dx * dx);
    prove_eq(&format!("{}: y of the sum", l), p3.1 * dx, dy * (p1.0 - p3.0) - p1.1 * dx);
}
fn bit(name: &str) -> F {
    if choose(name) {
        F::ONE
    } else {
        F::ZERO
    }
}
fn w_curve_add() {
    params();
    type X = CurveAddGate<O, C>;
    for at in vec![0, AT] {
        let v: Vec<F> = vars("x", 5);
        assume_nonzero(v[0] - v[3]);
        let b = bit("scalar bit");
        let ins = [(at, X::WIRE_GROUP_ACC_X, v[0]), (at, X::WIRE_GROUP_ACC_Y, v[1]), (at, X::WIRE_SCALAR_ACC_OLD, v[2]),
                   (at, X::WIRE_ADDEND_X, v[3]), (at, X::WIRE_ADDEND_Y, v[4]), (at, X::WIRE_SCALAR_BIT, b)];
        let x = generate("CurveAdd", &X::new(at), at, &vars("k", NC), &ins, &[]);
        add_spec("CurveAdd generated", &x, b);
    }
}
fn add_spec(l: &str, x: &Rows, b: F) {
    type X = CurveAddGate<O, C>;
    let p1 = (x.l[X::WIRE_GROUP_ACC_X], x.l[X::WIRE_GROUP_ACC_Y]);
    let p2 = (x.l[X::WIRE_ADDEND_X], x.l[X::WIRE_ADDEND_Y]);
    let p4 = (x.r[X::WIRE_GROUP_ACC_X], x.r[X::WIRE_GROUP_ACC_Y]);
    if b.is_one() {
        chord(l, p1, p2, p4);
    } else {
        prove_zero(&format!("{}: bit is zero", l), b);
        prove_eq(&format!("{}: x unchanged", l), p4.0, p1.0);
        prove_eq(&format!("{}: y unchanged", l), p4.1, p1.1);
    }
    let two = F::from_canonical_u64(2);
    prove_eq(&format!("{}: scalar accumulator", l), x.l[X::WIRE_SCALAR_ACC_NEW], two * x.l[X::WIRE_SCALAR_ACC_OLD] + b);
}
fn w_curve_dbl() {
    params();
    type X = CurveDblGate<O, C>;
    for at in vec![0, AT] {
        let v: Vec<F> = vars("x", 2);
        assume_nonzero(v[1]);
        let x = generate("CurveDbl", &X::new(at), at, &vars("k", NC), &[(at, X::WIRE_X_OLD, v[0]), (at, X::WIRE_Y_OLD, v[1])], &[]);
        dbl_spec("CurveDbl generated", &x);
    }
}
fn dbl_spec(l: &str, r: &Rows) {
    type X = CurveDblGate<O, C>;
    let (x, y) = (r.l[X::WIRE_X_OLD], r.l[X::WIRE_Y_OLD]);
    let (x3, y3) = (r.l[X::WIRE_X_NEW], r.l[X::WIRE_Y_NEW]);
    let two = F::from_canonical_u64(2);
    let num = F::from_canonical_u64(3) * x * x + var::<Big>("curve_a");
    let den = two * y;
    prove_eq(&format!("{}: x of the double", l), x3 * den * den, num * num - two * x * den * den);
    prove_eq(&format!("{}: y of the double", l), y3 * den, num * (x - x3) - y * den);
}
fn w_curve_endo() {
    type X = CurveEndoGate<O, C>;
    for at in vec![0, AT] {
        // two points of y^2 = x^3 + b for some b: (y' - y)(y' + y) = x'^3 - x^3
        let v: Vec<F> = vars("x", 5);
        let zeta = super::curve::cube_root();
        set_slot(A, F::ZERO);
        set_slot(ZETA, zeta);
        let half = F::TWO.multiplicative_inverse().unwrap();
        let (x1, xi, s) = (v[0], v[1], v[2]);
        assume_nonzero(s);
        let d = (xi * xi * xi - x1 * x1 * x1) / s;
        let (y1, yi) = ((s - d) * half, (s + d) * half);
        set_slot(B, y1 * y1 - x1 * x1 * x1);
        let (b0, b1) = (bit("bit 0"), bit("bit 1"));
        let x2 = if b1.is_one() { zeta * xi } else { xi };
        assume_nonzero(x1 - x2);
        let ins = [(at, X::WIRE_GROUP_ACC_X, x1), (at, X::WIRE_GROUP_ACC_Y, y1), (at, X::WIRE_SCALAR_ACC_UNSIGNED, v[3]),
                   (at, X::WIRE_SCALAR_ACC_SIGNED, v[4]), (at, X::WIRE_ADDEND_X, xi), (at, X::WIRE_ADDEND_Y, yi),
                   (at, X::WIRE_SCALAR_BIT_0, b0), (at, X::WIRE_SCALAR_BIT_1, b1)];
        let x = generate("CurveEndo", &X::new(at), at, &vars("k", NC), &ins, &[]);
        endo_spec("CurveEndo generated", &x, b0, b1, zeta);
    }
}
fn endo_spec(l: &str, x: &Rows, b0: F, b1: F, zeta: F) {
    type X = CurveEndoGate<O, C>;
    let n = |k| F::from_canonical_u64(k);
    let p1 = (x.l[X::WIRE_GROUP_ACC_X], x.l[X::WIRE_GROUP_ACC_Y]);
    let (xi, yi) = (x.l[X::WIRE_ADDEND_X], x.l[X::WIRE_ADDEND_Y]);
    let endo = b1.is_one();
    let pos = b0.is_one();
    if !endo {
        prove_zero(&format!("{}: bit 1 is a bit", l), b1);
    }
    if !pos {
        prove_zero(&format!("{}: bit 0 is a bit", l), b0);
    }
    let p2 = (if endo { zeta * xi } else { xi }, if pos { yi } else { F::ZERO - yi });
    chord(l, p1, p2, (x.r[X::WIRE_GROUP_ACC_X], x.r[X::WIRE_GROUP_ACC_Y]));
    prove_eq(&format!("{}: unsigned accumulator", l), x.d[X::WIRE_SCALAR_ACC_UNSIGNED], n(4) * x.l[X::WIRE_SCALAR_ACC_UNSIGNED] + n(2) * b1 + b0);
    let limb = if endo { zeta } else { F::ONE };
    let limb = if pos { limb } else { F::ZERO - limb };
    prove_eq(&format!("{}: signed accumulator", l), x.d[X::WIRE_SCALAR_ACC_SIGNED], n(2) * x.l[X::WIRE_SCALAR_ACC_SIGNED] + limb);
}
fn w_arith_const() {
    for at in vec![0, AT] {
        let k: Vec<F> = vars("k", NC);
        type X = ArithmeticGate<O>;
        let v: Vec<F> = vars("x", 3);
        let ins = [(at, X::WIRE_MULTIPLICAND_0, v[0]), (at, X::WIRE_MULTIPLICAND_1, v[1]), (at, X::WIRE_ADDEND, v[2])];
        let x = generate("Arithmetic", &X::new(at), at, &k, &ins, &[]);
        let p = <X as Gate<O>>::PREFIX.len();
        prove_eq("Arithmetic generated output", x.l[X::WIRE_OUTPUT], k[p] * v[0] * v[1] + k[p + 1] * v[2]);
        type Y = ConstantGate<O>;
        let x = generate("Constant", &Y::new(at), at, &k, &[], &[]);
        prove_eq("Constant generated output", x.l[Y::WIRE_OUTPUT], k[<Y as Gate<O>>::PREFIX.len()]);
    }
}
fn w_rescue() {
    for at in vec![0, AT] {
        let k: Vec<F> = vars("k", NC);
        let v: Vec<F> = vars("x", 4);
        type XA = RescueStepAGate<O>;
        let ins: Vec<_> = (0..4).map(|i| (at, XA::wire_acc(i), v[i])).collect();
        let x = generate("RescueStepA", &XA::new(at), at, &k, &ins, &[]);
        rescue_a_spec("RescueStepA generated", &x);
        type XB = RescueStepBGate<O>;
        let ins: Vec<_> = (0..4).map(|i| (at, XB::wire_acc(i), v[i])).collect();
        let x = generate("RescueStepB", &XB::new(at), at, &k, &ins, &[]);
        rescue_b_spec("RescueStepB generated", &x);
    }
}
/// the MDS matrix the crate documents: entries 1 / (x_i - y_j) with x_i = 4 + i, y_j = j
fn mds(i: usize, j: usize) -> F {
    (F::from_canonical_u64(4 + i as u64) - F::from_canonical_u64(j as u64)).multiplicative_inverse_assuming_nonzero()
}
fn p5(x: F) -> F {
    x * x * x * x * x
}
fn rescue_a_spec(l: &str, x: &Rows) {
    type X = RescueStepAGate<O>;
    let p = <X as Gate<O>>::PREFIX.len();
    let roots: Vec<F> = (0..4).map(|i| x.l[X::wire_root(i)]).collect();
    for i in 0..4 {
        prove_eq(&format!("{}: fifth root", l), p5(roots[i]), x.l[X::wire_acc(i)]);
        let s = (0..4).fold(x.k[p + i], |s, j| s + mds(i, j) * roots[j]);
        prove_eq(&format!("{}: output", l), x.r[X::wire_acc(i)], s);
    }
}
fn rescue_b_spec(l: &str, x: &Rows) {
    type X = RescueStepBGate<O>;
    let p = <X as Gate<O>>::PREFIX.len();
    for i in 0..4 {
        let s = (0..4).fold(x.k[p + i], |s, j| s + mds(i, j) * p5(x.l[X::wire_acc(j)]));
        prove_eq(&format!("{}: output", l), x.r[X::wire_acc(i)], s);
    }
}
fn w_base4() {
    type X = Base4SumGate<O>;
    for at in vec![0, AT] {
        let acc: F = var("acc");
        for s in 0..4u64 {
            let mut ins = vec![(at, X::WIRE_ACC_OLD, acc)];
            let mut want = acc;
            for i in 0..X::NUM_LIMBS {
                let d = F::from_canonical_u64((i as u64 * 3 + s) % 4);
                ins.push((at, X::wire_limb(i), d));
                want = want * F::from_canonical_u64(4) + d;
            }
            let x = generate("Base4Sum", &X::new(at), at, &vars("k", NC), &ins, &[]);
            prove_eq("Base4Sum generated accumulator", x.l[X::WIRE_ACC_NEW], want);
        }
        // arbitrary limbs: the accumulator alone
        let mut pw = PartialWitness::<F>::new();
        pw.set_target(wire::<Big>(at, X::WIRE_ACC_OLD), acc);
        let limbs: Vec<F> = vars("limb", X::NUM_LIMBS);
        let mut want = acc;
        for i in 0..X::NUM_LIMBS {
            pw.set_target(wire::<Big>(at, X::wire_limb(i)), limbs[i]);
            want = want * F::from_canonical_u64(4) + limbs[i];
        }
        let out = X::new(at).generate(&[], &pw);
        let there = out.contains_target(wire::<Big>(at, X::WIRE_ACC_NEW));
        prove("Base4Sum: the accumulator is generated", there);
        if there {
            prove_eq("Base4Sum: accumulator of any limbs", out.get_target(wire::<Big>(at, X::WIRE_ACC_NEW)), want);
        }
    }
}
/// public-input gate: whatever subset of the wires is known, the known advice wires are copied right
fn w_public_input() {
    type X = PublicInputGate<O>;
    let at = AT;
    let v: Vec<F> = vars("x", NW);
    for mask in 0..8usize {
        let mut pw = PartialWitness::<F>::new();
        for i in 0..NW {
            if i < NR || (mask >> (i - NR)) & 1 == 1 {
                pw.set_target(wire::<Big>(at, i), v[i]);
            }
        }
        let out = X::new(at).generate(&[], &pw);
        let n = (0..3).filter(|i| (mask >> i) & 1 == 1).count();
        prove("PublicInput: copies exactly the known advice wires", out.all_populated_targets().len() == n);
        for i in 0..3 {
            if (mask >> i) & 1 == 1 {
                let t = wire::<Big>(at + 1, i);
                let there = out.contains_target(t);
                prove("PublicInput: copy lands in the next row", there);
                if there {
                    prove_eq("PublicInput: copied value", out.get_target(t), v[NR + i]);
                }
            }
        }
    }
    let ins: Vec<_> = (0..NW).map(|i| (at, i, v[i])).collect();
    let all: Vec<_> = (0..NW).map(|i| (at, i)).collect();
    generate("PublicInput", &X::new(at), at, &vars("k", NC), &ins, &all);
    generate("Buffer", &BufferGate::<O>::new(at), at, &vars("k", NC), &[], &[]);
}

// ---- P13 -------------------------------------------------------------------------------------------

fn hold<X: Gate<O>>() -> Rows {
    params();
    let x = rows();
    for c in X::evaluate_unfiltered(&x.k, &x.l, &x.r, &x.d) {
        require_zero(c);
    }
    x
}
fn z_curve_add() {
    type X = CurveAddGate<O, C>;
    let x = hold::<X>();
    let b = x.l[X::WIRE_SCALAR_BIT];
    let apart = (x.l[X::WIRE_GROUP_ACC_X] - x.l[X::WIRE_ADDEND_X]).is_nonzero();
    prove("CurveAdd: unsatisfiable when the x coordinates coincide", apart);
    add_spec("CurveAdd forced", &x, b);
}
fn z_curve_dbl() {
    type X = CurveDblGate<O, C>;
    let x = hold::<X>();
    let ok = x.l[X::WIRE_Y_OLD].is_nonzero();
    prove("CurveDbl: unsatisfiable for points of order two", ok);
    dbl_spec("CurveDbl forced", &x);
}
fn z_curve_endo() {
    type X = CurveEndoGate<O, C>;
    let x = hold::<X>();
    endo_spec("CurveEndo forced", &x, x.l[X::WIRE_SCALAR_BIT_0], x.l[X::WIRE_SCALAR_BIT_1], var("zeta"));
}
fn z_arith_const_pi() {
    {
        type X = ArithmeticGate<O>;
        let x = hold::<X>();
        let p = <X as Gate<O>>::PREFIX.len();
        prove_eq("Arithmetic forced", x.l[X::WIRE_OUTPUT], x.k[p] * x.l[X::WIRE_MULTIPLICAND_0] * x.l[X::WIRE_MULTIPLICAND_1] + x.k[p + 1] * x.l[X::WIRE_ADDEND]);
    }
}
fn z_constant() {
    type X = ConstantGate<O>;
    let x = hold::<X>();
    prove_eq("Constant forced", x.l[X::WIRE_OUTPUT], x.k[<X as Gate<O>>::PREFIX.len()]);
}
fn z_public_input() {
    type X = PublicInputGate<O>;
    let x = hold::<X>();
    for i in 0..3 {
        prove_eq("PublicInput forced copy", x.r[i], x.l[NR + i]);
    }
}
fn z_rescue_a() {
    let x = hold::<RescueStepAGate<O>>();
    rescue_a_spec("RescueStepA forced", &x);
}
fn z_rescue_b() {
    let x = hold::<RescueStepBGate<O>>();
    rescue_b_spec("RescueStepB forced", &x);
}
fn z_base4() {
    type X = Base4SumGate<O>;
    params();
    let x = rows();
    let c = <X as Gate<O>>::evaluate_unfiltered(&x.k, &x.l, &x.r, &x.d);
    // one limb at a time; everything else stays arbitrary
    for i in 0..X::NUM_LIMBS {
        if i + 1 == X::NUM_LIMBS || choose(&format!("limb {}", i)) {
            let v = x.l[X::wire_limb(i)];
            let isd = (0..4).any(|d| v == F::from_canonical_u64(d));
            // (the linear accumulator constraint comes first; last here, it only eliminates one wire)
            for e in c.iter().rev() {
                assume_zero(*e);
            }
            prove("Base4Sum: limb is a base-4 digit", isd);
            break;
        }
    }
}
fn z_base4_sum() {
    type X = Base4SumGate<O>;
    params();
    let x = rows();
    let c = <X as Gate<O>>::evaluate_unfiltered(&x.k, &x.l, &x.r, &x.d);
    require_zero(c[0]);
    let mut acc = x.l[X::WIRE_ACC_OLD];
    for i in 0..X::NUM_LIMBS {
        acc = acc * F::from_canonical_u64(4) + x.l[X::wire_limb(i)];
    }
    prove_eq("Base4Sum: accumulator forced", x.l[X::WIRE_ACC_NEW], acc);
    // digits are accepted
    for i in 0..X::NUM_LIMBS {
        for d in 0..4 {
            let mut y = x.l.clone();
            for j in 0..X::NUM_LIMBS {
                y[X::wire_limb(j)] = F::from_canonical_u64(((j + d) % 4) as u64);
            }
            let c = <X as Gate<O>>::evaluate_unfiltered(&x.k, &y, &x.r, &x.d);
            for e in c.iter().skip(1) {
                prove_zero(&format!("Base4Sum: digits accepted ({} {})", i, d), *e);
            }
        }
        break;
    }
}

pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P11", 0, r_curve_add, "CurveAddGate in circuit vs native, every row and constant"),
        scenario!(Big, "P11", 0, r_curve_dbl, "CurveDblGate in circuit vs native"),
        scenario!(Big, "P11", 0, r_curve_endo, "CurveEndoGate in circuit vs native"),
        scenario!(Big, "P11", 0, r_base4, "Base4SumGate in circuit vs native"),
        scenario!(Big, "P11", 0, r_small, "PublicInput, Buffer, Constant and Arithmetic gates in circuit vs native"),
        scenario!(Big, "P11", 0, r_rescue_a, "RescueStepAGate in circuit vs native"),
        scenario!(Big, "P11", 0, r_rescue_b, "RescueStepBGate in circuit vs native"),
        scenario!(Big, "P11", 0, r_all, "evaluate_all_constraints in circuit vs native"),
        scenario!(Big, "P11", 0, r_forced, "the in-circuit evaluation admits no other value"),
        scenario!(Big, "P14", 0, s_first, "selectors of CurveAdd, CurveDbl, CurveEndo, Base4Sum, PublicInput"),
        scenario!(Big, "P14", 0, s_second, "selectors of Buffer, Constant, Arithmetic, RescueA, RescueB"),
        scenario!(Big, "P14", 0, s_builder, "row constants written by the builder"),
        scenario!(Big, "P14", 0, d_curve_add, "degree of CurveAddGate's filtered constraints"),
        scenario!(Big, "P14", 0, d_curve_dbl_endo, "degree of CurveDblGate's and CurveEndoGate's filtered constraints"),
        scenario!(Big, "P14", 0, d_small, "degrees of Base4Sum, PublicInput, Buffer, Constant, Arithmetic"),
        scenario!(Big, "P14", 0, d_rescue, "degrees of the Rescue gates"),
        scenario!(Big, "P12", 0, w_curve_add, "CurveAddGate generator"),
        scenario!(Big, "P12", 0, w_curve_dbl, "CurveDblGate generator"),
        scenario!(Big, "P12", 0, w_curve_endo, "CurveEndoGate generator"),
        scenario!(Big, "P12", 0, w_arith_const, "ArithmeticGate and ConstantGate generators"),
        scenario!(Big, "P12", 0, w_rescue, "Rescue gate generators"),
        scenario!(Big, "P12", 0, w_base4, "Base4SumGate generator"),
        scenario!(Big, "P12", 0, w_public_input, "PublicInputGate and BufferGate generators"),
        scenario!(Big, "P13", 0, z_curve_add, "CurveAddGate soundness"),
        scenario!(Big, "P13", 0, z_curve_dbl, "CurveDblGate soundness"),
        scenario!(Big, "P13", 0, z_curve_endo, "CurveEndoGate soundness"),
        scenario!(Big, "P13", 0, z_arith_const_pi, "ArithmeticGate soundness"),
        scenario!(Big, "P13", 0, z_constant, "ConstantGate soundness"),
        scenario!(Big, "P13", 0, z_public_input, "PublicInputGate soundness"),
        scenario!(Big, "P13", 0, z_rescue_a, "RescueStepAGate soundness"),
        scenario!(Big, "P13", 0, z_rescue_b, "RescueStepBGate soundness"),
        scenario!(Big, "P13", 0, z_base4, "Base4SumGate limbs are digits"),
        scenario!(Big, "P13", 0, z_base4_sum, "Base4SumGate accumulator"),
    ]
}
