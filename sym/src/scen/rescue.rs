//! P21 (Rescue permutation and sponge) and P20 (transcript), against the textbook definitions.
use super::circ::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, F};
use plonky::plonk_challenger::Challenger;
use plonky::*;
use rand_chacha::rand_core::SeedableRng;
use rand_chacha::ChaCha8Rng;

type BB = B<Big>;
type TT = T<Big>;

// ------------------------------------------------------------------------------------------ spec
fn mds(s: &[F]) -> Vec<F> {
    let n = s.len() as u64;
    (0..n)
        .map(|r| {
            (0..n).fold(F::ZERO, |acc, c| acc + F::from_canonical_u64(n + r - c).multiplicative_inverse().unwrap() * s[c as usize])
        })
        .collect()
}
fn rounds(width: usize, security_bits: usize) -> usize {
    let r = (security_bits + 2 * width - 1) / (2 * width);
    if r < 10 {
        10
    } else {
        r
    }
}
pub fn spec_permutation(state: &[F], security_bits: usize) -> Vec<F> {
    let w = state.len();
    let mut rng = ChaCha8Rng::seed_from_u64(1337);
    let mut s = state.to_vec();
    for _ in 0..rounds(w, security_bits) {
        for step in 0..2 {
            let k: Vec<F> = (0..w).map(|_| F::rand_from_rng(&mut rng)).collect();
            let sb: Vec<F> = s.iter().map(|x| if step == 0 { x.kth_root(F::ALPHA) } else { *x * *x * *x * *x * *x }).collect();
            s = mds(&sb).iter().zip(k.iter()).map(|(a, b)| *a + *b).collect();
        }
    }
    s
}
fn spec_sponge(inputs: &[F], outs: usize, security_bits: usize) -> Vec<F> {
    let mut s = vec![F::ZERO; 4];
    for chunk in inputs.chunks(3) {
        for (i, x) in chunk.iter().enumerate() {
            s[i] = s[i] + *x;
        }
        s = spec_permutation(&s, security_bits);
    }
    let mut r = vec![];
    while r.len() < outs {
        if !r.is_empty() {
            s = spec_permutation(&s, security_bits);
        }
        for i in 0..3 {
            if r.len() < outs {
                r.push(s[i]);
            }
        }
    }
    r
}

// ------------------------------------------------------------------------------------------- P21
fn p_native() {
    let x: Vec<F> = vars("x", 4);
    for &sb in &[128usize, 80, 64, 136, 200] {
        prove_eqs(&format!("permutation, {} bits", sb), &rescue_permutation(&x, sb), &spec_permutation(&x, sb));
    }
    for w in 1..4 {
        prove_eqs(&format!("permutation of width {}", w), &rescue_permutation(&x[..w], 128), &spec_permutation(&x[..w], 128));
    }
}
/// The inverse permutation (S-boxes, mixing and constants undone in reverse) undoes the native one.
fn p_invertible() {
    let x: Vec<F> = vars("x", 4);
    // S-boxes
    for v in &x {
        let r = v.kth_root(F::ALPHA);
        prove_eq("(x^(1/5))^5 = x", r.exp(F::ALPHA), *v);
        // x -> x^5 is onto a finite field, hence a bijection, and the root is its two-sided inverse
    }
    // a vector the mixing layer maps to zero is zero: differences of outputs of one step determine the inputs
    let y = mds(&x);
    for v in &y {
        require_zero(*v);
    }
    for v in &x {
        prove_zero("the mixing layer has a trivial kernel", *v);
    }
}
fn sponge(ls: &[usize], ks: &[usize]) {
    for &l in ls {
        let x: Vec<F> = vars("x", l);
        for &k in ks {
            prove_eqs(&format!("sponge {} -> {}", l, k), &rescue_sponge(x.clone(), k, 128), &spec_sponge(&x, k, 128));
        }
    }
}
fn p_sponge_small() {
    sponge(&[0, 1, 2, 3], &[1, 2, 3, 4, 6, 7]);
}
fn p_sponge_large() {
    sponge(&[4, 5, 6, 7, 9, 10], &[1, 3, 5]);
}
fn p_hashes() {
    for l in 1..6 {
        let x: Vec<F> = vars("x", l);
        for &sb in &[128usize, 96] {
            let w = spec_sponge(&x, 3, sb);
            if l == 1 {
                prove_eq("1 to 1", rescue_hash_1_to_1(x[0], sb), w[0]);
            }
            prove_eq("n to 1", rescue_hash_n_to_1(x.clone(), sb), w[0]);
            let (a, b) = rescue_hash_n_to_2(x.clone(), sb);
            prove_eqs("n to 2", &[a, b], &w[..2]);
            let (a, b, c) = rescue_hash_n_to_3(x.clone(), sb);
            prove_eqs("n to 3", &[a, b, c], &w);
        }
    }
}
fn circuit_eq(l: &str, sb: usize, x: &[F], want: &[F], rows: bool, build: &dyn Fn(&mut BB, &[TT]) -> Vec<TT>) {
    let mut b: BB = CircuitBuilder::new(sb);
    let t = b.add_virtual_targets(x.len());
    let outs = build(&mut b, &t);
    let ins: Vec<(TT, F)> = t.iter().cloned().zip(x.iter().cloned()).collect();
    let r = if rows { run_circuit(l, b, &ins) } else { run_only(b, &ins) };
    let got: Vec<F> = outs.iter().map(|o| val(&r, *o)).collect();
    prove_eqs(&format!("{}: in-circuit value", l), &got, want);
}
fn p_circuit_permutation() {
    let x: Vec<F> = vars("x", 4);
    for &sb in &[128usize, 80, 136] {
        let native = rescue_permutation(&x, sb);
        circuit_eq(&format!("permutation, {} bits", sb), sb, &x, &native, sb == 128, &|b, t| b.rescue_permutation(t));
    }
}
/// any assignment of the wires that satisfies every row carries the native permutation's output
fn p_circuit_sponge() {
    for &(l, k) in &[(1usize, 1usize), (2, 3), (3, 2), (3, 4), (4, 1), (5, 4), (7, 2)] {
        let x: Vec<F> = vars("x", l);
        let native = rescue_sponge(x.clone(), k, 128);
        circuit_eq(&format!("sponge {} -> {}", l, k), 128, &x, &native, l == 2, &|b, t| b.rescue_sponge(t, k));
    }
}
fn p_circuit_hashes() {
    for l in 1..5 {
        let x: Vec<F> = vars("x", l);
        let w = rescue_sponge(x.clone(), 3, 128);
        circuit_eq(&format!("hash {} to 1", l), 128, &x, &w[..1], false, &|b, t| vec![b.rescue_hash_n_to_1(t)]);
        circuit_eq(&format!("hash {} to 2", l), 128, &x, &w[..2], false, &|b, t| {
            let (p, q) = b.rescue_hash_n_to_2(t);
            vec![p, q]
        });
        circuit_eq(&format!("hash {} to 3", l), 128, &x, &w, false, &|b, t| {
            let (p, q, r) = b.rescue_hash_n_to_3(t);
            vec![p, q, r]
        });
    }
}

// ------------------------------------------------------------------------------------------- P20
/// The duplex transcript: inputs are absorbed three at a time before the next draw; a draw pops the last
/// element of the current rate, permuting when it is used up; observing discards undrawn outputs.
fn spec_transcript(sched: &[(Vec<F>, usize)], sb: usize) -> Vec<Vec<F>> {
    let mut s = vec![F::ZERO; 4];
    let mut avail = 0; // undrawn outputs
    let mut pending: Vec<F> = vec![];
    let mut res = vec![];
    for (obs, n) in sched {
        pending.extend(obs.iter().cloned());
        let mut out = vec![];
        for _ in 0..*n {
            if !pending.is_empty() {
                for c in pending.chunks(3) {
                    for (i, x) in c.iter().enumerate() {
                        s[i] = s[i] + *x;
                    }
                    s = spec_permutation(&s, sb);
                }
                pending.clear();
                avail = 3;
            }
            if avail == 0 {
                s = spec_permutation(&s, sb);
                avail = 3;
            }
            avail -= 1;
            out.push(s[avail]);
        }
        res.push(out);
    }
    res
}
fn schedules() -> Vec<Vec<(usize, usize)>> {
    vec![
        vec![(0, 1)],
        vec![(0, 4)],
        vec![(1, 1)],
        vec![(1, 4)],
        vec![(2, 2), (1, 1)],
        vec![(3, 3)],
        vec![(3, 1), (1, 2)],
        vec![(4, 5)],
        vec![(1, 1), (0, 1), (0, 1), (0, 1)],
        vec![(2, 0), (2, 2)],
        vec![(3, 2), (3, 2), (0, 2)],
        vec![(1, 3), (0, 1), (2, 1)],
        vec![(7, 1), (1, 3)],
    ]
}
fn sched_vars(s: &[(usize, usize)]) -> Vec<(Vec<F>, usize)> {
    let mut k = 0;
    s.iter()
        .map(|&(o, n)| {
            let v = (0..o)
                .map(|_| {
                    k += 1;
                    var(&format!("x{}", k))
                })
                .collect();
            (v, n)
        })
        .collect()
}
fn t_native_vs_spec() {
    for s in schedules() {
        for &sb in &[128usize, 200] {
            let sv = sched_vars(&s);
            let mut c = Challenger::<F>::new(sb);
            let want = spec_transcript(&sv, sb);
            for (i, (obs, n)) in sv.iter().enumerate() {
                c.observe_elements(obs);
                let got: Vec<F> = (0..*n).map(|_| c.get_challenge()).collect();
                prove_eqs(&format!("{:?}: round {}", s, i), &got, &want[i]);
            }
        }
    }
}
/// the grouped observe and draw calls are their one-by-one counterparts
fn t_entry_points() {
    super::cusp::set_cusp();
    let t: Vec<F> = vars("t", 4);
    let pts: Vec<AffinePoint<crate::sfield::C>> = t.iter().map(|t| {
        assume_nonzero(*t);
        super::cusp::cusp(*t)
    }).collect();
    let x: Vec<F> = pts.iter().flat_map(|p| vec![p.x, p.y]).collect();
    let p = |i: usize| pts[i / 2];
    for clone in 0..2 {
        let mut a = Challenger::<F>::new(128);
        let mut one = Challenger::<F>::new(128);
        a.observe_affine_point(p(0));
        one.observe_element(x[0]);
        one.observe_element(x[1]);
        let (a0, a1) = a.get_2_challenges();
        prove_eqs("two draws", &[a0, a1], &[one.get_challenge(), one.get_challenge()]);
        a.observe_affine_points(&[p(2), p(4)]);
        for i in 2..6 {
            one.observe_element(x[i]);
        }
        let mut fork = a.clone();
        let (b0, b1, b2) = a.get_3_challenges();
        prove_eqs("three draws", &[b0, b1, b2], &[one.get_challenge(), one.get_challenge(), one.get_challenge()]);
        let (f0, f1, f2) = fork.get_3_challenges();
        prove_eqs("a clone draws the same", &[f0, f1, f2], &[b0, b1, b2]);
        if clone == 1 {
            a = fork;
        }
        a.observe_proj_point(p(6).to_projective());
        one.observe_elements(&x[6..8]);
        prove_eqs("n draws", &a.get_n_challenges(4), &one.get_n_challenges(4));
        a.observe_proj_points(&[p(0).to_projective(), ProjectivePoint { x: x[2] + x[2], y: x[3] + x[3], z: F::TWO, zero: false }]);
        one.observe_elements(&x[0..4]);
        prove_eqs("projective points", &a.get_n_challenges(2), &one.get_n_challenges(2));
    }
}
/// distinct challenges: no two draws of one transcript are the same expression, and each draw
/// depends on every element observed before it (its value changes with it for some assignment)
fn t_depends() {
    for s in schedules() {
        let sv = sched_vars(&s);
        let run = |sv: &[(Vec<F>, usize)]| {
            let mut c = Challenger::<F>::new(80);
            let mut all = vec![];
            for (obs, n) in sv {
                c.observe_elements(obs);
                all.extend(c.get_n_challenges(*n));
            }
            all
        };
        let base = run(&sv);
        for i in 0..base.len() {
            for j in 0..i {
                prove(&format!("{:?}: draws {} and {} are different functions", s, j, i), differ(base[i], base[j]));
            }
        }
        let mut seen = 0;
        for r in 0..sv.len() {
            for k in 0..sv[r].0.len() {
                let mut other = sv.clone();
                other[r].0[k] = other[r].0[k] + F::ONE;
                let o = run(&other);
                // draws of rounds r.. come after the element
                for i in seen..base.len() {
                    prove(&format!("{:?}: draw {} depends on element {} of round {}", s, i, k, r), differ(base[i], o[i]));
                }
                for i in 0..seen {
                    prove_eq(&format!("{:?}: draw {} precedes round {}", s, i, r), base[i], o[i]);
                }
            }
            seen += sv[r].1;
        }
    }
}
fn differ(a: F, b: F) -> bool {
    let d = a - b;
    let mut e = crate::engine::eng();
    let d = e.resolve(d.0);
    e.as_const(d).is_none() || d != 0
}

#[cfg(feature = "hooks")]
fn in_circuit(scheds: Vec<Vec<(usize, usize)>>, sb: usize, rows: bool) {
    for s in scheds {
        let sv = sched_vars(&s);
        let mut b: BB = CircuitBuilder::new(sb);
        let mut ins: Vec<(TT, F)> = vec![];
        let rounds: Vec<(Vec<TT>, usize)> = sv
            .iter()
            .map(|(obs, n)| {
                let t = b.add_virtual_targets(obs.len());
                ins.extend(t.iter().cloned().zip(obs.iter().cloned()));
                (t, *n)
            })
            .collect();
        let outs = plonky::verif_hooks::recursive_challenges(&mut b, &rounds);
        let l = format!("{:?}", s);
        let r = if rows { run_circuit(&l, b, &ins) } else { run_only(b, &ins) };
        let mut c = Challenger::<F>::new(sb);
        for (i, (obs, n)) in sv.iter().enumerate() {
            c.observe_elements(obs);
            let native = c.get_n_challenges(*n);
            let got: Vec<F> = outs[i].iter().map(|o| val(&r, *o)).collect();
            prove_eqs(&format!("{}: in-circuit round {}", l, i), &got, &native);
        }
    }
}
#[cfg(feature = "hooks")]
fn t_circuit() {
    in_circuit(schedules(), 80, false);
}
#[cfg(feature = "hooks")]
fn t_circuit_rows() {
    in_circuit(vec![vec![(2, 1), (1, 1)]], 80, true);
}
#[cfg(feature = "hooks")]
fn t_circuit_levels() {
    in_circuit(vec![vec![(2, 2), (1, 2)]], 128, false);
    in_circuit(vec![vec![(2, 2), (1, 2)]], 200, false);
}

pub fn all() -> Vec<Scenario> {
    #[allow(unused_mut)]
    let mut v = vec![
        scenario!(Big, "P21", 0, p_native, "native permutation = the specified rounds, five security levels, widths 1-4"),
        scenario!(Big, "P21", 0, p_invertible, "S-boxes are mutually inverse; the mixing layer is injective"),
        scenario!(Big, "P21", 0, p_sponge_small, "sponge: 0-3 inputs, 1-7 outputs"),
        scenario!(Big, "P21", 0, p_sponge_large, "sponge: 4-10 inputs"),
        scenario!(Big, "P21", 0, p_hashes, "hash wrappers"),
        scenario!(Big, "P21", 0, p_circuit_permutation, "in-circuit permutation = native, rows satisfied"),
        scenario!(Big, "P21", 0, p_circuit_sponge, "in-circuit sponge = native"),
        scenario!(Big, "P21", 0, p_circuit_hashes, "in-circuit hashes = native"),
        scenario!(Big, "P20", 0, t_native_vs_spec, "native transcript = the duplex definition, 13 schedules, two security levels"),
        scenario!(Big, "P20", 0, t_entry_points, "grouped observe/draw calls and clones"),
        scenario!(Big, "P20", 0, t_depends, "every draw is a different function and depends on everything observed before it"),
    ];
    #[cfg(feature = "hooks")]
    v.extend(vec![
        scenario!(Big, "P20", 0, t_circuit, "in-circuit transcript = native, 13 schedules"),
        scenario!(Big, "P20", 0, t_circuit_rows, "in-circuit transcript: the witness satisfies every row"),
        scenario!(Big, "P20", 0, t_circuit_levels, "in-circuit transcript at other security levels"),
    ]);
    v
}
