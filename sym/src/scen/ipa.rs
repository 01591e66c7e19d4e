//! P22: polynomial commitments and the inner-product argument, over the stand-in group in which a point
//! is its discrete logarithm.
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F, L};
use plonky::halo::{batch_opening_proof, verify_ipa};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::*;

pub type LC = L<Big>;
pub type LA = AffinePoint<LC>;
pub type LP = ProjectivePoint<LC>;

pub fn pt(t: F) -> LA {
    AffinePoint { x: t, y: F::ONE, zero: false }
}
pub fn ptp(t: F) -> LP {
    pt(t).to_projective()
}
pub fn log(p: LP) -> F {
    let a = p.to_affine();
    if a.zero {
        F::ZERO
    } else {
        a.x
    }
}
pub fn loga(p: LA) -> F {
    if p.zero {
        F::ZERO
    } else {
        p.x
    }
}
pub fn set_zeta() {
    set_slot(ZETA, super::curve::cube_root());
    set_slot(ZETA_SCALAR, super::curve::cube_root());
}
fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}
fn dot(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).fold(F::ZERO, |s, (x, y)| s + *x * *y)
}
fn pows(x: F, n: usize) -> Vec<F> {
    let mut v = vec![F::ONE];
    while v.len() < n {
        let l = v[v.len() - 1];
        v.push(l * x);
    }
    v.truncate(n);
    v
}

// ---- the endomorphism-friendly scalar map
/// n(s): digit pairs (sign, endo), most significant first, from zero.
pub fn spec_n(bits: &[bool]) -> F {
    let z = super::curve::cube_root();
    let mut acc = F::ZERO;
    let mut i = 0;
    while i < bits.len() {
        let mut d = if bits[i + 1] { z } else { F::ONE };
        if !bits[i] {
            d = F::ZERO - d;
        }
        acc = acc + acc + d;
        i += 2;
    }
    acc
}
fn n_all(k: usize, t: F) {
    let bits: Vec<bool> = (0..k).map(|i| choose(&format!("b{}", i))).collect();
    n_one(&bits, t);
}
fn n_one(bits: &[bool], t: F) {
    let w = spec_n(bits);
    prove_eq("n(s)", halo_n::<LC>(bits), w);
    prove_eq("[n(s)]P", loga(halo_n_mul(bits, pt(t))), w * t);
}
fn ipa_halo_n_bits() {
    set_zeta();
    let t = var("t");
    n_all(0, t);
    n_all(2, t);
    n_all(4, t);
    n_all(8, t);
}
/// security-sized strings: a fixed pattern with the leading and trailing pairs free
fn ipa_halo_n_128() {
    set_zeta();
    let t = var("t");
    for seed in 0..2u64 {
        let mut bits = vec![];
        let mut s = 0x9E3779B97F4A7C15u64 ^ seed.wrapping_mul(0xD1B54A32D192ED03);
        for _ in 0..128 {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            bits.push(s & 1 == 1);
        }
        for i in &[0usize, 1, 62, 63, 64, 126, 127] {
            bits[*i] = choose(&format!("b{}", i));
        }
        n_one(&bits, t);
    }
}
/// real point formulas on the cuspidal cubic, where the endomorphism is multiplication by its cube root
fn ipa_halo_n_mul_cusp() {
    super::cusp::set_cusp();
    set_zeta();
    let t: F = var("t");
    assume_nonzero(t);
    let k = if choose("long") { 4 } else { 2 };
    let bits: Vec<bool> = (0..k).map(|i| choose(&format!("b{}", i))).collect();
    let w = spec_n(&bits);
    let p = super::cusp::cusp(t);
    let q = halo_n_mul::<C>(&bits, p);
    super::cusp::is_cusp_aff("[n(s)]P", q, w * t);
}

// ---- folding
fn ipa_fold_vectors() {
    let n = if choose("four") { 4 } else if choose("three") { 3 } else if choose("two") { 2 } else if choose("one") { 1 } else { 0 };
    let us: Vec<F> = vars("u", n);
    for u in &us {
        assume_nonzero(*u);
    }
    let x: F = var("x");
    let s = halo_s(&us);
    prove("halo_s length", s.len() == 1 << n);
    let mut w = vec![];
    for i in 0..1usize << n {
        let mut p = F::ONE;
        for j in 0..n {
            // the first challenge folds the halves, i.e. decides the most significant index bit
            let bit = (i >> (n - 1 - j)) & 1 == 1;
            p = if bit { p * us[j] } else { p / us[j] };
        }
        w.push(p);
    }
    prove_eqs("halo_s", &s, &w);
    prove_eq("halo_g = <s, powers>", halo_g(x, &us), dot(&w, &pows(x, 1 << n)));
    let old = OldProof::<LC> { halo_g: pt(F::ONE), halo_us: us.clone() };
    prove_eqs("OldProof::coeffs", &old.coeffs(), &w);
    prove_eq("OldProof::evaluate_g", old.evaluate_g(x), halo_g(x, &us));
    // folding a vector round by round is the inner product with s
    let g: Vec<F> = vars("g", 1 << n);
    let mut v = g.clone();
    for u in &us {
        let m = v.len() / 2;
        v = (0..m).map(|i| v[i] / *u + v[m + i] * *u).collect();
    }
    prove_eq("folded basis = <s, G>", v[0], dot(&s, &g));
}
fn ipa_fold_eight() {
    let us: Vec<F> = vars("u", 8);
    for u in &us {
        assume_nonzero(*u);
    }
    let s = halo_s(&us);
    prove("halo_s length", s.len() == 256);
    for i in 0..256usize {
        let mut p = F::ONE;
        for j in 0..8 {
            p = if (i >> (7 - j)) & 1 == 1 { p * us[j] } else { p / us[j] };
        }
        prove_eq("halo_s", s[i], p);
    }
    let x = f(3);
    prove_eq("halo_g = <s, powers>", halo_g(x, &us), dot(&s, &pows(x, 256)));
}

// ---- commitments
fn ipa_commit() {
    let n = if choose("five") { 5 } else if choose("two") { 2 } else if choose("one") { 1 } else { 0 };
    let (c, g): (Vec<F>, Vec<F>) = (vars("c", n), vars("g", n));
    let h: F = var("h");
    let gs: Vec<LP> = g.iter().map(|t| ptp(*t)).collect();
    let pre = msm_precompute(&gs, 8);
    prove_eq("pedersen_hash", log(pedersen_hash(&c, &pre)), dot(&c, &g));
    for blind in &[false, true] {
        let com = PolynomialCommitment::<LC>::coeffs_to_commitment(&c, &pre, pt(h), *blind);
        let r = com.randomness;
        if !blind {
            prove_zero("no blinding", r);
        } else {
            prove("blinding is drawn", !is_zero_everywhere(r));
        }
        prove_eq("commitment", loga(com.to_affine()), dot(&c, &g) + r * h);
        let com = Polynomial::from_coeffs(&c).commit::<LC>(&pre, pt(h), *blind);
        prove_eq("Polynomial::commit", loga(com.to_affine()), dot(&c, &g) + com.randomness * h);
    }
}
/// blinding factors are symbols: a fresh one is never identically zero
fn is_zero_everywhere(r: F) -> bool {
    if is_concrete() {
        return false;
    }
    r.is_const()
}
fn ipa_commit_many() {
    let n = 3;
    let g: Vec<F> = vars("g", n);
    let h: F = var("h");
    let gs: Vec<LP> = g.iter().map(|t| ptp(*t)).collect();
    let pre = msm_precompute(&gs, 8);
    let ps: Vec<Vec<F>> = (0..3).map(|i| vars(&format!("c{}_", i), n)).collect();
    let refs: Vec<&[F]> = ps.iter().map(|p| &p[..]).collect();
    for blind in &[false, true] {
        let mut cs = PolynomialCommitment::<LC>::coeffs_vec_to_commitments(&refs, &pre, pt(h), *blind);
        let polys: Vec<Polynomial<F>> = ps.iter().map(|p| Polynomial::from(p.clone())).collect();
        let cs2 = commit_polynomials::<LC>(&polys, &pre, pt(h), *blind);
        prove("number of commitments", cs.len() == 3 && cs2.len() == 3);
        for i in 0..3 {
            prove_eq("commitments in order", loga(cs[i].to_affine()), dot(&ps[i], &g) + cs[i].randomness * h);
            prove_eq("commit_polynomials in order", loga(cs2[i].to_affine()), dot(&ps[i], &g) + cs2[i].randomness * h);
            if !blind {
                prove_zero("no blinding", cs[i].randomness);
            }
        }
        if *blind {
            for i in 0..3 {
                for j in 0..i {
                    prove("independent blinding", is_concrete() || !is_zero_everywhere(cs[i].randomness - cs[j].randomness));
                }
            }
        }
        // converting a mixed list changes no point and no order, whatever the arrangement
        let a: Vec<F> = vars("a", 4);
        let want: Vec<F> = cs.iter().map(|c| loga(c.to_affine())).collect();
        let rows: Vec<Vec<F>> = vec![ps[1].clone(), ps[0].clone(), ps[2].clone(), vec![a[0], a[1], a[2]]];
        let proj: Vec<_> = rows.iter().map(|r| PolynomialCommitment::<LC>::coeffs_to_commitment(r, &pre, pt(h), false)).collect();
        for mask in 0..16usize {
            let mut mixed: Vec<_> = (0..4).map(|i| if mask >> i & 1 == 1 { proj[i] } else { PolynomialCommitment::from(pt(a[i])) }).collect();
            PolynomialCommitment::batch_to_affine(&mut mixed);
            let got: Vec<F> = PolynomialCommitment::commitments_to_affine_vec(&mixed).iter().map(|p| loga(*p)).collect();
            let expect: Vec<F> = (0..4).map(|i| if mask >> i & 1 == 1 { dot(&rows[i], &g) } else { a[i] }).collect();
            prove_eqs(&format!("batch_to_affine {:04b}", mask), &got, &expect);
        }
        let mixed = [PolynomialCommitment::<LC>::from(pt(a[0])); 2];
        prove_zero("an affine point carries no blinding", mixed[1].randomness);
        PolynomialCommitment::batch_to_affine(&mut cs);
        let again: Vec<F> = PolynomialCommitment::commitments_to_affine_vec(&cs).iter().map(|p| loga(*p)).collect();
        prove_eqs("idempotent", &again, &want);
    }
}

// ---- the verifier's equation
fn ipa_verify_equation() {
    let k = if choose("three") { 3 } else if choose("two") { 2 } else if choose("one") { 1 } else { 0 };
    let (l, r, u): (Vec<F>, Vec<F>, Vec<F>) = (vars("l", k), vars("r", k), vars("u", k));
    for x in &u {
        assume_nonzero(*x);
    }
    let (g, com, value, b): (F, F, F, F) = (var("g"), var("com"), var("value"), var("b"));
    let (up, h, c): (F, F, F) = (var("uprime"), var("h"), var("chall"));
    let (sr, z1, z2): (F, F, F) = (var("sr"), var("z1"), var("z2"));
    let ok = verify_ipa::<LC>(
        &l.iter().map(|x| pt(*x)).collect::<Vec<_>>(),
        &r.iter().map(|x| pt(*x)).collect::<Vec<_>>(),
        pt(g),
        ptp(com),
        value,
        b,
        &u,
        ptp(up),
        pt(h),
        c,
        SchnorrProof { r: pt(sr), z1, z2 },
    );
    let mut q = com + value * up;
    for i in 0..k {
        q = q + u[i] * u[i] * l[i] + r[i] / (u[i] * u[i]);
    }
    let d = c * q + sr - (z1 * (g + b * up) + z2 * h);
    if ok {
        prove_zero("accepted: the group equation holds", d);
    } else {
        prove("rejected: the group equation fails", !d.is_zero());
    }
}

// ---- prover and verifier together
struct Op {
    polys: Vec<Vec<F>>,
    g: Vec<F>,
    h: F,
    u: F,
}
fn opening(o: &Op, blind: bool, points: &[F], claim: impl Fn(&mut Vec<Vec<F>>)) -> (bool, bool) {
    set_zeta();
    let n = o.g.len();
    let bits = 128;
    let gs: Vec<LA> = o.g.iter().map(|t| pt(*t)).collect();
    let pre = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
    let refs: Vec<&[F]> = o.polys.iter().map(|p| &p[..]).collect();
    let padded: Vec<Vec<F>> = o.polys.iter().map(|p| p.iter().cloned().chain((p.len()..n).map(|_| F::ZERO)).collect()).collect();
    let coms = PolynomialCommitment::<LC>::coeffs_vec_to_commitments(&padded.iter().map(|p| &p[..]).collect::<Vec<_>>(), &pre, pt(o.h), blind);
    let mut ch = Challenger::<F>::new(bits);
    ch.observe_affine_points(&PolynomialCommitment::commitments_to_affine_vec(&coms));
    let mut values: Vec<Vec<F>> = points.iter().map(|x| o.polys.iter().map(|p| dot(p, &pows(*x, p.len()))).collect()).collect();
    let (v, u, us) = ch.get_3_challenges();
    let mut vch = ch.clone();
    let proof = batch_opening_proof::<LC>(&refs, &coms, points, &gs, ptp(o.h), pt(o.u), u, v, us, n, bits, &mut ch)
        .expect("conversions are the identity here");
    // the verifier's side, from the proof alone
    let mut halo_us = vec![];
    prove("rounds", 1usize << proof.halo_l.len() == n && proof.halo_l.len() == proof.halo_r.len());
    for i in 0..proof.halo_l.len() {
        vch.observe_affine_points(&[proof.halo_l[i], proof.halo_r[i]]);
        let c = vch.get_challenge();
        let sq = spec_n(&c.to_canonical_bool_vec()[..bits]);
        match sq.square_root() {
            Some(x) => halo_us.push(x),
            None => {
                prove("the prover only uses challenges whose image is a square", false);
                return (false, false);
            }
        }
    }
    vch.observe_affine_point(proof.schnorr_proof.r);
    let c = vch.get_challenge();
    let s: Vec<F> = pows(u, o.polys.len()).iter().map(|x| spec_n(&x.to_canonical_bool_vec()[..bits])).collect();
    let cs: Vec<F> = coms.iter().map(|c| loga(c.to_affine())).collect();
    claim(&mut values);
    let vp = pows(v, points.len());
    let value = dot(&vp, &values.iter().map(|r| dot(r, &s)).collect::<Vec<_>>());
    let b = dot(&vp, &points.iter().map(|x| halo_g(*x, &halo_us)).collect::<Vec<_>>());
    let up = spec_n(&us.to_canonical_bool_vec()[..bits]) * o.u;
    let ok = verify_ipa::<LC>(
        &proof.halo_l, &proof.halo_r, proof.halo_g, ptp(dot(&cs, &s)), value, b, &halo_us, ptp(up), pt(o.h), c, proof.schnorr_proof,
    );
    let folded = dot(&halo_s(&halo_us), &o.g);
    (ok, loga(proof.halo_g) == folded)
}
fn op(n: usize, m: usize, bases: bool) -> Op {
    Op {
        polys: (0..m).map(|i| vars(&format!("c{}_", i), n)).collect(),
        g: if bases { vars("g", n) } else { (0..n).map(|i| f(1000 + 17 * i as u64)).collect() },
        h: var("h"),
        u: var("u"),
    }
}
fn completeness(n: usize, m: usize, bases: bool, blind: bool) {
    tokens();
    let o = op(n, m, bases);
    let pts: Vec<F> = vars("x", 2);
    let (ok, g) = opening(&o, blind, &pts, |_| {});
    prove("an honest opening is accepted", ok);
    prove("the folded basis is <s, G>", g);
}
fn ipa_open_1() {
    completeness(1, 2, true, choose("blind"));
}
fn ipa_open_2() {
    completeness(2, 2, true, choose("blind"));
}
fn ipa_open_4() {
    completeness(4, 2, true, choose("blind"));
}
/// more polynomials, of different lengths, three opening points
fn ipa_open_many() {
    tokens();
    let mut o = op(4, 3, false);
    o.polys[1].truncate(2);
    o.polys[2].truncate(3);
    let pts = vec![f(3), f(99), f(12345)];
    let (ok, g) = opening(&o, true, &pts, |_| {});
    prove("an honest opening is accepted", ok);
    prove("the folded basis is <s, G>", g);
}
fn ipa_open_8() {
    tokens();
    let o = op(8, 2, true);
    let pts = vec![var("x")];
    let (ok, g) = opening(&o, true, &pts, |_| {});
    prove("an honest opening is accepted", ok);
    prove("the folded basis is <s, G>", g);
}
fn ipa_open_16() {
    tokens();
    let o = op(16, 1, false);
    let pts = vec![f(3), f(99), f(12345)];
    let (ok, g) = opening(&o, true, &pts, |_| {});
    prove("an honest opening is accepted", ok);
    prove("the folded basis is <s, G>", g);
}
/// a claimed evaluation that is off by d is accepted only for d = 0
fn ipa_wrong_value() {
    tokens();
    fix_rand();
    let o = Op { polys: vec![vec![f(5), f(7)], vec![f(11), f(13)]], g: vec![f(3), f(77)], h: f(12), u: f(21) };
    let d: F = var("d");
    let which = if choose("first") { 0 } else { 1 };
    let row = if choose("row") { 0 } else { 1 };
    let (ok, _) = opening(&o, true, &[f(4), f(8)], |v| v[row][which] = v[row][which] + d);
    if ok {
        prove_zero("accepted: the claim is right", d);
    } else {
        prove("rejected: the claim is wrong", !d.is_zero());
    }
}

pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P22", 0, ipa_halo_n_bits, "n(s) and [n(s)]P for every bit string of length 0, 2, 4, 8 and every P"),
        scenario!(Big, "P22", 0, ipa_halo_n_128, "n(s) and [n(s)]P for 128-bit strings (7 free bits in 2 fixed patterns), every P"),
        scenario!(Big, "P22", 0, ipa_halo_n_mul_cusp, "[n(s)]P through the real point formulas, 2- and 4-bit strings, every point of the cuspidal cubic"),
        scenario!(Big, "P22", 0, ipa_fold_vectors, "halo_s, halo_g, OldProof and round-by-round folding agree, 0..4 rounds, all challenges"),
        scenario!(Big, "P22", 0, ipa_fold_eight, "halo_s and halo_g for 8 rounds, all challenges"),
        scenario!(Big, "P22", 0, ipa_commit, "commitment = <coefficients, bases> + blinding, lengths 0, 1, 2, 5, all values"),
        scenario!(Big, "P22", 0, ipa_commit_many, "lists of commitments: order, blinding, mixed affine/projective conversion"),
        scenario!(Big, "P22", 0, ipa_verify_equation, "verify_ipa accepts exactly when its group equation holds, 0..3 rounds, all values"),
        scenario!(Big, "P22", 0, ipa_open_1, "opening proofs accepted: size 1, 2 polynomials, all coefficients, bases, points"),
        scenario!(Big, "P22", 0, ipa_open_2, "opening proofs accepted: size 2, 2 polynomials, all coefficients, bases, points"),
        scenario!(Big, "P22", 0, ipa_open_4, "opening proofs accepted: size 4, all coefficients and points"),
        scenario!(Big, "P22", 0, ipa_open_many, "opening proofs accepted: size 4, 3 polynomials of lengths 4, 2, 3, three points"),
        scenario!(Big, "P22", 0, ipa_open_8, "opening proofs accepted: size 8, 2 polynomials, all coefficients and bases, one point"),
        scenario!(Big, "P22", 0, ipa_open_16, "opening proofs accepted: size 16, all coefficients, three points"),
        scenario!(Big, "P22", 0, ipa_wrong_value, "a claimed evaluation off by d is accepted only for d = 0, all d"),
    ]
}
