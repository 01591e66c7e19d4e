//! P23, P24: the prover and the native verifier as a whole, over the stand-in group in which a point is
//! its discrete logarithm.
use super::ipa::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::plonk_util::{halo_g, halo_s, sigma_polynomials};
use plonky::*;

type Bld = CircuitBuilder<LC>;
type TT = Target<F>;
type Pf = Proof<LC>;
type Vk = VerificationKey<LC>;
const NW: usize = 9;
const NR: usize = 6;
const NC: usize = 6;
const NT: usize = 7;

fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}
/// fixed pseudo-random constants
pub fn k(seed: u64) -> F {
    let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567;
    let mut v = vec![];
    for _ in 0..4 {
        h ^= h >> 30;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 27;
        v.push(h);
        h = h.wrapping_add(0xD1B54A32D192ED03);
    }
    v[3] >>= 3;
    F::from_canonical_u64_vec(v)
}
fn ipow(x: F, n: usize) -> F {
    (0..n).fold(F::ONE, |a, _| a * x)
}
fn dot(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).fold(F::ZERO, |s, (x, y)| s + *x * *y)
}
fn pows(x: F, n: usize) -> Vec<F> {
    (0..n).map(|i| ipow(x, i)).collect()
}
pub fn begin() {
    tokens();
    fix_rand();
    set_zeta();
    super::cusp::set_cusp();
}
fn shifts() -> Vec<F> {
    sigma_polynomials::<F>((0..NR).collect(), 1, F::ONE).iter().map(|v| v[0]).collect()
}
fn root(n: usize) -> F {
    F::primitive_root_of_unity(n.trailing_zeros() as usize)
}
/// L_i(x) for the order-n subgroup
fn lagrange(n: usize, i: usize, x: F) -> F {
    let g = ipow(root(n), i);
    g * (ipow(x, n) - F::ONE) / (f(n as u64) * (x - g))
}

// ------------------------------------------------------------------------------ specification
/// The relations a valid proof satisfies, each as a value that must be zero.
struct Spec {
    t: F,
    pi: F,
    old: Vec<F>,
    ipa: F,
    g: F,
}
fn vanishing(n: usize, ch: &ProofChallenge<LC>, local: &OpeningSet<F>, right: &OpeningSet<F>, below: &OpeningSet<F>) -> F {
    let zh = ipow(ch.zeta, n) - F::ONE;
    let mut acc = lagrange(n, 0, ch.zeta) * (local.o_plonk_z - F::ONE);
    let (mut a, mut b) = (local.o_plonk_z, right.o_plonk_z);
    let ks = shifts();
    for j in 0..NR {
        a = a * (local.o_wires[j] + ch.beta * ks[j] * ch.zeta + ch.gamma);
        b = b * (local.o_wires[j] + ch.beta * local.o_plonk_sigmas[j] + ch.gamma);
    }
    let mut al = ch.alpha;
    acc = acc + al * (a - b);
    for c in evaluate_all_constraints::<LC, C>(&local.o_constants, &local.o_wires, &right.o_wires, &below.o_wires) {
        al = al * ch.alpha;
        acc = acc + al * c;
    }
    let _ = zh;
    acc
}
fn spec(vk: &Vk, pis: &[F], p: &Pf, old: &[OldProof<LC>], ch: &ProofChallenge<LC>, bits: usize) -> Spec {
    let n = vk.degree;
    let zn = ipow(ch.zeta, n);
    let t = vanishing(n, ch, &p.o_local, &p.o_right, &p.o_below) - (zn - F::ONE) * dot(&p.o_local.o_plonk_t, &pows(zn, NT));
    // public inputs: row base + 2k carries inputs 9k..9k+9
    let mut num = dot(&p.o_local.o_wires, &pows(ch.alpha, NW));
    let mut den = F::ONE;
    for r in 0..(pis.len() + NW - 1) / NW {
        let row = vk.num_gates_without_pis + 2 * r;
        let l = lagrange(n, row, ch.zeta);
        for j in 0..NW {
            if 9 * r + j < pis.len() {
                num = num - l * ipow(ch.alpha, j) * pis[9 * r + j];
            }
        }
        den = den * (ch.zeta - ipow(root(n), row));
    }
    let pi = num - den * p.o_local.o_pi_quotient;
    let olds = (0..old.len()).map(|i| halo_g(ch.zeta, &old[i].halo_us) - p.o_local.o_old_proofs[i]).collect();
    // one combined opening
    let mut coms: Vec<F> = vec![];
    coms.extend(vk.c_constants.iter().map(|x| loga(*x)));
    coms.extend(vk.c_s_sigmas.iter().map(|x| loga(*x)));
    coms.extend(p.c_wires.iter().map(|x| loga(*x)));
    coms.push(loga(p.c_plonk_z));
    coms.extend(p.c_plonk_t.iter().map(|x| loga(*x)));
    coms.extend(old.iter().map(|o| loga(o.halo_g)));
    coms.push(loga(p.c_pis_quotient));
    let s: Vec<F> = (0..coms.len()).map(|i| spec_n(&ipow(ch.u, i).to_canonical_bool_vec()[..bits])).collect();
    let vals: Vec<F> = [&p.o_local, &p.o_right, &p.o_below].iter().map(|o| {
        let mut v = o.o_constants.clone();
        v.extend(o.o_plonk_sigmas.iter());
        v.extend(o.o_wires.iter());
        v.push(o.o_plonk_z);
        v.extend(o.o_plonk_t.iter());
        v.extend(o.o_old_proofs.iter());
        v.push(o.o_pi_quotient);
        dot(&v, &s)
    }).collect();
    let g = root(n);
    let points = [ch.zeta, ch.zeta * g, ch.zeta * ipow(g, 65)];
    let value = dot(&vals, &pows(ch.v, 3));
    let sv = halo_s(&ch.halo_us);
    let b = (0..3).fold(F::ZERO, |acc, i| acc + ipow(ch.v, i) * dot(&sv, &pows(points[i], n)));
    let up = spec_n(&ch.u_scaling.to_canonical_bool_vec()[..bits]) * blake_hash_usize_to_curve::<LC>(n + 1).x;
    let h = blake_hash_usize_to_curve::<LC>(n).x;
    let mut q = dot(&coms, &s) + value * up;
    for i in 0..ch.halo_us.len() {
        let u2 = ch.halo_us[i] * ch.halo_us[i];
        q = q + u2 * loga(p.halo_l[i]) + loga(p.halo_r[i]) / u2;
    }
    let sp = &p.schnorr_proof;
    let ipa = ch.schnorr_challenge * q + loga(sp.r) - sp.z1 * (loga(p.halo_g) + b * up) - sp.z2 * h;
    let bases: Vec<F> = (0..n).map(|i| blake_hash_usize_to_curve::<LC>(i).x).collect();
    Spec { t, pi, old: olds, ipa, g: loga(p.halo_g) - dot(&sv, &bases) }
}
/// Verifies and compares the verdict with the specification.
fn judge(vk: &Vk, pis: &[F], p: &Pf, old: &[OldProof<LC>], full: bool) {
    let r = verify_proof::<LC, C>(pis, p, old, vk, full);
    let ch = match p.get_challenges(pis, old, vk.security_bits) {
        Ok(ch) => ch,
        Err(_) => {
            prove("no challenges, no verdict", r.is_err());
            return;
        }
    };
    let s = spec(vk, pis, p, old, &ch, vk.security_bits);
    match r {
        Ok(o) => {
            prove_zero("accepted: quotient relation", s.t);
            prove_zero("accepted: public-input relation", s.pi);
            for x in &s.old {
                prove_zero("accepted: old proof opening", *x);
            }
            prove_zero("accepted: commitment openings", s.ipa);
            if full {
                prove_zero("accepted: folded basis", s.g);
                prove("a complete verification leaves nothing to check", o.is_none());
            } else {
                match o {
                    None => prove("the deferred check is returned", false),
                    Some(o) => {
                        prove_eq("deferred G", loga(o.halo_g), loga(p.halo_g));
                        prove_eqs("deferred challenges", &o.halo_us, &ch.halo_us);
                    }
                }
            }
        }
        Err(_) => {
            let mut z = s.t.is_zero() && s.pi.is_zero() && s.old.iter().all(|x| x.is_zero()) && s.ipa.is_zero();
            z = z && (!full || s.g.is_zero());
            prove("rejected: some relation fails", !z);
        }
    }
}

// ------------------------------------------------------------------------------ P23
fn set(seed: u64, old: usize) -> OpeningSet<F> {
    let r = |i: u64, n: usize| (0..n).map(|j| k(seed * 1000 + i * 50 + j as u64)).collect::<Vec<_>>();
    OpeningSet {
        o_constants: r(0, NC),
        o_plonk_sigmas: r(1, NR),
        o_wires: r(2, NW),
        o_plonk_z: k(seed * 1000 + 300),
        o_plonk_t: r(4, NT),
        o_old_proofs: r(5, old),
        o_pi_quotient: k(seed * 1000 + 301),
    }
}
struct Case {
    vk: Vk,
    pis: Vec<F>,
    proof: Pf,
    old: Vec<OldProof<LC>>,
}
fn pts(seed: u64, n: usize) -> Vec<LA> {
    (0..n).map(|j| pt(k(seed * 777 + j as u64))).collect()
}
/// A proof of the right shape with arbitrary constants; one unknown for each relation.
fn case(rounds: usize, npis: usize, base: usize, old: usize) -> Case {
    case_with(rounds, npis, base, old, choose("precomputed"))
}
fn case_with(rounds: usize, npis: usize, base: usize, old: usize, precomputed: bool) -> Case {
    let vk = VerificationKey {
        c_constants: pts(1, NC),
        c_s_sigmas: pts(2, NR),
        degree: 1 << rounds,
        num_public_inputs: npis,
        num_gates_without_pis: base,
        security_bits: 128,
        pedersen_g_msm_precomputation: None,
        fft_precomputation: if precomputed { Some(fft_precompute(1 << rounds)) } else { None },
    };
    let mut o_local = set(3, old);
    o_local.o_plonk_t[0] = var("t0");
    o_local.o_pi_quotient = var("piq");
    for i in 0..old {
        o_local.o_old_proofs[i] = var(&format!("old{}", i));
    }
    let proof = Proof {
        c_wires: pts(10, NW),
        c_plonk_z: pts(11, 1)[0],
        c_plonk_t: pts(12, NT),
        c_pis_quotient: pts(13, 1)[0],
        o_local,
        o_right: set(4, old),
        o_below: set(5, old),
        halo_l: pts(14, rounds),
        halo_r: pts(15, rounds),
        halo_g: pt(var("g")),
        schnorr_proof: SchnorrProof { r: pts(16, 1)[0], z1: k(1717), z2: var("z2") },
    };
    let olds = (0..old).map(|i| OldProof { halo_g: pt(k(2000 + i as u64)), halo_us: (0..rounds).map(|j| k(2100 + 10 * i as u64 + j as u64)).collect() }).collect();
    Case { vk, pis: (0..npis).map(|i| k(3000 + i as u64)).collect(), proof, old: olds }
}
/// picks the folding messages so that every folding challenge has a square image
fn usable(c: &mut Case) {
    let n = c.proof.halo_l.len();
    let l0 = c.proof.halo_l.clone();
    for i in 0..n {
        for a in 0..64u64 {
            let mut p = c.proof.clone();
            p.halo_l.truncate(i + 1);
            p.halo_r.truncate(i + 1);
            p.halo_l[i] = pt(loga(l0[i]) + f(a));
            if p.get_challenges(&c.pis, &c.old, 128).is_ok() {
                c.proof.halo_l[i] = p.halo_l[i];
                break;
            }
        }
    }
    prove("usable folding messages exist", c.proof.get_challenges(&c.pis, &c.old, 128).is_ok());
}
fn v_with(edit: impl Fn(&mut Case)) {
    begin();
    let mut c = case(3, 10, 2, 0);
    edit(&mut c);
    usable(&mut c);
    judge(&c.vk, &c.pis, &c.proof, &c.old, true);
}
fn fill(v: &mut Vec<F>, p: &str) {
    for i in 0..v.len() {
        v[i] = var(&format!("{}{}", p, i));
    }
}
fn vf_wires() {
    v_with(|c| {
        fill(&mut c.proof.o_local.o_wires, "w");
        // selectors of the multiply-add gate, other constants free
        for i in 0..NC {
            c.proof.o_local.o_constants[i] = k(55 + i as u64);
        }
    });
}
fn vf_right() {
    v_with(|c| {
        fill(&mut c.proof.o_right.o_wires, "r");
        fill(&mut c.proof.o_below.o_wires, "b");
    });
}
fn vf_constants() {
    v_with(|c| {
        fill(&mut c.proof.o_local.o_constants, "c");
        fill(&mut c.proof.o_right.o_constants, "cr");
        fill(&mut c.proof.o_below.o_constants, "cb");
    });
}
fn vf_permutation() {
    v_with(|c| {
        fill(&mut c.proof.o_local.o_plonk_sigmas, "s");
        c.proof.o_local.o_plonk_z = var("z");
        c.proof.o_right.o_plonk_z = var("zr");
    });
}
fn vf_quotient() {
    v_with(|c| {
        fill(&mut c.proof.o_local.o_plonk_t, "t");
        fill(&mut c.proof.o_right.o_plonk_t, "tr");
        fill(&mut c.proof.o_below.o_plonk_t, "tb");
        fill(&mut c.proof.o_right.o_plonk_sigmas, "sr");
        fill(&mut c.proof.o_below.o_plonk_sigmas, "sb");
        c.proof.o_below.o_plonk_z = var("zb");
        c.proof.o_right.o_pi_quotient = var("pr");
        c.proof.o_below.o_pi_quotient = var("pb");
    });
}
fn vf_public_inputs() {
    v_with(|c| {
        fill(&mut c.pis, "pi");
    });
}
fn lift(v: &mut Vec<LA>, p: &str) {
    for i in 0..v.len() {
        v[i] = pt(var::<Big>(&format!("{}{}", p, i)) + k(9000 + i as u64));
    }
}
fn vf_commitments() {
    v_with(|c| {
        lift(&mut c.vk.c_constants, "cc");
        lift(&mut c.vk.c_s_sigmas, "cs");
        lift(&mut c.proof.c_wires, "cw");
        lift(&mut c.proof.c_plonk_t, "ct");
        c.proof.c_plonk_z = pt(var("cz"));
        c.proof.c_pis_quotient = pt(var("cp"));
        lift(&mut c.proof.halo_l, "l");
        lift(&mut c.proof.halo_r, "r");
        c.proof.schnorr_proof.r = pt(var("sr"));
        c.proof.schnorr_proof.z1 = var("z1");
    });
}
/// other public-input counts and positions, old proofs, domain sizes, deferred final check
fn vf_shapes_old() {
    begin();
    let s = if choose("old2") {
        (2, 1, 1, 2)
    } else if choose("old1") {
        (3, 0, 5, 1)
    } else {
        (4, 28, 7, 1)
    };
    shapes(s)
}
fn vf_shapes_new() {
    begin();
    let s = if choose("nine") {
        (3, 9, 4, 0)
    } else if choose("nineteen") {
        (3, 19, 1, 0)
    } else {
        (1, 1, 0, 0)
    };
    shapes(s)
}
fn shapes((rounds, npis, base, old): (usize, usize, usize, usize)) {
    let full = choose("full");
    let mut c = case(rounds, npis, base, old);
    if npis > 0 {
        c.pis[npis - 1] = var("pi");
        c.pis[0] = var("pi0");
    }
    for o in c.old.iter_mut() {
        o.halo_us[0] = k(4444);
        o.halo_g = pt(loga(o.halo_g) + var("og"));
    }
    usable(&mut c);
    judge(&c.vk, &c.pis, &c.proof, &c.old, full);
}
/// Every component list one too short, one too long or empty: an error, not a panic.
fn vf_wrong_shape() {
    begin();
    generic(true);
    let mut c = case(2, 3, 1, 1);
    usable(&mut c);
    let how = if choose("short") { 0 } else if choose("long") { 1 } else { 2 };
    fn m<T: Clone>(v: &mut Vec<T>, how: usize) {
        match how {
            0 => {
                v.pop();
            }
            1 => {
                let x = v[0].clone();
                v.push(x)
            }
            _ => v.clear(),
        }
    }
    let names = ["c_wires", "c_plonk_t", "halo_l", "halo_r", "halo_lr", "pis", "old",
        "constants", "sigmas", "wires", "t", "old openings"];
    for (i, name) in names.iter().enumerate() {
        for set in 0..3usize {
            if i < 7 && set > 0 {
                continue;
            }
            let mut p = c.proof.clone();
            let mut pis = c.pis.clone();
            let mut old = c.old.clone();
            {
                let o = match set {
                    0 => &mut p.o_local,
                    1 => &mut p.o_right,
                    _ => &mut p.o_below,
                };
                match i {
                    7 => m(&mut o.o_constants, how),
                    8 => m(&mut o.o_plonk_sigmas, how),
                    9 => m(&mut o.o_wires, how),
                    10 => m(&mut o.o_plonk_t, how),
                    11 => m(&mut o.o_old_proofs, how),
                    _ => {}
                }
            }
            match i {
                0 => m(&mut p.c_wires, how),
                1 => m(&mut p.c_plonk_t, how),
                2 => m(&mut p.halo_l, how),
                3 => m(&mut p.halo_r, how),
                4 => {
                    m(&mut p.halo_l, how);
                    m(&mut p.halo_r, how)
                }
                5 => m(&mut pis, how),
                6 => m(&mut old, how),
                _ => {}
            }
            let r = verify_proof::<LC, C>(&pis, &p, &old, &c.vk, true);
            prove(&format!("wrong number of {}: rejected", name), r.is_err());
        }
    }
}
/// Every point off the curve, one at a time, in a proof that satisfies every relation.
fn vf_off_curve() {
    begin();
    let mut c = case(2, 3, 1, 0);
    usable(&mut c);
    let ch = c.proof.get_challenges(&c.pis, &c.old, 128).expect("usable");
    let s = spec(&c.vk, &c.pis, &c.proof, &c.old, &ch, 128);
    for r in &[s.t, s.pi, s.g, s.ipa] {
        require_zero(*r);
    }
    let good = verify_proof::<LC, C>(&c.pis, &c.proof, &c.old, &c.vk, true);
    prove("the valid proof is accepted", good.is_ok());
    let n = NW + 1 + NT + 1 + 2 + 2 + 1 + 1;
    for i in 0..n {
        let mut p = c.proof.clone();
        let name;
        {
            let mut all: Vec<(&str, &mut LA)> = vec![];
            for x in p.c_wires.iter_mut() {
                all.push(("wire commitment", x));
            }
            all.push(("Z commitment", &mut p.c_plonk_z));
            for x in p.c_plonk_t.iter_mut() {
                all.push(("t commitment", x));
            }
            all.push(("public-input quotient commitment", &mut p.c_pis_quotient));
            for x in p.halo_l.iter_mut() {
                all.push(("L", x));
            }
            for x in p.halo_r.iter_mut() {
                all.push(("R", x));
            }
            all.push(("G", &mut p.halo_g));
            all.push(("Schnorr R", &mut p.schnorr_proof.r));
            assert_eq!(all.len(), n);
            name = all[i].0.to_string();
            // the discrete logarithm, so everything else about the proof, is unchanged
            all[i].1.y = F::TWO;
            generic(true);
            let bad = !all[i].1.is_valid();
            generic(false);
            prove("off the curve", bad);
        }
        if p.get_challenges(&c.pis, &c.old, 128).is_err() {
            continue;
        }
        generic(true);
        let r = verify_proof::<LC, C>(&c.pis, &p, &c.old, &c.vk, true);
        generic(false);
        prove(&format!("{} off the curve: rejected", name), r.is_err());
    }
}

/// Every challenge of a proof is bound to every component absorbed before it: changing the component
/// changes all of them, and none of the challenges drawn earlier.
fn binding(rounds: usize, npis: usize, old: usize, all: bool) {
    let mut c = case_with(rounds, npis, 1, old, false);
    c.proof.o_local.o_plonk_t[0] = k(71);
    c.proof.o_local.o_pi_quotient = k(72);
    for i in 0..old {
        c.proof.o_local.o_old_proofs[i] = k(73 + i as u64);
    }
    c.proof.halo_g = pt(k(77));
    c.proof.schnorr_proof.z2 = k(78);
    usable(&mut c);
    fn list(ch: &ProofChallenge<LC>) -> Vec<F> {
        let mut v = vec![ch.beta, ch.gamma, ch.alpha, ch.zeta, ch.v, ch.u, ch.u_scaling];
        v.extend(ch.halo_us.iter());
        v.push(ch.schnorr_challenge);
        v
    }
    let base = list(&c.proof.get_challenges(&c.pis, &c.old, 128).expect("usable"));
    for i in 0..base.len() {
        for j in 0..i {
            prove("challenges are different functions of the transcript", !(base[i] - base[j]).is_zero());
        }
    }
    // (component, index of the first challenge drawn after it, edit)
    enum E {
        P(Box<dyn Fn(&mut Case, LA)>),
        S(Box<dyn Fn(&mut Case, F)>),
    }
    let mut comps: Vec<(&str, usize, E)> = vec![];
    for j in 0..NW {
        comps.push(("wire commitment", 0, E::P(Box::new(move |c, x| c.proof.c_wires[j] = x))));
    }
    for j in 0..npis {
        comps.push(("public input", 0, E::S(Box::new(move |c, x| c.pis[j] = x))));
    }
    comps.push(("Z commitment", 2, E::P(Box::new(|c, x| c.proof.c_plonk_z = x))));
    for j in 0..NT {
        comps.push(("t commitment", 3, E::P(Box::new(move |c, x| c.proof.c_plonk_t[j] = x))));
    }
    comps.push(("public-input quotient commitment", 3, E::P(Box::new(|c, x| c.proof.c_pis_quotient = x))));
    for j in 0..old {
        comps.push(("old proof", 3, E::P(Box::new(move |c, x| c.old[j].halo_g = x))));
    }
    fn os(c: &mut Case, i: usize) -> &mut OpeningSet<F> {
        match i {
            0 => &mut c.proof.o_local,
            1 => &mut c.proof.o_right,
            _ => &mut c.proof.o_below,
        }
    }
    for i in 0..3 {
        for j in 0..NC {
            comps.push(("constant opening", 4, E::S(Box::new(move |c, x| os(c, i).o_constants[j] = x))));
        }
        for j in 0..NR {
            comps.push(("permutation opening", 4, E::S(Box::new(move |c, x| os(c, i).o_plonk_sigmas[j] = x))));
        }
        for j in 0..NW {
            comps.push(("wire opening", 4, E::S(Box::new(move |c, x| os(c, i).o_wires[j] = x))));
        }
        comps.push(("Z opening", 4, E::S(Box::new(move |c, x| os(c, i).o_plonk_z = x))));
        for j in 0..NT {
            comps.push(("t opening", 4, E::S(Box::new(move |c, x| os(c, i).o_plonk_t[j] = x))));
        }
        for j in 0..old {
            comps.push(("old proof opening", 4, E::S(Box::new(move |c, x| os(c, i).o_old_proofs[j] = x))));
        }
        comps.push(("public-input quotient opening", 4, E::S(Box::new(move |c, x| os(c, i).o_pi_quotient = x))));
    }
    for j in 0..rounds {
        comps.push(("folding message L", 7 + j, E::P(Box::new(move |c, x| c.proof.halo_l[j] = x))));
        comps.push(("folding message R", 7 + j, E::P(Box::new(move |c, x| c.proof.halo_r[j] = x))));
    }
    comps.push(("Schnorr commitment", 7 + rounds, E::P(Box::new(|c, x| c.proof.schnorr_proof.r = x))));
    let x = var::<Big>("x");
    for (name, first, edit) in &comps {
        if !all && *first < 7 {
            continue;
        }
        let mut found = false;
        for a in 0..200u64 {
            let mut d = Case { vk: c.vk.clone(), pis: c.pis.clone(), proof: c.proof.clone(), old: c.old.iter().map(|o| OldProof { halo_g: o.halo_g, halo_us: o.halo_us.clone() }).collect() };
            match edit {
                E::P(e) => e(&mut d, pt(x + k(4000 + a))),
                E::S(e) => e(&mut d, x + k(4000 + a)),
            }
            let got = match d.proof.get_challenges(&d.pis, &d.old, 128) {
                Ok(ch) => list(&ch),
                Err(_) => continue,
            };
            found = true;
            prove("same number of challenges", got.len() == base.len());
            for i in 0..base.len() {
                if i < *first {
                    prove(&format!("{}: challenge {} was drawn before it", name, i), (got[i] - base[i]).is_zero());
                } else {
                    prove(&format!("{} is bound by challenge {}", name, i), !(got[i] - base[i]).is_zero());
                }
            }
            break;
        }
        prove("a usable transcript exists", found);
    }
}
fn vf_binding() {
    begin();
    binding(1, 3, 1, true);
    binding(3, 3, 1, false)
}
fn t_proof() {
    begin();
    binding(1, 2, 2, true);
    binding(3, 1, 0, false)
}

// ------------------------------------------------------------------------------ P24
pub struct Setup {
    pub circuit: Circuit<LC>,
    pub witness: Witness<F>,
    pub pis: Vec<F>,
}
pub fn setup(b: Bld, inputs: &[(TT, F)]) -> Setup {
    let circuit = b.build();
    let mut pw = PartialWitness::new();
    for (t, v) in inputs {
        pw.set_target(*t, *v);
    }
    let witness = circuit.generate_witness(pw);
    let pis = circuit.get_public_inputs(&witness);
    Setup { circuit, witness, pis }
}
fn coeffs(values: &[F]) -> Vec<F> {
    let n = values.len();
    let (g, ninv) = (root(n).multiplicative_inverse().unwrap(), f(n as u64).multiplicative_inverse().unwrap());
    (0..n).map(|j| ninv * (0..n).fold(F::ZERO, |s, i| s + values[i] * ipow(g, (i * j) % n))).collect()
}
/// Proves, checks every reported opening against the witness, and runs the verifier.
fn honest(s: &Setup, old: &[OldProof<LC>], blind: bool) {
    generic(true);
    let n = s.circuit.degree();
    let vk = s.circuit.to_vk();
    let p = match s.circuit.generate_proof::<C>(&s.witness, old, blind) {
        Ok(p) => p,
        Err(_) => {
            prove("a proof is produced", false);
            return;
        }
    };
    let ch = match p.get_challenges(&s.pis, old, 128) {
        Ok(c) => c,
        Err(_) => {
            prove("the proof's challenges exist", false);
            return;
        }
    };
    let g = root(n);
    let sets = [(&p.o_local, ch.zeta), (&p.o_right, ch.zeta * g), (&p.o_below, ch.zeta * ipow(g, 65))];
    let consts: Vec<Vec<F>> = (0..NC).map(|j| (0..n).map(|i| s.circuit.gate_constants[i][j]).collect()).collect();
    let wires: Vec<Vec<F>> = (0..NW).map(|j| (0..n).map(|i| s.witness.get_indices(i, j)).collect()).collect();
    let ks = shifts();
    let sigma: Vec<Vec<F>> = (0..NR).map(|j| (0..n).map(|i| s.circuit.s_sigma_values_8n[j][8 * i]).collect()).collect();
    let mut z = vec![F::ONE];
    for i in 0..n - 1 {
        let mut q = F::ONE;
        for j in 0..NR {
            q = q * (wires[j][i] + ch.beta * ks[j] * ipow(g, i) + ch.gamma) / (wires[j][i] + ch.beta * sigma[j][i] + ch.gamma);
        }
        z.push(z[i] * q);
    }
    for (o, x) in &sets {
        let l: Vec<F> = (0..n).map(|i| lagrange(n, i, *x)).collect();
        for j in 0..NC {
            prove_eq("opening of a constant polynomial", o.o_constants[j], dot(&consts[j], &l));
        }
        for j in 0..NR {
            prove_eq("opening of a permutation polynomial", o.o_plonk_sigmas[j], dot(&sigma[j], &l));
        }
        for j in 0..NW {
            prove_eq("opening of a wire polynomial", o.o_wires[j], dot(&wires[j], &l));
        }
        prove_eq("opening of Z", o.o_plonk_z, dot(&z, &l));
    }
    let zn = ipow(ch.zeta, n);
    prove_eq("quotient relation", vanishing(n, &ch, &p.o_local, &p.o_right, &p.o_below), (zn - F::ONE) * dot(&p.o_local.o_plonk_t, &pows(zn, NT)));
    // commitments
    prove("the proof says how many quotient parts there are", p.c_plonk_t.len() == NT && p.o_local.o_plonk_t.len() == NT);
    let bases: Vec<F> = (0..n).map(|i| blake_hash_usize_to_curve::<LC>(i).x).collect();
    if !blind {
        for j in 0..NW {
            prove_eq("wire commitment", loga(p.c_wires[j]), dot(&coeffs(&wires[j]), &bases));
        }
        prove_eq("Z commitment", loga(p.c_plonk_z), dot(&coeffs(&z), &bases));
    }
    let r = verify_proof::<LC, C>(&s.pis, &p, old, &vk, true);
    prove("the verifier accepts", r.is_ok());
    let r = verify_proof::<LC, C>(&s.pis, &p, old, &vk, false);
    prove("the verifier accepts with the final check deferred", r.is_ok());
}
/// x * y = p, with x and p public
fn pf_product() {
    begin();
    let mut b = Bld::new(128);
    let (p, q) = (b.add_public_input(), b.add_virtual_target());
    let r = b.mul(p, q);
    let t = b.add_public_input();
    b.copy(r, t);
    honest(&setup(b, &[(p, var("x")), (q, f(7))]), &[], true);
}
/// several private values, a range check, a comparison with zero and an inverse, a constant input
fn pf_gadgets() {
    begin();
    let mut b = Bld::new(128);
    let (x, y) = (b.add_virtual_target(), b.add_virtual_target());
    let c = b.constant_wire(f(11));
    let m = b.mul_add(x, y, c);
    let d = b.sub(m, x);
    b.assert_nonzero(d);
    let o = b.add_public_input();
    b.copy(d, o);
    let v = var::<Big>("x");
    assume_nonzero(v * f(3) + f(11) - v);
    honest(&setup(b, &[(x, v), (y, f(3))]), &[], true);
}
/// ten public inputs, so two public-input rows; one of them unknown
fn pf_inputs() {
    begin();
    let mut b = Bld::new(128);
    let t: Vec<TT> = (0..10).map(|_| b.add_public_input()).collect();
    let s = b.add(t[0], t[9]);
    let z = b.mul(s, t[4]);
    let _ = b.add(z, t[1]);
    let vals: Vec<(TT, F)> = t.iter().enumerate().map(|(i, t)| (*t, if i == 9 { var("x") } else { f(20 + i as u64) })).collect();
    honest(&setup(b, &vals), &[], false);
}
/// proves with an old proof's deferred check carried along
fn pf_old() {
    begin();
    let mut b = Bld::new(128);
    let x = b.add_virtual_target();
    let y = b.add_public_input();
    let z = b.mul(x, y);
    let _ = b.mul(z, x);
    let s = setup(b, &[(x, f(5)), (y, var("x"))]);
    let n = s.circuit.degree();
    let us: Vec<F> = (0..n.trailing_zeros()).map(|i| k(600 + i as u64)).collect();
    let bases: Vec<F> = (0..n).map(|i| blake_hash_usize_to_curve::<LC>(i).x).collect();
    let g = pt(dot(&halo_s(&us), &bases));
    honest(&s, &[OldProof { halo_g: g, halo_us: us }], true);
}
/// the all-zero witness (every wire polynomial is zero), arbitrary blinding of the wire commitments
fn pf_zero() {
    begin();
    let mut b = Bld::new(128);
    let x = b.add_virtual_target();
    let y = b.square(x);
    let _ = b.mul(y, x);
    let s = setup(b, &[(x, F::ZERO)]);
    rand_symbols(NW as u64);
    honest(&s, &[], true);
}
/// a witness of small integers with repeated and zero values, arbitrary blinding of the wire commitments
fn pf_blinding() {
    begin();
    let mut b = Bld::new(128);
    let x = b.add_public_input();
    let y = b.add_virtual_target();
    let z = b.mul_add(x, y, x);
    let _ = b.sub(z, x);
    let s = setup(b, &[(x, F::ONE), (y, F::ZERO)]);
    rand_symbols(NW as u64);
    honest(&s, &[], true);
}
fn pf_private() {
    begin();
    let mut b = Bld::new(128);
    let x = b.add_virtual_target();
    let y = b.square(x);
    let z = b.mul(y, x);
    let _ = b.add(z, x);
    honest(&setup(b, &[(x, var("x"))]), &[], false);
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P23", 0, vf_wires, "verdict = relations: local wire openings"),
        scenario!(Big, "P23", 0, vf_right, "verdict = relations: right and below wire openings"),
        scenario!(Big, "P23", 0, vf_constants, "verdict = relations: constant openings"),
        scenario!(Big, "P23", 0, vf_permutation, "verdict = relations: permutation openings"),
        scenario!(Big, "P23", 0, vf_quotient, "verdict = relations: quotient openings and the openings only the commitment check uses"),
        scenario!(Big, "P23", 0, vf_public_inputs, "verdict = relations: ten public inputs"),
        scenario!(Big, "P23", 0, vf_commitments, "verdict = relations: every commitment, folding message and response"),
        scenario!(Big, "P23", 0, vf_shapes_old, "verdict = relations with 1 or 2 old proofs, sizes 4 to 16, final check deferred or not"),
        scenario!(Big, "P23", 0, vf_shapes_new, "verdict = relations without old proofs: public-input counts 1, 9 and 19, sizes 2 and 8"),
        scenario!(Big, "P23", 0, vf_binding, "a proof's challenges are bound to every component absorbed before them (1 and 3 rounds, 3 public inputs, 1 old proof)"),
        scenario!(Big, "P20", 0, t_proof, "a proof's challenges are bound to every component absorbed before them (1 and 3 rounds, 2 public inputs, 2 old proofs)"),
        scenario!(Big, "P23", 0, vf_wrong_shape, "every list one short, one long or empty: rejected without panicking"),
        scenario!(Big, "P23", 0, vf_off_curve, "every point off the curve in an otherwise valid proof: rejected"),
        scenario!(Big, "P24", 0, pf_product, "x*7 with x public: openings, relations and acceptance for every x"),
        scenario!(Big, "P24", 0, pf_gadgets, "x*3 + 11 - x public and non-zero: a constant wire, an inverse hint, an output public input"),
        scenario!(Big, "P24", 0, pf_inputs, "ten public inputs (two public-input rows), the last one arbitrary"),
        scenario!(Big, "P24", 0, pf_old, "an old proof carried along"),
        scenario!(Big, "P24", 0, pf_zero, "the all-zero witness, every blinding of the wire commitments"),
        scenario!(Big, "P24", 0, pf_blinding, "a small witness with zeros and repeats, every blinding of the wire commitments"),
        scenario!(Big, "P24", 0, pf_private, "x^3 + x with x private, no public inputs, no blinding"),
    ]
}
