//! P10: serialization of points, openings, proofs.
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::*;
use std::io::Read;

type P = AffinePoint<C>;
fn setup() -> (F, F) {
    codec();
    sqrt_split();
    let (a, b): (F, F) = (var("A"), var("B"));
    set_slot(A, a);
    set_slot(B, b);
    (a, b)
}
/// an affine point of the curve with symbolic x, the sign of y by case split; None if x is on no point
fn point(n: &str, a: F, b: F) -> Option<P> {
    let x: F = var(n);
    let y = (x * x * x + a * x + b).square_root()?;
    Some(P::nonzero(x, if choose(&format!("{} neg", n)) { F::ZERO - y } else { y }))
}
fn point_like(l: &str, p: &P, q: &P) {
    prove(&format!("{}: identity or not", l), p.zero == q.zero);
    if !p.zero && !q.zero {
        prove_eq(&format!("{}: x", l), p.x, q.x);
        prove_eq(&format!("{}: y", l), p.y, q.y);
    }
}
const LEN: usize = F::BYTES + 1;
fn bytes(p: &P) -> Vec<u8> {
    let mut v = vec![];
    let r = p.write(&mut v);
    prove("writing succeeds", r.is_ok());
    prove("a point takes one field encoding and one byte", v.len() == LEN);
    v
}
/// reads a point and checks that exactly its own bytes are consumed
fn reads(l: &str, v: &[u8], p: &P) {
    let mut w = v.to_vec();
    w.extend_from_slice(&[0xa5, 0x5a, 0x01]);
    let mut cur: &[u8] = &w;
    match P::read(&mut cur) {
        Ok(q) => point_like(l, p, &q),
        Err(_) => prove(&format!("{}: read back", l), false),
    }
    prove(&format!("{}: consumes exactly its bytes", l), cur == &[0xa5u8, 0x5a, 0x01][..]);
}
fn cd_point() {
    let (a, b) = setup();
    let p = match point("x", a, b) {
        Some(p) => p,
        None => return,
    };
    let v = bytes(&p);
    reads("point", &v, &p);
    let n = P::nonzero(p.x, F::ZERO - p.y);
    if !p.y.is_zero() {
        prove("a point and its negative have different bytes", bytes(&n) != v);
    }
    let id = P { x: F::ZERO, y: F::ZERO, zero: true };
    let w = bytes(&id);
    reads("identity", &w, &id);
    prove("the identity's bytes are no other point's", w != v);
    for k in 0..LEN {
        prove("a truncated encoding is rejected", P::read(&v[..k]).is_err());
    }
    // several points one after the other
    let all = [id, p, id, n];
    let mut buf = vec![];
    for q in &all {
        prove("writing succeeds", q.write(&mut buf).is_ok());
    }
    let mut cur: &[u8] = &buf;
    for (i, q) in all.iter().enumerate() {
        match P::read(&mut cur) {
            Ok(r) => point_like(&format!("point {} of a sequence", i), q, &r),
            Err(_) => prove("a sequence of points is read back", false),
        }
    }
    prove("nothing is left", cur.is_empty());
}
/// any x, any curve, either sign byte: what is accepted is on the curve and has the x and the sign that was asked for
fn cd_point_any() {
    let (a, b) = setup();
    let x: F = var("x");
    let odd = choose("mask");
    let mut v = vec![if odd { 2u8 } else { 0 }];
    v.extend(x.to_canonical_u8_vec());
    match P::read(&v[..]) {
        Err(_) => {
            prove("only an x on no point is rejected", (x * x * x + a * x + b).square_root().is_none());
        }
        Ok(p) => {
            prove("not the identity", !p.zero);
            prove_eq("on the curve", p.y * p.y, p.x * p.x * p.x + a * p.x + b);
            prove_eq("the encoded x", p.x, x);
            if !p.y.is_zero() {
                prove("the encoded sign", (p.y.to_canonical_u64_vec()[0] % 2 == 1) == odd);
            }
        }
    }
}
/// x at or above the modulus is rejected, whatever the sign byte says
fn cd_point_range() {
    setup();
    let limbs = F::NEG_ONE.to_canonical_u64_vec();
    let m: Vec<u8> = limbs.iter().flat_map(|l| l.to_le_bytes().to_vec()).collect();
    for mask in &[0u8, 2] {
        for kind in 0..3 {
            let mut e = m.clone();
            match kind {
                0 => e[0] = e[0].wrapping_add(1),
                1 => *e.last_mut().unwrap() = 0xff,
                _ => e.iter_mut().for_each(|b| *b = 0xff),
            }
            let mut v = vec![*mask];
            v.extend(e);
            prove("an x not below the modulus is rejected", P::read(&v[..]).is_err());
        }
    }
}
fn cd_field() {
    setup();
    let (x, y): (F, F) = (var("x"), var("y"));
    let mut v = vec![];
    prove("writing succeeds", x.write(&mut v).is_ok() && y.write(&mut v).is_ok());
    prove("two elements take two encodings", v.len() == 2 * F::BYTES);
    let mut cur: &[u8] = &v;
    for (l, e) in [("first", x), ("second", y)].iter() {
        match F::read(&mut cur) {
            Ok(r) => prove_eq(l, *e, r),
            Err(_) => prove("an element is read back", false),
        }
    }
    prove("nothing is left", cur.is_empty());
    for k in 0..F::BYTES {
        let r: std::io::Result<F> = F::read(&v[..k]);
        prove("a truncated encoding is rejected", r.is_err());
    }
    // a reader that hands out few bytes at a time
    let r: std::io::Result<F> = F::read((&v[..5]).chain(&v[5..]));
    match r {
        Ok(r) => prove_eq("from a reader with short reads", x, r),
        Err(_) => prove("a reader with short reads", false),
    }
    if !(x - y).is_zero() {
        prove("different elements have different bytes", v[..F::BYTES] != v[F::BYTES..]);
    }
}
fn set(p: &str, n: &[usize; 5]) -> OpeningSet<F> {
    OpeningSet {
        o_constants: vars(&format!("{}c", p), n[0]),
        o_plonk_sigmas: vars(&format!("{}s", p), n[1]),
        o_wires: vars(&format!("{}w", p), n[2]),
        o_plonk_z: var(&format!("{}z", p)),
        o_plonk_t: vars(&format!("{}t", p), n[3]),
        o_old_proofs: vars(&format!("{}o", p), n[4]),
        o_pi_quotient: var(&format!("{}q", p)),
    }
}
fn same_set(l: &str, a: &OpeningSet<F>, b: &OpeningSet<F>) {
    prove_eqs(&format!("{}: constants", l), &a.o_constants, &b.o_constants);
    prove_eqs(&format!("{}: sigmas", l), &a.o_plonk_sigmas, &b.o_plonk_sigmas);
    prove_eqs(&format!("{}: wires", l), &a.o_wires, &b.o_wires);
    prove_eq(&format!("{}: z", l), a.o_plonk_z, b.o_plonk_z);
    prove_eqs(&format!("{}: t", l), &a.o_plonk_t, &b.o_plonk_t);
    prove_eqs(&format!("{}: old proofs", l), &a.o_old_proofs, &b.o_old_proofs);
    prove_eq(&format!("{}: pi quotient", l), a.o_pi_quotient, b.o_pi_quotient);
}
fn cd_openings() {
    setup();
    for (i, n) in [[1, 2, 3, 2, 1], [0, 0, 0, 0, 0], [3, 1, 0, 1, 2]].iter().enumerate() {
        let o = set(&format!("o{}", i), n);
        let v = serde_cbor::to_vec(&o).expect("serialize");
        let r: Result<OpeningSet<F>, _> = serde_cbor::from_slice(&v);
        match r {
            Ok(r) => same_set("openings", &o, &r),
            Err(e) => prove(&format!("openings are read back ({})", e), false),
        }
        for k in 0..v.len() {
            let r: Result<OpeningSet<F>, _> = serde_cbor::from_slice(&v[..k]);
            prove("truncated openings are rejected", r.is_err());
        }
    }
}
/// a proof whose points are each other's negatives, the identity among them, at every position; all openings symbolic
fn cd_proof() {
    let (a, b) = setup();
    let x: F = var("x");
    let y = match (x * x * x + a * x + b).square_root() {
        Some(y) => y,
        None => return,
    };
    let p = P::nonzero(x, y);
    let n = P::nonzero(x, F::ZERO - y);
    let id = P { x: F::ZERO, y: F::ZERO, zero: true };
    let sh = [[p, n, id], [n, id, p], [id, p, n]];
    let sh = if choose("s1") { sh[0] } else if choose("s2") { sh[1] } else { sh[2] };
    let proof = Proof::<C> {
        c_wires: vec![sh[0], sh[1], sh[2]],
        c_plonk_z: sh[0],
        c_plonk_t: vec![sh[1], sh[0]],
        c_pis_quotient: sh[2],
        o_local: set("l", &[1, 2, 2, 1, 1]),
        o_right: set("r", &[2, 1, 1, 2, 0]),
        o_below: set("b", &[1, 1, 3, 0, 2]),
        halo_l: vec![sh[2], sh[0]],
        halo_r: vec![sh[0], sh[1]],
        halo_g: sh[1],
        schnorr_proof: SchnorrProof { r: sh[2], z1: var("z1"), z2: var("z2") },
    };
    let v = serde_cbor::to_vec(&proof).expect("serialize");
    let r: Proof<C> = match serde_cbor::from_slice(&v) {
        Ok(r) => r,
        Err(e) => {
            prove(&format!("a proof is read back ({})", e), false);
            return;
        }
    };
    let pts = |q: &Proof<C>| -> Vec<(&'static str, Vec<P>)> {
        vec![("wires", q.c_wires.clone()), ("z", vec![q.c_plonk_z]), ("t", q.c_plonk_t.clone()), ("pi quotient", vec![q.c_pis_quotient]),
             ("halo l", q.halo_l.clone()), ("halo r", q.halo_r.clone()), ("halo g", vec![q.halo_g]), ("schnorr r", vec![q.schnorr_proof.r])]
    };
    for ((l, s), (_, t)) in pts(&proof).iter().zip(pts(&r).iter()) {
        prove(&format!("{}: count", l), s.len() == t.len());
        for (p, q) in s.iter().zip(t) {
            point_like(l, p, q);
        }
    }
    same_set("local", &proof.o_local, &r.o_local);
    same_set("right", &proof.o_right, &r.o_right);
    same_set("below", &proof.o_below, &r.o_below);
    prove_eq("z1", proof.schnorr_proof.z1, r.schnorr_proof.z1);
    prove_eq("z2", proof.schnorr_proof.z2, r.schnorr_proof.z2);
}
/// a verification key without its optional precomputations
fn cd_vk() {
    let (a, b) = setup();
    let p = match point("x", a, b) {
        Some(p) => p,
        None => return,
    };
    let n = P::nonzero(p.x, F::ZERO - p.y);
    let vk = VerificationKey::<C> {
        c_constants: vec![p, n, p],
        c_s_sigmas: vec![n, p],
        degree: 1 << 20,
        num_public_inputs: 300,
        num_gates_without_pis: 70000,
        security_bits: 128,
        pedersen_g_msm_precomputation: None,
        fft_precomputation: None,
    };
    let v = serde_cbor::to_vec(&vk).expect("serialize");
    match serde_cbor::from_slice::<VerificationKey<C>>(&v) {
        Ok(r) => {
            for (l, s, t) in [("constants", &vk.c_constants, &r.c_constants), ("sigmas", &vk.c_s_sigmas, &r.c_s_sigmas)].iter() {
                prove(&format!("{}: count", l), s.len() == t.len());
                for (p, q) in s.iter().zip(t.iter()) {
                    point_like(l, p, q);
                }
            }
            prove("numbers", (vk.degree, vk.num_public_inputs, vk.num_gates_without_pis, vk.security_bits)
                == (r.degree, r.num_public_inputs, r.num_gates_without_pis, r.security_bits));
            prove("no precomputation", r.pedersen_g_msm_precomputation.is_none() && r.fft_precomputation.is_none());
        }
        Err(e) => prove(&format!("a key is read back ({})", e), false),
    }
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P10", 0, cd_field, "two arbitrary field elements written one after the other, read back, truncated; short reads"),
        scenario!(Big, "P10", 0, cd_point, "any point of any curve and its negative, the identity, sequences of them, truncations"),
        scenario!(Big, "P10", 0, cd_point_any, "any x, any curve, either sign byte: accepted exactly if x is on the curve, with the asked-for sign"),
        scenario!(Big, "P10", 0, cd_point_range, "x encodings at and above the modulus"),
        scenario!(Big, "P10", 0, cd_openings, "opening sets of three shapes, all values symbolic, through serde_cbor, with truncations"),
        scenario!(Big, "P10", 0, cd_proof, "a proof with all openings symbolic and points p, -p, identity in every position, any curve, through serde_cbor"),
        scenario!(Big, "P10", 0, cd_vk, "a verification key without precomputations, any points"),
    ]
}
