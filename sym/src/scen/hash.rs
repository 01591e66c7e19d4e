//! P28: hashing to a curve.
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::*;

fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}
fn curve_slots() -> (F, F) {
    let (a, b): (F, F) = (var("A"), var("B"));
    set_slot(A, a);
    set_slot(B, b);
    (a, b)
}
fn on_curve(l: &str, p: AffinePoint<C>, a: F, b: F) {
    prove(&format!("{}: not the identity", l), !p.zero);
    prove_eq(&format!("{}: on the curve", l), p.y * p.y, p.x * p.x * p.x + a * p.x + b);
}
fn expect(l: &str, p: AffinePoint<C>, draw: impl Fn(usize) -> (F, bool), a: F, b: F) {
    for i in 0..30 {
        let (x, neg) = draw(i);
        if let Some(y) = (x * x * x + a * x + b).square_root() {
            prove_eq(&format!("{}: x of the first draw that lies on the curve", l), p.x, x);
            prove_eq(&format!("{}: root chosen by the sign bit", l), p.y, if neg { F::ZERO - y } else { y });
            return;
        }
    }
    prove("some draw lies on the curve", false);
}
/// at most this many draws may miss the curve
fn misses(n: usize) {
    max_misses(n);
}
fn hc_blake() {
    tokens();
    oracle(2);
    sqrt_split();
    misses(3);
    let (a, b) = curve_slots();
    let seed = if choose("s2") { 2 } else if choose("s1") { 1 } else { 0 };
    let p = blake_hash_usize_to_curve::<C>(seed);
    on_curve("usize", p, a, b);
    expect("usize", p, |i| blake_field(i as u8, f(seed as u64)), a, b);
    let q = blake_hash_usize_to_curve::<C>(seed);
    prove_eq("deterministic", p.x, q.x);
    prove_eq("deterministic", p.y, q.y);
    let r = blake_hash_base_field_to_curve::<C>(f(seed as u64));
    prove_eq("same as hashing the field element", p.x, r.x);
    prove_eq("same as hashing the field element", p.y, r.y);
}
/// a symbolic seed: its bytes stand for themselves
fn hc_blake_seed() {
    tokens();
    oracle(1);
    sqrt_split();
    misses(2);
    let (a, b) = curve_slots();
    let s: F = var("s");
    let p = blake_hash_base_field_to_curve::<C>(s);
    on_curve("field element", p, a, b);
    expect("field element", p, |i| blake_field(i as u8, s), a, b);
    let q = blake_hash_base_field_to_curve::<C>(s);
    prove_eq("deterministic", p.x, q.x);
    prove_eq("deterministic", p.y, q.y);
    let n = draws().len();
    let other = blake_hash_base_field_to_curve::<C>(s + F::ONE);
    on_curve("another seed", other, a, b);
    prove("another seed draws anew", draws().len() > n);
}
/// each draw hashes seed, iteration and attempt, and its extra byte decides the sign
fn hc_blake_field() {
    tokens();
    oracle(4);
    let iter: u8 = if choose("i1") { 1 } else if choose("i200") { 200 } else { 0 };
    let s: F = if choose("seed") { var("s") } else { f(7) };
    let (x, neg) = blake_field(iter, s);
    let d = draws();
    let last = d.len() - 1;
    for (j, got) in d.iter().enumerate() {
        let mut bytes = s.to_canonical_u8_vec();
        bytes.push(iter);
        bytes.push(j as u8);
        let mut out = vec![0u8; F::BYTES + 1];
        let mut h = blake3::Hasher::new();
        h.update(&bytes);
        h.finalize_xof().fill(&mut out);
        out[F::BYTES - 1] >>= 8 * F::BYTES - F::BITS;
        prove("bytes of the draw", got[..] == out[..F::BYTES]);
        if j == last {
            prove("sign bit", neg == (out[F::BYTES] & 1 == 1));
        }
    }
    prove_eq("the first value in range is taken", x, var(&format!("h{}", last)));
}
fn hc_rescue() {
    tokens();
    sqrt_split();
    misses(2);
    let (a, b) = curve_slots();
    let s: F = var("s");
    let bits = 128;
    let p = hash_base_field_to_curve::<C>(s, bits);
    on_curve("field element", p, a, b);
    let draw = |i: usize| {
        let o = rescue_sponge(vec![s, f(i as u64)], 2, bits);
        (o[0], o[1].to_canonical_bool_vec()[0])
    };
    expect("field element", p, draw, a, b);
    let q = hash_base_field_to_curve::<C>(s, bits);
    prove_eq("deterministic", p.x, q.x);
    prove_eq("deterministic", p.y, q.y);
    let other = hash_base_field_to_curve::<C>(s + F::ONE, bits);
    on_curve("another seed", other, a, b);
    prove("another seed, another draw", !(other.x - p.x).is_zero());
}
/// integer seeds hash like the field element they denote (draws depend on the seed alone)
fn hc_rescue_int() {
    sqrt_split();
    misses(2);
    let (a, b) = curve_slots();
    let n: u64 = if choose("big") { 0xffff_ffff } else if choose("one") { 1 } else { 0 };
    let p = hash_u32_to_curve::<C>(n as u32, 128);
    on_curve("u32", p, a, b);
    let draw = |i: usize| {
        let o = rescue_sponge(vec![f(n), f(i as u64)], 2, 128);
        (o[0], o[1].to_canonical_bool_vec()[0])
    };
    expect("u32", p, draw, a, b);
    let q = hash_usize_to_curve::<C>(n as usize, 128);
    prove_eq("usize = u32", p.x, q.x);
    prove_eq("usize = u32", p.y, q.y);
    let q = hash_usize_to_curve::<C>(n as usize + (1 << 40), 128);
    on_curve("large usize", q, a, b);
    let draw = |i: usize| {
        let o = rescue_sponge(vec![f(n + (1 << 40)), f(i as u64)], 2, 128);
        (o[0], o[1].to_canonical_bool_vec()[0])
    };
    expect("large usize", q, draw, a, b);
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P28", 0, hc_blake, "three integer seeds, arbitrary hash output and curve: on the curve, first hit, sign, deterministic (up to 3 misses, 2 rejections)"),
        scenario!(Big, "P28", 0, hc_blake_seed, "any field element as seed, arbitrary hash output and curve (up to 2 misses, 1 rejection)"),
        scenario!(Big, "P28", 0, hc_blake_field, "what each draw hashes; up to 4 rejected draws"),
        scenario!(Big, "P28", 0, hc_rescue, "Rescue-based hashing of any field element (its roots as fixed functions of their symbolic argument), any curve (up to 2 misses)"),
        scenario!(Big, "P28", 0, hc_rescue_int, "Rescue-based hashing of integer seeds, any curve (up to 2 misses)"),
    ]
}
