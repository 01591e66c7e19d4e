//! Scenario API.
use crate::engine::eng;
use crate::sfield::{check_feasible, Modulus, S};
use num::BigUint;

pub fn var<M: Modulus>(n: &str) -> S<M> {
    S::h(eng().var(n))
}
pub fn vars<M: Modulus>(p: &str, n: usize) -> Vec<S<M>> {
    (0..n).map(|i| var(&format!("{}{}", p, i))).collect()
}
pub fn konst<M: Modulus>(x: u64) -> S<M> {
    S::h({
        let mut e = eng();
        let f = e.md.from_big(&BigUint::from(x));
        e.konst(f)
    })
}
pub fn assume_nonzero<M: Modulus>(x: S<M>) {
    eng().assume_nonzero(x.0);
    check_feasible();
}
pub fn assume_zero<M: Modulus>(x: S<M>) {
    eng().assume_zero(x.0);
    check_feasible();
}
/// Restricts the exploration to x = 0 (a disjunction is explored factor by factor).
pub fn require_zero<M: Modulus>(x: S<M>) {
    eng().require_zero(x.0);
    check_feasible();
}
pub fn hint<M: Modulus>(x: S<M>) {
    eng().hint(x.0);
}
pub fn prove_zero<M: Modulus>(l: &str, x: S<M>) {
    eng().prove_zero(l, x.0);
}
pub fn prove_eq<M: Modulus>(l: &str, a: S<M>, b: S<M>) {
    let d = a - b;
    eng().prove_zero(l, d.0);
}
pub fn prove_eqs<M: Modulus>(l: &str, a: &[S<M>], b: &[S<M>]) {
    prove(&format!("{}: lengths {} vs {}", l, a.len(), b.len()), a.len() == b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        prove_eq(&format!("{}[{}]", l, i), *x, *y);
    }
}
/// The condition must hold on every feasible path reaching this point.
pub fn prove(l: &str, c: bool) {
    let mut e = eng();
    e.stats.obligations += 1;
    if !c && !e.infeasible {
        e.fails.push((l.to_string(), None));
    }
}
pub fn choose(tag: &str) -> bool {
    let r = eng().choose(tag);
    check_feasible();
    r
}
pub fn is_concrete() -> bool {
    eng().concrete.is_some()
}
/// slot indices
pub const A: u32 = 0;
pub const B: u32 = 1;
pub const GX: u32 = 2;
pub const GY: u32 = 3;
pub const ZETA: u32 = 4;
pub const ZETA_SCALAR: u32 = 5;
pub fn set_slot<M: Modulus>(i: u32, v: S<M>) {
    eng().set_slot(i, v.0);
}
/// size above which products are kept as opaque atoms
pub fn set_cap(n: usize) {
    eng().cap = n;
}
/// total degree above which products are kept as opaque atoms
pub fn set_deg_cap(n: u64) {
    eng().deg_cap = n;
}
/// From here on a k-th root of a symbolic value is a constant derived from the expression (its root at
/// one fixed pseudo-random assignment): the hash behind a transcript becomes a fixed oracle.
pub fn codec() {
    eng().codec = true;
}
pub fn tokens() {
    eng().tokens = true;
}
/// From here on the code's own random draws are a fixed pseudo-random sequence.
pub fn fix_rand() {
    eng().rand_fixed = true;
}
/// ... except the next `n` draws, which are symbols.
pub fn rand_symbols(n: u64) {
    let mut e = eng();
    e.rand_sym = e.rnd_ctr as u64 + n;
}
/// From here on (or no longer) undecided comparisons with zero are taken to fail instead of being split:
/// the claim then leaves out the finitely many inputs on which one of these polynomials vanishes.
pub fn generic(on: bool) {
    eng().generic = on;
}

/// Hash output decoded into a field element is arbitrary: each distinct byte string gives a symbol of
/// its own, and each of the first `rejects` may also be out of range.
pub fn oracle(rejects: usize) {
    let mut e = eng();
    e.oracle = true;
    e.oracle_rejects = rejects;
}
pub fn draws() -> Vec<Vec<u8>> {
    eng().draws.clone()
}
/// Residuosity and parity of symbolic values are case splits.
pub fn sqrt_split() {
    eng().sqrt_split = true;
}
/// At most this many symbolic values are taken to be non-residues.
pub fn max_misses(n: usize) {
    eng().max_misses = n;
}
