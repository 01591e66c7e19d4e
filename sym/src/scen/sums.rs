//! P07: batched summation.
use super::cusp::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::*;

fn all_methods(n: usize) {
    set_cap(100_000);
    set_cusp();
    let ts: Vec<F> = vars("t", n);
    hint_sums(&ts);
    let pts: Vec<Aff> = ts.iter().map(|t| cusp(*t)).collect();
    let sum = ts.iter().fold(F::ZERO, |a, b| a + *b);
    is_cusp("pairwise", affine_summation_pairwise(pts.clone()), sum);
    is_cusp("batch inversion", affine_summation_batch_inversion(pts.clone()), sum);
    is_cusp("best", affine_summation_best(pts.clone()), sum);
    is_cusp("Iterator::sum of affine points", pts.iter().copied().sum::<Proj>(), sum);
    is_cusp("Iterator::sum of projective points", pts.iter().map(|p| p.to_projective()).sum::<Proj>(), sum);
}
fn sum0() {
    all_methods(0)
}
fn sum1() {
    all_methods(1)
}
fn sum2() {
    all_methods(2)
}
fn sum3() {
    all_methods(3)
}
fn sum4() {
    set_cap(4_000_000);
    set_cusp();
    let ts: Vec<F> = vars("t", 4);
    hint_sums(&ts);
    let pts: Vec<Aff> = ts.iter().map(|t| cusp(*t)).collect();
    let sum = ts.iter().fold(F::ZERO, |a, b| a + *b);
    is_cusp("batch inversion", affine_summation_batch_inversion(pts.clone()), sum);
}
fn sum4_pairwise() {
    set_cap(100_000);
    set_cusp();
    let ts: Vec<F> = vars("t", 4);
    hint_sums(&ts);
    let pts: Vec<Aff> = ts.iter().map(|t| cusp(*t)).collect();
    let sum = ts.iter().fold(F::ZERO, |a, b| a + *b);
    is_cusp("pairwise", affine_summation_pairwise(pts.clone()), sum);
}
fn multi() {
    set_cap(100_000);
    // several summations sharing one inversion batch; lengths 0,1,2,3,2
    set_cusp();
    let (a, b, c): (F, F, F) = (var("a"), var("b"), var("c"));
    hint_sums(&[a, b, c]);
    hint(a + b - konst(9));
    hint(a + b + konst(9));
    let p = |t: F| cusp(t);
    let k = |n: u64| -> F { konst(n) };
    let lists = vec![
        vec![],
        vec![a],
        vec![k(3), k(5)],
        vec![a, b, k(9)],
        vec![c, c],
        vec![c, F::ZERO - c, k(4)],
        vec![F::ZERO, b],
    ];
    let run = |l: &str, f: fn(Vec<Vec<Aff>>) -> Vec<Proj>| {
        let out = f(lists.iter().map(|l| l.iter().map(|t| p(*t)).collect()).collect());
        prove(&format!("{}: one result per list", l), out.len() == lists.len());
        for (i, ts) in lists.iter().enumerate() {
            is_cusp(&format!("{} list {}", l, i), out[i], ts.iter().fold(F::ZERO, |x, y| x + *y));
        }
    };
    run("multi pairwise", affine_multisummation_pairwise);
    run("multi batch", affine_multisummation_batch_inversion);
    run("multi best", affine_multisummation_best);
}
fn node_sums() {
    set_cap(100_000);
    // a curve with A != 0 and a point of order two
    set_node();
    let (u, v): (F, F) = (var("u"), var("v"));
    assume_nonzero(u);
    assume_nonzero(v);
    hint(u - F::ONE);
    hint(u + F::ONE);
    hint(v - F::ONE);
    hint(v + F::ONE);
    hint(u - v);
    hint(u + v);
    hint(u * v - F::ONE);
    hint(u * v + F::ONE);
    hint(u * u * v - F::ONE);
    hint(u * v * v - F::ONE);
    let m = F::ZERO - F::ONE;
    let check = |l: &str, us: Vec<F>| {
        let w = us.iter().fold(F::ONE, |a, b| a * *b);
        let pts: Vec<Aff> = us.iter().map(|x| node(*x)).collect();
        is_node(&format!("{} batch", l), affine_summation_batch_inversion(pts.clone()), w);
        is_node(&format!("{} pairwise", l), affine_summation_pairwise(pts), w);
    };
    check("P+Q", vec![u, v]);
    check("P+P", vec![u, u]);
    check("T+T", vec![m, m]);
    check("P+T", vec![u, m]);
}
fn long_n(n: usize, multi: bool) {
    // past the size threshold that switches to batched inversion
    set_cap(100_000);
    set_cusp();
    let a: F = var("a");
    {
        let mut ts: Vec<F> = (0..n).map(|i| F::from_canonical_usize((i * i * 7 + 3 * i) % 61)).collect();
        ts[20] = ts[21];
        ts[31] = F::ZERO - ts[30];
        let rest = ts[..n - 1].iter().fold(F::ZERO, |x, y| x + *y);
        let k = ts[n - 2];
        for h in vec![a - k, a + k, a - rest, a + rest, a + k - (rest - k), a + rest] {
            hint(h);
        }
        ts[n - 1] = a;
        let s = rest + a;
        let pts: Vec<Aff> = ts.iter().map(|t| cusp(*t)).collect();
        if !multi {
            is_cusp(&format!("best n={}", n), affine_summation_best(pts.clone()), s);
            return;
        }
        let two = affine_multisummation_best(vec![vec![cusp(konst(5)), cusp(konst(6))], pts.clone(), vec![cusp(a)]]);
        prove("three results", two.len() == 3);
        is_cusp(&format!("multi best n={} [0]", n), two[0], konst(11));
        is_cusp(&format!("multi best n={} [1]", n), two[1], s);
        is_cusp(&format!("multi best n={} [2]", n), two[2], a);
    }
}
fn long_139() {
    long_n(139, false)
}
fn long_141() {
    long_n(141, false)
}
fn long_150() {
    long_n(150, false)
}
fn long_multi() {
    long_n(142, true)
}
pub fn all() -> Vec<Scenario> {
    let _ = std::marker::PhantomData::<C>;
    vec![
        scenario!(Big, "P07", 0, sum0, "empty list"),
        scenario!(Big, "P07", 0, sum1, "one point"),
        scenario!(Big, "P07", 0, sum2, "two points, all coincidences"),
        scenario!(Big, "P07", 0, sum3, "three points, all coincidences"),
        scenario!(Big, "P07", 0, sum4, "four points, all coincidences"),
        scenario!(Big, "P07", 1, sum4_pairwise, "four points, all coincidences, pairwise method"),
        scenario!(Big, "P07", 0, multi, "seven lists of lengths 0-3 summed together"),
        scenario!(Big, "P07", 0, node_sums, "pairs on a curve with A != 0 and 2-torsion"),
        scenario!(Big, "P07", 0, long_139, "139 points, one of them symbolic"),
        scenario!(Big, "P07", 0, long_141, "141 points, one of them symbolic"),
        scenario!(Big, "P07", 0, long_150, "150 points, one of them symbolic"),
        scenario!(Big, "P07", 0, long_multi, "lists of 2, 142 and 1 points, two of them symbolic"),
    ]
}
