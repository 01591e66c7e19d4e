//! P06: scalar multiplication and multi-scalar multiplication. Points are symbolic points of the cusp
//! (parameter t, identity included); the scalar field is a small prime field, each scalar bit a symbolic
//! choice, so every scalar is decided; the expected result is the point of parameter (integer scalar)*t.
use crate::cx::*;
use crate::dfield::{KW, W};
use crate::runner::Scenario;
use crate::scen::cusp::{self, set_cusp};
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::{msm_execute, msm_execute_parallel, msm_parallel, msm_precompute, AffinePoint, Curve, Field, ProjectivePoint};

fn deg() {
    set_cusp();
    set_deg_cap(1 << 24);
}
fn pt<K: Curve<BaseField = F>>(t: F) -> ProjectivePoint<K> {
    let a = cusp::cusp(t);
    AffinePoint::<K> { x: a.x, y: a.y, zero: a.zero }.to_projective()
}
fn rescaled<K: Curve<BaseField = F>>(p: ProjectivePoint<K>, z: F) -> ProjectivePoint<K> {
    if p.zero {
        return p;
    }
    ProjectivePoint { x: p.x * z, y: p.y * z, z, zero: false }
}
fn is<K: Curve<BaseField = F>>(l: &str, p: ProjectivePoint<K>, t: F) {
    cusp::is_cusp(l, ProjectivePoint::<C> { x: p.x, y: p.y, z: p.z, zero: p.zero }, t)
}
/// a scalar all of whose bits are symbolic
fn scalar<const P: u64>(tag: &str) -> u64 {
    let bits = 64 - (P - 1).leading_zeros();
    let mut v = 0;
    for i in (0..bits).rev() {
        // values at or above the modulus do not occur
        if v + (1 << i) >= P {
            continue;
        }
        if choose(&format!("{}{}", tag, i)) {
            v += 1 << i;
        }
    }
    v
}
/// one of the listed values, by a symbolic choice
fn pick(tag: &str, vals: &[u64]) -> u64 {
    for (i, v) in vals[..vals.len() - 1].iter().enumerate() {
        if choose(&format!("{}={}", tag, i)) {
            return *v;
        }
    }
    vals[vals.len() - 1]
}
fn mul_case<const P: u64>(s: u64, z: Option<F>, t: F) {
    let p = pt::<KW<P>>(t);
    let p = match z {
        Some(z) => rescaled(p, z),
        None => p,
    };
    let want = t * konst(s);
    is(&format!("[{}]P", s), KW::<P>::convert(W(s)) * p, want);
    let pre = p.mul_precompute();
    is(&format!("[{}]P with precomputation", s), p.mul_with_precomputation(W(s), pre.clone()), want);
    let many = W::<P>(s).scale_proj_point_slice::<KW<P>>(&[p, ProjectivePoint::ZERO]);
    prove("two points", many.len() == 2);
    is(&format!("[{}]P in a list", s), many[0], want);
    is("identity in a list", many[1], F::ZERO);
    // the same table serves another scalar
    is("same table, next scalar", p.mul_with_precomputation(W((s + 1) % P), pre), t * konst((s + 1) % P));
}
/// the point is symbolic (scalars whose computation keeps the degree in t within reach)
fn x_mul_sym() {
    deg();
    let s = pick("s", &[0, 1, 2, 3, 4, 5, 6, 16, 17, 32, 33, 48]);
    mul_case::<251>(s, Some(konst(77)), var("t"))
}
fn x_mul_sym_12() {
    deg();
    let s = pick("s", &[0, 1, 2, 256, 257, 272, 273, 512]);
    mul_case::<4093>(s, None, var("t"))
}
/// any scalar; one fixed point (every nonzero point of the cusp is the image of this one under the
/// isomorphism (x,y) -> (l^2 x, l^3 y), which the group formulas commute with)
fn x_mul_8() {
    set_cusp();
    mul_case::<251>(scalar::<251>("s"), Some(konst(77)), konst(3))
}
fn x_mul_12() {
    set_cusp();
    mul_case::<4093>(scalar::<4093>("s"), None, konst(3))
}
fn x_mul_16() {
    set_cusp();
    mul_case::<65521>(scalar::<65521>("s"), None, konst(3))
}
fn x_mul_identity() {
    deg();
    for s in 0..251 {
        let r = KW::<251>::convert(W(s)) * ProjectivePoint::<KW<251>>::ZERO;
        is(&format!("[{}]O", s), r, F::ZERO);
        let r = KW::<251>::convert(W(s)) * AffinePoint::<KW<251>>::ZERO.to_projective();
        is(&format!("[{}]O (affine)", s), r, F::ZERO);
    }
}
fn msm_case<const P: u64>(scalars: &[u64], ts: &[F], ws: &[usize]) {
    let pts: Vec<ProjectivePoint<KW<P>>> = ts.iter().map(|t| pt(*t)).collect();
    let sc: Vec<W<P>> = scalars.iter().map(|s| W(*s)).collect();
    let want = ts.iter().zip(scalars).fold(F::ZERO, |a, (t, s)| a + *t * konst(*s));
    for &w in ws {
        let pre = msm_precompute(&pts, w);
        is(&format!("w={} {:?} sequential", w, scalars), msm_execute(&pre, &sc), want);
        is(&format!("w={} {:?} parallel", w, scalars), msm_execute_parallel(&pre, &sc), want);
        is(&format!("w={} {:?} one call", w, scalars), msm_parallel(&sc, &pts, w), want);
    }
}
fn x_msm_0() {
    deg();
    msm_case::<13>(&[], &[], &[1, 2, 3, 4, 5, 8]);
    msm_case::<251>(&[], &[], &[1, 7, 8, 9]);
}
fn x_msm_1() {
    set_cusp();
    let s = scalar::<13>("s");
    msm_case::<13>(&[s], &[konst(3)], &[1, 2, 3, 4, 5, 8]);
}
fn x_msm_1_sym() {
    deg();
    let s = scalar::<13>("s");
    msm_case::<13>(&[s], &[var("t")], &[2, 3]);
}
fn x_msm_1_8bit() {
    set_cusp();
    let s = scalar::<251>("s");
    msm_case::<251>(&[s], &[konst(3)], &[3, 5, 8]);
}
/// two symbolic points, one window digit each
fn x_msm_2_sym() {
    deg();
    let (t, u): (F, F) = (var("t"), var("u"));
    let w = pick("w", &[2, 3]) as usize;
    let s = [pick("a", &[0, 1, 2]), pick("b", &[0, 1, 2])];
    cusp::hint_sums(&[t, u]);
    for h in vec![t * konst(2) - u, t * konst(2) + u, t - u * konst(2), t + u * konst(2)] {
        hint(h);
    }
    msm_case::<3>(&s, &[t, u], &[w]);
}
/// two points related by small multiples (every coincidence the windows can meet)
fn x_msm_2() {
    set_cusp();
    let s = [scalar::<13>("a"), scalar::<13>("b")];
    let k: F = konst(pick("k", &[0, 1, 2, 3, 4, 8]));
    let k = if choose("neg") { F::ZERO - k } else { k };
    msm_case::<13>(&s, &[konst(1), k], &[1, 2, 3, 4, 5]);
}
fn x_msm_3() {
    set_cusp();
    let v = [0u64, 1, 5, 12];
    let s = [pick("a", &v), pick("b", &v), pick("c", &v)];
    let t: F = konst(1);
    let ts = match pick("points", &[0, 1, 2, 3]) {
        0 => [t, t, t],
        1 => [t, F::ZERO - t, t * konst(2)],
        2 => [t, F::ZERO, konst(3)],
        _ => [konst(5), t, konst(9)],
    };
    msm_case::<13>(&s, &ts, &[1, 2, 3, 4]);
}
/// more digits than one parallel chunk holds (80)
fn x_msm_chunks() {
    set_cusp();
    let v = [1u64, 79, 80, 81, 127, 159, 160, 161, 239, 240, 250];
    let s = [pick("a", &v), pick("b", &[250, 80, 3])];
    msm_case::<251>(&s, &[konst(1), konst(3)], &[6, 7, 8, 9]);
}
/// enough generators to select the batched-inversion summation
fn x_msm_long() {
    deg();
    set_cap(100_000);
    let n = 150;
    let t: F = var("t");
    let d = 1;
    let mut s = vec![d; n];
    s[3] = 0;
    s[77] = 0;
    let mut ts: Vec<F> = (0..n).map(|i| konst((i * i * 7 + 3 * i) as u64 % 61)).collect();
    let of = |d: u64, ts: &[F]| ts[..n - 1].iter().zip(&s).filter(|x| *x.1 == d).fold(F::ZERO, |a, x| a + *x.0);
    let rest = of(d, &ts);
    let other = of(3 - d, &ts);
    let k = ts[n - 2];
    for h in vec![t - k, t + k, t - rest, t + rest, t + k - (rest - k), t + rest + other, t + rest - other, t * konst(2) + rest * konst(2) + other] {
        hint(h);
    }
    hint(t - konst(23));
    hint(t + konst(127));
    ts[n - 1] = t;
    let want = (rest + t) * konst(d) + other * konst(3 - d);
    hint(want);
    let pts: Vec<ProjectivePoint<KW<3>>> = ts.iter().map(|t| pt(*t)).collect();
    let sc: Vec<W<3>> = s.iter().map(|s| W(*s)).collect();
    let pre = msm_precompute(&pts, 2);
    is("150 generators, parallel", msm_execute_parallel(&pre, &sc), want);
}
/// full-width scalars at the edges (the points are fixed; see the stated bounds)
fn x_full_width_a() {
    full_width(&(0..16).collect::<Vec<_>>())
}
fn x_full_width_b() {
    full_width(&(16..32).collect::<Vec<_>>())
}
fn full_width(ks: &[u64]) {
    set_cusp();
    let k = pick("k", ks);
    let two_k = |k: u64| F::TWO.exp(konst(k));
    let mut scalars = vec![];
    for i in 0..8 {
        let p = two_k(k * 8 + i);
        scalars.push(p);
        scalars.push(F::ZERO - p);
        scalars.push(p - F::ONE);
    }
    let t: F = konst(11);
    let p = pt::<C>(t);
    let pre = p.mul_precompute();
    for s in &scalars {
        is(&format!("[{}]P", s), p.mul_with_precomputation(*s, pre.clone()), t * *s);
    }
    let us: [F; 3] = [konst(11), konst(4), F::ZERO - konst(11)];
    let pts: Vec<_> = us.iter().map(|t| pt::<C>(*t)).collect();
    let w = [4, 8, 11, 13][(k % 4) as usize];
    let pre = msm_precompute(&pts, w);
    for c in scalars.chunks(3) {
        let want = us.iter().zip(c).fold(F::ZERO, |a, (t, s)| a + *t * *s);
        is(&format!("w={} {:?} sequential", w, c), msm_execute(&pre, c), want);
        is(&format!("w={} {:?} parallel", w, c), msm_execute_parallel(&pre, c), want);
    }
}
fn x_lengths() {
    deg();
    let pts = vec![pt::<KW<13>>(konst(3)), pt::<KW<13>>(konst(4))];
    let pre = msm_precompute(&pts, 2);
    for n in 0..4usize {
        let s = vec![W::<13>(1); n];
        for par in 0..2 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if par == 0 {
                    msm_execute(&pre, &s)
                } else {
                    msm_execute_parallel(&pre, &s)
                }
            }));
            prove(&format!("2 generators, {} scalars accepted iff equal", n), r.is_ok() == (n == 2));
        }
    }
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P06", 0, x_mul_sym, "small and two-digit scalars times a symbolic point"),
        scenario!(Big, "P06", 1, x_mul_sym_12, "three-digit scalars times a symbolic point"),
        scenario!(Big, "P06", 0, x_mul_8, "every 8-bit scalar (mod 251), one point"),
        scenario!(Big, "P06", 1, x_mul_12, "every 12-bit scalar (mod 4093), one point"),
        scenario!(Big, "P06", 1, x_mul_16, "16-bit scalars (mod 65521), one point"),
        scenario!(Big, "P06", 0, x_mul_identity, "every 8-bit scalar times the identity"),
        scenario!(Big, "P06", 0, x_msm_0, "empty multi-scalar multiplications"),
        scenario!(Big, "P06", 0, x_msm_1, "one point, every 4-bit scalar, windows 1-8"),
        scenario!(Big, "P06", 0, x_msm_1_sym, "one symbolic point, every 4-bit scalar, windows 2 and 3"),
        scenario!(Big, "P06", 0, x_msm_1_8bit, "one point, every 8-bit scalar, windows 3, 5 and 8"),
        scenario!(Big, "P06", 0, x_msm_2_sym, "two symbolic points, scalars mod 3, windows 2 and 3"),
        scenario!(Big, "P06", 0, x_msm_2, "two points related by small multiples, every pair of 4-bit scalars, windows 1-5"),
        scenario!(Big, "P06", 0, x_msm_3, "three points with coincidences, scalars 0, 1, 5, 12, windows 1-4"),
        scenario!(Big, "P06", 0, x_msm_chunks, "digits around the parallel chunk boundaries, windows 6-9"),
        scenario!(Big, "P06", 0, x_msm_long, "150 generators, one of them symbolic"),
        scenario!(Big, "P06", 0, x_full_width_a, "255-bit scalars 2^k, -2^k, 2^k-1 for k < 128 on fixed points"),
        scenario!(Big, "P06", 0, x_full_width_b, "255-bit scalars 2^k, -2^k, 2^k-1 for k >= 128 on fixed points"),
        scenario!(Big, "P06", 0, x_lengths, "lists of different lengths are refused"),
    ]
}
