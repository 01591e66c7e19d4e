//! P02 (batch inversion), P08 (FFT), P09 (polynomials).
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, F, P193, S};
use plonky::*;

fn horner(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, b| a * x + *b)
}
// ------------------------------------------------------------------ batch inversion
fn batch(n: usize) {
    let xs: Vec<F> = vars("x", n);
    let opt = F::batch_multiplicative_inverse_opt(&xs);
    prove("one answer per entry", opt.len() == n);
    let mut any_zero = false;
    for i in 0..n {
        let z = xs[i].is_zero();
        any_zero = any_zero || z;
        prove(&format!("opt[{}] present exactly when nonzero", i), opt[i].is_some() == !z);
        if let (Some(v), false) = (opt[i], z) {
            prove_eq(&format!("opt[{}] is the inverse", i), v * xs[i], F::ONE);
        }
    }
    if !any_zero {
        let r = F::batch_multiplicative_inverse(&xs);
        prove("one inverse per entry", r.len() == n);
        for i in 0..n {
            prove_eq(&format!("batch[{}] is the inverse", i), r[i] * xs[i], F::ONE);
        }
    }
}
fn batch_inverse_small() {
    for n in 0..4 {
        batch(n)
    }
}
fn batch_inverse_6() {
    batch(6)
}
fn single_inverse() {
    let (x, y): (F, F) = (var("x"), var("y"));
    let z = y.is_zero();
    match y.multiplicative_inverse() {
        None => prove("only zero has no inverse", z),
        Some(i) => {
            prove("zero has no inverse", !z);
            prove_eq("y * 1/y", i * y, F::ONE);
            prove_eq("x / y", (x / y) * y, x);
        }
    }
}
// ------------------------------------------------------------------ FFT
fn check_fft(n: usize, some: bool) {
    let k = (n as f64).log2() as usize;
    assert_eq!(1 << k, n);
    let w = F::primitive_root_of_unity(k);
    let mut c: Vec<F> = vars("c", if some { 3 } else { n });
    if some {
        let v = c.clone();
        c = vec![F::ZERO; n];
        c[1] = v[0];
        c[n / 2 + 3] = v[1];
        c[n - 1] = v[2];
    }
    let pre = fft_precompute::<F>(n);
    prove("precomputation size", pre.size() == n);
    let e = fft_with_precomputation(&c, &pre);
    prove("output length", e.len() == n);
    let step = if some { 5 } else { 1 };
    let mut i = 0;
    while i < n {
        let x = w.exp_usize(i);
        let want = if some {
            c[1] * x + c[n / 2 + 3] * x.exp_usize(n / 2 + 3) + c[n - 1] * x.exp_usize(n - 1)
        } else {
            horner(&c, x)
        };
        prove_eq(&format!("fft n={} [{}]", n, i), e[i], want);
        i += step;
    }
    if !some {
        let e2 = fft(&c);
        prove_eqs(&format!("fft() n={}", n), &e2, &e);
        let e3 = fft_with_precomputation_power_of_2(&c, &pre);
        prove_eqs(&format!("fft power of 2 n={}", n), &e3, &e);
    }
    if some {
        // inverse transform of sparse values: p[j] = 1/n sum_i v_i w^(-ij)
        let mut v = vec![F::ZERO; n];
        let x: Vec<F> = vars("v", 3);
        let at = [0usize, n / 2 + 5, n - 1];
        for k in 0..3 {
            v[at[k]] = x[k];
        }
        let p = ifft_with_precomputation_power_of_2(&v, &pre);
        prove("inverse output length", p.len() == n);
        let ninv = F::from_canonical_usize(n).multiplicative_inverse().unwrap();
        let winv = w.multiplicative_inverse().unwrap();
        let mut j = 0;
        while j < n {
            let mut want = F::ZERO;
            for k in 0..3 {
                want = want + x[k] * winv.exp_usize(at[k] * j % n);
            }
            prove_eq(&format!("ifft n={} [{}]", n, j), p[j], want * ninv);
            j += 19;
        }
        for j in vec![1usize, n / 2, n - 1, n / 2 - 1] {
            let mut want = F::ZERO;
            for k in 0..3 {
                want = want + x[k] * winv.exp_usize(at[k] * j % n);
            }
            prove_eq(&format!("ifft n={} [{}]", n, j), p[j], want * ninv);
        }
        return;
    }
    let back = ifft_with_precomputation_power_of_2(&e, &pre);
    prove("inverse output length", back.len() == n);
    for i in 0..n {
        prove_eq(&format!("ifft(fft) n={} [{}]", n, i), back[i], c[i]);
    }
    // fft(ifft) as well: interpolation of arbitrary values
    let v: Vec<F> = vars("v", n);
    let p = ifft_with_precomputation_power_of_2(&v, &pre);
    for i in 0..n {
        prove_eq(&format!("ifft interpolates n={} [{}]", n, i), horner(&p, w.exp_usize(i)), v[i]);
    }
}
fn fft_1_to_8() {
    for k in 0..4 {
        check_fft(1 << k, false);
    }
}
fn fft_16() {
    check_fft(16, false)
}
fn fft_32() {
    check_fft(32, false)
}
fn fft_64() {
    check_fft(64, false)
}
fn fft_8192() {
    check_fft(8192, true)
}
fn fft_padding() {
    for n in vec![3usize, 5, 7, 9, 11] {
        let m = n.next_power_of_two();
        let k = (m as f64).log2() as usize;
        let c: Vec<F> = vars("c", n);
        let w = F::primitive_root_of_unity(k);
        let pre = fft_precompute::<F>(n);
        prove("precomputation size is the next power of two", pre.size() == m);
        let e = fft_with_precomputation(&c, &pre);
        let e2 = fft(&c);
        prove("output length", e.len() == m && e2.len() == m);
        for i in 0..m {
            let want = horner(&c, w.exp_usize(i));
            prove_eq(&format!("padded fft n={} [{}]", n, i), e[i], want);
            prove_eq(&format!("padded fft() n={} [{}]", n, i), e2[i], want);
        }
        if n > 7 {
            continue;
        }
        // Polynomial wrappers
        let p = Polynomial::from(c.clone());
        for bigger in vec![m, 2 * m] {
            let pre = fft_precompute::<F>(bigger);
            let w = F::primitive_root_of_unity((bigger as f64).log2() as usize);
            let e = p.eval_domain(&pre);
            prove("eval_domain length", e.len() == bigger);
            for i in 0..bigger {
                prove_eq(&format!("eval_domain n={} [{}]", n, i), e[i], horner(&c, w.exp_usize(i)));
            }
            let q = Polynomial::from_evaluations(&e, &pre);
            prove("from_evaluations inverts eval_domain", q.len() == bigger);
            for i in 0..bigger {
                prove_eq(&format!("from_evaluations n={} [{}]", n, i), q[i], if i < n { c[i] } else { F::ZERO });
            }
        }
    }
}
// ------------------------------------------------------------------ polynomials
fn schoolbook(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    r
}
fn at(p: &[F], i: usize) -> F {
    p.get(i).copied().unwrap_or(F::ZERO)
}
fn same_poly(l: &str, a: &[F], b: &[F]) {
    for i in 0..a.len().max(b.len()) {
        prove_eq(&format!("{} coefficient {}", l, i), at(a, i), at(b, i));
    }
}
fn poly_mul(na: usize, nb: usize) {
    let (a, b): (Vec<F>, Vec<F>) = (vars("a", na), vars("b", nb));
    let (pa, pb) = (Polynomial::from(a.clone()), Polynomial::from_coeffs(&b));
    let m = pa.mul(&pb);
    same_poly(&format!("mul {}x{}", na, nb), m.coeffs(), &schoolbook(&a, &b));
    let s = pa.add(&pb);
    let sum: Vec<F> = (0..na.max(nb)).map(|i| at(&a, i) + at(&b, i)).collect();
    same_poly(&format!("add {}x{}", na, nb), s.coeffs(), &sum);
}
fn poly_mul_dense() {
    // all leading-zero patterns are explored by the case split
    for (x, y) in vec![(0, 0), (0, 2), (1, 1), (1, 3), (2, 2), (3, 2), (3, 3)] {
        poly_mul(x, y)
    }
}
fn poly_mul_5x4() {
    poly_mul(5, 4)
}
fn poly_basic() {
    let c: Vec<F> = vars("c", 4);
    let x: F = var("x");
    let p = Polynomial::from(c.clone());
    prove_eq("eval", p.eval(x), horner(&c, x));
    let pw: Vec<F> = (0..4).map(|i| x.exp_usize(i)).collect();
    prove_eq("eval_from_power", p.eval_from_power(&pw), horner(&c, x));
    prove("len", p.len() == 4);
    let zs: Vec<bool> = c.iter().map(|v| v.is_zero()).collect();
    let deg = (0..4).rev().find(|i| !zs[*i]);
    prove("is_zero", p.is_zero() == deg.is_none());
    if let Some(d) = deg {
        prove("degree", p.degree() == d);
        prove_eq("lead", p.lead(), c[d]);
    } else {
        prove_eq("lead of zero", p.lead(), F::ZERO);
    }
    let mut t = p.clone();
    t.trim();
    prove("trim length", t.len() == deg.map_or(0, |d| d + 1));
    same_poly("trim", t.coeffs(), &c);
    prove("trim ==", t == p);
    let q = p.padded(7);
    prove("padded length", q.len() == 7);
    same_poly("padded", q.coeffs(), &c);
    prove("padded ==", q == p && p == q);
    let mut q2 = p.clone();
    q2.pad(5);
    prove("pad length", q2.len() == 5);
    same_poly("pad", q2.coeffs(), &c);
    prove("zero(n)", Polynomial::<F>::zero(3).len() == 3 && Polynomial::<F>::zero(3).is_zero());
    prove("empty", Polynomial::<F>::empty().is_empty() && Polynomial::<F>::empty().is_zero());
}
fn poly_eq() {
    let (a, b): (Vec<F>, Vec<F>) = (vars("a", 3), vars("b", 2));
    let want = a[0] == b[0] && a[1] == b[1] && a[2].is_zero();
    let (pa, pb) = (Polynomial::from(a), Polynomial::from(b));
    prove("==", (pa == pb) == want);
    prove("== symmetric", (pb == pa) == want);
}
fn check_div(l: &str, a: &[F], b: &[F], q: &[F], r: &[F]) {
    // a = b q + r
    let mut qb = schoolbook(q, b);
    while qb.len() < a.len().max(r.len()) {
        qb.push(F::ZERO);
    }
    for i in 0..qb.len() {
        prove_eq(&format!("{}: dividend = divisor*quotient + remainder, coefficient {}", l, i), qb[i] + at(r, i), at(a, i));
    }
    let db = (0..b.len()).rev().find(|i| b[*i].is_nonzero()).unwrap();
    for i in db..r.len() {
        prove_eq(&format!("{}: remainder degree below the divisor's, coefficient {}", l, i), r[i], F::ZERO);
    }
}
fn div_case(na: usize, nb: usize, long: bool) {
    let (a, b): (Vec<F>, Vec<F>) = (vars("a", na), vars("b", nb));
    let bz = b.iter().all(|x| x.is_zero());
    if bz {
        return;
    }
    let (pa, pb) = (Polynomial::from(a.clone()), Polynomial::from(b.clone()));
    if long {
        let (q, r) = pa.polynomial_long_division(&pb);
        check_div("long division", &a, &b, q.coeffs(), r.coeffs());
    } else {
        let (q, r) = pa.polynomial_division(&pb);
        check_div("division", &a, &b, q.coeffs(), r.coeffs());
    }
}
fn long_division_3_2() {
    div_case(3, 2, true)
}
fn long_division_4_2() {
    div_case(4, 2, true)
}
fn long_division_4_3() {
    div_case(4, 3, true)
}
fn division_3_2() {
    div_case(3, 2, false)
}
fn division_4_2() {
    div_case(4, 2, false)
}
fn division_4_3() {
    div_case(4, 3, false)
}
fn division_5_3() {
    div_case(5, 3, false)
}
fn division_6_2_sparse() {
    // monic divisor with symbolic low coefficients, dividend with many zeros
    let (a0, a5, b0): (F, F, F) = (var("a0"), var("a5"), var("b0"));
    let z = F::ZERO;
    for (a, b) in vec![
        (vec![a0, z, z, z, z, a5], vec![b0, F::ONE]),
        (vec![z, z, z, a0, a5], vec![z, b0, F::ONE]),
        (vec![a0, z, z, z, a5, z, z, z, F::ONE], vec![b0, z, z, z, F::ONE]),
        (vec![z, z, z, z, z, z, a5], vec![z, z, F::ONE, z]),
    ] {
        let (pa, pb) = (Polynomial::from(a.clone()), Polynomial::from(b.clone()));
        let (q, r) = pa.polynomial_long_division(&pb);
        check_div("long division (sparse)", &a, &b, q.coeffs(), r.coeffs());
        let (q, r) = pa.polynomial_division(&pb);
        check_div("division (sparse)", &a, &b, q.coeffs(), r.coeffs());
    }
}
fn divide_by_zero() {
    let a: Vec<F> = vars("a", 2);
    for nb in 0..3 {
        let b = Polynomial::<F>::zero(nb);
        let pa = Polynomial::from(a.clone());
        for long in vec![false, true] {
            let (pa, b) = (pa.clone(), b.clone());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                if long {
                    pa.polynomial_long_division(&b)
                } else {
                    pa.polynomial_division(&b)
                }
            }));
            match r {
                Ok((q, _)) => {
                    let _ = q;
                    prove("division by the zero polynomial is rejected", pa_is_zero(&a));
                }
                Err(e) => {
                    if e.is::<crate::engine::Infeasible>() || e.is::<crate::engine::Unsupported>() {
                        std::panic::resume_unwind(e)
                    }
                }
            }
        }
    }
}
fn pa_is_zero(a: &[F]) -> bool {
    a.iter().all(|x| x.is_zero())
}
fn z_h() {
    for (n, nq) in vec![(1usize, 1usize), (1, 3), (2, 1), (2, 3), (4, 1), (4, 4), (4, 7), (8, 5)] {
        let q: Vec<F> = vars("q", nq);
        // a = q * (x^n - 1)
        let mut zh = vec![F::ZERO; n + 1];
        zh[0] = F::ZERO - F::ONE;
        zh[n] = F::ONE;
        let a = schoolbook(&q, &zh);
        // keep the top coefficient nonzero or not: both explored
        let mut a2 = a.clone();
        a2.push(F::ZERO);
        let d = Polynomial::from(a).divide_by_z_h(n);
        same_poly(&format!("divide_by_z_h n={} q={}", n, nq), d.coeffs(), &q);
        let d = Polynomial::from(a2).divide_by_z_h(n);
        same_poly(&format!("divide_by_z_h (padded) n={} q={}", n, nq), d.coeffs(), &q);
    }
}
pub fn all() -> Vec<Scenario> {
    let _ = std::marker::PhantomData::<S<P193>>;
    vec![
        scenario!(Big, "P02", 0, single_inverse, "inversion and division through the trait"),
        scenario!(Big, "P02", 0, batch_inverse_small, "batch inversion of 0-3 entries, every zero pattern"),
        scenario!(Big, "P02", 0, batch_inverse_6, "batch inversion of 6 entries, every zero pattern"),
        scenario!(Big, "P08", 0, fft_1_to_8, "FFT and inverse, sizes 1, 2, 4, 8"),
        scenario!(Big, "P08", 0, fft_16, "FFT and inverse, size 16"),
        scenario!(Big, "P08", 0, fft_32, "FFT and inverse, size 32"),
        scenario!(Big, "P08", 1, fft_64, "FFT and inverse, size 64"),
        scenario!(Big, "P08", 0, fft_8192, "FFT and inverse, size 8192 with three symbolic coefficients"),
        scenario!(Big, "P08", 0, fft_padding, "FFT of lengths that are not powers of two, eval_domain and from_evaluations"),
        scenario!(Big, "P09", 0, poly_mul_dense, "products and sums up to 3x3 coefficients"),
        scenario!(Big, "P09", 1, poly_mul_5x4, "products and sums of 5x4 coefficients"),
        scenario!(Big, "P09", 0, poly_basic, "evaluation, degree, lead, trim, pad"),
        scenario!(Big, "P09", 0, poly_eq, "equality of different lengths"),
        scenario!(Big, "P09", 0, long_division_3_2, "long division 3/2 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, long_division_4_2, "long division 4/2 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, long_division_4_3, "long division 4/3 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, division_3_2, "division 3/2 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, division_4_2, "division 4/2 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, division_4_3, "division 4/3 coefficients, every zero pattern"),
        scenario!(Big, "P09", 1, division_5_3, "division 5/3 coefficients, every zero pattern"),
        scenario!(Big, "P09", 0, division_6_2_sparse, "sparse dividends and divisors"),
        scenario!(Big, "P09", 0, divide_by_zero, "division by the zero polynomial"),
        scenario!(Big, "P09", 0, z_h, "division by X^n - 1"),
    ]
}
