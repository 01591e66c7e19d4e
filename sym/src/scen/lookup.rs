//! P27: the lookup argument (plookup crate), prover and verifier whole, over the stand-in group in which
//! a point is its discrete logarithm.
use super::ipa::*;
use super::proto::{begin, k};
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, F};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::halo_s;
use plonky::*;
use plookup::plookup::{eval_l_i, prove as lookup_prove, SECURITY_BITS};
use plookup::table::Table;
use plookup::verifier::verify;

fn f(n: u64) -> F {
    F::from_canonical_u64(n)
}
fn ipow(x: F, n: usize) -> F {
    (0..n).fold(F::ONE, |a, _| a * x)
}
fn dot(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).fold(F::ZERO, |s, (x, y)| s + *x * *y)
}
fn root(n: usize) -> F {
    F::primitive_root_of_unity(n.trailing_zeros() as usize)
}
fn guard<T>(r: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(r)) {
        Ok(x) => Some(x),
        Err(e) => {
            if e.is::<crate::engine::Infeasible>() || e.is::<crate::engine::Unsupported>() {
                std::panic::resume_unwind(e)
            }
            None
        }
    }
}
/// L_i(x) as the interpolation formula, by its defining product
fn basis(n: usize, i: usize, x: F) -> F {
    let g = root(n);
    let gi = ipow(g, i);
    (0..n).filter(|j| *j != i).fold(F::ONE, |acc, j| acc * (x - ipow(g, j)) / (gi - ipow(g, j)))
}
fn coeffs(values: &[F]) -> Vec<F> {
    let n = values.len();
    let (g, ninv) = (root(n).multiplicative_inverse().unwrap(), f(n as u64).multiplicative_inverse().unwrap());
    (0..n).map(|j| ninv * (0..n).fold(F::ZERO, |s, i| s + values[i] * ipow(g, (i * j) % n))).collect()
}

// ---- Lagrange basis
fn lk_basis() {
    let x: F = var("x");
    for &n in &[1usize, 2, 4, 8] {
        let g = root(n);
        for i in 0..n {
            prove_eq("L_i(x)", eval_l_i(n, i, g, x), basis(n, i, x));
            for j in 0..n {
                prove_eq("L_i on the domain", eval_l_i(n, i, g, ipow(g, j)), if i == j { F::ONE } else { F::ZERO });
            }
        }
    }
}

// ---- the relation the verifier checks
macro_rules! numerator {
    ($p:expr, $ch:expr) => {{
        let (o, ch) = (&$p.openings, &$ch);
        let n1 = $p.n + 1;
        let last = ipow(root(n1), n1 - 1);
        let b1 = ch.beta + F::ONE;
        let gb = ch.gamma * b1;
        let l0 = basis(n1, 0, ch.zeta);
        let ln = basis(n1, n1 - 1, ch.zeta);
        let lhs = o.z.local * b1 * (ch.gamma + o.f.local) * (gb + o.t.local + ch.beta * o.t.right);
        let rhs = o.z.right * (gb + o.h1.local + ch.beta * o.h1.right) * (gb + o.h2.local + ch.beta * o.h2.right);
        l0 * (o.z.local - F::ONE)
            + ch.alpha * (ch.zeta - last) * (lhs - rhs)
            + ch.alpha * ch.alpha * ln * (o.h1.local - o.h2.right)
            + ch.alpha * ch.alpha * ch.alpha * ln * (o.z.local - F::ONE)
    }};
}
macro_rules! opening_equation {
    ($p:expr, $ch:expr) => {{
        let (p, ch) = (&$p, &$ch);
        let o = &p.openings;
        let n2 = 2 * p.n + 2;
        let coms: Vec<F> = [p.c_f, p.c_t, p.c_h1, p.c_h2, p.c_z, p.c_quotient].iter().map(|c| loga(*c)).collect();
        let s: Vec<F> = (0..6).map(|i| spec_n(&ipow(ch.u, i).to_canonical_bool_vec()[..128])).collect();
        let local = [o.f.local, o.t.local, o.h1.local, o.h2.local, o.z.local, o.quotient.local];
        let right = [o.f.right, o.t.right, o.h1.right, o.h2.right, o.z.right, o.quotient.right];
        let value = dot(&local, &s) + ch.v * dot(&right, &s);
        let sv = halo_s(&ch.halo_us);
        let pw = |x: F| (0..n2).map(|i| ipow(x, i)).collect::<Vec<F>>();
        let b = dot(&sv, &pw(ch.zeta)) + ch.v * dot(&sv, &pw(ch.zeta * root(p.n + 1)));
        let up = spec_n(&ch.u_scaling.to_canonical_bool_vec()[..128]) * blake_hash_usize_to_curve::<LC>(n2 + 1).x;
        let h = blake_hash_usize_to_curve::<LC>(n2).x;
        let mut q = dot(&coms, &s) + value * up;
        for i in 0..ch.halo_us.len() {
            let u2 = ch.halo_us[i] * ch.halo_us[i];
            q = q + u2 * loga(p.halo_proof.halo_l[i]) + loga(p.halo_proof.halo_r[i]) / u2;
        }
        let sp = &p.halo_proof.schnorr_proof;
        ch.schnorr_challenge * q + loga(sp.r) - sp.z1 * (loga(p.halo_proof.halo_g) + b * up) - sp.z2 * h
    }};
}
fn table_commitment(t: &[F], n1: usize) -> F {
    let mut v = t.to_vec();
    v.resize(n1, t[t.len() - 1]);
    let bases: Vec<F> = (0..n1).map(|i| blake_hash_usize_to_curve::<LC>(i).x).collect();
    dot(&coeffs(&v), &bases)
}

// ---- completeness
/// `t` holds pairwise distinct values; `idx` says which of them each witness value is.
fn honest(t: &[F], idx: &[usize]) {
    let w: Vec<F> = idx.iter().map(|i| t[*i]).collect();
    let p = match guard(|| lookup_prove::<LC>(&w, t)) {
        Some(Ok(p)) => p,
        _ => {
            prove("a proof is produced", false);
            return;
        }
    };
    let n1 = (w.len() + 1).max(t.len()).max(2).next_power_of_two();
    prove("size of the argument", p.n + 1 == n1);
    let n = n1 - 1;
    // the padded inputs and the sorted concatenation
    let mut tp = t.to_vec();
    tp.resize(n1, t[t.len() - 1]);
    let mut wp = w.clone();
    wp.resize(n, t[0]);
    let mut s = vec![];
    for i in 0..t.len() {
        let mut m = idx.iter().filter(|j| **j == i).count() + 1;
        if i == 0 {
            m += n - w.len();
        }
        if i == t.len() - 1 {
            m += n1 - t.len();
        }
        for _ in 0..m {
            s.push(t[i]);
        }
    }
    prove("length of the sorted concatenation", s.len() == 2 * n + 1);
    let ch = match guard(|| p.get_challenges()) {
        Some(Ok(c)) => c,
        _ => {
            prove("the proof's challenges exist", false);
            return;
        }
    };
    let (b, g) = (ch.beta, ch.gamma);
    let b1 = b + F::ONE;
    let mut z = vec![F::ONE];
    for i in 0..n {
        let num = b1 * (g + wp[i]) * (g * b1 + tp[i] + b * tp[i + 1]);
        let den = (g * b1 + s[i] + b * s[i + 1]) * (g * b1 + s[n + i] + b * s[n + i + 1]);
        z.push(z[i] * num / den);
    }
    prove_eq("the grand product closes", z[n], F::ONE);
    let mut fp = wp.clone();
    fp.push(F::ZERO);
    let gen = root(n1);
    for (right, x) in &[(false, ch.zeta), (true, ch.zeta * gen)] {
        let l: Vec<F> = (0..n1).map(|i| basis(n1, i, *x)).collect();
        let o = &p.openings;
        let pick = |q: (F, F)| if *right { q.1 } else { q.0 };
        prove_eq("opening of f", pick((o.f.local, o.f.right)), dot(&fp, &l));
        prove_eq("opening of t", pick((o.t.local, o.t.right)), dot(&tp, &l));
        prove_eq("opening of h1", pick((o.h1.local, o.h1.right)), dot(&s[..n1], &l));
        prove_eq("opening of h2", pick((o.h2.local, o.h2.right)), dot(&s[n..], &l));
        prove_eq("opening of Z", pick((o.z.local, o.z.right)), dot(&z, &l));
    }
    prove_eq("quotient relation", numerator!(p, ch), (ipow(ch.zeta, n1) - F::ONE) * p.openings.quotient.local);
    prove_eq("table commitment", loga(p.c_t), table_commitment(t, n1));
    prove("the verifier accepts", matches!(guard(|| verify(t, &p)), Some(Ok(()))));
    prove("the verifier accepts for the padded table", matches!(guard(|| verify(&tp, &p)), Some(Ok(()))));
}
fn distinct(t: &[F]) {
    for i in 0..t.len() {
        for j in 0..i {
            assume_nonzero(t[i] - t[j]);
        }
    }
    generic(true);
}
/// tables of one and two values, witnesses of zero and one value; everything symbolic
fn lk_complete_1() {
    begin();
    let t: Vec<F> = if choose("single") { vec![var("a")] } else { vec![var("a"), var("b")] };
    let idx: Vec<usize> = if choose("empty") { vec![] } else if t.len() == 2 && choose("second") { vec![1] } else { vec![0] };
    distinct(&t);
    honest(&t, &idx);
}
fn table(n: usize, at: usize) -> Vec<F> {
    let t: Vec<F> = (0..n).map(|i| if i == at { var("x") } else { f(20 + 3 * i as u64) }).collect();
    distinct(&t);
    t
}
fn lk_complete_3() {
    begin();
    let n = if choose("three") { 3 } else { 4 };
    let at = if choose("first") { 0 } else { n - 1 };
    let idx: Vec<usize> = if choose("equal") { vec![n - 1; 3] } else if choose("mixed") { vec![2, 0, 1] } else { vec![1, 1] };
    let t = table(n, at);
    honest(&t, &idx);
}
/// more witness values than table values, and the other way round
fn lk_complete_7() {
    begin();
    if choose("long") {
        let t = table(2, 1);
        honest(&t, &[1, 0, 0, 1, 1, 0, 1]);
    } else {
        let t = table(8, 3);
        honest(&t, &[7, 3, 0]);
    }
}
/// a witness value outside the table: the prover does not hand out a proof the verifier accepts
fn lk_absent() {
    begin();
    let n = if choose("four") { 4 } else if choose("two") { 2 } else { 1 };
    let t: Vec<F> = (0..n).map(|i| f(20 + 3 * i as u64)).collect();
    let x: F = var("x");
    for y in &t {
        assume_nonzero(x - *y);
    }
    let m = if choose("last") { 1 } else { 0 };
    let mut w = vec![t[0]; m + 1];
    w[m] = x;
    generic(true);
    let ok = match guard(|| lookup_prove::<LC>(&w, &t)) {
        Some(Ok(p)) => matches!(guard(|| verify(&t, &p)), Some(Ok(()))),
        _ => false,
    };
    prove("no accepted proof for a value outside the table", !ok);
}
// ---- the verifier is exact
macro_rules! judged {
    ($p:ident, $n:expr, $base:ident, $t:expr, $edit:block) => {{
        let $base: Vec<F> = (0..$n).map(|i| f(20 + 3 * i as u64)).collect();
        let t: Vec<F> = $t;
        let mut $p = match lookup_prove::<LC>(&[$base[0]], &$base) {
            Ok(p) => p,
            Err(_) => panic!("no proof"),
        };
        generic(false);
        $edit;
        // folding messages that give usable challenges
        for i in 0..$p.halo_proof.halo_l.len() {
            let l0 = loga($p.halo_proof.halo_l[i]);
            let (l, r) = ($p.halo_proof.halo_l.clone(), $p.halo_proof.halo_r.clone());
            $p.halo_proof.halo_l.truncate(i + 1);
            $p.halo_proof.halo_r.truncate(i + 1);
            let mut found = false;
            for a in 0..64u64 {
                $p.halo_proof.halo_l[i] = pt(l0 + f(a));
                if guard(|| $p.get_challenges().is_ok()) == Some(true) {
                    found = true;
                    break;
                }
            }
            prove("usable folding messages exist", found);
            let keep = $p.halo_proof.halo_l[i];
            $p.halo_proof.halo_l = l;
            $p.halo_proof.halo_l[i] = keep;
            $p.halo_proof.halo_r = r;
        }
        let ch = match $p.get_challenges() {
            Ok(c) => c,
            Err(_) => return,
        };
        let n1 = $p.n + 1;
        let rel = numerator!($p, ch) - (ipow(ch.zeta, n1) - F::ONE) * $p.openings.quotient.local;
        let ipa = opening_equation!($p, ch);
        let com = loga($p.c_t) - table_commitment(&t, n1);
        match guard(|| verify(&t, &$p)) {
            Some(Ok(())) => {
                prove_zero("accepted: quotient relation", rel);
                prove_zero("accepted: commitment openings", ipa);
                prove_zero("accepted: table commitment", com);
            }
            _ => {
                let z = rel.is_zero() && ipa.is_zero() && com.is_zero();
                prove("rejected: some relation fails", !z);
            }
        }
    }};
}
fn lk_verify_openings() {
    begin();
    let which = if choose("z") { 0 } else if choose("h") { 1 } else if choose("ft") { 2 } else { 3 };
    judged!(p, 4, b, b.clone(), {
        let o = &mut p.openings;
        match which {
            0 => {
                o.z.local = var("z");
                o.z.right = var("zr");
            }
            1 => {
                o.h1.local = var("h1");
                o.h1.right = var("h1r");
                o.h2.local = var("h2");
                o.h2.right = var("h2r");
            }
            2 => {
                o.f.local = var("f");
                o.f.right = var("fr");
                o.t.local = var("t");
                o.t.right = var("tr");
            }
            _ => {
                o.quotient.right = var("qr");
            }
        }
        o.quotient.local = var("q");
        p.halo_proof.schnorr_proof.z2 = var("z2");
    });
}
fn lk_verify_commitments() {
    begin();
    judged!(p, 2, b, b.clone(), {
        p.c_f = pt(loga(p.c_f) + var::<Big>("cf"));
        p.c_h1 = pt(loga(p.c_h1) + var::<Big>("ch1"));
        p.c_h2 = pt(loga(p.c_h2) + var::<Big>("ch2"));
        p.c_z = pt(loga(p.c_z) + var::<Big>("cz"));
        p.c_quotient = pt(loga(p.c_quotient) + var::<Big>("cq"));
        for i in 0..2 {
            p.halo_proof.halo_l[i] = pt(loga(p.halo_proof.halo_l[i]) + var::<Big>(&format!("l{}", i)));
            p.halo_proof.halo_r[i] = pt(loga(p.halo_proof.halo_r[i]) + var::<Big>(&format!("r{}", i)));
        }
        p.halo_proof.halo_g = pt(var("g"));
        p.halo_proof.schnorr_proof.r = pt(var("sr"));
        p.halo_proof.schnorr_proof.z1 = var("z1");
        p.halo_proof.schnorr_proof.z2 = var("z2");
        p.openings.quotient.local = var("q");
    });
}
/// the proof's table commitment against the verifier's own table
fn lk_verify_table() {
    begin();
    let at = if choose("first") { 0 } else { 2 };
    let d: F = var("d");
    let e: F = var("e");
    judged!(p, 3, b, (0..3).map(|i| if i == at { b[i] + d } else { b[i] }).collect(), {
        p.c_t = pt(loga(p.c_t) + e);
        p.openings.quotient.local = var("q");
        p.halo_proof.schnorr_proof.z2 = var("z2");
    });
}
/// an untouched proof against another table is accepted only if the tables agree after padding
fn lk_other_table() {
    begin();
    let n = if choose("four") { 4 } else { 2 };
    let base: Vec<F> = (0..n).map(|i| f(20 + 3 * i as u64)).collect();
    let p = match lookup_prove::<LC>(&[base[1]], &base) {
        Ok(p) => p,
        Err(_) => panic!("no proof"),
    };
    for i in 0..n {
        let mut t = base.clone();
        let x: F = var(&format!("x{}", i));
        t[i] = x;
        let ok = matches!(guard(|| verify(&t, &p)), Some(Ok(())));
        prove("accepted exactly for the same table", ok == (x - base[i]).is_zero());
    }
    for m in 0..2 * n + 1 {
        let mut t = base.clone();
        t.resize(m, base[n - 1]);
        let ok = matches!(guard(|| verify(&t, &p)), Some(Ok(())));
        prove("accepted exactly for tables with the same padding", ok == (m == n));
        if m < n && m > 0 {
            t.resize(n, base[n - 1]);
        }
    }
}

// ---- tables of rows
/// The reduced rows are the rows' values as polynomials, first column highest, at the rows' own challenge.
fn lk_table_vectors() {
    begin();
    let (a, b, c): (F, F, F) = (var("a"), var("b"), var("c"));
    let g = |x: [F; 2]| x[0] * x[1] + x[0] + c;
    let dom = [[a, b], [b, a], [a, a]];
    let t = Table::<F, 3>::from_function(&g, &dom);
    prove("one row per domain entry", t.0.len() == 3);
    for i in 0..3 {
        prove_eqs("row", &t.0[i], &[dom[i][0], dom[i][1], g(dom[i])]);
    }
    let q = Table::<F, 3>::from_function_cartesian(&g, &[a, b]);
    prove("one row per pair", q.0.len() == 4);
    let d = [a, b];
    for i in 0..2 {
        for j in 0..2 {
            prove_eqs("row of the product", &q.0[2 * i + j], &[d[i], d[j], g([d[i], d[j]])]);
        }
    }
    let h = |x: [F; 3]| x[0] * x[0] + x[1] * f(3) + x[2] * x[1] * f(5) + c;
    let w = Table::<F, 4>::from_function_cartesian(&h, &[a, b]);
    prove("one row per triple", w.0.len() == 8);
    for i in 0..8 {
        let x = [d[i >> 2], d[i >> 1 & 1], d[i & 1]];
        prove_eqs("row of the triple product", &w.0[i], &[x[0], x[1], x[2], h(x)]);
    }
    let e = Table::<F, 2>::from_function_cartesian(&|x: [F; 1]| x[0] * x[0], &[a, b, c]);
    prove("one row per value", e.0.len() == 3);
    for (i, x) in [a, b, c].iter().enumerate() {
        prove_eqs("row", &e.0[i], &[*x, *x * *x]);
    }
    for t in &[t, q] {
        let mut ch = Challenger::<F>::new(SECURITY_BITS);
        for r in &t.0 {
            ch.observe_elements(r);
        }
        let al = ch.get_challenge();
        let v = t.to_vec();
        prove("one value per row", v.len() == t.0.len());
        for (i, r) in t.0.iter().enumerate() {
            prove_eq("reduced row", v[i], al * al * r[0] + al * r[1] + r[2]);
        }
    }
}
/// rows and columns of the table prove and verify; a changed entry does not
fn lk_table_proof() {
    begin();
    let x: F = var("x");
    let dom = [[x, f(2)], [f(3), f(5)], [f(7), f(1)]];
    let t = Table::<F, 3>::from_function(&|a: [F; 2]| a[0] * a[1] + a[0], &dom);
    let mut rows = vec![t.0[1], t.0[0]];
    let bad = choose("changed");
    let columns = choose("columns");
    if bad {
        let d: F = var("d");
        assume_nonzero(d);
        let j = if choose("last") { 2 } else { 0 };
        rows[1][j] = rows[1][j] + d;
    }
    generic(true);
    let ok = if columns {
        let cols = [0usize, 1, 2];
        let cols: Vec<Vec<F>> = cols.iter().map(|j| rows.iter().map(|r| r[*j]).collect()).collect();
        let cols = [cols[0].clone(), cols[1].clone(), cols[2].clone()];
        match guard(|| t.prove_column::<LC>(&cols)) {
            Some(Ok(p)) => matches!(guard(|| t.verify(&p)), Some(Ok(()))),
            _ => false,
        }
    } else {
        match guard(|| t.prove_row::<LC>(&Table(rows.clone()))) {
            Some(Ok(p)) => matches!(guard(|| t.verify(&p)), Some(Ok(()))),
            _ => false,
        }
    };
    prove("accepted exactly for rows of the table", ok != bad);
}
/// every challenge of a proof changes with every component absorbed before it
fn lk_binding() {
    begin();
    let t = [f(20), f(23), f(26)];
    let x: F = var("x");
    macro_rules! list {
        ($p:expr) => {
            match guard(|| $p.get_challenges()) {
                Some(Ok(c)) => {
                    let mut v = vec![c.beta, c.gamma, c.alpha, c.zeta, c.v, c.u, c.u_scaling];
                    v.extend(c.halo_us.iter().map(|u| *u * *u));
                    v.push(c.schnorr_challenge);
                    Some(v)
                }
                _ => None,
            }
        };
    }
    let total = 6 + 12 + 2 * 3 + 1;
    let mut p = match lookup_prove::<LC>(&[t[1]], &t) {
        Ok(p) => p,
        Err(_) => panic!("no proof"),
    };
    let base = match list!(p) {
        Some(b) => b,
        None => panic!("no challenges"),
    };
    prove("number of challenges", base.len() == 11);
    for i in 0..total {
        let mut found = false;
        for a in 0..200u64 {
            macro_rules! edit {
                ($e:expr, pt, $first:expr) => {{
                    let keep = $e;
                    $e = pt(x + k(4000 + a));
                    let l = list!(p);
                    $e = keep;
                    ($first, l)
                }};
                ($e:expr, el, $first:expr) => {{
                    let keep = $e;
                    $e = x + k(4000 + a);
                    let l = list!(p);
                    $e = keep;
                    ($first, l)
                }};
            }
            let (first, l) = match i {
                0 => edit!(p.c_f, pt, 0),
                1 => edit!(p.c_t, pt, 0),
                2 => edit!(p.c_h1, pt, 0),
                3 => edit!(p.c_h2, pt, 0),
                4 => edit!(p.c_z, pt, 2),
                5 => edit!(p.c_quotient, pt, 3),
                6 => edit!(p.openings.f.local, el, 4),
                7 => edit!(p.openings.f.right, el, 4),
                8 => edit!(p.openings.t.local, el, 4),
                9 => edit!(p.openings.t.right, el, 4),
                10 => edit!(p.openings.h1.local, el, 4),
                11 => edit!(p.openings.h1.right, el, 4),
                12 => edit!(p.openings.h2.local, el, 4),
                13 => edit!(p.openings.h2.right, el, 4),
                14 => edit!(p.openings.z.local, el, 4),
                15 => edit!(p.openings.z.right, el, 4),
                16 => edit!(p.openings.quotient.local, el, 4),
                17 => edit!(p.openings.quotient.right, el, 4),
                18 => edit!(p.halo_proof.halo_l[0], pt, 7),
                19 => edit!(p.halo_proof.halo_l[1], pt, 8),
                20 => edit!(p.halo_proof.halo_l[2], pt, 9),
                21 => edit!(p.halo_proof.halo_r[0], pt, 7),
                22 => edit!(p.halo_proof.halo_r[1], pt, 8),
                23 => edit!(p.halo_proof.halo_r[2], pt, 9),
                _ => edit!(p.halo_proof.schnorr_proof.r, pt, 10),
            };
            if let Some(got) = l {
                found = true;
                for j in 0..base.len() {
                    if j < first {
                        prove(&format!("component {}: challenge {} was drawn before it", i, j), (got[j] - base[j]).is_zero());
                    } else {
                        prove(&format!("component {} is bound by challenge {}", i, j), !(got[j] - base[j]).is_zero());
                    }
                }
                break;
            }
        }
        prove("a usable transcript exists", found);
    }
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P27", 0, lk_basis, "eval_l_i = the Lagrange basis, orders 1 to 8, every index, every point"),
        scenario!(Big, "P27", 0, lk_complete_1, "tables of 1 or 2 arbitrary values, no or one witness value: grand product, openings, relation, acceptance"),
        scenario!(Big, "P27", 0, lk_complete_3, "tables of 3 or 4 values (one arbitrary), 2 or 3 witness values"),
        scenario!(Big, "P27", 0, lk_complete_7, "7 witness values from 2, and 3 from 8 (one table value arbitrary)"),
        scenario!(Big, "P27", 0, lk_absent, "any value outside a table of 1, 2 or 4: no accepted proof"),
        scenario!(Big, "P27", 0, lk_verify_openings, "verdict = relations: every opening, size 4"),
        scenario!(Big, "P27", 0, lk_verify_commitments, "verdict = relations: every commitment and folding message, size 2"),
        scenario!(Big, "P27", 0, lk_verify_table, "verdict = relations: table and table commitment, size 4"),
        scenario!(Big, "P27", 0, lk_other_table, "a proof for one table is accepted only for tables that agree with it after padding"),
        scenario!(Big, "P27", 0, lk_table_vectors, "tables of rows: construction and reduction to vectors"),
        scenario!(Big, "P27", 0, lk_table_proof, "rows of a table prove and verify, by rows and by columns; a changed entry does not"),
        scenario!(Big, "P27", 0, lk_binding, "a proof's challenges are bound to every component absorbed before them"),
    ]
}
