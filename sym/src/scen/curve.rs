//! P05: the group law.
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, C, F};
use plonky::{AffinePoint, Curve, Field, ProjectivePoint};

type Aff = AffinePoint<C>;
type Proj = ProjectivePoint<C>;

/// Two symbolic points with distinct x on a curve with symbolic A; A and B are eliminated.
fn two_points_a() -> (Aff, Aff) {
    let (x1, y1, x2, y2): (F, F, F, F) = (var("x1"), var("y1"), var("x2"), var("y2"));
    assume_nonzero(x1 - x2);
    let a = (y1 * y1 - y2 * y2 - (x1 * x1 * x1 - x2 * x2 * x2)) / (x1 - x2);
    assume_nonzero(a);
    set_slot(A, a);
    set_slot(B, y1 * y1 - x1 * x1 * x1 - a * x1);
    (Aff { x: x1, y: y1, zero: false }, Aff { x: x2, y: y2, zero: false })
}
/// A = 0, slope-parametrized.
fn two_points_0() -> (Aff, Aff) {
    let (x1, x2, l): (F, F, F) = (var("x1"), var("x2"), var("lambda"));
    assume_nonzero(x1 - x2);
    assume_nonzero(l);
    let s = (x1 * x1 + x1 * x2 + x2 * x2) / l;
    let d = l * (x2 - x1);
    let half = F::TWO.multiplicative_inverse().unwrap();
    let y1 = (s - d) * half;
    let y2 = (s + d) * half;
    set_slot(A, F::ZERO);
    set_slot(B, y1 * y1 - x1 * x1 * x1);
    (Aff { x: x1, y: y1, zero: false }, Aff { x: x2, y: y2, zero: false })
}
fn one_point(a: F) -> Aff {
    let (x, y): (F, F) = (var("x1"), var("y1"));
    set_slot(A, a);
    set_slot(B, y * y - x * x * x - a * x);
    Aff { x, y, zero: false }
}
fn proj(p: Aff, z: &str) -> Proj {
    let z: F = var(z);
    assume_nonzero(z);
    Proj { x: p.x * z, y: p.y * z, z, zero: false }
}
/// chord-and-tangent specification
fn spec_add(p: Aff, q: Aff) -> Aff {
    if p.zero {
        return q;
    }
    if q.zero {
        return p;
    }
    let l;
    if p.x == q.x {
        if (p.y + q.y).is_zero() {
            return Aff::ZERO;
        }
        l = (p.x * p.x * F::THREE + C::A) / (p.y + p.y);
    } else {
        l = (q.y - p.y) / (q.x - p.x);
    }
    let x = l * l - p.x - q.x;
    Aff { x, y: l * (p.x - x) - p.y, zero: false }
}
fn same(l: &str, got: Aff, want: Aff) {
    prove(&format!("{}: identity flag", l), got.zero == want.zero);
    if !got.zero && !want.zero {
        prove_eq(&format!("{}.x", l), got.x, want.x);
        prove_eq(&format!("{}.y", l), got.y, want.y);
    }
}
fn same_proj(l: &str, got: Proj, want: Aff) {
    prove(&format!("{}: identity flag", l), got.zero == want.zero);
    if !got.zero && !want.zero {
        let nz = got.z.is_nonzero();
        prove(&format!("{}: z nonzero", l), nz);
        if nz {
            prove_eq(&format!("{}.x", l), got.x, want.x * got.z);
            prove_eq(&format!("{}.y", l), got.y, want.y * got.z);
        }
    }
}
fn add_all(p: Aff, q: Aff) {
    let w = spec_add(p, q);
    same_proj("affine+affine", p + q, w);
    let (pp, qp) = (proj(p, "z1"), proj(q, "z2"));
    same_proj("projective+projective", pp + qp, w);
    same_proj("projective+affine", pp + q, w);
    let (p1, q1) = (p.to_projective(), q.to_projective());
    same_proj("projective+projective (z=1)", p1 + q1, w);
    same("to_affine", (pp + qp).to_affine(), w);
}

fn add_distinct_a() {
    let (p, q) = two_points_a();
    add_all(p, q);
}

fn add_distinct_0() {
    let (p, q) = two_points_0();
    add_all(p, q);
}
fn add_same_y_0() {
    // A = 0, equal y, x2 = zeta * x1 with zeta a primitive cube root of unity
    let p = one_point(F::ZERO);
    assume_nonzero(p.x);
    let z = cube_root();
    let q = Aff { x: z * p.x, y: p.y, zero: false };
    add_all(p, q);
}
pub fn cube_root() -> F {
    // (-1 + sqrt(-3)) / 2
    let s = (F::ZERO - F::THREE).square_root().expect("p = 1 mod 3");
    (s - F::ONE) / F::TWO
}
fn add_equal(a: F) {
    let p = one_point(a);
    assume_nonzero(p.y);
    let w = spec_add(p, p);
    add_all(p, p);
    same("affine double", p.double(), w);
    let pp = proj(p, "z1");
    same_proj("projective double", pp.double(), w);
    same_proj("projective double z=1", p.to_projective().double(), w);
    prove("double of the identity", ProjectivePoint::<C>::ZERO.double() == ProjectivePoint::ZERO);
    prove("affine double of the identity", Aff::ZERO.double() == Aff::ZERO);
}
fn add_equal_0() {
    add_equal(F::ZERO)
}
fn add_equal_a() {
    let a: F = var("a");
    assume_nonzero(a);
    add_equal(a)
}
fn add_opposite() {
    let a: F = var("a");
    let p = one_point(a);
    let n = Aff { x: p.x, y: F::ZERO - p.y, zero: false };
    prove("affine negation", -p == n);
    prove("affine negation keeps the flag", !(-p).zero);
    let pp = proj(p, "z1");
    same_proj("projective negation (operator)", -pp, n);
    same_proj("projective negation (method)", pp.neg(), n);
    assume_nonzero(p.y);
    add_all(p, n);
    add_all(n, p);
}
fn add_identity() {
    let a: F = var("a");
    let p = one_point(a);
    let o = Aff::ZERO;
    let pp = proj(p, "z1");
    // an identity with arbitrary junk coordinates is still the identity
    let (jx, jy, jz): (F, F, F) = (var("jx"), var("jy"), var("jz"));
    let jo = Proj { x: jx, y: jy, z: jz, zero: true };
    let joa = Aff { x: jx, y: jy, zero: true };
    for (l, z) in vec![("0", Proj::ZERO), ("junk", jo)] {
        same_proj(&format!("P+O {}", l), pp + z, p);
        same_proj(&format!("O+P {}", l), z + pp, p);
        same_proj(&format!("O+P affine {}", l), z + p, p);
        prove(&format!("O+O {}", l), (z + z).zero);
        prove(&format!("2O {}", l), z.double().zero);
        prove(&format!("-O {}", l), (-z).zero && z.neg().zero);
        prove(&format!("O to affine {}", l), z.to_affine().zero);
        prove(&format!("O valid {}", l), z.is_valid());
        prove(&format!("O == O {}", l), z == Proj::ZERO);
        prove(&format!("O != P {}", l), z != pp && pp != z);
    }
    for (l, z) in vec![("0", o), ("junk", joa)] {
        same_proj(&format!("P+O mixed {}", l), pp + z, p);
        same_proj(&format!("P+O affine {}", l), p + z, p);
        same_proj(&format!("O+P affine {}", l), z + p, p);
        prove(&format!("O+O affine {}", l), (z + z).zero);
        prove(&format!("O+O mixed {}", l), (Proj::ZERO + z).zero);
        prove(&format!("2O affine {}", l), z.double().zero);
        prove(&format!("-O affine {}", l), (-z).zero);
        prove(&format!("O valid affine {}", l), z.is_valid());
        prove(&format!("O to projective {}", l), z.to_projective().zero);
        prove(&format!("O == O affine {}", l), z == Aff::ZERO);
        prove(&format!("O != P affine {}", l), z != p && p != z);
    }
    let s = ProjectivePoint::add_slices(&[pp, Proj::ZERO, pp], &[Proj::ZERO, pp, pp.neg()]);
    prove("add_slices length", s.len() == 3);
    same_proj("add_slices[0]", s[0], p);
    same_proj("add_slices[1]", s[1], p);
    prove("add_slices[2]", s[2].zero);
}
/// equality and validity against independent formulas
fn eq_and_valid() {
    let (x1, y1, x2, y2): (F, F, F, F) = (var("x1"), var("y1"), var("x2"), var("y2"));
    let (a, b): (F, F) = (var("a"), var("b"));
    set_slot(A, a);
    set_slot(B, b);
    let p = Aff { x: x1, y: y1, zero: false };
    let q = Aff { x: x2, y: y2, zero: false };
    let want = x1 == x2 && y1 == y2;
    prove("affine ==", (p == q) == want);
    let (pp, qp) = (proj(p, "z1"), proj(q, "z2"));
    prove("projective ==", (pp == qp) == want);
    let on = (y1 * y1 - x1 * x1 * x1 - a * x1 - b).is_zero();
    prove("affine is_valid", p.is_valid() == on);
}
fn conversions() {
    let a: F = var("a");
    let p = one_point(a);
    let pp = proj(p, "z1");
    same("to_affine", pp.to_affine(), p);
    prove("projective is_valid", pp.is_valid());
    same("to_projective.to_affine", p.to_projective().to_affine(), p);
    same_proj("to_projective", p.to_projective(), p);
    let z2: F = var("z2");
    assume_nonzero(z2);
    let pn = Proj { x: p.x * z2, y: F::ZERO - p.y * z2, z: z2, zero: false };
    let np = Aff { x: p.x, y: F::ZERO - p.y, zero: false };
    let list = vec![Proj::ZERO, pp, pn, Proj::ZERO, pp];
    let out = ProjectivePoint::batch_to_affine(&list);
    prove("batch_to_affine length", out.len() == 5);
    same("batch_to_affine[0]", out[0], Aff::ZERO);
    same("batch_to_affine[1]", out[1], p);
    same("batch_to_affine[2]", out[2], np);
    same("batch_to_affine[3]", out[3], Aff::ZERO);
    same("batch_to_affine[4]", out[4], p);
    let back = Aff::batch_to_projective(&[p, Aff::ZERO, np]);
    prove("batch_to_projective length", back.len() == 3);
    same_proj("batch_to_projective[0]", back[0], p);
    prove("batch_to_projective[1]", back[1].zero);
    same_proj("batch_to_projective[2]", back[2], np);
    prove("empty batches", ProjectivePoint::<C>::batch_to_affine(&[]).is_empty() && Aff::batch_to_projective(&[]).is_empty());
    same("nonzero()", Aff::nonzero(p.x, p.y), p);
    same_proj("nonzero() projective", Proj::nonzero(pp.x, pp.y, pp.z), p);
}
fn endomorphism() {
    let z = cube_root();
    set_slot(ZETA, z);
    let (p, q) = two_points_0();
    let s = (p + q).to_affine();
    let es = (p.endomorphism() + q.endomorphism()).to_affine();
    same("phi(P)+phi(Q) = phi(P+Q)", es, s.endomorphism());
    same("phi(P)", p.endomorphism(), Aff { x: z * p.x, y: p.y, zero: false });
    prove("phi(P) on the curve", p.endomorphism().is_valid());
    prove("phi(O)", Aff::ZERO.endomorphism().zero);
}
fn safe_curve() {
    let (a, b): (F, F) = (var("a"), var("b"));
    set_slot(A, a);
    set_slot(B, b);
    let disc = a * a * a * F::FOUR + b * b * konst(27);
    let nz = disc.is_nonzero();
    prove("is_safe_curve is the discriminant test", C::is_safe_curve() == nz);
}

pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P05", 0, add_distinct_a, "sum of two affine/projective points with different x, curve with A != 0"),
        scenario!(Big, "P05", 0, add_distinct_0, "sum of two affine/projective points with different x and y, A = 0"),
        scenario!(Big, "P05", 0, add_same_y_0, "sum of two points with equal y and different x, A = 0"),
        scenario!(Big, "P05", 0, add_equal_0, "doubling, A = 0"),
        scenario!(Big, "P05", 0, add_equal_a, "doubling, A != 0"),
        scenario!(Big, "P05", 0, add_opposite, "negation and sums of opposite points"),
        scenario!(Big, "P05", 0, add_identity, "identity operands"),
        scenario!(Big, "P05", 0, eq_and_valid, "equality and curve membership"),
        scenario!(Big, "P05", 0, conversions, "affine/projective conversions, single and batched"),
        scenario!(Big, "P05", 0, endomorphism, "cube-root endomorphism"),
        scenario!(Big, "P05", 0, safe_curve, "discriminant test"),
    ]
}
