//! Singular cubics whose smooth points form an explicitly known group: used as models of the generic
//! curve code (the code under test never uses non-singularity).
use crate::cx::*;
use crate::sfield::{C, F};
use plonky::{AffinePoint, Field, ProjectivePoint};

pub type Aff = AffinePoint<C>;
pub type Proj = ProjectivePoint<C>;

/// y^2 = x^3: t -> (1/t^2, 1/t^3), the additive group, no 2-torsion, A = 0.
pub fn set_cusp() {
    set_slot(A, F::ZERO);
    set_slot(B, F::ZERO);
    let g = cusp_nz(F::from_canonical_u64(7));
    set_slot(GX, g.x);
    set_slot(GY, g.y);
}
fn cusp_nz(t: F) -> Aff {
    let i = t.multiplicative_inverse().unwrap();
    Aff { x: i * i, y: i * i * i, zero: false }
}
/// point with parameter t, t = 0 giving the identity (decides t = 0)
pub fn cusp(t: F) -> Aff {
    if t.is_zero() {
        return Aff::ZERO;
    }
    cusp_nz(t)
}
/// p has parameter t
pub fn is_cusp(l: &str, p: Proj, t: F) {
    let tz = t.is_zero();
    prove(&format!("{}: identity flag", l), p.zero == tz);
    if !p.zero && !tz {
        let nz = p.z.is_nonzero();
        prove(&format!("{}: z nonzero", l), nz);
        if nz {
            prove_eq(&format!("{}: x", l), p.x * t * t, p.z);
            prove_eq(&format!("{}: y", l), p.y * t * t * t, p.z);
        }
    }
}
pub fn is_cusp_aff(l: &str, p: Aff, t: F) {
    let tz = t.is_zero();
    prove(&format!("{}: identity flag", l), p.zero == tz);
    if !p.zero && !tz {
        prove_eq(&format!("{}: x", l), p.x * t * t, F::ONE);
        prove_eq(&format!("{}: y", l), p.y * t * t * t, F::ONE);
    }
}
/// splits the interesting coincidences of +-t1 +-t2 ... cleanly
pub fn hint_sums(ts: &[F]) {
    let n = ts.len();
    let total = 3usize.pow(n as u32);
    for k in 0..total {
        let mut s = F::ZERO;
        let mut kk = k;
        let mut first = 0;
        let mut cnt = 0;
        for t in ts {
            match kk % 3 {
                1 => {
                    s = s + *t;
                    if first == 0 {
                        first = 1;
                    }
                    cnt += 1;
                }
                2 => {
                    s = s - *t;
                    if first == 0 {
                        first = 2;
                    }
                    cnt += 1;
                }
                _ => {}
            }
            kk /= 3;
        }
        if first == 1 && cnt >= 2 {
            hint(s);
        }
    }
}

/// y^2 = (x-1)^2 (x+2), A = -3, B = 2: the multiplicative group; u = -1 is a point of order two.
pub fn set_node() {
    set_slot(A, F::ZERO - F::THREE);
    set_slot(B, F::TWO);
    let g = node(F::from_canonical_u64(7));
    set_slot(GX, g.x);
    set_slot(GY, g.y);
}
pub fn sqrt3() -> F {
    F::THREE.square_root().expect("3 is a square")
}
pub fn node(u: F) -> Aff {
    if u == F::ONE {
        return Aff::ZERO;
    }
    let m = sqrt3() * (F::ONE + u) / (F::ONE - u);
    Aff { x: m * m - F::TWO, y: m * (m * m - F::THREE), zero: false }
}
pub fn is_node(l: &str, p: Proj, u: F) {
    let uz = u == F::ONE;
    prove(&format!("{}: identity flag", l), p.zero == uz);
    if !p.zero && !uz {
        let nz = p.z.is_nonzero();
        prove(&format!("{}: z nonzero", l), nz);
        if nz {
            let w = node(u);
            prove_eq(&format!("{}: x", l), p.x, p.z * w.x);
            prove_eq(&format!("{}: y", l), p.y, p.z * w.y);
        }
    }
}
