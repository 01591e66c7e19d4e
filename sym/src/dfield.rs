//! A small concrete field and outer curve, so that building circuits (whose commitments are irrelevant to
//! the gadget properties) is cheap. The circuit field stays the symbolic one.
use crate::sfield::{unsupported, Big, Modulus, S};
use plonky::{AffinePoint, Curve, Field, HaloCurve};
use rand::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const DP: u64 = (1 << 61) - 1;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct D(pub u64);
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Add for D {
    type Output = D;
    fn add(self, o: D) -> D {
        let s = self.0 + o.0;
        D(if s >= DP { s - DP } else { s })
    }
}
impl Sub for D {
    type Output = D;
    fn sub(self, o: D) -> D {
        D(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + DP - o.0 })
    }
}
impl Mul for D {
    type Output = D;
    fn mul(self, o: D) -> D {
        D(((self.0 as u128 * o.0 as u128) % DP as u128) as u64)
    }
}
impl Neg for D {
    type Output = D;
    fn neg(self) -> D {
        D(0) - self
    }
}
impl Div for D {
    type Output = D;
    fn div(self, o: D) -> D {
        self * o.multiplicative_inverse().expect("No inverse")
    }
}
impl Serialize for D {
    fn serialize<Z: Serializer>(&self, _s: Z) -> Result<Z::Ok, Z::Error> {
        unsupported("serialize")
    }
}
impl<'de> Deserialize<'de> for D {
    fn deserialize<X: Deserializer<'de>>(_d: X) -> Result<Self, X::Error> {
        unsupported("deserialize")
    }
}
fn pow(b: D, mut e: u64) -> D {
    let (mut r, mut b) = (D(1), b);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
impl Field for D {
    const BITS: usize = 61;
    const BYTES: usize = 8;
    const ZERO: Self = D(0);
    const ONE: Self = D(1);
    const TWO: Self = D(2);
    const THREE: Self = D(3);
    const FOUR: Self = D(4);
    const FIVE: Self = D(5);
    const NEG_ONE: Self = D(DP - 1);
    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = D(37);
    const ALPHA: Self = D(17);
    const TWO_ADICITY: usize = 1;
    const T: Self = D((DP - 1) / 2);
    fn to_canonical_u64_vec(&self) -> Vec<u64> {
        vec![self.0]
    }
    fn from_canonical_u64_vec(v: Vec<u64>) -> Self {
        D(v[0] % DP)
    }
    fn from_canonical_u64(n: u64) -> Self {
        D(n % DP)
    }
    fn is_valid_canonical_u64(v: &[u64]) -> bool {
        v.len() == 1 && v[0] < DP
    }
    fn multiplicative_inverse_assuming_nonzero(&self) -> Self {
        pow(*self, DP - 2)
    }
    fn is_quadratic_residue(&self) -> bool {
        self.0 == 0 || pow(*self, (DP - 1) / 2).0 == 1
    }
    fn square_root(&self) -> Option<Self> {
        let r = pow(*self, (DP + 1) / 4);
        if r * r == *self {
            Some(r)
        } else {
            None
        }
    }
    fn rand() -> Self {
        D(12345)
    }
    fn rand_from_rng<R: Rng>(rng: &mut R) -> Self {
        D(rng.gen::<u64>() % DP)
    }
}

/// y^2 = x^3 over D, scalar field S<M>
#[derive(Copy, Clone, Debug)]
pub struct OutM<M: Modulus>(PhantomData<M>);
impl<M: Modulus> Curve for OutM<M> {
    type BaseField = D;
    type ScalarField = S<M>;
    const A: D = D(0);
    const B: D = D(0);
    const GENERATOR_AFFINE: AffinePoint<Self> = AffinePoint { x: D(1), y: D(1), zero: false };
}
impl<M: Modulus> HaloCurve for OutM<M> {
    const ZETA: D = D(1);
    const ZETA_SCALAR: S<M> = S::h(1);
}
pub type Out = OutM<Big>;

/// Concrete prime field of small order: a scalar field whose every element can be visited, while the
/// curve's coordinates stay in the symbolic field.
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct W<const P: u64>(pub u64);
impl<const P: u64> fmt::Debug for W<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Display for W<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Add for W<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        W((self.0 + o.0) % P)
    }
}
impl<const P: u64> Sub for W<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        W((self.0 + P - o.0) % P)
    }
}
impl<const P: u64> Mul for W<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        W(((self.0 as u128 * o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Neg for W<P> {
    type Output = Self;
    fn neg(self) -> Self {
        W(0) - self
    }
}
impl<const P: u64> Div for W<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.multiplicative_inverse().expect("No inverse")
    }
}
impl<const P: u64> Serialize for W<P> {
    fn serialize<Z: Serializer>(&self, _s: Z) -> Result<Z::Ok, Z::Error> {
        unsupported("serialize")
    }
}
impl<'de, const P: u64> Deserialize<'de> for W<P> {
    fn deserialize<X: Deserializer<'de>>(_d: X) -> Result<Self, X::Error> {
        unsupported("deserialize")
    }
}
impl<const P: u64> Field for W<P> {
    const BITS: usize = 64 - P.leading_zeros() as usize;
    const BYTES: usize = 8;
    const ZERO: Self = W(0);
    const ONE: Self = W(1);
    const TWO: Self = W(2);
    const THREE: Self = W(3);
    const FOUR: Self = W(4);
    const FIVE: Self = W(5);
    const NEG_ONE: Self = W(P - 1);
    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = W(2);
    const ALPHA: Self = W(5);
    const TWO_ADICITY: usize = 1;
    const T: Self = W((P - 1) / 2);
    fn to_canonical_u64_vec(&self) -> Vec<u64> {
        vec![self.0]
    }
    fn from_canonical_u64_vec(v: Vec<u64>) -> Self {
        W(v[0] % P)
    }
    fn from_canonical_u64(n: u64) -> Self {
        W(n % P)
    }
    fn is_valid_canonical_u64(v: &[u64]) -> bool {
        v.len() == 1 && v[0] < P
    }
    fn multiplicative_inverse_assuming_nonzero(&self) -> Self {
        let (mut r, mut b, mut e) = (W::<P>(1), *self, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    fn is_quadratic_residue(&self) -> bool {
        unsupported("residuosity in the small scalar field")
    }
    fn square_root(&self) -> Option<Self> {
        unsupported("square root in the small scalar field")
    }
    fn rand() -> Self {
        W(3 % P)
    }
    fn rand_from_rng<R: Rng>(rng: &mut R) -> Self {
        W(rng.gen::<u64>() % P)
    }
}
/// Curve with symbolic coordinates and the small scalar field.
#[derive(Copy, Clone, Debug)]
pub struct KW<const P: u64>;
impl<const P: u64> Curve for KW<P> {
    type BaseField = S<Big>;
    type ScalarField = W<P>;
    const A: S<Big> = S::h(crate::engine::SLOT0);
    const B: S<Big> = S::h(crate::engine::SLOT0 + 1);
    const GENERATOR_AFFINE: AffinePoint<Self> =
        AffinePoint { x: S::h(crate::engine::SLOT0 + 2), y: S::h(crate::engine::SLOT0 + 3), zero: false };
}
impl<const P: u64> HaloCurve for KW<P> {
    const ZETA: S<Big> = S::h(crate::engine::SLOT0 + 4);
    const ZETA_SCALAR: W<P> = W(1);
}
