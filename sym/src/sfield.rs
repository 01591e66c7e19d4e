//! `S<M>`: the symbolic field handed to the code under test, and mock curves over it.
use crate::engine::{eng, Infeasible, Unsupported, SLOT0};
use crate::arith::from_limbs;
use num::BigUint;
use plonky::{AffinePoint, Curve, Field, HaloCurve};
use rand::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Add, Div, Mul, Neg, Sub};
use std::panic::panic_any;

pub trait Modulus: 'static + Copy + Clone + Send + Sync + fmt::Debug {
    const NAME: &'static str;
    const P: [u64; 4];
    const BITS: usize;
    const BYTES: usize;
    const TWO_ADICITY: usize;
    const GEN: u64;
    const ALPHA: u64;
    const LIMBS: usize;
}

/// The Tweedledee base field's prime (2^255-ish, two-adicity 34 -> constants read from the crate).
#[derive(Copy, Clone, Debug)]
pub struct Big;
impl Modulus for Big {
    const NAME: &'static str = "tweedledee-base-prime";
    const P: [u64; 4] = [9524180637049683969, 255193519543715529, 0, 4611686018427387904];
    const BITS: usize = 255;
    const BYTES: usize = 32;
    const TWO_ADICITY: usize = 34;
    const GEN: u64 = 5;
    const ALPHA: u64 = 5;
    const LIMBS: usize = 4;
}
/// p = 193 = 3*2^6 + 1
#[derive(Copy, Clone, Debug)]
pub struct P193;
impl Modulus for P193 {
    const NAME: &'static str = "193";
    const P: [u64; 4] = [193, 0, 0, 0];
    const BITS: usize = 8;
    const BYTES: usize = 8;
    const TWO_ADICITY: usize = 6;
    const GEN: u64 = 5;
    const ALPHA: u64 = 5;
    const LIMBS: usize = 1;
}

/// p = 7681 = 15*2^9 + 1
#[derive(Copy, Clone, Debug)]
pub struct P7681;
impl Modulus for P7681 {
    const NAME: &'static str = "7681";
    const P: [u64; 4] = [7681, 0, 0, 0];
    const BITS: usize = 13;
    const BYTES: usize = 8;
    const TWO_ADICITY: usize = 9;
    const GEN: u64 = 17;
    const ALPHA: u64 = 7;
    const LIMBS: usize = 1;
}

pub struct S<M: Modulus>(pub u32, pub PhantomData<M>);

impl<M: Modulus> Copy for S<M> {}
impl<M: Modulus> Clone for S<M> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<M: Modulus> S<M> {
    pub const fn h(i: u32) -> Self {
        S(i, PhantomData)
    }
    pub fn is_const(&self) -> bool {
        eng().as_const_facts(self.0).is_some()
    }
}
pub fn check_feasible() {
    let inf = eng().infeasible;
    if inf {
        panic_any(Infeasible)
    }
}
pub fn unsupported(s: &str) -> ! {
    panic_any(Unsupported(s.to_string()))
}

impl<M: Modulus> fmt::Debug for S<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl<M: Modulus> fmt::Display for S<M> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut e = eng();
        match e.as_const(self.0) {
            Some(c) => {
                let b = e.canon(c);
                drop(e);
                write!(f, "{}", b)
            }
            None => {
                let s = e.show(self.0);
                drop(e);
                write!(f, "<{}>", s)
            }
        }
    }
}
impl<M: Modulus> Default for S<M> {
    fn default() -> Self {
        S::h(0)
    }
}
impl<M: Modulus> PartialEq for S<M> {
    fn eq(&self, o: &Self) -> bool {
        let r = {
            let mut e = eng();
            let (a, b) = (e.resolve(self.0), e.resolve(o.0));
            if a == b {
                return true;
            }
            let d = e.sub(a, b);
            e.decide_zero(d)
        };
        check_feasible();
        r
    }
}
impl<M: Modulus> Eq for S<M> {}
impl<M: Modulus> Hash for S<M> {
    fn hash<H: Hasher>(&self, st: &mut H) {
        // must agree with Eq: constants hash by value, anything symbolic to one bucket
        let mut e = eng();
        match e.as_const_facts(self.0) {
            Some(c) => {
                let b = e.canon(c).to_u32_digits();
                b.hash(st)
            }
            None => {
                drop(e);
                unsupported("hash of a symbolic field element")
            }
        }
    }
}
impl<M: Modulus> PartialOrd for S<M> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<M: Modulus> Ord for S<M> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.cmp_helper(o)
    }
}
impl<M: Modulus> Add for S<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        S::h(eng().add(self.0, o.0))
    }
}
impl<M: Modulus> Sub for S<M> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        S::h(eng().sub(self.0, o.0))
    }
}
impl<M: Modulus> Mul for S<M> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        S::h(eng().mul(self.0, o.0))
    }
}
impl<M: Modulus> Neg for S<M> {
    type Output = Self;
    fn neg(self) -> Self {
        S::h(eng().neg(self.0))
    }
}
impl<M: Modulus> Div for S<M> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.multiplicative_inverse().expect("No inverse")
    }
}
impl<M: Modulus> Serialize for S<M> {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        if !eng().codec {
            unsupported("serialize")
        }
        s.serialize_bytes(&self.to_canonical_u8_vec())
    }
}
impl<'de, M: Modulus> Deserialize<'de> for S<M> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<M>(PhantomData<M>);
        impl<'a, M: Modulus> serde::de::Visitor<'a> for V<M> {
            type Value = S<M>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "a field element")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<S<M>, E> {
                S::from_canonical_u8_vec(v.to_vec()).map_err(|_| E::custom("out of range"))
            }
        }
        d.deserialize_bytes(V(PhantomData))
    }
}

pub fn pbig<M: Modulus>() -> BigUint {
    from_limbs(&M::P)
}

/// values behind handles 0..9
pub fn const_table<M: Modulus>() -> Vec<BigUint> {
    let p = pbig::<M>();
    let b = |x: u64| BigUint::from(x) % &p;
    let mut t = &p - 1u8;
    for _ in 0..M::TWO_ADICITY {
        assert!((&t % 2u8) == BigUint::from(0u8));
        t = t / 2u8;
    }
    assert!((&t % 2u8) == BigUint::from(1u8));
    vec![b(0), b(1), b(2), b(3), b(4), b(5), &p - 1u8, b(M::GEN), b(M::ALPHA), t]
}

impl<M: Modulus> Field for S<M> {
    const BITS: usize = M::BITS;
    const BYTES: usize = M::BYTES;
    const ZERO: Self = S::h(0);
    const ONE: Self = S::h(1);
    const TWO: Self = S::h(2);
    const THREE: Self = S::h(3);
    const FOUR: Self = S::h(4);
    const FIVE: Self = S::h(5);
    const NEG_ONE: Self = S::h(6);
    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = S::h(7);
    const ALPHA: Self = S::h(8);
    const TWO_ADICITY: usize = M::TWO_ADICITY;
    const T: Self = S::h(9);

    fn to_canonical_u64_vec(&self) -> Vec<u64> {
        let mut e = eng();
        match e.as_const_facts(self.0) {
            Some(c) => {
                let v = e.md.canon(c);
                v[..M::LIMBS].to_vec()
            }
            None => {
                if e.codec {
                    return e.encode(self.0, M::LIMBS);
                }
                drop(e);
                if M::LIMBS == 1 && M::P[0] < 1000 {
                    // small field: case-split over the value
                    for v in 0..M::P[0] - 1 {
                        if *self == Self::from_canonical_u64(v) {
                            return vec![v];
                        }
                    }
                    let last = Self::from_canonical_u64(M::P[0] - 1);
                    {
                        let mut e = eng();
                        let d = e.sub(self.0, last.0);
                        e.assume_zero(d);
                    }
                    check_feasible();
                    return vec![M::P[0] - 1];
                }
                // a transcript treated as a fixed oracle: the limbs only feed range checks
                let mut e = eng();
                if e.tokens {
                    let f = e.shadow(self.0);
                    let v = e.md.canon(f);
                    return v[..M::LIMBS].to_vec();
                }
                drop(e);
                unsupported("canonical limbs of a symbolic field element")
            }
        }
    }
    fn from_canonical_u64_vec(v: Vec<u64>) -> Self {
        let b = from_limbs(&v);
        let mut e = eng();
        let f = e.md.from_big(&b);
        S::h(e.konst(f))
    }
    fn from_canonical_u8_vec(v: Vec<u8>) -> anyhow::Result<Self> {
        let oracle = eng().oracle;
        if oracle {
            assert_eq!(v.len(), M::BYTES);
            return match eng().draw(&v) {
                Some(h) => Ok(S::h(h)),
                None => Err(anyhow::Error::msg("Out of range")),
            };
        }
        if v.len() % 8 != 0 {
            panic!("byte string of odd length");
        }
        let l: Vec<u64> = v.chunks(8).map(|c| c.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64)).collect();
        if let Some(e) = eng().codec_tab.iter().find(|e| e.0 == l) {
            return Ok(S::h(e.1));
        }
        if Self::is_valid_canonical_u64(&l) {
            Ok(Self::from_canonical_u64_vec(l))
        } else {
            Err(anyhow::Error::msg("Out of range"))
        }
    }
    fn to_canonical_bool_vec(&self) -> Vec<bool> {
        let split = eng().sqrt_split;
        if split && eng().as_const_facts(self.0).is_none() {
            // lowest bit by case split; the others are left at an arbitrary fixed pattern
            let mut v: Vec<bool> = (0..64 * M::LIMBS).map(|i| i % 3 == 1).collect();
            v[0] = eng().parity(self.0);
            return v;
        }
        let mut v = vec![];
        for l in self.to_canonical_u64_vec() {
            for i in 0..64 {
                v.push(l >> i & 1 == 1);
            }
        }
        v
    }
    fn from_canonical_u64(n: u64) -> Self {
        let mut e = eng();
        let f = e.md.from_big(&BigUint::from(n));
        S::h(e.konst(f))
    }
    fn is_valid_canonical_u64(v: &[u64]) -> bool {
        v.len() == M::LIMBS && from_limbs(v) < pbig::<M>()
    }
    fn multiplicative_inverse_assuming_nonzero(&self) -> Self {
        let z = self.is_zero();
        if z {
            panic!("inverse of zero");
        }
        S::h(eng().inv_nz(self.0))
    }
    fn kth_root(&self, k: Self) -> Self {
        let mut e = eng();
        let kc = e.as_const(k.0).expect("symbolic root degree");
        let kb = e.canon(kc).to_u32_digits();
        S::h(e.root(self.0, kb[0]))
    }
    fn exp(&self, power: Self) -> Self {
        // same function as the trait's default; constants are folded for speed
        {
            let mut e = eng();
            if let (Some(b), Some(x)) = (e.as_const(self.0), e.as_const(power.0)) {
                let x = e.canon(x);
                let r = e.md.pow(b, &x);
                return S::h(e.konst(r));
            }
        }
        let limbs = power.to_canonical_u64_vec();
        let mut acc = Self::ONE;
        let mut started = false;
        for l in limbs.iter().rev() {
            for i in (0..64).rev() {
                if started {
                    acc = acc * acc;
                }
                if (l >> i) & 1 == 1 {
                    acc = if started { acc * *self } else { *self };
                    started = true;
                }
            }
        }
        acc
    }
    fn is_quadratic_residue(&self) -> bool {
        {
            let mut e = eng();
            if let Some(c) = e.as_const(self.0) {
                return e.sqrt_fe(c).is_some();
            }
        }
        let split = eng().sqrt_split;
        if split {
            if self.is_zero() {
                return true;
            }
            let r = eng().residue(self.0);
            check_feasible();
            return r;
        }
        unsupported("residuosity of a symbolic value")
    }
    fn square_root(&self) -> Option<Self> {
        {
            let mut e = eng();
            if let Some(c) = e.as_const(self.0) {
                return match e.sqrt_fe(c) {
                    Some(s) => Some(S::h(e.konst(s))),
                    None => None,
                };
            }
        }
        let split = eng().sqrt_split;
        if split {
            if self.is_zero() {
                return Some(Self::ZERO);
            }
            let r = eng().residue(self.0);
            check_feasible();
            if !r {
                return None;
            }
            return Some(S::h(eng().sqrt_node(self.0)));
        }
        unsupported("square root of a symbolic value")
    }
    fn rand() -> Self {
        S::h(eng().fresh_rnd())
    }
    fn rand_from_rng<R: Rng>(rng: &mut R) -> Self {
        let v: Vec<u64> = (0..M::LIMBS + 1).map(|_| rng.gen::<u64>() >> 1).collect();
        let b = from_limbs(&v);
        let mut e = eng();
        let f = e.md.from_big(&b);
        S::h(e.konst(f))
    }
    fn try_convert<F: Field>(&self) -> anyhow::Result<F> {
        // same type: the identity, also for symbolic values
        if std::any::TypeId::of::<F>() == std::any::TypeId::of::<Self>() {
            let r: &dyn std::any::Any = self;
            return Ok(*r.downcast_ref::<F>().unwrap());
        }
        F::from_canonical_u8_vec(self.to_canonical_u8_vec())
    }
}

/// Mock short Weierstrass curve over S<M>; coefficients and generator are run-time slots so that
/// scenarios can choose them symbolically. K distinguishes instances.
#[derive(Copy, Clone, Debug)]
pub struct MC<M: Modulus>(PhantomData<M>);
impl<M: Modulus> Curve for MC<M> {
    type BaseField = S<M>;
    type ScalarField = S<M>;
    const A: S<M> = S::h(SLOT0);
    const B: S<M> = S::h(SLOT0 + 1);
    const GENERATOR_AFFINE: AffinePoint<Self> =
        AffinePoint { x: S::h(SLOT0 + 2), y: S::h(SLOT0 + 3), zero: false };
}
impl<M: Modulus> HaloCurve for MC<M> {
    const ZETA: S<M> = S::h(SLOT0 + 4);
    const ZETA_SCALAR: S<M> = S::h(SLOT0 + 5);
}

pub type F = S<Big>;
pub type C = MC<Big>;

/// The stand-in group: points are their discrete logarithms (see /repo/src/verif_hooks.rs).
#[cfg(feature = "hooks")]
#[derive(Copy, Clone, Debug)]
pub struct L<M: Modulus>(PhantomData<M>);
#[cfg(feature = "hooks")]
impl<M: Modulus> Curve for L<M> {
    type BaseField = S<M>;
    type ScalarField = S<M>;
    const A: S<M> = S::h(0);
    const B: S<M> = S::h(5);
    const GENERATOR_AFFINE: AffinePoint<Self> = AffinePoint { x: S::h(1), y: S::h(1), zero: false };
    const VERIF_LINEAR: bool = true;
    fn verif_scale(s: S<M>, x: S<M>) -> S<M> {
        s * x
    }
}
#[cfg(feature = "hooks")]
impl<M: Modulus> HaloCurve for L<M> {
    const ZETA: S<M> = S::h(SLOT0 + 4);
    const ZETA_SCALAR: S<M> = S::h(SLOT0 + 4);
}

// marker types are (de)serializable, as the concrete curves' are (their bytes carry nothing)
impl<M: Modulus> Serialize for MC<M> {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        s.serialize_unit()
    }
}
impl<'de, M: Modulus> Deserialize<'de> for MC<M> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let () = serde::Deserialize::deserialize(d)?;
        Ok(Default::default())
    }
}
impl<M: Modulus> Default for MC<M> {
    fn default() -> Self {
        MC(PhantomData)
    }
}
