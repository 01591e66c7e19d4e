//! C entry points to the public field API of /repo, one per operation and field, for the IR executor
//! (tools/irexec.py), which executes their optimised LLVM IR symbolically and calls the same entry
//! points through the shared library to replay counterexamples.
#![allow(improper_ctypes_definitions)]
use plonky::{FromBytes, ToBytes, Bls12377Base, Bls12377Scalar, Field, PallasBase, TweedledeeBase, TweedledumBase, VestaBase};

macro_rules! entry {
    ($pre:expr, $name:ident, ($($arg:ident : $t:ty),*), $body:block) => {
        #[export_name = concat!("vp_", $pre, "_", stringify!($name))]
        #[inline(never)]
        pub extern "C" fn $name($($arg: $t),*) $body
    };
}
macro_rules! field {
    ($m:ident, $pre:expr, $f:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type F = $f;
            type L = [u64; $n];
            entry!($pre, add, (a: &L, b: &L, r: &mut L), { *r = (F { limbs: *a } + F { limbs: *b }).limbs; });
            entry!($pre, sub, (a: &L, b: &L, r: &mut L), { *r = (F { limbs: *a } - F { limbs: *b }).limbs; });
            entry!($pre, mul, (a: &L, b: &L, r: &mut L), { *r = (F { limbs: *a } * F { limbs: *b }).limbs; });
            entry!($pre, neg, (a: &L, r: &mut L), { *r = (-F { limbs: *a }).limbs; });
            entry!($pre, square, (a: &L, r: &mut L), { *r = F { limbs: *a }.square().limbs; });
            entry!($pre, double, (a: &L, r: &mut L), { *r = F { limbs: *a }.double().limbs; });
            entry!($pre, triple, (a: &L, r: &mut L), { *r = F { limbs: *a }.triple().limbs; });
            entry!($pre, quadruple, (a: &L, r: &mut L), { *r = F { limbs: *a }.quadruple().limbs; });
            entry!($pre, from_canonical, (a: &L, r: &mut L), { *r = F::from_canonical(*a).limbs; });
            entry!($pre, to_canonical, (a: &L, r: &mut L), { *r = F { limbs: *a }.to_canonical(); });
            entry!($pre, from_canonical_u64, (a: &[u64; 1], r: &mut L), { *r = F::from_canonical_u64(a[0]).limbs; });
            entry!($pre, is_valid, (a: &L, r: &mut [u64; 1]), { r[0] = F::is_valid_canonical_u64(&a[..]) as u64; });
            entry!($pre, is_valid_len, (a: &[u64; $n + 1], r: &mut [u64; 1]), { r[0] = F::is_valid_canonical_u64(&a[..$n - 1]) as u64 + 2 * F::is_valid_canonical_u64(&a[..]) as u64 + 4 * F::is_valid_canonical_u64(&a[..0]) as u64; });
            entry!($pre, cmp, (a: &L, b: &L, r: &mut [u64; 1]), { r[0] = (F { limbs: *a }.cmp(&F { limbs: *b }) as i64) as u64; });
            entry!($pre, eq, (a: &L, b: &L, r: &mut [u64; 1]), { r[0] = (F { limbs: *a } == F { limbs: *b }) as u64; });
            entry!($pre, is_zero, (a: &L, r: &mut [u64; 1]), { r[0] = F { limbs: *a }.is_zero() as u64; });
            entry!($pre, is_one, (a: &L, r: &mut [u64; 1]), { r[0] = F { limbs: *a }.is_one() as u64; });
            entry!($pre, num_bits, (a: &L, r: &mut [u64; 1]), { r[0] = F { limbs: *a }.num_bits() as u64; });
            entry!($pre, to_u64, (a: &L, r: &mut [u64; $n + 1]), { let v = F { limbs: *a }.to_canonical_u64_vec(); r[$n] = v.len() as u64; r[..$n].copy_from_slice(&v[..$n]); });
            entry!($pre, to_u32, (a: &L, r: &mut [u32; 2 * $n + 2]), { let v = F { limbs: *a }.to_canonical_u32_vec(); r[2 * $n] = v.len() as u32; r[2 * $n + 1] = 0; r[..2 * $n].copy_from_slice(&v[..2 * $n]); });
            entry!($pre, to_u8, (a: &L, r: &mut [u8; 8 * $n + 8]), { let v = F { limbs: *a }.to_canonical_u8_vec(); for i in 0..8 { r[8 * $n + i] = 0; } r[8 * $n] = v.len() as u8; r[..8 * $n].copy_from_slice(&v[..8 * $n]); });
            entry!($pre, to_bool, (a: &L, r: &mut [u8; 64 * $n + 8]), { let v = F { limbs: *a }.to_canonical_bool_vec(); for i in 0..8 { r[64 * $n + i] = 0; } r[64 * $n] = (v.len() / 8) as u8; for i in 0..64 * $n { r[i] = v[i] as u8; } });
            entry!($pre, from_u64, (a: &L, r: &mut L), { *r = F::from_canonical_u64_vec(a.to_vec()).limbs; });
            entry!($pre, from_u32, (a: &[u32; 2 * $n], r: &mut L), { *r = F::from_canonical_u32_vec(a.to_vec()).limbs; });
            entry!($pre, from_u8, (a: &[u8; 8 * $n], r: &mut [u64; $n + 1]), { match F::from_canonical_u8_vec(a.to_vec()) { Ok(x) => { r[$n] = 1; r[..$n].copy_from_slice(&x.limbs); } Err(_) => { r[$n] = 0; } } });
            entry!($pre, write, (a: &L, r: &mut [u8; 8 * $n + 8]), { for i in 0..8 { r[8 * $n + i] = 0; } let mut v = Vec::new(); let ok = F { limbs: *a }.write(&mut v).is_ok(); r[8 * $n] = v.len() as u8; r[8 * $n + 1] = ok as u8; r[..8 * $n].copy_from_slice(&v[..8 * $n]); });
            entry!($pre, read, (a: &[u8; 8 * $n + 8], r: &mut [u64; $n + 2]), { let mut c = &a[..]; match F::read(&mut c) { Ok(x) => { r[$n] = 1; r[..$n].copy_from_slice(&x.limbs); } Err(_) => { r[$n] = 0; } } r[$n + 1] = c.len() as u64; });
            entry!($pre, inverse, (a: &L, r: &mut L), { *r = F { limbs: *a }.multiplicative_inverse_assuming_nonzero().limbs; });
        }
    };
}
field!(tweedledee_base, "tweedledee", TweedledeeBase, 4);
field!(tweedledum_base, "tweedledum", TweedledumBase, 4);
field!(pallas_base, "pallas", PallasBase, 4);
field!(vesta_base, "vesta", VestaBase, 4);
field!(bls_scalar, "blsscalar", Bls12377Scalar, 4);
field!(bls_base, "blsbase", Bls12377Base, 6);

pub mod bls_base_extra {
    use super::*;
    entry!("blsbase", mul_u64, (a: &[u64; 6], b: &[u64; 1], r: &mut [u64; 6]), { *r = (Bls12377Base { limbs: *a } * b[0]).limbs; });
}

macro_rules! util {
    ($name:ident, ($($arg:ident),*), $e:expr) => {
        #[export_name = concat!("vp_util_", stringify!($name))]
        #[inline(never)]
        pub extern "C" fn $name(a: &[u64; 2], r: &mut [u64; 1]) { let f = |a: &[u64; 2]| -> u64 { $e(a) }; r[0] = f(a); }
    };
}
util!(log2_strict, (a), |a: &[u64; 2]| plonky::util::log2_strict(a[0] as usize) as u64);
