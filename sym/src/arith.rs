//! Independent prime-field arithmetic used by the symbolic engine (deliberately not the code under
//! test). Elements are kept in Montgomery form with R = 2^256 for a run-time modulus.
use num::BigUint;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Fe(pub [u64; 4]);

#[derive(Clone, Debug)]
pub struct Md {
    pub p: [u64; 4],
    pub inv: u64, // -p^-1 mod 2^64
    pub r2: Fe,
    pub one: Fe,
}

fn to_limbs(x: &BigUint) -> [u64; 4] {
    let mut v = x.to_u32_digits();
    v.resize(8, 0);
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[i] = v[2 * i] as u64 | (v[2 * i + 1] as u64) << 32;
    }
    r
}
pub fn from_limbs(l: &[u64]) -> BigUint {
    let mut v = Vec::new();
    for x in l {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    BigUint::new(v)
}

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut bw = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(bw as u64);
        r[i] = y;
        bw = b1 | b2;
    }
    r
}

impl Md {
    pub fn new(p: &BigUint) -> Md {
        let pl = to_limbs(p);
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv).wrapping_mul(pl[0]);
        }
        inv = inv.wrapping_neg();
        let r = (BigUint::from(1u8) << 256usize) % p;
        let r2 = (&r * &r) % p;
        Md { p: pl, inv, r2: Fe(to_limbs(&r2)), one: Fe(to_limbs(&r)) }
    }
    pub fn zero(&self) -> Fe {
        Fe([0; 4])
    }
    pub fn add(&self, a: Fe, b: Fe) -> Fe {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += a.0[i] as u128 + b.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        if c != 0 || geq(&r, &self.p) {
            r = sub_(&r, &self.p);
        }
        Fe(r)
    }
    pub fn neg(&self, a: Fe) -> Fe {
        if a.0 == [0; 4] {
            a
        } else {
            Fe(sub_(&self.p, &a.0))
        }
    }
    pub fn sub(&self, a: Fe, b: Fe) -> Fe {
        self.add(a, self.neg(b))
    }
    pub fn mul(&self, a: Fe, b: Fe) -> Fe {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a.0[j] as u128 * b.0[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let mut c = (t[0] as u128 + m as u128 * self.p[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + m as u128 * self.p[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
            t[5] = 0;
        }
        let mut r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.p) {
            r = sub_(&r, &self.p);
        }
        Fe(r)
    }
    pub fn from_u64(&self, x: u64) -> Fe {
        self.mul(Fe([x, 0, 0, 0]), self.r2)
    }
    pub fn from_big(&self, x: &BigUint) -> Fe {
        let y = x % from_limbs(&self.p);
        self.mul(Fe(to_limbs(&y)), self.r2)
    }
    pub fn canon(&self, a: Fe) -> [u64; 4] {
        self.mul(a, Fe([1, 0, 0, 0])).0
    }
    pub fn big(&self, a: Fe) -> BigUint {
        from_limbs(&self.canon(a))
    }
    pub fn pow(&self, a: Fe, e: &BigUint) -> Fe {
        self.pow_digits(a, &e.to_u32_digits())
    }
    /// 4-bit windows over little-endian 32-bit digits
    pub fn pow_digits(&self, a: Fe, d: &[u32]) -> Fe {
        let mut t = [self.one; 16];
        for i in 1..16 {
            t[i] = self.mul(t[i - 1], a);
        }
        let mut r = self.one;
        let mut started = false;
        for x in d.iter().rev() {
            for w in (0..8).rev() {
                if started {
                    for _ in 0..4 {
                        r = self.mul(r, r);
                    }
                }
                let k = ((x >> (4 * w)) & 15) as usize;
                if k != 0 {
                    r = if started { self.mul(r, t[k]) } else { t[k] };
                    started = true;
                }
            }
        }
        r
    }
    pub fn pow_limbs(&self, a: Fe, e: &[u64]) -> Fe {
        let mut r = self.one;
        for l in e.iter().rev() {
            for i in (0..64).rev() {
                r = self.mul(r, r);
                if (l >> i) & 1 == 1 {
                    r = self.mul(r, a);
                }
            }
        }
        r
    }
    pub fn inv_fe(&self, a: Fe) -> Fe {
        let e = sub_(&self.p, &[2, 0, 0, 0]);
        self.pow_limbs(a, &e)
    }
}
