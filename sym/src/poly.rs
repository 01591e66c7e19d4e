//! Sparse multivariate polynomials and factored rational functions over F_p.
use crate::arith::{Fe, Md};
use std::cmp::Ordering;
use std::collections::HashMap;

/// Sorted by atom id; exponents > 0.
pub type Mono = Vec<(u32, u32)>;

/// Lex order, smaller atom id is the more significant variable.
pub fn cmp_mono(a: &[(u32, u32)], b: &[(u32, u32)]) -> Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return Ordering::Equal,
            (Some(_), None) => return Ordering::Greater,
            (None, Some(_)) => return Ordering::Less,
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return if x.0 < y.0 { Ordering::Greater } else { Ordering::Less };
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
        }
        i += 1;
    }
}
pub fn mul_mono(a: &[(u32, u32)], b: &[(u32, u32)]) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
/// a / b if divisible
pub fn div_mono(a: &[(u32, u32)], b: &[(u32, u32)]) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 == v {
            if b[j].1 > e {
                return None;
            }
            if e > b[j].1 {
                r.push((v, e - b[j].1));
            }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < v {
                return None;
            }
            r.push((v, e));
        }
    }
    if j < b.len() {
        None
    } else {
        Some(r)
    }
}

/// Terms sorted in descending lex order, coefficients nonzero.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, Fe)>);

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn konst(c: Fe) -> Poly {
        if c.0 == [0; 4] {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], c)])
        }
    }
    pub fn atom(a: u32, one: Fe) -> Poly {
        Poly(vec![(vec![(a, 1)], one)])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn as_const(&self) -> Option<Fe> {
        match self.0.len() {
            0 => Some(Fe([0; 4])),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly, m: &Md) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match cmp_mono(&self.0[i].0, &o.0[j].0) {
                Ordering::Equal => {
                    let c = m.add(self.0[i].1, o.0[j].1);
                    if c.0 != [0; 4] {
                        r.push((self.0[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
                Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    r.push(o.0[j].clone());
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn scale(&self, c: Fe, m: &Md) -> Poly {
        if c.0 == [0; 4] {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(mo, x)| (mo.clone(), m.mul(*x, c))).collect())
    }
    pub fn neg(&self, m: &Md) -> Poly {
        Poly(self.0.iter().map(|(mo, x)| (mo.clone(), m.neg(*x))).collect())
    }
    pub fn sub(&self, o: &Poly, m: &Md) -> Poly {
        self.add(&o.neg(m), m)
    }
    pub fn mul_term(&self, mo: &[(u32, u32)], c: Fe, m: &Md) -> Poly {
        Poly(self.0.iter().map(|(x, d)| (mul_mono(x, mo), m.mul(*d, c))).collect())
    }
    pub fn mul(&self, o: &Poly, m: &Md) -> Poly {
        if self.0.is_empty() || o.0.is_empty() {
            return Poly::zero();
        }
        if self.0.len() == 1 {
            return o.mul_term(&self.0[0].0, self.0[0].1, m);
        }
        if o.0.len() == 1 {
            return self.mul_term(&o.0[0].0, o.0[0].1, m);
        }
        let mut h: HashMap<Mono, Fe> = HashMap::with_capacity(self.0.len() * o.0.len() / 2 + 4);
        for (a, c) in &self.0 {
            for (b, d) in &o.0 {
                let e = m.mul(*c, *d);
                let s = h.entry(mul_mono(a, b)).or_insert(Fe([0; 4]));
                *s = m.add(*s, e);
            }
        }
        Poly::from_map(h)
    }
    pub fn from_map(h: HashMap<Mono, Fe>) -> Poly {
        let mut v: Vec<_> = h.into_iter().filter(|x| x.1 .0 != [0; 4]).collect();
        v.sort_unstable_by(|a, b| cmp_mono(&b.0, &a.0));
        Poly(v)
    }
    /// Exact division; None if it does not divide.
    /// power of a single-term polynomial
    pub fn term_pow(&self, e: u32, m: &Md) -> Poly {
        assert!(self.len() == 1);
        let (mo, c) = &self.0[0];
        Poly(vec![(mo.iter().map(|x| (x.0, x.1 * e)).collect(), m.pow_limbs(*c, &[e as u64]))])
    }
    /// largest power of the atom dividing every term
    pub fn content(&self, a: u32) -> u32 {
        self.0.iter().map(|t| t.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)).min().unwrap_or(0)
    }
    pub fn div_exact(&self, d: &Poly, m: &Md) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let lc_inv = if d.0[0].1 == m.one { m.one } else { m.inv_fe(d.0[0].1) };
        if d.len() == 1 {
            let mut r = Vec::with_capacity(self.len());
            for (mo, c) in &self.0 {
                r.push((div_mono(mo, &d.0[0].0)?, m.mul(*c, lc_inv)));
            }
            return Some(Poly(r));
        }
        // cheap necessary conditions
        div_mono(&self.0[0].0, &d.0[0].0)?;
        div_mono(&self.0[self.len() - 1].0, &d.0[d.len() - 1].0)?;
        let mut rem: std::collections::BTreeMap<Key, Fe> =
            self.0.iter().map(|(mo, c)| (Key(mo.clone()), *c)).collect();
        let mut q = Vec::new();
        let lm = &d.0[0].0;
        let budget = 40000usize;
        while let Some((k, c)) = rem.iter().next_back().map(|(k, c)| (k.0.clone(), *c)) {
            let mo = div_mono(&k, lm)?;
            let cc = m.mul(c, lc_inv);
            for (dm, dc) in &d.0 {
                let kk = Key(mul_mono(dm, &mo));
                let t = m.mul(*dc, cc);
                let e = rem.entry(kk.clone()).or_insert(Fe([0; 4]));
                *e = m.sub(*e, t);
                if e.0 == [0; 4] {
                    rem.remove(&kk);
                }
            }
            q.push((mo, cc));
            if q.len() > budget {
                return None;
            }
        }
        Some(Poly(q))
    }
    /// Reduce by leading terms of `rules` (any term, not only the leading one); returns the
    /// remainder and the cofactors.
    pub fn reduce(&self, rules: &[Poly], m: &Md) -> (Poly, Vec<Poly>) {
        let mut cof: Vec<HashMap<Mono, Fe>> = rules.iter().map(|_| HashMap::new()).collect();
        let mut work: std::collections::BTreeMap<Key, Fe> =
            self.0.iter().map(|(mo, c)| (Key(mo.clone()), *c)).collect();
        let mut out = Vec::new();
        let mut steps = 0usize;
        while let Some((k, c)) = work.iter().next_back().map(|(k, c)| (k.0.clone(), *c)) {
            steps += 1;
            let mut hit = None;
            if steps < 200_000 {
                for (i, r) in rules.iter().enumerate() {
                    if let Some(mo) = div_mono(&k, &r.0[0].0) {
                        hit = Some((i, mo));
                        break;
                    }
                }
            }
            match hit {
                None => {
                    work.remove(&Key(k.clone()));
                    out.push((k, c));
                }
                Some((i, mo)) => {
                    let cc = m.mul(c, m.inv_fe(rules[i].0[0].1));
                    for (dm, dc) in &rules[i].0 {
                        let kk = Key(mul_mono(dm, &mo));
                        let t = m.mul(*dc, cc);
                        let e = work.entry(kk.clone()).or_insert(Fe([0; 4]));
                        *e = m.sub(*e, t);
                        if e.0 == [0; 4] {
                            work.remove(&kk);
                        }
                    }
                    let e = cof[i].entry(mo).or_insert(Fe([0; 4]));
                    *e = m.add(*e, cc);
                }
            }
        }
        (Poly(out), cof.into_iter().map(Poly::from_map).collect())
    }
    pub fn monic(&self, m: &Md) -> (Fe, Poly) {
        let lc = self.0[0].1;
        if lc == m.one {
            return (lc, self.clone());
        }
        (lc, self.scale(m.inv_fe(lc), m))
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().flat_map(|t| t.0.iter().map(|x| x.0)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Key(pub Mono);
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        cmp_mono(&self.0, &o.0)
    }
}

/// num / prod(factor_i ^ mult_i); factor ids refer to the engine's factor table.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub num: Poly,
    pub den: Vec<(u32, u32)>,
}
