//! Symbolic execution engine over a prime field.
//!
//! Field elements are handles into a hash-consed expression DAG. The code under test is the real,
//! generic Rust code instantiated at a handle type. Every comparison of two field elements is a
//! branch point; undetermined ones split the exploration into two cases, each carrying the
//! corresponding (in)equation as a path fact. Obligations and branch verdicts are emitted as
//! SMT-LIB queries over the DAG (not over the normal forms used for pruning).
use crate::arith::{from_limbs, Fe, Md};
use crate::poly::{Mono, Poly, Rat};
use num::BigUint;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(Fe),
    Var(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Inv(u32),
    Root(u32, u32),
    Slot(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum AtomKey {
    Var(u32),
    Opaque(u8, u32, u32),
    Root(u32, u32),
}

const VAR_BASE: u32 = 1 << 24;
pub const NSLOTS: u32 = 8;
pub const SLOT0: u32 = 10;

#[derive(Clone, Debug)]
pub struct Decision {
    node: u32,
    val: bool,
    done: bool,
}

impl Decision {
    pub fn node_id(&self) -> u32 {
        self.node
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub values: Vec<(String, BigUint)>,
    pub detail: String,
    pub solver: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: usize,
    pub infeasible: usize,
    pub panics: usize,
    pub decisions: usize,
    pub generic: usize,
    pub obligations: usize,
    pub undecided: Vec<String>,
    pub queries: usize,
    pub unsat: usize,
    pub sat: usize,
    pub unknown: usize,
    pub normal_form_only: usize,
    pub solver_s: f64,
    pub truncated: bool,
}

pub struct Engine {
    pub md: Md,
    pub pbig: BigUint,
    nodes: Vec<Op>,
    index: HashMap<Op, u32>,
    nf: Vec<Option<Arc<Rat>>>,
    nf_used: Vec<u32>,
    var_names: Vec<String>,
    var_index: HashMap<String, u32>,
    atom_index: HashMap<AtomKey, u32>,
    opaque_keys: Vec<AtomKey>,
    factors: Vec<Poly>,
    factor_index: HashMap<Poly, u32>,
    rats: HashMap<Arc<Rat>, u32>,
    rat_list: Vec<Arc<Rat>>,
    // path state
    subst: HashMap<u32, Arc<Rat>>,
    nonzero: Vec<Poly>,
    rules: Vec<Poly>,
    rules_root: Vec<bool>,
    roots_done: HashSet<u32>,
    hints: Vec<u32>,
    slots: Vec<u32>,
    pub rnd_ctr: usize,
    tag_ctr: usize,
    pub script: Vec<Decision>,
    script_map: HashMap<u32, bool>,
    pub concrete: Option<HashMap<String, BigUint>>,
    /// hash-like roots: a root of a symbolic value is a constant derived from the expression
    pub tokens: bool,
    /// hash output decoded into the field is arbitrary: the first draws may be rejected
    pub oracle: bool,
    pub oracle_rejects: usize,
    pub draws: Vec<Vec<u8>>,
    draw_count: usize,
    /// symbolic residuosity, roots and parity by case split
    pub sqrt_split: bool,
    /// a symbolic value's canonical integer is an opaque token: distinct values have distinct tokens, the lowest bit
    /// is a case split (of y and -y, y nonzero, exactly one is odd), decoding a token gives the value back
    pub codec: bool,
    pub codec_tab: Vec<(Vec<u64>, u32)>,
    codec_odd: Vec<(u32, bool)>,
    pub max_misses: usize,
    missed: HashSet<u32>,
    /// the code's own randomness is a fixed pseudo-random sequence instead of symbols
    pub rand_fixed: bool,
    /// ... except the draws up to this one
    pub rand_sym: u64,
    /// undecided comparisons with zero are taken to fail (and counted), not split
    pub generic: bool,
    shadow: HashMap<u32, Fe>,
    pub infeasible: bool,
    /// failures of the current path
    pub fails: Vec<(String, Option<u32>)>,
    seen_vars: Vec<String>,
    // smt
    pub smt_batches: Vec<String>,
    smt_cur: SmtCur,
    pub stats: Stats,
    pub cap: usize,
    pub deg_cap: u64,
    pub smt_cap: usize,
    pub cut_cost: usize,
    root_exp: std::cell::RefCell<Option<(u32, Vec<u32>)>>,
    root_memo: std::cell::RefCell<HashMap<(Fe, u32), Option<Fe>>>,
    pub sqrt_memo: std::cell::RefCell<HashMap<Fe, Option<Fe>>>,
    pub rng: u64,
    pub log_decisions: bool,
}

#[derive(Default)]
struct SmtCur {
    decls: String,
    declared: HashSet<String>,
    frac: HashMap<u32, (String, Vec<(String, u32)>)>,
    polys: HashMap<String, String>,
    queries: Vec<(String, String)>,
    size: usize,
    cost: HashMap<String, usize>,
    poly_of: HashMap<String, Poly>,
    emitted: HashSet<String>,
}

pub struct Infeasible;
pub struct Unsupported(pub String);



static mut ENGINE: Option<Mutex<Engine>> = None;
pub fn init_engine(e: Engine) {
    unsafe {
        ENGINE = Some(Mutex::new(e));
    }
}
pub fn eng() -> MutexGuard<'static, Engine> {
    unsafe {
        match ENGINE.as_ref().expect("engine not initialised").lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
}

fn zero_fe() -> Fe {
    Fe([0; 4])
}

fn total_degree(p: &Poly) -> u32 {
    p.0.iter().map(|t| t.0.iter().map(|x| x.1).sum::<u32>()).max().unwrap_or(0)
}
impl Engine {
    pub fn new(p: &BigUint, consts: &[BigUint]) -> Engine {
        let md = Md::new(p);
        let mut e = Engine {
            md,
            pbig: p.clone(),
            nodes: vec![],
            index: HashMap::new(),
            nf: vec![],
            nf_used: vec![],
            var_names: vec![],
            var_index: HashMap::new(),
            atom_index: HashMap::new(),
            opaque_keys: vec![],
            factors: vec![],
            factor_index: HashMap::new(),
            rats: HashMap::new(),
            rat_list: vec![],
            subst: HashMap::new(),
            nonzero: vec![],
            rules: vec![],
            rules_root: vec![],
            roots_done: HashSet::new(),
            hints: vec![],
            slots: vec![0; NSLOTS as usize],
            rnd_ctr: 0,
            tag_ctr: 0,
            script: vec![],
            script_map: HashMap::new(),
            concrete: None,
            tokens: false,
            oracle: false,
            oracle_rejects: 0,
            draws: vec![],
            draw_count: 0,
            sqrt_split: false,
            codec: false,
            codec_tab: vec![],
            codec_odd: vec![],
            max_misses: usize::MAX,
            missed: HashSet::new(),
            rand_fixed: false,
            rand_sym: 0,
            generic: false,
            shadow: HashMap::new(),
            infeasible: false,
            fails: vec![],
            seen_vars: vec![],
            smt_batches: vec![],
            smt_cur: SmtCur::default(),
            stats: Stats::default(),
            cap: 600,
            deg_cap: 1 << 10,
            smt_cap: 400_000,
            cut_cost: std::env::var("SYM_CUT").ok().and_then(|x| x.parse().ok()).unwrap_or(100),
            root_exp: std::cell::RefCell::new(None),
            root_memo: Default::default(),
            sqrt_memo: Default::default(),
            rng: 0x9E3779B97F4A7C15,
            log_decisions: false,
        };
        // handles 0..9: fixed constants in the order the Field constants use them
        assert_eq!(consts.len(), SLOT0 as usize);
        for c in consts {
            let f = e.md.from_big(c);
            e.nodes.push(Op::Const(f));
            let id = (e.nodes.len() - 1) as u32;
            e.index.entry(Op::Const(f)).or_insert(id);
        }
        for i in 0..NSLOTS {
            e.nodes.push(Op::Slot(i));
        }
        e.nf.resize(e.nodes.len(), None);
        e
    }

    pub fn next_rand(&mut self) -> u64 {
        // splitmix64
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    // ---------- path control ----------
    /// Per-path counter for naming families of fresh symbols.
    pub fn tag(&mut self) -> usize {
        self.tag_ctr += 1;
        self.tag_ctr
    }
    pub fn begin_path(&mut self) {
        for i in std::mem::take(&mut self.nf_used) {
            self.nf[i as usize] = None;
        }
        self.subst.clear();
        self.nonzero.clear();
        self.rules.clear();
        self.rules_root.clear();
        self.roots_done.clear();
        self.hints.clear();
        self.slots = vec![0; NSLOTS as usize];
        self.rnd_ctr = 0;
        self.tokens = false;
        self.oracle = false;
        self.draws.clear();
        self.draw_count = 0;
        self.sqrt_split = false;
        self.max_misses = usize::MAX;
        self.missed.clear();
        self.rand_fixed = false;
        self.rand_sym = 0;
        self.generic = false;
        self.tag_ctr = 0;
        self.infeasible = false;
        self.fails.clear();
        self.seen_vars.clear();
        self.flush_smt();
        self.smt_cur.frac.clear();
        self.script_map = self.script.iter().map(|d| (d.node, d.val)).collect();
    }
    /// Advance to the next unexplored case; false when done.
    pub fn next_path(&mut self) -> bool {
        while let Some(d) = self.script.last_mut() {
            if !d.done {
                d.done = true;
                d.val = !d.val;
                return true;
            }
            self.script.pop();
        }
        false
    }

    // ---------- nodes ----------
    fn mk(&mut self, op: Op) -> u32 {
        if let Some(&i) = self.index.get(&op) {
            return i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(op.clone());
        self.nf.push(None);
        self.index.insert(op, id);
        id
    }
    pub fn resolve(&self, mut a: u32) -> u32 {
        while let Op::Slot(i) = self.nodes[a as usize] {
            a = self.slots[i as usize];
        }
        a
    }
    pub fn set_slot(&mut self, i: u32, node: u32) {
        self.slots[i as usize] = self.resolve(node);
    }
    pub fn konst(&mut self, f: Fe) -> u32 {
        self.mk(Op::Const(f))
    }
    pub fn as_const(&self, a: u32) -> Option<Fe> {
        match self.nodes[self.resolve(a) as usize] {
            Op::Const(f) => Some(f),
            _ => None,
        }
    }
    /// constant under the current facts
    pub fn as_const_facts(&mut self, a: u32) -> Option<Fe> {
        if let Some(c) = self.as_const(a) {
            return Some(c);
        }
        let r = self.nf(a);
        if r.den.is_empty() {
            r.num.as_const()
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str) -> u32 {
        if !self.seen_vars.iter().any(|s| s == name) {
            self.seen_vars.push(name.to_string());
        }
        if let Some(c) = &self.concrete {
            let v = match c.get(name) {
                Some(v) => v.clone(),
                None => {
                    let mut h: u64 = 0xcbf29ce484222325;
                    for b in name.bytes() {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                    BigUint::from(h) * BigUint::from(h ^ 0xabcdef) + BigUint::from(7u8)
                }
            };
            let f = self.md.from_big(&v);
            if self.tokens {
                let n = self.var_node(name);
                let v = match self.nodes[n as usize] {
                    Op::Var(v) => v,
                    _ => unreachable!(),
                };
                let at = self.atom(AtomKey::Var(v));
                let r = self.rat_const(f);
                self.subst.insert(at, Arc::new(r));
                return n;
            }
            return self.konst(f);
        }
        self.var_node(name)
    }
    fn var_node(&mut self, name: &str) -> u32 {
        let id = match self.var_index.get(name) {
            Some(&i) => i,
            None => {
                let i = self.var_names.len() as u32;
                self.var_names.push(name.to_string());
                self.var_index.insert(name.to_string(), i);
                i
            }
        };
        self.mk(Op::Var(id))
    }
    pub fn fresh_rnd(&mut self) -> u32 {
        self.rnd_ctr += 1;
        let n = format!("rnd{}", self.rnd_ctr);
        if self.rand_fixed && self.rnd_ctr as u64 > self.rand_sym {
            let f = self.prf(&n);
            return self.konst(f);
        }
        self.var(&n)
    }
    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = (self.resolve(a), self.resolve(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let c = self.md.add(x, y);
                return self.konst(c);
            }
            (Some(x), _) if x.0 == [0; 4] => return b,
            (_, Some(y)) if y.0 == [0; 4] => return a,
            _ => {}
        }
        self.mk(Op::Add(a, b))
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = (self.resolve(a), self.resolve(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let c = self.md.sub(x, y);
                return self.konst(c);
            }
            (_, Some(y)) if y.0 == [0; 4] => return a,
            (Some(x), _) if x.0 == [0; 4] => return self.neg(b),
            _ => {}
        }
        self.mk(Op::Sub(a, b))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        let (a, b) = (self.resolve(a), self.resolve(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => {
                let c = self.md.mul(x, y);
                return self.konst(c);
            }
            (Some(x), _) => {
                if x.0 == [0; 4] {
                    return a;
                }
                if x == self.md.one {
                    return b;
                }
            }
            (_, Some(y)) => {
                if y.0 == [0; 4] {
                    return b;
                }
                if y == self.md.one {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(Op::Mul(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        let a = self.resolve(a);
        if let Some(x) = self.as_const(a) {
            let c = self.md.neg(x);
            return self.konst(c);
        }
        self.mk(Op::Neg(a))
    }
    /// Caller has established a != 0.
    pub fn inv_nz(&mut self, a: u32) -> u32 {
        let a = self.resolve(a);
        if let Some(x) = self.as_const(a) {
            let c = self.md.inv_fe(x);
            return self.konst(c);
        }
        self.mk(Op::Inv(a))
    }
    pub fn root(&mut self, a: u32, k: u32) -> u32 {
        let a = self.resolve(a);
        if let Some(x) = self.as_const(a) {
            let c = self.kth_root_fe(x, k).expect("k-th root is not a permutation");
            return self.konst(c);
        }
        if self.tokens {
            let x = self.shadow(a);
            let c = self.kth_root_fe(x, k).expect("k-th root is not a permutation");
            return self.konst(c);
        }
        self.mk(Op::Root(a, k))
    }
    /// Residuosity of a nonzero symbolic value is a free case split, a root of a residue a symbol whose
    /// square is the value (that this is what the trait's methods compute is P04).
    pub fn residue(&mut self, a: u32) -> bool {
        let r = self.nf(a);
        let i = self.rat_id(&r);
        let c = self.choose(&format!("residue#{}", i));
        if !c && self.missed.insert(i) && self.missed.len() > self.max_misses {
            // outside the bound
            self.infeasible = true;
        }
        c
    }
    pub fn sqrt_node(&mut self, a: u32) -> u32 {
        let a = self.resolve(a);
        self.mk(Op::Root(a, 2))
    }
    /// Lowest bit of a symbolic value: a free case split.
    pub fn parity(&mut self, a: u32) -> bool {
        let r = self.nf(a);
        let i = self.rat_id(&r);
        self.choose(&format!("odd#{}", i))
    }
    pub fn encode(&mut self, a: u32, limbs: usize) -> Vec<u64> {
        let a = self.resolve(a);
        let r = self.nf(a);
        let i = self.rat_id(&r);
        let z = self.md.from_big(&num::BigUint::from(0u64));
        let z = self.konst(z);
        let m = self.sub(z, a);
        let rm = self.nf(m);
        let j = self.rat_id(&rm);
        let known = self.codec_odd.iter().find(|e| e.0 == i).map(|e| e.1);
        let neg = self.codec_odd.iter().find(|e| e.0 == j).map(|e| !e.1);
        let odd = match known.or(neg) {
            Some(o) => o,
            None => self.choose(&format!("odd#{}", i)),
        };
        if known.is_none() {
            self.codec_odd.push((i, odd));
        }
        let f = self.shadow(a);
        let mut v = self.md.canon(f)[..limbs].to_vec();
        v[0] = v[0] & !1 | odd as u64;
        if !self.codec_tab.iter().any(|e| e.0 == v) {
            self.codec_tab.push((v.clone(), a));
        }
        v
    }
    /// Field elements decoded from hash output, see `cx::oracle`.
    pub fn draw(&mut self, bytes: &[u8]) -> Option<u32> {
        let i = match self.draws.iter().position(|d| d == bytes) {
            Some(i) => i,
            None => {
                self.draws.push(bytes.to_vec());
                self.draws.len() - 1
            }
        };
        self.draw_count += 1;
        if self.draw_count > 400 {
            panic!("the derivation keeps drawing the same values");
        }
        if i < self.oracle_rejects && !self.choose(&format!("h{} below p", i)) {
            return None;
        }
        let t = format!("h{}", i);
        Some(self.var(&t))
    }
    fn prf(&self, name: &str) -> Fe {
        let mut limbs = vec![];
        let mut h: u64 = 0xcbf29ce484222325;
        for i in 0..5u8 {
            for b in name.bytes().chain(std::iter::once(i)) {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                h ^= h >> 29;
            }
            limbs.push(h);
        }
        self.md.from_big(&crate::arith::from_limbs(&limbs))
    }
    /// the expression's value at one fixed pseudo-random assignment of the symbols
    pub fn shadow(&mut self, a: u32) -> Fe {
        let a = self.resolve(a);
        if let Op::Const(c) = self.nodes[a as usize] {
            return c;
        }
        if let Some(f) = self.shadow.get(&a) {
            return *f;
        }
        let f = match self.nodes[a as usize].clone() {
            Op::Const(c) => c,
            Op::Var(v) => {
                let n = self.var_names[v as usize].clone();
                self.prf(&n)
            }
            Op::Add(x, y) => {
                let (x, y) = (self.shadow(x), self.shadow(y));
                self.md.add(x, y)
            }
            Op::Sub(x, y) => {
                let (x, y) = (self.shadow(x), self.shadow(y));
                self.md.sub(x, y)
            }
            Op::Mul(x, y) => {
                let (x, y) = (self.shadow(x), self.shadow(y));
                self.md.mul(x, y)
            }
            Op::Neg(x) => {
                let x = self.shadow(x);
                self.md.neg(x)
            }
            Op::Inv(x) => {
                let x = self.shadow(x);
                self.md.inv_fe(x)
            }
            Op::Root(x, 2) => {
                let x = self.shadow(x);
                let n = format!("sqrt{:?}", x.0);
                self.sqrt_fe(x).unwrap_or(self.prf(&n))
            }
            Op::Root(x, k) => {
                let x = self.shadow(x);
                self.kth_root_fe(x, k).expect("k-th root")
            }
            Op::Slot(_) => unreachable!(),
        };
        self.shadow.insert(a, f);
        f
    }
    /// Memoised: the same transcript prefix is hashed again on every path.
    pub fn kth_root_fe(&self, x: Fe, k: u32) -> Option<Fe> {
        if let Some(r) = self.root_memo.borrow().get(&(x, k)) {
            return *r;
        }
        let r = self.kth_root_raw(x, k);
        let mut m = self.root_memo.borrow_mut();
        if m.len() < 2_000_000 {
            m.insert((x, k), r);
        }
        r
    }
    fn kth_root_raw(&self, x: Fe, k: u32) -> Option<Fe> {
        if let Some((k0, d)) = &*self.root_exp.borrow() {
            if *k0 == k {
                return Some(self.md.pow_digits(x, d));
            }
        }
        // exponent e with k e = 1 mod (p-1)
        let pm1 = &self.pbig - 1u8;
        let kb = BigUint::from(k);
        let mut num = BigUint::from(1u8);
        for _ in 0..=k {
            if (&num % &kb) == BigUint::from(0u8) {
                let e = num / kb;
                *self.root_exp.borrow_mut() = Some((k, e.to_u32_digits()));
                return Some(self.md.pow(x, &e));
            }
            num += &pm1;
        }
        None
    }
    pub fn sqrt_fe(&mut self, x: Fe) -> Option<Fe> {
        if let Some(r) = self.sqrt_memo.borrow().get(&x) {
            return *r;
        }
        let r = self.sqrt_raw(x);
        self.sqrt_memo.borrow_mut().insert(x, r);
        r
    }
    fn sqrt_raw(&mut self, x: Fe) -> Option<Fe> {
        if x.0 == [0; 4] {
            return Some(x);
        }
        let one = self.md.one;
        let pm1 = &self.pbig - 1u8;
        let half = &pm1 / 2u8;
        if self.md.pow(x, &half) != one {
            return None;
        }
        let mut s = 0usize;
        let mut t = pm1.clone();
        while (&t % 2u8) == BigUint::from(0u8) {
            t = t / 2u8;
            s += 1;
        }
        let mut z = self.md.from_u64(2);
        while self.md.pow(z, &half) == one {
            z = self.md.add(z, one);
        }
        let mut m = s;
        let mut c = self.md.pow(z, &t);
        let mut tt = self.md.pow(x, &t);
        let mut r = self.md.pow(x, &((&t + 1u8) / 2u8));
        while tt != one {
            let mut i = 0;
            let mut q = tt;
            while q != one {
                q = self.md.mul(q, q);
                i += 1;
            }
            let mut b = c;
            for _ in 0..(m - i - 1) {
                b = self.md.mul(b, b);
            }
            m = i;
            c = self.md.mul(b, b);
            tt = self.md.mul(tt, c);
            r = self.md.mul(r, b);
        }
        Some(r)
    }

    // ---------- normal forms ----------
    fn atom(&mut self, k: AtomKey) -> u32 {
        if let AtomKey::Var(v) = k {
            return VAR_BASE + v;
        }
        if let Some(&i) = self.atom_index.get(&k) {
            return i;
        }
        let id = VAR_BASE - 1 - self.opaque_keys.len() as u32;
        self.opaque_keys.push(k.clone());
        self.atom_index.insert(k, id);
        id
    }
    fn rat_id(&mut self, r: &Arc<Rat>) -> u32 {
        if let Some(&i) = self.rats.get(r) {
            return i;
        }
        let i = self.rat_list.len() as u32;
        self.rat_list.push(r.clone());
        self.rats.insert(r.clone(), i);
        i
    }
    fn factor_id(&mut self, p: &Poly) -> u32 {
        if let Some(&i) = self.factor_index.get(p) {
            return i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_index.insert(p.clone(), i);
        i
    }
    fn rat_const(&self, c: Fe) -> Rat {
        Rat { num: Poly::konst(c), den: vec![] }
    }
    fn den_poly(&self, d: &[(u32, u32)]) -> Poly {
        let mut r = Poly::konst(self.md.one);
        for &(f, e) in d {
            let fp = &self.factors[f as usize];
            if fp.len() == 1 && e > 1 {
                r = r.mul(&fp.term_pow(e, &self.md), &self.md);
                continue;
            }
            for _ in 0..e {
                r = r.mul(fp, &self.md);
            }
        }
        r
    }
    fn cancel(&self, num: &mut Poly, den: &mut Vec<(u32, u32)>) {
        if num.is_zero() {
            den.clear();
            return;
        }
        for d in den.iter_mut() {
            let fp = &self.factors[d.0 as usize];
            if fp.len() == 1 && fp.0[0].0.len() == 1 && fp.0[0].0[0].1 == 1 {
                // a single atom: its full power in one step
                let k = num.content(fp.0[0].0[0].0).min(d.1);
                if k > 0 {
                    *num = num.div_exact(&fp.term_pow(k, &self.md), &self.md).unwrap();
                    d.1 -= k;
                }
                continue;
            }
            while d.1 > 0 {
                match num.div_exact(&self.factors[d.0 as usize], &self.md) {
                    Some(q) => {
                        *num = q;
                        d.1 -= 1;
                    }
                    None => break,
                }
            }
        }
        den.retain(|d| d.1 > 0);
    }
    fn rat_add(&self, a: &Rat, b: &Rat) -> Rat {
        if a.num.is_zero() {
            return b.clone();
        }
        if b.num.is_zero() {
            return a.clone();
        }
        if a.den.is_empty() && b.den.is_empty() {
            return Rat { num: a.num.add(&b.num, &self.md), den: vec![] };
        }
        // lcm
        let mut l: Vec<(u32, u32)> = a.den.clone();
        for &(f, e) in &b.den {
            match l.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1 = x.1.max(e),
                None => l.push((f, e)),
            }
        }
        l.sort_unstable();
        let quo = |d: &[(u32, u32)]| -> Vec<(u32, u32)> {
            l.iter()
                .map(|&(f, e)| (f, e - d.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0)))
                .filter(|x| x.1 > 0)
                .collect()
        };
        let n1 = a.num.mul(&self.den_poly(&quo(&a.den)), &self.md);
        let n2 = b.num.mul(&self.den_poly(&quo(&b.den)), &self.md);
        let mut num = n1.add(&n2, &self.md);
        self.cancel(&mut num, &mut l);
        Rat { num, den: l }
    }
    fn rat_pow(&self, a: &Rat, e: u32) -> Rat {
        if e == 1 {
            return a.clone();
        }
        if e == 0 {
            return self.rat_const(self.md.one);
        }
        let h = self.rat_pow(a, e / 2);
        let h2 = self.rat_mul(&h, &h);
        if e % 2 == 0 {
            h2
        } else {
            self.rat_mul(&h2, a)
        }
    }
    fn node_pow(&mut self, a: u32, e: u32) -> u32 {
        if e <= 1 {
            return if e == 1 { a } else { self.konst(self.md.one) };
        }
        let h = self.node_pow(a, e / 2);
        let h2 = self.mul(h, h);
        if e % 2 == 0 {
            h2
        } else {
            self.mul(h2, a)
        }
    }
    fn rat_neg(&self, a: &Rat) -> Rat {
        Rat { num: a.num.neg(&self.md), den: a.den.clone() }
    }
    fn rat_mul(&self, a: &Rat, b: &Rat) -> Rat {
        if a.num.is_zero() || b.num.is_zero() {
            return self.rat_const(zero_fe());
        }
        let mut n1 = a.num.clone();
        let mut n2 = b.num.clone();
        let mut d1 = a.den.clone();
        let mut d2 = b.den.clone();
        if !d2.is_empty() {
            self.cancel(&mut n1, &mut d2);
        }
        if !d1.is_empty() {
            self.cancel(&mut n2, &mut d1);
        }
        for (f, e) in d2 {
            match d1.iter_mut().find(|x| x.0 == f) {
                Some(x) => x.1 += e,
                None => d1.push((f, e)),
            }
        }
        d1.sort_unstable();
        Rat { num: n1.mul(&n2, &self.md), den: d1 }
    }
    /// Split a nonzero polynomial into constant * product of factor-table entries.
    fn factorize(&mut self, p: &Poly) -> (Fe, Vec<(u32, u32)>) {
        let md = self.md.clone();
        let (lc, mut rest) = p.monic(&md);
        let mut out: Vec<(u32, u32)> = vec![];
        // monomial content
        if rest.as_const().is_none() {
            for a in rest.atoms() {
                let m = rest
                    .0
                    .iter()
                    .map(|t| t.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0))
                    .min()
                    .unwrap();
                if m > 0 {
                    let ap = Poly::atom(a, md.one);
                    let f = self.factor_id(&ap);
                    out.push((f, m));
                    rest = Poly(
                        rest.0
                            .iter()
                            .map(|(mo, c)| (crate::poly::div_mono(mo, &[(a, m)]).unwrap(), *c))
                            .collect(),
                    );
                }
            }
        }
        if rest.as_const().is_none() {
            let cands: Vec<u32> = (0..self.factors.len() as u32).collect();
            for f in cands {
                if self.factors[f as usize].len() < 2 {
                    continue;
                }
                let mut e = 0;
                while let Some(q) = rest.div_exact(&self.factors[f as usize], &md) {
                    rest = q;
                    e += 1;
                    if rest.as_const().is_some() {
                        break;
                    }
                }
                if e > 0 {
                    out.push((f, e));
                }
                if rest.as_const().is_some() {
                    break;
                }
            }
        }
        if rest.as_const().is_none() {
            let f = self.factor_id(&rest);
            out.push((f, 1));
        }
        out.sort_unstable();
        (lc, out)
    }
    fn rat_inv(&mut self, a: &Rat) -> Rat {
        let (c, fs) = self.factorize(&a.num);
        let ci = self.md.inv_fe(c);
        let num = self.den_poly(&a.den).scale(ci, &self.md);
        Rat { num, den: fs }
    }

    pub fn nf(&mut self, a: u32) -> Arc<Rat> {
        let a = self.resolve(a);
        if let Some(r) = &self.nf[a as usize] {
            return r.clone();
        }
        let op = self.nodes[a as usize].clone();
        let cap = self.cap;
        let r: Rat = match op {
            Op::Const(c) => self.rat_const(c),
            Op::Var(v) => {
                let at = self.atom(AtomKey::Var(v));
                match self.subst.get(&at) {
                    Some(r) => (**r).clone(),
                    None => Rat { num: Poly::atom(at, self.md.one), den: vec![] },
                }
            }
            Op::Add(x, y) | Op::Sub(x, y) => {
                let rx = self.nf(x);
                let mut ry = self.nf(y);
                if let Op::Sub(..) = op {
                    ry = Arc::new(self.rat_neg(&ry));
                }
                let cost = if rx.den == ry.den {
                    rx.num.len() + ry.num.len()
                } else {
                    let dx: usize = rx.den.iter().map(|d| self.factors[d.0 as usize].len().max(1)).product();
                    let dy: usize = ry.den.iter().map(|d| self.factors[d.0 as usize].len().max(1)).product();
                    rx.num.len().saturating_mul(dy) + ry.num.len().saturating_mul(dx)
                };
                if cost > cap * 20 {
                    let (i, j) = (self.rat_id(&rx), self.rat_id(&ry));
                    let at = self.atom(AtomKey::Opaque(0, i.min(j), i.max(j)));
                    Rat { num: Poly::atom(at, self.md.one), den: vec![] }
                } else {
                    self.rat_add(&rx, &ry)
                }
            }
            Op::Neg(x) => {
                let rx = self.nf(x);
                self.rat_neg(&rx)
            }
            Op::Mul(x, y) => {
                let rx = self.nf(x);
                let ry = self.nf(y);
                let small = rx.num.len().min(ry.num.len()) <= 1 && rx.num.len().max(ry.num.len()) <= cap * 20;
                let big_degree = total_degree(&rx.num) as u64 + total_degree(&ry.num) as u64 > self.deg_cap;
                if big_degree || !small && rx.num.len().saturating_mul(ry.num.len()) > cap {
                    // pull out constants so that c*a and a give related atoms
                    let (i, j) = (self.rat_id(&rx), self.rat_id(&ry));
                    let at = self.atom(AtomKey::Opaque(1, i.min(j), i.max(j)));
                    Rat { num: Poly::atom(at, self.md.one), den: vec![] }
                } else {
                    self.rat_mul(&rx, &ry)
                }
            }
            Op::Inv(x) => {
                let rx = self.nf(x);
                if rx.num.is_zero() {
                    // contradictory facts
                    self.infeasible = true;
                    self.rat_const(zero_fe())
                } else if rx.num.len() > cap {
                    let i = self.rat_id(&rx);
                    let at = self.atom(AtomKey::Opaque(2, i, i));
                    Rat { num: Poly::atom(at, self.md.one), den: vec![] }
                } else {
                    self.rat_inv(&rx)
                }
            }
            Op::Root(x, k) => {
                let rx = self.nf(x);
                if let (Some(c), true) = (rx.num.as_const(), rx.den.is_empty()) {
                    let f = if k == 2 {
                        match self.sqrt_fe(c) {
                            Some(f) => f,
                            None => {
                                self.infeasible = true;
                                zero_fe()
                            }
                        }
                    } else {
                        self.kth_root_fe(c, k).expect("k-th root")
                    };
                    self.rat_const(f)
                } else {
                    let i = self.rat_id(&rx);
                    let at = self.atom(AtomKey::Root(i, k));
                    if self.roots_done.insert(at) {
                        let d = self.den_poly(&rx.den);
                        let mut mono = Poly::konst(self.md.one);
                        for _ in 0..k {
                            mono = mono.mul(&Poly::atom(at, self.md.one), &self.md);
                        }
                        let rule = mono.mul(&d, &self.md).sub(&rx.num, &self.md);
                        self.rules.push(rule);
                        self.rules_root.push(true);
                    }
                    Rat { num: Poly::atom(at, self.md.one), den: vec![] }
                }
            }
            Op::Slot(_) => unreachable!(),
        };
        let r = Arc::new(r);
        self.nf[a as usize] = Some(r.clone());
        self.nf_used.push(a);
        r
    }
    fn clear_nf(&mut self) {
        for i in std::mem::take(&mut self.nf_used) {
            self.nf[i as usize] = None;
        }
        self.smt_cur.frac.clear();
    }

    // ---------- facts ----------
    /// Divide out known-nonzero factors. Returns (rest, used factors).
    fn strip_nonzero(&self, p: &Poly) -> (Poly, Vec<Poly>) {
        let md = &self.md;
        let mut rest = p.clone();
        let mut used = vec![];
        let mut progress = true;
        while progress && rest.as_const().is_none() {
            progress = false;
            for f in &self.nonzero {
                while rest.as_const().is_none() {
                    match rest.div_exact(f, md) {
                        Some(q) => {
                            rest = q;
                            used.push(f.clone());
                            progress = true;
                        }
                        None => break,
                    }
                }
            }
            // denominators in use are nonzero as well
            for f in &self.factors {
                if f.len() <= rest.len() && !self.nonzero.contains(f) {
                    // only factors that were inverted on this path are known nonzero; those are in
                    // `nonzero` already because inversion decides nonzero-ness first.
                    break;
                }
            }
        }
        (rest, used)
    }
    fn add_nonzero(&mut self, p: Poly) {
        let md = self.md.clone();
        let (mut rest, _) = self.strip_nonzero(&p);
        if rest.is_zero() {
            self.infeasible = true;
            return;
        }
        if rest.as_const().is_some() {
            return;
        }
        rest = rest.monic(&md).1;
        for a in rest.atoms() {
            let m = rest
                .0
                .iter()
                .map(|t| t.0.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0))
                .min()
                .unwrap();
            if m > 0 {
                self.nonzero.push(Poly::atom(a, md.one));
                rest = Poly(
                    rest.0
                        .iter()
                        .map(|(mo, c)| (crate::poly::div_mono(mo, &[(a, m)]).unwrap(), *c))
                        .collect(),
                );
            }
        }
        if rest.as_const().is_none() {
            self.nonzero.push(rest);
        }
        // equations that this new fact simplifies
        let mut redo = vec![];
        let mut i = 0;
        while i < self.rules.len() {
            if !self.rules_root[i] {
                let (r, used) = self.strip_nonzero(&self.rules[i]);
                if !used.is_empty() {
                    self.rules.remove(i);
                    self.rules_root.remove(i);
                    redo.push(r);
                    continue;
                }
            }
            i += 1;
        }
        if !redo.is_empty() {
            self.clear_nf();
            for r in redo {
                self.add_eq_poly(r);
            }
        }
    }
    /// numerator of the node under current facts, reduced by the rules
    fn numer(&mut self, a: u32) -> Poly {
        let r = self.nf(a);
        if self.rules.is_empty() {
            return r.num.clone();
        }
        r.num.reduce(&self.rules, &self.md).0
    }
    fn subst_poly(&self, p: &Poly, at: u32, r: &Rat) -> Rat {
        // p = sum_k c_k at^k
        let mut by: HashMap<u32, Vec<(crate::poly::Mono, Fe)>> = HashMap::new();
        for (mo, c) in &p.0 {
            let e = mo.iter().find(|x| x.0 == at).map(|x| x.1).unwrap_or(0);
            let m2: crate::poly::Mono = mo.iter().cloned().filter(|x| x.0 != at).collect();
            by.entry(e).or_insert_with(Vec::new).push((m2, *c));
        }
        let mut ks: Vec<u32> = by.keys().cloned().collect();
        ks.sort_unstable();
        let mut pw = self.rat_const(self.md.one);
        let mut at_e = 0;
        let mut acc = self.rat_const(zero_fe());
        for k in ks {
            while at_e < k {
                pw = self.rat_mul(&pw, r);
                at_e += 1;
            }
            let mut h = HashMap::new();
            for (m, c) in by.remove(&k).unwrap() {
                h.insert(m, c);
            }
            let ck = Rat { num: Poly::from_map(h), den: vec![] };
            acc = self.rat_add(&acc, &self.rat_mul(&ck, &pw));
        }
        acc
    }
    fn subst_rat(&mut self, x: &Rat, at: u32, r: &Rat) -> Rat {
        let mut acc = self.subst_poly(&x.num, at, r);
        for &(f, e) in &x.den {
            let fp = self.factors[f as usize].clone();
            if fp.atoms().contains(&at) {
                let s = self.subst_poly(&fp, at, r);
                if s.num.is_zero() {
                    self.infeasible = true;
                    return acc;
                }
                let si = self.rat_inv(&s);
                let si = self.rat_pow(&si, e);
                acc = self.rat_mul(&acc, &si);
            } else {
                let d = Rat { num: Poly::konst(self.md.one), den: vec![(f, e)] };
                acc = self.rat_mul(&acc, &d);
            }
        }
        acc
    }
    fn eliminate(&mut self, at: u32, r: Rat) {
        let old: Vec<u32> = self.subst.keys().cloned().collect();
        for k in old {
            let x = self.subst[&k].clone();
            if x.num.atoms().contains(&at)
                || x.den.iter().any(|d| self.factors[d.0 as usize].atoms().contains(&at))
            {
                let y = self.subst_rat(&x, at, &r);
                self.subst.insert(k, Arc::new(y));
            }
        }
        self.subst.insert(at, Arc::new(r.clone()));
        let nz = std::mem::take(&mut self.nonzero);
        for p in nz {
            let q = if p.atoms().contains(&at) { self.subst_poly(&p, at, &r).num } else { p };
            self.add_nonzero(q);
        }
        let rules = std::mem::take(&mut self.rules);
        let rr = std::mem::take(&mut self.rules_root);
        let mut readd = vec![];
        for (p, isroot) in rules.into_iter().zip(rr) {
            if isroot {
                // root atoms are re-created from scratch after clear_nf
                continue;
            }
            if p.atoms().contains(&at) {
                readd.push(self.subst_poly(&p, at, &r).num);
            } else {
                self.rules.push(p);
                self.rules_root.push(false);
            }
        }
        self.roots_done.clear();
        self.clear_nf();
        for p in readd {
            self.add_eq_poly(p);
        }
    }
    fn add_eq_poly(&mut self, p: Poly) {
        let md = self.md.clone();
        let p = if self.rules.is_empty() { p } else { p.reduce(&self.rules, &md).0 };
        let (p, _) = self.strip_nonzero(&p);
        if p.is_zero() {
            return;
        }
        if p.as_const().is_some() {
            self.infeasible = true;
            return;
        }
        // a pure power of one atom
        if p.len() == 1 && p.0[0].0.len() == 1 {
            let at = p.0[0].0[0].0;
            if at >= VAR_BASE {
                let z = self.rat_const(zero_fe());
                self.eliminate(at, z);
            } else {
                self.rules.push(Poly::atom(at, md.one));
                self.rules_root.push(false);
            }
            return;
        }
        // linear elimination: variables with constant coefficient first, then known-nonzero
        let mut best: Option<(usize, u32, Poly, Poly)> = None;
        let mut forkable: Option<(u32, Poly)> = None;
        for at in p.atoms().into_iter().rev() {
            if at < VAR_BASE {
                continue;
            }
            let deg = p
                .0
                .iter()
                .map(|t| t.0.iter().find(|x| x.0 == at).map(|x| x.1).unwrap_or(0))
                .max()
                .unwrap();
            if deg != 1 {
                continue;
            }
            let mut c = HashMap::new();
            let mut rest = HashMap::new();
            for (mo, k) in &p.0 {
                if mo.iter().any(|x| x.0 == at) {
                    c.insert(mo.iter().cloned().filter(|x| x.0 != at).collect(), *k);
                } else {
                    rest.insert(mo.clone(), *k);
                }
            }
            let c = Poly::from_map(c);
            let rest = Poly::from_map(rest);
            // an atom that is the argument of an opaque atom in `rest` may be hidden: allowed, the
            // opaque atoms are re-created after substitution
            let (cr, _) = self.strip_nonzero(&c);
            if cr.as_const().is_some() {
                let cost = c.len() * 10 + rest.len();
                if best.as_ref().map(|b| cost < b.0).unwrap_or(true) {
                    best = Some((cost, at, c, rest));
                }
            } else if forkable.as_ref().map(|f| cr.len() < f.1.len()).unwrap_or(true) {
                forkable = Some((at, c));
            }
        }
        // never eliminate a variable hidden inside an opaque/root atom of the same polynomial
        if let Some((_, at, c, rest)) = best {
            if !rest.atoms().iter().any(|&o| o < VAR_BASE && self.opaque_mentions(o, at)) {
                let c_rat = Rat { num: c, den: vec![] };
                let inv = self.rat_inv(&c_rat);
                let r = self.rat_mul(&Rat { num: rest.neg(&md), den: vec![] }, &inv);
                self.eliminate(at, r);
                return;
            }
        } else if let Some((_, c)) = forkable {
            // split on the coefficient
            let node = self.poly_node(&c);
            let z = self.decide_zero(node);
            if self.infeasible {
                return;
            }
            let _ = z;
            // facts changed: re-evaluate p under them
            let node_p = self.poly_node(&p);
            let q = self.numer(node_p);
            self.add_eq_poly(q);
            return;
        }
        // c x^k = rest with x -> x^k a bijection: x is the k-th root of rest / c
        for at in p.atoms().into_iter().rev() {
            if at < VAR_BASE {
                continue;
            }
            let exp = |mo: &Mono| mo.iter().find(|x| x.0 == at).map(|x| x.1).unwrap_or(0);
            let k = p.0.iter().map(|t| exp(&t.0)).max().unwrap();
            let with: Vec<_> = p.0.iter().filter(|t| exp(&t.0) > 0).collect();
            if k < 2 || k > 31 || with.len() != 1 || with[0].0.len() != 1 || exp(&with[0].0) != k || !self.power_is_bijection(k) {
                continue;
            }
            let c = with[0].1;
            let rest: HashMap<Mono, Fe> = p.0.iter().filter(|t| exp(&t.0) == 0).cloned().collect();
            let rest = Poly::from_map(rest);
            if rest.atoms().iter().any(|&o| o < VAR_BASE && self.opaque_mentions(o, at)) {
                continue;
            }
            let inv = self.md.inv_fe(c);
            let rhs = rest.neg(&md).scale(inv, &md);
            let n = self.poly_node(&rhs);
            let r = self.root(n, k);
            let r = (*self.nf(r)).clone();
            self.eliminate(at, r);
            return;
        }
        let (_, p) = p.monic(&md);
        self.rules.push(p);
        self.rules_root.push(false);
    }
    fn power_is_bijection(&self, k: u32) -> bool {
        let pm1 = &self.pbig - 1u8;
        (2..=k).all(|d| k % d != 0 || &pm1 % d != BigUint::from(0u8))
    }
    fn opaque_mentions(&self, o: u32, at: u32) -> bool {
        let mut seen = HashSet::new();
        let mut todo = vec![o];
        while let Some(o) = todo.pop() {
            if !seen.insert(o) {
                continue;
            }
            let ids = match &self.opaque_keys[(VAR_BASE - 1 - o) as usize] {
                AtomKey::Opaque(_, i, j) => vec![*i, *j],
                AtomKey::Root(i, _) => vec![*i],
                _ => vec![],
            };
            for i in ids {
                let r = &self.rat_list[i as usize];
                let mut ats = r.num.atoms();
                for d in &r.den {
                    ats.extend(self.factors[d.0 as usize].atoms());
                }
                for a in ats {
                    if a == at {
                        return true;
                    }
                    if a < VAR_BASE {
                        todo.push(a);
                    }
                }
            }
        }
        false
    }
    fn poly_node(&mut self, p: &Poly) -> u32 {
        let mut acc = self.konst(zero_fe());
        for (mo, c) in &p.0 {
            let mut t = self.konst(*c);
            for &(a, e) in mo {
                let an = self.atom_node(a);
                let an = self.node_pow(an, e);
                t = self.mul(t, an);
            }
            acc = self.add(acc, t);
        }
        acc
    }
    fn atom_node(&mut self, a: u32) -> u32 {
        if a >= VAR_BASE {
            return self.mk(Op::Var(a - VAR_BASE));
        }
        let k = self.opaque_keys[(VAR_BASE - 1 - a) as usize].clone();
        match k {
            AtomKey::Opaque(0, i, j) => {
                let (x, y) = (self.rat_node(i), self.rat_node(j));
                self.mk(Op::Add(x, y))
            }
            AtomKey::Opaque(1, i, j) => {
                let (x, y) = (self.rat_node(i), self.rat_node(j));
                self.mk(Op::Mul(x, y))
            }
            AtomKey::Opaque(_, i, _) => {
                let x = self.rat_node(i);
                self.mk(Op::Inv(x))
            }
            AtomKey::Root(i, k) => {
                let x = self.rat_node(i);
                self.mk(Op::Root(x, k))
            }
            AtomKey::Var(v) => self.mk(Op::Var(v)),
        }
    }
    fn rat_node(&mut self, i: u32) -> u32 {
        let r = self.rat_list[i as usize].clone();
        let mut n = self.poly_node(&r.num);
        for &(f, e) in &r.den {
            let fp = self.factors[f as usize].clone();
            let fnode = self.poly_node(&fp);
            let fi = self.mk(Op::Inv(fnode));
            let fi = self.node_pow(fi, e);
            n = self.mul(n, fi);
        }
        n
    }
    pub fn hint(&mut self, n: u32) {
        let n = self.resolve(n);
        self.hints.push(n);
    }
    pub fn assume_zero(&mut self, a: u32) {
        if let Some(c) = self.as_const(a) {
            if c.0 != [0; 4] {
                self.infeasible = true;
            }
            return;
        }
        let n = self.numer(a);
        self.add_eq_poly(n);
    }
    pub fn assume_nonzero(&mut self, a: u32) {
        if let Some(c) = self.as_const(a) {
            if c.0 == [0; 4] {
                self.infeasible = true;
            }
            return;
        }
        let n = self.numer(a);
        self.add_nonzero(n);
    }
    fn query_decision(&mut self, a: u32) -> Option<bool> {
        if let Some(c) = self.as_const(a) {
            return Some(c.0 == [0; 4]);
        }
        let n = self.numer(a);
        if n.is_zero() {
            self.emit_zero(a, "branch-zero");
            return Some(true);
        }
        let (rest, used) = self.strip_nonzero(&n);
        if let Some(c) = rest.as_const() {
            if c.0 != [0; 4] {
                self.emit_nonzero(a, c, &used);
                return Some(false);
            }
        }
        None
    }
    pub fn decide_zero(&mut self, a: u32) -> bool {
        let a = self.resolve(a);
        if let Some(b) = self.query_decision(a) {
            return b;
        }
        // product structure
        if let Op::Mul(x, y) = self.nodes[a as usize].clone() {
            return self.decide_zero(x) || self.decide_zero(y);
        }
        if let Op::Neg(x) = self.nodes[a as usize].clone() {
            return self.decide_zero(x);
        }
        if let Op::Sub(x, y) = self.nodes[a as usize].clone() {
            if self.as_const(y).map(|c| c.0 == [0; 4]).unwrap_or(false) {
                return self.decide_zero(x);
            }
        }
        // monomial content and hints
        let n = self.numer(a);
        let (n, _) = self.strip_nonzero(&n);
        for at in n.atoms() {
            if n.len() > 1 && n.0.iter().all(|t| t.0.iter().any(|x| x.0 == at)) {
                let an = self.atom_node(at);
                if self.decide_zero(an) {
                    return true;
                }
                if let Some(b) = self.query_decision(a) {
                    return b;
                }
            }
        }
        for h in self.hints.clone() {
            let hn = self.numer(h);
            if hn.as_const().is_none() && total_degree(&hn) < total_degree(&n) && n.div_exact(&hn, &self.md.clone()).is_some() {
                if self.decide_zero(h) {
                    return true;
                }
                if let Some(b) = self.query_decision(a) {
                    return b;
                }
            }
        }
        // canonical node for the stripped numerator so that equivalent tests share a decision
        let n = self.numer(a);
        let (n, _) = self.strip_nonzero(&n);
        let md = self.md.clone();
        let n = n.monic(&md).1;
        let key = self.poly_node(&n);
        let val = match self.script_map.get(&key) {
            Some(&v) => v,
            None => {
                let done = self.generic;
                if done {
                    self.stats.generic += 1;
                }
                self.script.push(Decision { node: key, val: false, done });
                self.script_map.insert(key, false);
                self.stats.decisions += 1;
                false
            }
        };
        if self.log_decisions {
            eprintln!("decide {} := {}", self.show_poly(&n, 6), if val { "=0" } else { "!=0" });
        }
        if val {
            self.add_eq_poly(n);
        } else {
            self.add_nonzero(n);
        }
        val
    }
    /// Restricts the current path to `a = 0`, splitting on factors where that is a disjunction.
    pub fn require_zero(&mut self, a: u32) {
        let a = self.resolve(a);
        match self.query_decision(a) {
            Some(true) => return,
            Some(false) => {
                self.infeasible = true;
                return;
            }
            None => {}
        }
        if self.concrete.is_some() {
            self.infeasible = true;
            return;
        }
        match self.nodes[a as usize].clone() {
            Op::Mul(x, y) => {
                if !self.decide_zero(x) {
                    self.require_zero(y)
                }
                return;
            }
            Op::Neg(x) => return self.require_zero(x),
            _ => {}
        }
        let n = self.numer(a);
        let (n, _) = self.strip_nonzero(&n);
        for at in n.atoms() {
            if n.len() > 1 && n.0.iter().all(|t| t.0.iter().any(|x| x.0 == at)) {
                let an = self.atom_node(at);
                if self.decide_zero(an) {
                    return;
                }
                return self.require_zero(a);
            }
        }
        for h in self.hints.clone() {
            let hn = self.numer(h);
            if hn.as_const().is_none() && total_degree(&hn) < total_degree(&n) && n.div_exact(&hn, &self.md.clone()).is_some() {
                if self.decide_zero(h) {
                    return;
                }
                return self.require_zero(a);
            }
        }
        self.add_eq_poly(n);
    }
    /// Free boolean choice (used for quadratic residuosity of symbolic values).
    pub fn choose(&mut self, tag: &str) -> bool {
        let v = self.var(tag);
        if let Some(c) = self.as_const(v) {
            return c.0 == [0; 4];
        }
        self.decide_zero(v)
    }

    // ---------- obligations ----------
    pub fn prove_zero(&mut self, label: &str, a: u32) {
        if self.infeasible {
            return;
        }
        self.stats.obligations += 1;
        if let Some(c) = self.as_const(a) {
            if c.0 != [0; 4] {
                self.fails.push((label.to_string(), None));
            } else if self.concrete.is_none() {
                // constant folding decided it; still recorded as a (trivial) query
                self.emit_zero(a, label);
            }
            return;
        }
        let n = self.numer(a);
        if n.is_zero() {
            self.emit_zero(a, label);
        } else {
            self.fails.push((label.to_string(), Some(a)));
        }
    }

    // ---------- SMT ----------
    fn atom_name(&mut self, at: u32) -> String {
        let s = if at >= VAR_BASE {
            format!("|{}|", self.var_names[(at - VAR_BASE) as usize])
        } else {
            format!("$o{}", VAR_BASE - 1 - at)
        };
        if self.smt_cur.declared.insert(s.clone()) {
            let _ = writeln!(self.smt_cur.decls, "(declare-const {} Int)", s);
        }
        s
    }
    fn fe_str(&self, c: Fe) -> String {
        let b = self.md.big(c);
        let half = &self.pbig >> 1usize;
        if b > half {
            format!("(- {})", &self.pbig - b)
        } else {
            b.to_str_radix(10)
        }
    }
    fn poly_smt(&mut self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut terms = vec![];
        for (mo, c) in &p.0 {
            let mut f = vec![];
            if *c != self.md.one || mo.is_empty() {
                f.push(self.fe_str(*c));
            }
            for &(a, e) in mo {
                let n = self.atom_name(a);
                if e > 8 {
                    f.push(self.power_name(&n, e));
                    continue;
                }
                for _ in 0..e {
                    f.push(n.clone());
                }
            }
            terms.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        let s = if terms.len() == 1 { terms.pop().unwrap() } else { format!("(+ {})", terms.join(" ")) };
        self.name_smt(s)
    }
    /// name of the e-th power of an atom, defined by repeated squaring
    fn power_name(&mut self, n: &str, e: u32) -> String {
        if e == 1 {
            return n.to_string();
        }
        let h = self.power_name(n, e / 2);
        let s = if e % 2 == 0 { format!("(* {} {})", h, h) } else { format!("(* {} {} {})", h, h, n) };
        // always named, so that long chains stay short
        if let Some(x) = self.smt_cur.polys.get(&s) {
            return x.clone();
        }
        let x = format!("$t{}", self.smt_cur.polys.len());
        let _ = writeln!(self.smt_cur.decls, "(define-fun {} () Int {})", x, s);
        self.smt_cur.size += s.len();
        self.smt_cur.polys.insert(s, x.clone());
        x
    }
    fn name_smt(&mut self, s: String) -> String {
        if s.len() < 24 {
            return s;
        }
        if let Some(n) = self.smt_cur.polys.get(&s) {
            return n.clone();
        }
        let n = format!("$t{}", self.smt_cur.polys.len());
        let _ = writeln!(self.smt_cur.decls, "(define-fun {} () Int {})", n, s);
        self.smt_cur.size += s.len();
        self.smt_cur.polys.insert(s, n.clone());
        n
    }
    fn cost_of(&self, s: &str) -> usize {
        self.smt_cur.cost.get(s).cloned().unwrap_or(1)
    }
    fn poly_smt_c(&mut self, p: &Poly) -> String {
        let s = self.poly_smt(p);
        self.smt_cur.cost.insert(s.clone(), p.len().max(1));
        if p.len() > 1 && !self.smt_cur.poly_of.contains_key(&s) {
            self.smt_cur.poly_of.insert(s.clone(), p.clone());
        }
        s
    }
    fn nf_frac(&mut self, a: u32) -> (String, Vec<(String, u32)>) {
        let nf = self.nf(a);
        let den: Vec<(String, u32)> = nf
            .den
            .iter()
            .map(|&(f, e)| {
                let fp = self.factors[f as usize].clone();
                (self.poly_smt_c(&fp), e)
            })
            .collect();
        (self.poly_smt_c(&nf.num), den)
    }
    /// Factors of a product, with powers of known polynomials replaced by their expansions (each
    /// expansion justified by its own query).
    fn prod(&mut self, fs: &[(String, u32)]) -> Vec<String> {
        let mut v = vec![];
        for (f, e) in fs {
            if *e > 8 && !self.smt_cur.poly_of.contains_key(f) {
                let n = self.power_name(f, *e);
                v.push(n);
                continue;
            }
            let po = if *e >= 2 { self.smt_cur.poly_of.get(f).cloned() } else { None };
            match po {
                Some(base) if base.len() < 200 => {
                    let md = self.md.clone();
                    let p = self.pbig.to_str_radix(10);
                    let (mut cur, mut name) = (base.clone(), f.clone());
                    let mut left = *e - 1;
                    while left > 0 {
                        let next = cur.mul(&base, &md);
                        if next.len() > 2000 {
                            break;
                        }
                        let nn = self.poly_smt_c(&next);
                        self.push_query("step", format!("(not (= (mod (- {} (* {} {})) {}) 0))", nn, name, f, p));
                        cur = next;
                        name = nn;
                        left -= 1;
                    }
                    v.push(name);
                    for _ in 0..left {
                        v.push(f.clone());
                    }
                }
                _ => {
                    for _ in 0..*e {
                        v.push(f.clone());
                    }
                }
            }
        }
        v
    }
    /// Emits the lemma "the structural fraction of `a` equals its normal form" and makes the normal
    /// form the fraction used by everything above `a`.
    fn cut(&mut self, a: u32, label: &str) -> (String, Vec<(String, u32)>) {
        let (mut ns, mut ds) = self.frac(a);
        let (n, d) = self.nf_frac(a);
        if ns == n && ds == d {
            return (n, d);
        }
        let mut dn = d.clone();
        for x in ds.iter_mut() {
            if let Some(y) = dn.iter_mut().find(|y| y.0 == x.0) {
                let m = x.1.min(y.1);
                x.1 -= m;
                y.1 -= m;
            }
        }
        let mut l = self.prod(&dn);
        if l.iter().all(|f| f == "1") {
            l.clear();
        }
        let mut r = self.prod(&ds);
        l.insert(0, std::mem::take(&mut ns));
        r.insert(0, n.clone());
        let j = |v: Vec<String>| if v.len() == 1 { v[0].clone() } else { format!("(* {})", v.join(" ")) };
        let p = self.pbig.to_str_radix(10);
        self.push_query(label, format!("(not (= (mod (- {} {}) {}) 0))", j(l), j(r), p));
        self.smt_cur.frac.insert(a, (n.clone(), d.clone()));
        (n, d)
    }
    /// Structural translation of a node to (numerator term, denominator factors).
    fn frac(&mut self, a: u32) -> (String, Vec<(String, u32)>) {
        let a = self.resolve(a);
        if let Some(x) = self.smt_cur.frac.get(&a) {
            return x.clone();
        }
        let op = self.nodes[a as usize].clone();
        let nf = self.nf(a);
        let opaque = nf.den.is_empty()
            && nf.num.len() == 1
            && nf.num.0[0].0.len() == 1
            && nf.num.0[0].0[0].1 == 1
            && nf.num.0[0].0[0].0 < VAR_BASE;
        let mut cost = 1usize;
        let r = if let (Some(c), true) = (nf.num.as_const(), matches!(op, Op::Const(_))) {
            (self.fe_str(c), vec![])
        } else if opaque {
            let (mo, c) = nf.num.0[0].clone();
            let n = self.atom_name(mo[0].0);
            if c == self.md.one {
                (n, vec![])
            } else {
                let cs = self.fe_str(c);
                (self.name_smt(format!("(* {} {})", cs, n)), vec![])
            }
        } else {
            match op {
                Op::Const(c) => (self.fe_str(c), vec![]),
                Op::Var(_) | Op::Root(..) => {
                    let r = self.nf_frac(a);
                    cost = self.cost_of(&r.0);
                    r
                }
                Op::Add(x, y) | Op::Sub(x, y) => {
                    let (nx, dx) = self.frac(x);
                    let (ny, dy) = self.frac(y);
                    let mut l = dx.clone();
                    for (f, e) in &dy {
                        match l.iter_mut().find(|z| z.0 == *f) {
                            Some(z) => z.1 = z.1.max(*e),
                            None => l.push((f.clone(), *e)),
                        }
                    }
                    cost = 0;
                    let mut lifted = vec![];
                    for (n, d) in vec![(&nx, &dx), (&ny, &dy)] {
                        let miss: Vec<(String, u32)> = l
                            .iter()
                            .map(|(f, e)| (f.clone(), e - d.iter().find(|z| z.0 == *f).map(|z| z.1).unwrap_or(0)))
                            .filter(|x| x.1 > 0)
                            .collect();
                        let fs = self.prod(&miss);
                        let c = fs.iter().fold(self.cost_of(n), |a, f| a.saturating_mul(self.cost_of(f)));
                        cost = cost.saturating_add(c);
                        lifted.push(if fs.is_empty() { n.clone() } else { format!("(* {} {})", n, fs.join(" ")) });
                    }
                    let s = if let Op::Add(..) = op {
                        format!("(+ {} {})", lifted[0], lifted[1])
                    } else {
                        format!("(- {} {})", lifted[0], lifted[1])
                    };
                    (self.name_smt(s), l)
                }
                Op::Neg(x) => {
                    let (n, d) = self.frac(x);
                    cost = self.cost_of(&n);
                    (self.name_smt(format!("(- {})", n)), d)
                }
                Op::Mul(x, y) => {
                    let (mut nx, mut d) = self.frac(x);
                    let (mut ny, mut dy) = self.frac(y);
                    if self.cost_of(&nx).saturating_mul(self.cost_of(&ny)) > 400 {
                        let (cx, cy) = (self.cut(x, "step"), self.cut(y, "step"));
                        nx = cx.0;
                        d = cx.1;
                        ny = cy.0;
                        dy = cy.1;
                    }
                    for (f, e) in dy {
                        match d.iter_mut().find(|z| z.0 == f) {
                            Some(z) => z.1 += e,
                            None => d.push((f, e)),
                        }
                    }
                    // structural cancellation
                    let mut nx = nx;
                    let mut ny = ny;
                    if let Some(z) = d.iter_mut().find(|z| z.0 == nx && z.1 > 0) {
                        z.1 -= 1;
                        nx = "1".into();
                    }
                    if let Some(z) = d.iter_mut().find(|z| z.0 == ny && z.1 > 0) {
                        z.1 -= 1;
                        ny = "1".into();
                    }
                    d.retain(|z| z.1 > 0);
                    cost = self.cost_of(&nx).saturating_mul(self.cost_of(&ny));
                    let s = if nx == "1" {
                        ny
                    } else if ny == "1" {
                        nx
                    } else {
                        self.name_smt(format!("(* {} {})", nx, ny))
                    };
                    (s, d)
                }
                Op::Inv(x) => {
                    // denominators are kept factored: 1/x is stated in normal form right away
                    let (nx, dx) = self.cut(x, "step");
                    let (n, d) = self.nf_frac(a);
                    let mut l = vec![n.clone(), nx];
                    l.retain(|f| f != "1");
                    let mut r = self.prod(&d);
                    r.extend(self.prod(&dx));
                    r.retain(|f| f != "1");
                    l.sort();
                    r.sort();
                    if l != r {
                        let j = |v: Vec<String>| match v.len() {
                            0 => "1".to_string(),
                            1 => v[0].clone(),
                            _ => format!("(* {})", v.join(" ")),
                        };
                        let p = self.pbig.to_str_radix(10);
                        self.push_query("step", format!("(not (= (mod (- {} {}) {}) 0))", j(l), j(r), p));
                    }
                    cost = self.cost_of(&n);
                    (n, d)
                }
                Op::Slot(_) => unreachable!(),
            }
        };
        if r.0 != "1" {
            let old = self.cost_of(&r.0);
            if cost > old {
                self.smt_cur.cost.insert(r.0.clone(), cost);
            }
        }
        let dcost = r.1.iter().fold(1usize, |a, z| a.saturating_mul(if self.cost_of(&z.0) == 1 { 1 } else { (0..z.1).fold(1usize, |a, _| a.saturating_mul(self.cost_of(&z.0))) }));
        self.smt_cur.frac.insert(a, r.clone());
        if cost > self.cut_cost || dcost > self.cut_cost {
            return self.cut(a, "step");
        }
        r
    }
    fn push_query(&mut self, label: &str, body: String) {
        if !self.smt_cur.emitted.insert(body.clone()) {
            return;
        }
        self.smt_cur.queries.push((label.to_string(), body));
    }
    /// Query: the node's numerator is 0 mod p given the rules (with a cofactor certificate).
    fn emit_zero(&mut self, a: u32, label: &str) {
        if self.concrete.is_some() {
            return;
        }
        let a = self.resolve(a);
        let p = self.pbig.to_str_radix(10);
        let nf = self.nf(a);
        let lhs = if self.rules.is_empty() || nf.num.is_zero() {
            self.frac(a).0
        } else {
            let (n, _) = self.cut(a, "step");
            let rules = self.rules.clone();
            let md = self.md.clone();
            let (rem, cof) = nf.num.reduce(&rules, &md);
            if !rem.is_zero() {
                self.stats.normal_form_only += 1;
                return;
            }
            let mut parts = vec![];
            for (c, r) in cof.iter().zip(rules.iter()) {
                if !c.is_zero() {
                    let cs = self.poly_smt(c);
                    let rs = self.poly_smt(r);
                    parts.push(format!("(* {} {})", cs, rs));
                }
            }
            if parts.is_empty() {
                n
            } else {
                format!("(- {} {})", n, parts.join(" "))
            }
        };
        self.push_query(label, format!("(not (= (mod {} {}) 0))", lhs, p));
        self.maybe_flush();
    }
    fn maybe_flush(&mut self) {
        if self.smt_cur.size > self.smt_cap || self.smt_cur.queries.len() > 3000 {
            self.flush_smt();
        }
    }
    fn emit_nonzero(&mut self, a: u32, c: Fe, used: &[Poly]) {
        if self.concrete.is_some() || !self.rules.is_empty() {
            return;
        }
        let a = self.resolve(a);
        let (n, _) = self.cut(a, "step");
        let nf = self.nf(a);
        if nf.num.len() == 1 && nf.num.0[0].0.is_empty() {
            // a nonzero constant
            let p = self.pbig.to_str_radix(10);
            self.push_query("branch-nonzero", format!("(= (mod {} {}) 0)", n, p));
            self.maybe_flush();
            return;
        }
        let _ = c;
        // peel the factors off one at a time
        let md = self.md.clone();
        let p = self.pbig.to_str_radix(10);
        let (mut cur, mut name) = (nf.num.clone(), n);
        for u in used {
            let q = match cur.div_exact(u, &md) {
                Some(q) => q,
                None => {
                    self.stats.normal_form_only += 1;
                    return;
                }
            };
            let (us, qs) = (self.poly_smt_c(u), self.poly_smt_c(&q));
            self.push_query("branch-nonzero", format!("(not (= (mod (- {} (* {} {})) {}) 0))", name, us, qs, p));
            cur = q;
            name = qs;
        }
        match cur.as_const() {
            Some(_) => self.push_query("branch-nonzero", format!("(= (mod {} {}) 0)", name, p)),
            None => self.stats.normal_form_only += 1,
        }
        self.maybe_flush();
    }
    pub fn flush_smt(&mut self) {
        let cur = std::mem::take(&mut self.smt_cur);
        if cur.queries.is_empty() {
            return;
        }
        let mut s = String::new();
            s.push_str(&cur.decls);
        for (l, q) in &cur.queries {
            let _ = write!(s, "(push 1)\n(echo \"{}\")\n(assert {})\n(check-sat-using (then (using-params simplify :som true :flat true :som_blowup 4000000) smt))\n(pop 1)\n", l.replace('"', "'"), q);
        }
        self.smt_batches.push(s);
    }

    // ---------- counterexamples ----------
    /// Concrete values for all variables consistent with the current path facts.
    pub fn sample_free(&mut self, attempt: usize) -> Vec<(String, BigUint)> {
        let names = self.var_names.clone();
        names
            .into_iter()
            .map(|n| {
                let r = self.next_rand();
                let f = match attempt % 3 {
                    0 => BigUint::from(r) * BigUint::from(self.next_rand()) * BigUint::from(self.next_rand()),
                    1 => BigUint::from(r % 1000),
                    _ => BigUint::from(r % 5),
                };
                let f = self.md.from_big(&f);
                (n, self.md.big(f))
            })
            .collect()
    }

    pub fn sample(&mut self, attempt: usize) -> Option<Vec<(String, BigUint)>> {
        let mut vals: HashMap<u32, Fe> = HashMap::new();
        let n = self.var_names.len() as u32;
        let ruled: HashSet<u32> = self
            .rules
            .iter()
            .zip(self.rules_root.iter())
            .filter(|x| !*x.1)
            .map(|(r, _)| r.0[0].0[0].0)
            .collect();
        for v in 0..n {
            let at = VAR_BASE + v;
            if self.subst.contains_key(&at) || ruled.contains(&at) {
                continue;
            }
            let r = self.next_rand();
            let f = if attempt % 3 == 1 {
                self.md.from_u64(r % 5)
            } else if attempt % 3 == 2 {
                self.md.from_u64(r % 1000)
            } else {
                let b = BigUint::from(r) * BigUint::from(self.next_rand()) * BigUint::from(self.next_rand());
                self.md.from_big(&b)
            };
            vals.insert(at, f);
        }
        // solve rules
        let rules: Vec<Poly> = self
            .rules
            .clone()
            .into_iter()
            .zip(self.rules_root.clone())
            .filter(|x| !x.1)
            .map(|x| x.0)
            .collect();
        for _ in 0..=rules.len() {
            for r in &rules {
                let lead = r.0[0].0[0].0;
                if vals.contains_key(&lead) {
                    continue;
                }
                if r.atoms().iter().any(|a| *a != lead && !vals.contains_key(a)) {
                    continue;
                }
                // univariate in lead
                let mut co: HashMap<u32, Fe> = HashMap::new();
                for (mo, c) in &r.0 {
                    let mut t = *c;
                    let mut e = 0;
                    for &(a, k) in mo {
                        if a == lead {
                            e = k;
                        } else {
                            for _ in 0..k {
                                t = self.md.mul(t, vals[&a]);
                            }
                        }
                    }
                    let x = co.entry(e).or_insert(zero_fe());
                    *x = self.md.add(*x, t);
                }
                let c0 = co.get(&0).cloned().unwrap_or(zero_fe());
                let mut ks: Vec<u32> = co.iter().filter(|x| *x.0 > 0 && x.1 .0 != [0; 4]).map(|x| *x.0).collect();
                ks.sort_unstable();
                if ks.len() == 1 {
                    let k = ks[0];
                    let rhs = self.md.mul(self.md.neg(c0), self.md.inv_fe(co[&k]));
                    let s = if k == 1 {
                        Some(rhs)
                    } else if k == 2 {
                        self.sqrt_fe(rhs)
                    } else if let Some(x) = self.kth_root_fe(rhs, k) {
                        Some(x)
                    } else {
                        None
                    };
                    match s {
                        Some(x) => {
                            vals.insert(lead, x);
                        }
                        None => return None,
                    }
                } else if ks == [1, 2] {
                    // quadratic formula
                    let (a2, b1) = (co[&2], co[&1]);
                    let md = self.md.clone();
                    let four = md.from_u64(4);
                    let disc = md.sub(md.mul(b1, b1), md.mul(four, md.mul(a2, c0)));
                    match self.sqrt_fe(disc) {
                        Some(s) => {
                            let num = md.sub(s, b1);
                            let x = md.mul(num, md.inv_fe(md.add(a2, a2)));
                            vals.insert(lead, x);
                        }
                        None => return None,
                    }
                } else {
                    return None;
                }
            }
        }
        // substituted variables
        let mut subs: Vec<(u32, Arc<Rat>)> = self.subst.iter().map(|(k, v)| (*k, v.clone())).collect();
        while !subs.is_empty() {
            let before = subs.len();
            let mut rest = vec![];
            for (at, r) in subs {
                match self.eval_rat(&r, &mut vals, 0) {
                    Some(v) => {
                        vals.insert(at, v);
                    }
                    None => rest.push((at, r)),
                }
            }
            if rest.len() == before {
                return None;
            }
            subs = rest;
        }
        let mut out = vec![];
        for v in 0..n {
            if let Some(f) = vals.get(&(VAR_BASE + v)) {
                out.push((self.var_names[v as usize].clone(), self.md.big(*f)));
            }
        }
        Some(out)
    }
    fn eval_rat(&mut self, r: &Rat, vals: &mut HashMap<u32, Fe>, depth: u32) -> Option<Fe> {
        let n = self.eval_poly(&r.num, vals, depth)?;
        let mut d = self.md.one;
        for &(f, e) in &r.den {
            let fp = self.factors[f as usize].clone();
            let x = self.eval_poly(&fp, vals, depth)?;
            d = self.md.mul(d, self.md.pow_limbs(x, &[e as u64]));
        }
        if d.0 == [0; 4] {
            return None;
        }
        Some(self.md.mul(n, self.md.inv_fe(d)))
    }
    fn eval_atom(&mut self, a: u32, vals: &mut HashMap<u32, Fe>, depth: u32) -> Option<Fe> {
        if let Some(v) = vals.get(&a) {
            return Some(*v);
        }
        if a >= VAR_BASE || depth > 2000 {
            return None;
        }
        let v = match self.opaque_keys[(VAR_BASE - 1 - a) as usize].clone() {
            AtomKey::Opaque(op, i, j) => {
                let (ri, rj) = (self.rat_list[i as usize].clone(), self.rat_list[j as usize].clone());
                let x = self.eval_rat(&ri, vals, depth + 1)?;
                match op {
                    0 => {
                        let y = self.eval_rat(&rj, vals, depth + 1)?;
                        self.md.add(x, y)
                    }
                    1 => {
                        let y = self.eval_rat(&rj, vals, depth + 1)?;
                        self.md.mul(x, y)
                    }
                    _ if x.0 == [0; 4] => return None,
                    _ => self.md.inv_fe(x),
                }
            }
            AtomKey::Root(i, k) => {
                let ri = self.rat_list[i as usize].clone();
                let x = self.eval_rat(&ri, vals, depth + 1)?;
                if k == 2 {
                    self.sqrt_fe(x)?
                } else {
                    self.kth_root_fe(x, k)?
                }
            }
            AtomKey::Var(_) => return None,
        };
        vals.insert(a, v);
        Some(v)
    }
    fn eval_poly(&mut self, p: &Poly, vals: &mut HashMap<u32, Fe>, depth: u32) -> Option<Fe> {
        let mut acc = zero_fe();
        for (mo, c) in &p.0 {
            let mut t = *c;
            for &(a, k) in mo {
                let x = self.eval_atom(a, vals, depth)?;
                t = self.md.mul(t, self.md.pow_limbs(x, &[k as u64]));
            }
            acc = self.md.add(acc, t);
        }
        Some(acc)
    }
    pub fn show_poly(&self, p: &Poly, max: usize) -> String {
        let mut s = String::new();
        for (i, (mo, c)) in p.0.iter().enumerate() {
            if i >= max {
                let _ = write!(s, " + ...({} terms)", p.len());
                break;
            }
            if i > 0 {
                s.push_str(" + ");
            }
            let _ = write!(s, "{}", self.fe_str(*c));
            for &(a, e) in mo {
                if a >= VAR_BASE {
                    let _ = write!(s, "*{}^{}", self.var_names[(a - VAR_BASE) as usize], e);
                } else {
                    let _ = write!(s, "*o{}^{}", VAR_BASE - 1 - a, e);
                }
            }
        }
        s
    }
    pub fn show(&mut self, a: u32) -> String {
        let r = self.nf(a);
        let mut s = self.show_poly(&r.num, 8);
        for d in &r.den {
            let _ = write!(s, " / ({})^{}", self.show_poly(&self.factors[d.0 as usize], 6), d.1);
        }
        s
    }
    pub fn canon(&self, f: Fe) -> BigUint {
        from_limbs(&self.md.canon(f))
    }
    pub fn seen(&self) -> Vec<String> {
        self.seen_vars.clone()
    }
    pub fn node_count(&self) -> usize {
        self.nodes.len()
    }
    /// Concrete sat query for a failed obligation: the solver confirms the disequality at `vals`.
    pub fn sat_query(&mut self, a: u32, vals: &[(String, BigUint)]) -> String {
        self.flush_smt();
        let (n, d) = self.frac(a);
        let mut s = String::new();
        s.push_str(&self.smt_cur.decls);
        let p = self.pbig.to_str_radix(10);
        for (name, v) in vals {
            let q = format!("|{}|", name);
            if self.smt_cur.declared.contains(&q) {
                let _ = writeln!(s, "(assert (= {} {}))", q, v);
            }
        }
        for (f, _) in d {
            let _ = writeln!(s, "(assert (not (= (mod {} {}) 0)))", f, p);
        }
        let _ = writeln!(s, "(assert (not (= (mod {} {}) 0)))\n(check-sat)", n, p);
        self.smt_cur = SmtCur::default();
        s
    }
}
