//! P17: arithmetic gadgets.
use super::circ::*;
use crate::cx::*;
use crate::runner::Scenario;
use crate::scenario;
use crate::sfield::{Big, F};
use plonky::*;

type BB = B<Big>;
type TT = T<Big>;

/// Completeness: the generated witness satisfies every constraint and carries `spec`'s values.
/// Soundness: any assignment that satisfies every constraint and has these inputs carries them too.
pub fn gadget(l: &str, n: usize, build: &dyn Fn(&mut BB, &[TT]) -> Vec<TT>, spec: &dyn Fn(&[F]) -> Vec<F>) {
    let x: Vec<F> = vars("x", n);
    gadget_on(l, &x, build, spec)
}
pub fn gadget_on(l: &str, x: &[F], build: &dyn Fn(&mut BB, &[TT]) -> Vec<TT>, spec: &dyn Fn(&[F]) -> Vec<F>) {
    let n = x.len();
    let want = spec(x);
    {
        let mut b = bld();
        let t = b.add_virtual_targets(n);
        let outs = build(&mut b, &t);
        let ins: Vec<(TT, F)> = t.iter().cloned().zip(x.iter().cloned()).collect();
        let r = run_circuit(&format!("{} (generated witness)", l), b, &ins);
        let got: Vec<F> = outs.iter().map(|o| val(&r, *o)).collect();
        prove_eqs(&format!("{}: generated output", l), &got, &want);
    }
    sound_on(l, x, build, &want)
}
pub fn sound_on(l: &str, x: &[F], build: &dyn Fn(&mut BB, &[TT]) -> Vec<TT>, want: &[F]) {
    let mut b = bld();
    let t = b.add_virtual_targets(x.len());
    let outs = build(&mut b, &t);
    let ins: Vec<(TT, F)> = t.iter().cloned().zip(x.iter().cloned()).collect();
    let mut a = any_assignment(b, &ins);
    let got: Vec<F> = outs.iter().map(|o| a.get(*o)).collect();
    prove_eqs(&format!("{}: the constraints force the output", l), &got, want);
}
/// No satisfying assignment exists when `bad` holds for the inputs.
pub fn rejects(l: &str, x: &[F], build: &dyn Fn(&mut BB, &[TT])) {
    let mut b = bld();
    let t = b.add_virtual_targets(x.len());
    build(&mut b, &t);
    let ins: Vec<(TT, F)> = t.iter().cloned().zip(x.iter().cloned()).collect();
    let _ = any_assignment(b, &ins);
    prove(&format!("{}: no assignment satisfies the constraints", l), false);
}

fn g_add() {
    gadget("add", 2, &|b, t| vec![b.add(t[0], t[1])], &|x| vec![x[0] + x[1]]);
}
fn g_sub() {
    gadget("sub", 2, &|b, t| vec![b.sub(t[0], t[1])], &|x| vec![x[0] - x[1]]);
}
fn g_mul() {
    gadget("mul", 2, &|b, t| vec![b.mul(t[0], t[1])], &|x| vec![x[0] * x[1]]);
}
fn g_mul_add_sub() {
    gadget("mul_add", 3, &|b, t| vec![b.mul_add(t[0], t[1], t[2])], &|x| vec![x[0] * x[1] + x[2]]);
    gadget("mul_sub", 3, &|b, t| vec![b.mul_sub(t[0], t[1], t[2])], &|x| vec![x[0] * x[1] - x[2]]);
}
fn g_unary() {
    gadget("double", 1, &|b, t| vec![b.double(t[0])], &|x| vec![x[0] + x[0]]);
    gadget("square", 1, &|b, t| vec![b.square(t[0])], &|x| vec![x[0] * x[0]]);
    gadget("neg", 1, &|b, t| vec![b.neg(t[0])], &|x| vec![F::ZERO - x[0]]);
    gadget("not", 1, &|b, t| vec![b.not(t[0])], &|x| vec![F::ONE - x[0]]);
}
/// the special cases for the shared zero and one wires
fn g_with_constants() {
    let f = |n: u64| F::from_canonical_u64(n);
    for (c, cn) in vec![(0u64, "0"), (1, "1"), (2, "2"), (7, "7")] {
        gadget(&format!("x op {}", cn), 1, &|b, t| {
            let k = b.constant_wire(f(c));
            vec![b.add(t[0], k), b.add(k, t[0]), b.sub(t[0], k), b.sub(k, t[0]), b.mul(t[0], k), b.mul(k, t[0]),
                 b.mul_add(t[0], k, k), b.mul_sub(k, t[0], k), k]
        }, &|x| {
            let k = f(c);
            vec![x[0] + k, k + x[0], x[0] - k, k - x[0], x[0] * k, k * x[0], x[0] * k + k, k * x[0] - k, k]
        });
    }
    gadget("constants among themselves", 0, &|b, _| {
        let (z, o, m, t) = (b.zero_wire(), b.one_wire(), b.neg_one_wire(), b.two_wire());
        let k = b.constant_wire_u32(4000000000);
        let ks = b.constant_wires(&[f(3), f(0), f(1), f(3)]);
        let mut v = vec![z, o, m, t, k, b.add(z, z), b.add(o, o), b.mul(o, o), b.mul(z, o), b.sub(z, o), b.sub(o, z), b.mul(m, m),
             b.add(o, m), b.sub(t, k), b.mul(t, t), b.sub(z, z)];
        v.extend(ks);
        v
    }, &|_| {
        let (z, o, m, t, k) = (f(0), f(1), F::ZERO - F::ONE, f(2), f(4000000000));
        vec![z, o, m, t, k, z, t, o, z, m, o, o, z, t - k, f(4), z, f(3), z, o, f(3)]
    });
}
/// every gadget on every combination of a general target, a repeated target and the constant wires
fn operand(b: &mut BB, t: &[TT], k: usize) -> TT {
    match k {
        0 => t[0],
        1 => t[1],
        2 => b.zero_wire(),
        3 => b.one_wire(),
        4 => b.neg_one_wire(),
        5 => b.two_wire(),
        _ => b.constant_wire(F::from_canonical_u64(7)),
    }
}
fn operand_val(x: &[F], k: usize) -> F {
    match k {
        0 => x[0],
        1 => x[1],
        2 => F::ZERO,
        3 => F::ONE,
        4 => F::ZERO - F::ONE,
        5 => F::from_canonical_u64(2),
        _ => F::from_canonical_u64(7),
    }
}
fn g_operands_1() {
    for k in 0..7 {
        if k == 1 {
            continue;
        }
        gadget(&format!("unary gadgets on operand {}", k), 2, &|b, t| {
            let a = operand(b, t, k);
            let v = vec![b.double(a), b.square(a), b.neg(a), b.not(a), b.exp_constant_usize(a, 0), b.exp_constant_usize(a, 1), b.exp_constant_usize(a, 2), b.exp_constant_usize(a, 5),
                 b.add_many(&[a]), b.mul_many(&[a]), b.add_many(&[a, a, a]), b.mul_many(&[a, a, a])];
            v
        }, &|x| {
            let a = operand_val(x, k);
            vec![a + a, a * a, F::ZERO - a, F::ONE - a, F::ONE, a, a * a, pw(a, 5), a, a, a + a + a, a * a * a]
        });
    }
    // comparisons, selection and inverses of constants
    gadget("tests of constants", 2, &|b, t| {
        let mut v = vec![];
        for k in 2..7 {
            let a = operand(b, t, k);
            v.push(b.is_zero(a));
            v.push(b.is_nonzero(a));
            let o = b.one_wire();
            v.push(b.is_equal(a, o));
            v.push(b.is_not_equal(a, a));
        }
        v
    }, &|_| {
        let mut v = vec![];
        for k in 2..7 {
            v.extend(vec![bit(k == 2), bit(k != 2), bit(k == 3), bit(false)]);
        }
        v
    });
    gadget("inverses of constants", 2, &|b, t| {
        let mut v = vec![];
        for k in 3..7 {
            let a = operand(b, t, k);
            v.push(b.inv(a));
            v.push(b.div(t[0], a));
            v.push(b.div(a, a));
            let z = b.zero_wire();
            v.push(b.div(z, a));
        }
        v
    }, &|x| {
        let mut v = vec![];
        for k in 3..7 {
            let i = operand_val(x, k).multiplicative_inverse().unwrap();
            v.extend(vec![i, x[0] * i, F::ONE, F::ZERO]);
        }
        v
    });
    for k in 0..7 {
        gadget(&format!("selection among operand {}", k), 2, &|b, t| {
            let a = operand(b, t, k);
            let (z, o) = (b.zero_wire(), b.one_wire());
            vec![b.select(o, a, t[0]), b.select(z, a, t[0]), b.select(o, t[0], a), b.select(z, t[0], a), b.select(z, a, a), b.select(o, a, a)]
        }, &|x| {
            let a = operand_val(x, k);
            vec![a, x[0], x[0], a, a, a]
        });
    }
}
fn operands_2(i: usize) {
    for j in 0..7 {
        gadget(&format!("gadgets on operands {} {}", i, j), 2, &|b, t| {
            let (a, c) = (operand(b, t, i), operand(b, t, j));
            let mut v = vec![b.add(a, c), b.sub(a, c), b.mul(a, c), b.add_many(&[a, c, a]), b.mul_many(&[a, c, a])];
            for k in 0..7 {
                let d = operand(b, t, k);
                v.push(b.mul_add(a, c, d));
                v.push(b.mul_sub(a, c, d));
            }
            v
        }, &|x| {
            let (a, c) = (operand_val(x, i), operand_val(x, j));
            let mut v = vec![a + c, a - c, a * c, a + c + a, a * c * a];
            for k in 0..7 {
                let d = operand_val(x, k);
                v.push(a * c + d);
                v.push(a * c - d);
            }
            v
        });
    }
}
fn g_operands_2_general() {
    operands_2(0);
    operands_2(1);
}
fn g_operands_2_zero() {
    operands_2(2);
}
fn g_operands_2_one() {
    operands_2(3);
}
fn g_operands_2_neg() {
    operands_2(4);
}
fn g_operands_2_other() {
    operands_2(5);
    operands_2(6);
}
fn g_many() {
    for n in 0..5usize {
        gadget(&format!("add_many of {}", n), n, &|b, t| vec![b.add_many(t)], &|x| vec![x.iter().fold(F::ZERO, |a, b| a + *b)]);
        gadget(&format!("mul_many of {}", n), n, &|b, t| vec![b.mul_many(t)], &|x| vec![x.iter().fold(F::ONE, |a, b| a * *b)]);
    }
}
fn pw(x: F, n: usize) -> F {
    let mut r = F::ONE;
    for _ in 0..n {
        r = r * x
    }
    r
}
fn g_exp() {
    for e in 0..18usize {
        gadget(&format!("x^{}", e), 1, &|b, t| vec![b.exp_constant_usize(t[0], e)], &|x| vec![pw(x[0], e)]);
    }
}
fn g_exp_big() {
    set_cap(100_000);
    // beyond one limb: 2^64 + 3 and 2^127 + 2^64 + 1 applied to symbolic x; compared with the same power
    // assembled from repeated squarings
    for k in vec![vec![64usize, 1, 0], vec![127, 64, 0], vec![63, 62], vec![130]] {
        let kk = k.clone();
        let p = {
            let mut l = vec![0u64; 4];
            for i in &k {
                l[i / 64] |= 1 << (i % 64);
            }
            F::from_canonical_u64_vec(l)
        };
        gadget_on(&format!("x^(sum of 2^{:?})", k), &[var("x")], &|b, t| vec![b.exp_constant(t[0], p)], &|x| {
            // lowest bit first, as products of x^(2^i)
            let mut cur = x[0];
            let mut acc = F::ONE;
            for i in 0..131 {
                if kk.contains(&i) {
                    acc = acc * cur;
                }
                cur = cur * cur;
            }
            vec![acc]
        });
    }
}
fn g_inv() {
    let x: Vec<F> = vars("x", 2);
    if x[1].is_zero() {
        // no satisfying assignment may exist
        match choose("which") {
            false => rejects("inv of zero", &x[1..], &|b, t| {
                b.inv(t[0]);
            }),
            true => match choose("which2") {
                false => rejects("div by zero", &x, &|b, t| {
                    b.div(t[0], t[1]);
                }),
                true => rejects("assert_nonzero of zero", &x[1..], &|b, t| b.assert_nonzero(t[0])),
            },
        }
        return;
    }
    let i = x[1].multiplicative_inverse().unwrap();
    gadget_on("inv", &x[1..], &|b, t| vec![b.inv(t[0])], &|_| vec![i]);
    gadget_on("div", &x, &|b, t| vec![b.div(t[0], t[1])], &|x| vec![x[0] * i]);
    gadget_on("assert_nonzero", &x[1..], &|b, t| {
        b.assert_nonzero(t[0]);
        vec![t[0]]
    }, &|x| vec![x[0]]);
}
fn bit(b: bool) -> F {
    if b {
        F::ONE
    } else {
        F::ZERO
    }
}
fn g_is_zero() {
    let x: Vec<F> = vars("x", 1);
    let z = x[0].is_zero();
    gadget_on("is_zero", &x, &|b, t| vec![b.is_zero(t[0])], &|_| vec![bit(z)]);
    gadget_on("is_nonzero", &x, &|b, t| vec![b.is_nonzero(t[0])], &|_| vec![bit(!z)]);
}
fn g_is_equal() {
    let x: Vec<F> = vars("x", 2);
    let z = x[0] == x[1];
    gadget_on("is_equal", &x, &|b, t| vec![b.is_equal(t[0], t[1])], &|_| vec![bit(z)]);
    gadget_on("is_not_equal", &x, &|b, t| vec![b.is_not_equal(t[0], t[1])], &|_| vec![bit(!z)]);
}
fn g_select() {
    let x: Vec<F> = vars("x", 2);
    for s in vec![false, true] {
        let v = [bit(s), x[0], x[1]];
        gadget_on(&format!("select({})", s), &v, &|b, t| vec![b.select(t[0], t[1], t[2])], &|v| vec![if s { v[1] } else { v[2] }]);
        gadget_on(&format!("not({})", s), &v[..1], &|b, t| vec![b.not(t[0])], &|_| vec![bit(!s)]);
    }
}
fn g_asserts() {
    // accepted
    let f = |n: u64| F::from_canonical_u64(n);
    for v in 0..2u64 {
        gadget_on("assert_binary", &[f(v)], &|b, t| {
            b.assert_binary(t[0]);
            vec![t[0]]
        }, &|x| vec![x[0]]);
    }
    gadget_on("assert_zero", &[F::ZERO], &|b, t| {
        b.assert_zero(t[0]);
        vec![t[0]]
    }, &|x| vec![x[0]]);
    gadget_on("assert_one", &[F::ONE], &|b, t| {
        b.assert_one(t[0]);
        vec![t[0]]
    }, &|x| vec![x[0]]);
}
fn g_assert_binary_rejects() {
    let x: F = var("x");
    if x.is_zero() || x.is_one() {
        return;
    }
    rejects("assert_binary of a non-bit", &[x], &|b, t| b.assert_binary(t[0]));
}
fn g_assert_zero_rejects() {
    let x: F = var("x");
    if x.is_zero() {
        return;
    }
    rejects("assert_zero of a nonzero value", &[x], &|b, t| b.assert_zero(t[0]));
}
fn g_assert_one_rejects() {
    let x: F = var("x");
    if x.is_one() {
        return;
    }
    rejects("assert_one of another value", &[x], &|b, t| b.assert_one(t[0]));
}
fn g_conditional_copy() {
    // condition nonzero forces equality; condition zero forces nothing
    let (c, x, y): (F, F, F) = (var("c"), var("x"), var("y"));
    let cz = c.is_zero();
    let eq = x == y;
    if cz || eq {
        gadget_on("conditional_copy", &[c, x, y], &|b, t| {
            b.conditional_copy(t[0], t[1], t[2]);
            vec![t[1]]
        }, &|v| vec![v[1]]);
    } else {
        rejects("conditional_copy of different values", &[c, x, y], &|b, t| b.conditional_copy(t[0], t[1], t[2]));
    }
}
fn g_generate_constant() {
    let k: F = F::from_canonical_u64(123456789);
    let mut b = bld();
    let t = b.add_virtual_target();
    b.generate_constant(t, k);
    let o = b.square(t);
    let r = run_circuit("generate_constant", b, &[]);
    prove_eq("generate_constant", val(&r, t), k);
    prove_eq("generate_constant feeds gadgets", val(&r, o), k * k);
}
/// a deeper composition: linear combination with shared subterms
fn g_compose() {
    let x: Vec<F> = vars("x", 4);
    gadget_on("composition", &x, &|b, t| {
        let s = b.add(t[0], t[1]);
        let p = b.mul(s, s);
        let q = b.mul_sub(p, t[2], s);
        let r = b.mul_add(q, q, p);
        let k = b.constant_wire_u32(17);
        let w = b.mul(k, r);
        let z = b.sub(w, t[3]);
        vec![s, p, q, r, w, z]
    }, &|x| {
        let s = x[0] + x[1];
        let p = s * s;
        let q = p * x[2] - s;
        let r = q * q + p;
        let w = F::from_canonical_u64(17) * r;
        vec![s, p, q, r, w, w - x[3]]
    });
}
pub fn all() -> Vec<Scenario> {
    vec![
        scenario!(Big, "P17", 0, g_add, "add"),
        scenario!(Big, "P17", 0, g_sub, "sub"),
        scenario!(Big, "P17", 0, g_mul, "mul"),
        scenario!(Big, "P17", 0, g_mul_add_sub, "mul_add, mul_sub"),
        scenario!(Big, "P17", 0, g_unary, "double, square, neg, not"),
        scenario!(Big, "P17", 0, g_with_constants, "operations with the shared constant wires"),
        scenario!(Big, "P17", 0, g_operands_1, "one-operand gadgets on general targets and on the constant wires"),
        scenario!(Big, "P17", 0, g_operands_2_general, "two- and three-operand gadgets: general or repeated target first"),
        scenario!(Big, "P17", 0, g_operands_2_zero, "two- and three-operand gadgets: constant zero first"),
        scenario!(Big, "P17", 0, g_operands_2_one, "two- and three-operand gadgets: constant one first"),
        scenario!(Big, "P17", 0, g_operands_2_neg, "two- and three-operand gadgets: constant minus one first"),
        scenario!(Big, "P17", 0, g_operands_2_other, "two- and three-operand gadgets: other constants first"),
        scenario!(Big, "P17", 0, g_many, "add_many, mul_many of 0-4 terms"),
        scenario!(Big, "P17", 0, g_exp, "constant powers 0-17"),
        scenario!(Big, "P17", 0, g_exp_big, "constant powers beyond one and two limbs"),
        scenario!(Big, "P17", 0, g_inv, "inv, div, assert_nonzero; rejection of zero"),
        scenario!(Big, "P17", 0, g_is_zero, "is_zero, is_nonzero"),
        scenario!(Big, "P17", 0, g_is_equal, "is_equal, is_not_equal"),
        scenario!(Big, "P17", 0, g_select, "select and not on bits"),
        scenario!(Big, "P17", 0, g_asserts, "assertions that must hold"),
        scenario!(Big, "P17", 0, g_assert_binary_rejects, "assert_binary rejects everything else"),
        scenario!(Big, "P17", 0, g_assert_zero_rejects, "assert_zero rejects everything else"),
        scenario!(Big, "P17", 0, g_assert_one_rejects, "assert_one rejects everything else"),
        scenario!(Big, "P17", 0, g_conditional_copy, "conditional_copy"),
        scenario!(Big, "P17", 0, g_generate_constant, "generated constants"),
        scenario!(Big, "P17", 0, g_compose, "a composition of gadgets"),
    ]
}
