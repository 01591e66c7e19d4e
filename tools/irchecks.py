#!/usr/bin/env python3-vt
"""Units decided with the IR executor (irexec.py).

irchecks.py list PROP
irchecks.py run UNIT ALL.ll LIB.so SECONDS        -> one JSON line
irchecks.py replay UNIT LIB.so name=value ...     -> runs the real entry point on concrete operands
"""
import sys, os, json, time, ctypes, re, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

# the documented moduli (the fields' definitions; not read from the code under check)
P = {
    "tweedledee": (28948022309329048855892746252171976963322203655954433126947083963168578338817, 4),
    "tweedledum": (28948022309329048855892746252171976963322203655955319056773317069363642105857, 4),
    "pallas": (28948022309329048855892746252171976963363056481941560715954676764349967630337, 4),
    "vesta": (28948022309329048855892746252171976963363056481941647379679742748393362948097, 4),
    "blsscalar": (8444461749428370424248824938781546531375899335154063827935233455917409239041, 4),
    "blsbase": (258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177, 6),
}
# op -> (arity, spec(a, b) -> integer (as a residue mod p, in Montgomery terms), about)
ARITH = {
    "add": (2, "a + b"), "sub": (2, "a - b"), "mul": (2, "a * b"), "neg": (1, "-a"), "square": (1, "a * a"),
    "double": (1, "2 a"), "triple": (1, "3 a"), "quadruple": (1, "4 a"),
    "from_canonical": (1, "the element of canonical value a"), "to_canonical": (1, "the canonical integer of a"),
}

def units(prop):
    out = []
    if prop == "P01":
        for f in P:
            for op in ARITH:
                out.append(("ar_%s_%s" % (f, op), "%s over all reduced operands of the %s field: result reduced and equal to %s modulo the prime" % (op, f, ARITH[op][1])))
    if prop in ("P03", "P10"):
        for f in P:
            for op in CONV:
                if CONV[op][0] == prop:
                    out.append(("cv_%s_%s" % (f, op), "%s over all operands of the %s field: %s" % (op, f, CONV[op][4])))
    return out

# op -> (property, input cells (count in terms of n, bytes each), output cells, operands are elements?, about)
CONV = {
    "to_u64": ("P03", lambda n: (n, 8), lambda n: (n + 1, 8), True, "the 64-bit digits of the canonical integer, least significant first"),
    "to_u32": ("P03", lambda n: (n, 8), lambda n: (2 * n + 2, 4), True, "the 32-bit digits of the canonical integer, least significant first"),
    "to_u8": ("P03", lambda n: (n, 8), lambda n: (8 * n + 8, 1), True, "the bytes of the canonical integer, least significant first"),
    "to_bool": ("P03", lambda n: (n, 8), lambda n: (64 * n + 8, 1), True, "the bits of the canonical integer, least significant first"),
    "num_bits": ("P03", lambda n: (n, 8), lambda n: (1, 8), True, "the bit length of the canonical integer"),
    "cmp": ("P03", lambda n: (n, 8), lambda n: (1, 8), True, "the order of the canonical integers"),
    "eq": ("P03", lambda n: (n, 8), lambda n: (1, 8), True, "equality of the canonical integers"),
    "is_zero": ("P03", lambda n: (n, 8), lambda n: (1, 8), True, "whether the canonical integer is 0"),
    "is_one": ("P03", lambda n: (n, 8), lambda n: (1, 8), True, "whether the canonical integer is 1"),
    "is_valid": ("P03", lambda n: (n, 8), lambda n: (1, 8), False, "limbs are valid exactly when their integer is below the modulus"),
    "is_valid_len": ("P03", lambda n: (n + 1, 8), lambda n: (1, 8), False, "limb strings of another length are not valid"),
    "from_u64": ("P03", lambda n: (n, 8), lambda n: (n, 8), False, "the element with these 64-bit digits"),
    "from_u32": ("P03", lambda n: (2 * n, 4), lambda n: (n, 8), False, "the element with these 32-bit digits"),
    "from_u8": ("P03", lambda n: (8 * n, 1), lambda n: (n + 1, 8), False, "the element with these bytes exactly when their integer is below the modulus, otherwise rejected"),
    "from_canonical_u64": ("P03", lambda n: (1, 8), lambda n: (n, 8), False, "the element whose canonical integer is the word"),
    "write": ("P10", lambda n: (n, 8), lambda n: (8 * n + 8, 1), True, "writes exactly the bytes of the canonical integer"),
    "read": ("P10", lambda n: (8 * n + 8, 1), lambda n: (n + 2, 8), False, "consumes exactly one encoding and returns its element, or rejects an integer that is not below the modulus"),
}

def limbs(v, n):
    return [(v >> (64 * i)) & (2**64 - 1) for i in range(n)]

def call(lib, fn, ops, nout, isz=8, osz=8):
    """runs the real function in a child process (a panic aborts it)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open("/dev/null", os.O_WRONLY)
        os.dup2(dn, 2)
        L = ctypes.CDLL(lib)
        ty = {1: ctypes.c_uint8, 4: ctypes.c_uint32, 8: ctypes.c_uint64}
        bufs = [(ty[isz] * len(o))(*o) for o in ops]
        out = (ty[osz] * nout)()
        getattr(L, fn)(*(bufs + [out]))
        os.write(w, json.dumps(list(out)).encode())
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        return None
    return json.loads(data)

def expected(field, op, a, b):
    p, n = P[field]
    R = 1 << (64 * n)
    Ri = pow(R, -1, p)
    return {"add": lambda: (a + b) % p, "sub": lambda: (a - b) % p, "mul": lambda: a * b * Ri % p, "neg": lambda: -a % p,
            "square": lambda: a * a * Ri % p, "double": lambda: 2 * a % p, "triple": lambda: 3 * a % p, "quadruple": lambda: 4 * a % p,
            "from_canonical": lambda: a * R % p, "to_canonical": lambda: a * Ri % p}[op]()

def replay_arith(unit, lib, vals):
    _, field, op = unit.split("_", 2)
    p, n = P[field]
    a, b = vals["a"], vals.get("b", 0)
    if not (0 <= a < p and 0 <= b < p):
        return None
    ops = [limbs(a, n)] + ([limbs(b, n)] if ARITH[op][0] == 2 else [])
    out = call(lib, "vp_%s_%s" % (field, op), ops, n)
    want = expected(field, op, a, b)
    if out is None:
        return "%s(%s) aborts" % (op, ", ".join(map(str, [a, b][:ARITH[op][0]])))
    got = sum(v << (64 * i) for i, v in enumerate(out))
    if got != want:
        return "%s of limb integers (%s) is %d, not %d%s" % (op, ", ".join(map(str, [a, b][:ARITH[op][0]])), got, want, " (not reduced)" if got >= p else "")
    return None

def run_arith(unit, ll, lib, budget):
    import z3
    from irexec import Module, Exec, Form, Ptr, Int, Unsupported, C
    t0 = time.time()
    _, field, op = unit.split("_", 2)
    p, n = P[field]
    ar = ARITH[op][0]
    R = 1 << (64 * n)
    res = {"violations": [], "undecided": [], "notes": [], "samples": [], "obligations": 0}
    mod = Module(ll)
    ex = Exec(mod, timeout_ms=15000, deadline=t0 + budget)
    fn = "@vp_%s_%s" % (field, op)
    if fn not in mod.funcs:
        res["undecided"].append("entry point %s not found" % fn)
        return res, ex, t0
    top = p >> (64 * (n - 1))
    av = [ex.var("a%d" % i, 64, top if i == n - 1 else None) for i in range(n)]
    bv = [ex.var("b%d" % i, 64, top if i == n - 1 else None) for i in range(n)] if ar == 2 else []
    val = lambda vs: sum((v.f.scale(1 << (64 * i)) for i, v in enumerate(vs)), Form(0))
    A, B = val(av), val(bv)
    ex.fact(ex.zf(A) <= p - 1)
    if bv:
        ex.fact(ex.zf(B) <= p - 1)
    lemmas = []
    if op in ("mul", "square"):
        xs, ys = av, (bv if op == "mul" else av)
        for x in xs:
            ex.fact(ex.zf(ex.product(x.f, val(ys))) <= ex.zf(x.f.scale(p - 1)))
        for y in ys:
            ex.fact(ex.zf(ex.product(val(xs), y.f)) <= ex.zf(y.f.scale(p - 1)))
        T = ex.product(A, val(ys))
        ex.fact(ex.zf(T) <= (p - 1) ** 2)
        ex.fact(ex.zf(T) <= ex.zf(A.scale(p - 1)))
        ex.fact(ex.zf(T) <= ex.zf(val(ys).scale(p - 1)))
    # R * result - want, as an integer form that must be 0 modulo p
    want = {"add": lambda: (A + B).scale(R), "sub": lambda: (A - B).scale(R), "neg": lambda: A.scale(-R), "double": lambda: A.scale(2 * R),
            "triple": lambda: A.scale(3 * R), "quadruple": lambda: A.scale(4 * R), "mul": lambda: T, "square": lambda: T,
            "from_canonical": lambda: A.scale(R * R), "to_canonical": lambda: A}[op]()
    st = ex.start(fn, [])
    st.mem["A"] = {8 * i: (8, v) for i, v in enumerate(av)}
    st.mem["B"] = {8 * i: (8, v) for i, v in enumerate(bv)}
    st.mem["R"] = {}
    f = mod.func(fn)
    ptrs = [Ptr("A")] + ([Ptr("B")] if ar == 2 else []) + [Ptr("R")]
    st.stack[0]["env"] = dict(zip(f["args"], ptrs))
    bad = []

    def model_values(ex, m):
        g = lambda vs: sum(m.eval(ex.zf(v.f), model_completion=True).as_long() << (64 * i) for i, v in enumerate(vs))
        d = {"a": g(av)}
        if ar == 2:
            d["b"] = g(bv)
        return d
    def confirm(label, d, how):
        why = replay_arith(unit, lib, d)
        if why:
            res["violations"].append({"label": label, "values": {k: str(v) for k, v in d.items()}, "solver": how, "detail": why})
            return True
        return False
    EDGE = [p - 1, 1, p - 2, 2, (p - 1) // 2, (p + 1) // 2, R % p, (R * R) % p, 0, 2**64 - 1, ((1 << (64 * (n - 1))) - 1), p - (R % p), (p // 3), (top << (64 * (n - 1))) - 1]
    def hunt(s, label, neg):
        ex = s.ex
        """look for a concrete counterexample: models of the negated obligation, replayed on the real code"""
        if res["violations"]:
            return
        tries = [()]
        if op == "mul":
            for e in EDGE:
                el = limbs(e, n)
                tries.append([x.f for x in bv] and [ex.zf(bv[i].f) == el[i] for i in range(n)] + [ex.zf(ex.product(av[i].f, bv[j].f)) == ex.zf(av[i].f) * el[j] for i in range(n) for j in range(n)])
        if op == "square":
            # all limbs but one fixed, squares of the free limb stay opaque; then fully fixed edges
            for e in EDGE:
                el = limbs(e, n)
                tries.append([ex.zf(av[i].f) == el[i] for i in range(n)] + [ex.zf(ex.product(av[i].f, av[j].f)) == el[i] * el[j] for i in range(n) for j in range(n)])
        h0 = time.time()
        for k, tr in enumerate(tries):
            if time.time() > min(t0 + budget, h0 + 40):
                return
            r = ex.check(s, neg, *tr)
            if r == "sat":
                d = model_values(ex, ex.last_model)
                for dd in [d] + ([dict(d, b=e) for e in EDGE] + [dict(d, a=e) for e in EDGE] if ar == 2 else [{"a": e} for e in EDGE]):
                    if confirm(label, dd, "sat"):
                        return
    def done(s, ret):
        ex = s.ex
        out = []
        for i in range(n):
            v = ex.load(s, Ptr("R", 8 * i), 8, ("i", 64))
            if not isinstance(v, Int):
                res["undecided"].append("result limb %d is not defined" % i)
                return
            out.append(ex.known(v))
        Rv = val(out)
        zr = ex.zf(Rv)
        # reduced
        res["obligations"] += 1
        loc = z3.Sum([ex.lxi(v) * (1 << (64 * i)) for i, v in enumerate(out)])
        r = "unsat" if ex.prove_local(s, loc < p) else ex.check(s, zr >= p)
        if r == "sat" or r == "unknown":
            hunt(s, "result of %s is below the modulus" % op, zr >= p)
            if not res["violations"]:
                res["undecided"].append("a path: result below the modulus (%s)" % r)
        # residue
        res["obligations"] += 1
        D = Rv.scale(R) - want
        eqs = path_equations(ex, s)
        left = in_span(D, eqs, p)
        # carries and borrows the path determines
        for a in sorted((k for k in left if k >= 0), reverse=True):
            lo, hi = ex.atoms[a][2:4]
            if hi - lo <= 2:
                for v in range(lo, hi + 1):
                    if ex.prove_local(s, ex.zv[a] == v, depth=8) or ex.prove(s, ex.zv[a] == v, ms=4000):
                        eqs.append(Form(-v, {a: 1}))
                        break
        if left:
            left = in_span(D, eqs, p)
        if left:
            # quotients (wrapped sums) the path determines, from the machine values around them
            for tot, T, lo, hi in reversed(ex.quots):
                if not any(a in left for a in tot.t):
                    continue
                for v in range(lo, hi + 1):
                    if ex.prove_local(s, T == v, depth=8, limit=300):
                        eqs.append(tot - v)
                        left = in_span(D, eqs, p)
                        break
                if not left:
                    break
        if left:
            E = Form(left.get(-1, 0), {k: v for k, v in left.items() if k != -1})
            neg = ex.zf(E) % p != 0
            if os.environ.get("IR_DEBUG"):
                sys.stderr.write("left %r\n" % left)
                for k in left:
                    if k >= 0:
                        sys.stderr.write("  x%d = %r\n" % (k, ex.atoms[k]))
                sys.stderr.write("  trace %r\n" % [(repr(f)[:80], v) for f, v in s.trace])
            r = ex.check(s, neg)
            if r != "unsat":
                hunt(s, "result of %s is %s modulo the prime" % (op, ARITH[op][1]), neg)
                if not res["violations"]:
                    res["undecided"].append("a path: result congruent to %s (%s)" % (ARITH[op][1], r))
        else:
            ex.stats["normal"] = ex.stats.get("normal", 0) + 1
        if len(res["samples"]) < 2:
            res["samples"].append("%s: path %d: 0 <= result < p and R*result = %s (mod p): unsat" % (unit, ex.stats["paths"], ARITH[op][1]))
    def panic(s, what):
        ex = s.ex
        res["obligations"] += 1
        r = ex.check(s)
        if r == "unsat":
            return
        hunt(s, "%s returns (no panic)" % op, z3.BoolVal(True))
        if not res["violations"]:
            res["undecided"].append("a path to %s not excluded (%s)" % (what[:80], r))
    try:
        ex.run(st, done, panic)
    except Unsupported as e:
        res["undecided"].append("cannot encode: %s" % e)
    return res, ex, t0

def unpack(cells, size):
    return sum(v << (8 * size * i) for i, v in enumerate(cells))

def conv_cells(field, op, vals):
    """concrete operand arrays for a replay (elements are given by their canonical integers)"""
    p, n = P[field]
    cnt, size = CONV[op][1](n)
    R = 1 << (64 * n)
    out = []
    for k in ("a", "b"):
        if k in vals:
            v = vals[k] * R % p if CONV[op][3] else vals[k]
            out.append([(v >> (8 * size * i)) & ((1 << (8 * size)) - 1) for i in range(cnt)])
    return out

def conv_expected(field, op, vals):
    """the output cells demanded (None where any value will do)"""
    p, n = P[field]
    cnt, size = CONV[op][2](n)
    R = 1 << (64 * n)
    a, b = vals["a"], vals.get("b", 0)
    dig = lambda v, k, sz: [(v >> (8 * sz * i)) & ((1 << (8 * sz)) - 1) for i in range(k)]
    if op == "to_u64":
        return dig(a, n, 8) + [n]
    if op == "to_u32":
        return dig(a, 2 * n, 4) + [2 * n, 0]
    if op == "to_u8":
        return dig(a, 8 * n, 1) + [8 * n] + [0] * 7
    if op == "to_bool":
        return [(a >> i) & 1 for i in range(64 * n)] + [8 * n] + [0] * 7
    if op == "write":
        return dig(a, 8 * n, 1) + [8 * n, 1] + [0] * 6
    if op == "num_bits":
        return [a.bit_length()]
    if op == "cmp":
        return [((a > b) - (a < b)) % 2**64]
    if op == "eq":
        return [int(a == b)]
    if op == "is_zero":
        return [int(a == 0)]
    if op == "is_one":
        return [int(a == 1)]
    if op == "is_valid":
        return [int(a < p)]
    if op == "is_valid_len":
        return [0]
    if op in ("from_u64", "from_u32"):
        return dig(a * R % p, n, 8) if a < p else [None] * n
    if op == "from_canonical_u64":
        return dig(a * R % p, n, 8)
    if op == "from_u8":
        return dig(a * R % p, n, 8) + [1] if a < p else [None] * n + [0]
    if op == "read":
        v = a % (1 << (64 * n))
        return dig(v * R % p, n, 8) + [1, 8] if v < p else [None] * n + [0, None]

def replay_conv(unit, lib, vals):
    _, field, op = unit.split("_", 2)
    p, n = P[field]
    if CONV[op][3] and not all(0 <= v < p for v in vals.values()):
        return None
    cnt, size = CONV[op][2](n)
    got = call(lib, "vp_%s_%s" % (field, op), conv_cells(field, op, vals), cnt, CONV[op][1](n)[1], size)
    want = conv_expected(field, op, vals)
    ops = ", ".join("%s = %d" % kv for kv in sorted(vals.items()))
    if got is None:
        return "%s aborts for %s" % (op, ops) if any(w is not None for w in want) else None
    for i, (g, w) in enumerate(zip(got, want)):
        if w is not None and g != w:
            return "%s for %s: output %d is %d, not %d" % (op, ops, i, g, w)
    return None

def run_conv(unit, ll, lib, budget):
    import z3
    from irexec import Module, Exec, Form, Ptr, Int, Unsupported, C
    t0 = time.time()
    _, field, op = unit.split("_", 2)
    p, n = P[field]
    _, icells, ocells, elements, about = CONV[op]
    icnt, isz = icells(n)
    ocnt, osz = ocells(n)
    res = {"violations": [], "undecided": [], "notes": [], "samples": [], "obligations": 0}
    mod = Module(ll)
    ex = Exec(mod, timeout_ms=15000, deadline=t0 + budget)
    text = open(ll).read()
    def entry(o):
        fn = "@vp_%s_%s" % (field, o)
        if fn in mod.funcs:
            return fn
        m = re.search(r"^%s = .*alias .*(@[\w.]+)\s*$" % re.escape(fn), text, re.M)
        return m.group(1) if m and m.group(1) in mod.funcs else None
    fn = entry(op)
    if fn is None:
        res["undecided"].append("entry point vp_%s_%s not found" % (field, op))
        return res, ex, t0

    # ---- the Montgomery product, decided separately (P01), stands for a reduced value that depends on its operands only
    def product(ex, st, args):
        dst, x, y = args[-3:]
        m = lambda q: [ex.load(st, Ptr(q.obj, q.off + 8 * i), 8, ("i", 64)) for i in range(n)]
        xs, ys = m(x), m(y)
        key = ("mont", tuple(v.f.key() for v in xs), tuple(v.f.key() for v in ys))
        if key not in ex.lkey:
            top = p >> (64 * (n - 1))
            os_ = [ex.var("m%d" % i, 64, top if i == n - 1 else None) for i in range(n)]
            ex.fact(ex.zf(sum((v.f.scale(1 << (64 * i)) for i, v in enumerate(os_)), Form(0))) <= p - 1)
            ex.lkey[key] = os_
        for i, v in enumerate(ex.lkey[key]):
            ex.store(st, Ptr(dst.obj, dst.off + 8 * i), v, 8)
        return None
    ex.summaries.append((re.compile(r"monty_multiply|montgomery_multiply"), product))
    ex.summaries.append((re.compile(r"anyhow|fmt|io5error|8Location"), lambda ex, st, args: ("__panic", "REJECT")))

    names = ["a", "b"] if op in ("cmp", "eq") else ["a"]
    cells = {}
    for k in names:
        if elements:
            top = p >> (64 * (n - 1))
            cells[k] = [ex.var("%s%d" % (k, i), 64, top if i == n - 1 else None) for i in range(n)]
            ex.fact(ex.zf(sum((v.f.scale(1 << (64 * i)) for i, v in enumerate(cells[k])), Form(0))) <= p - 1)
        else:
            cells[k] = [ex.var("%s%d" % (k, i), 8 * isz) for i in range(icnt)]
    # integer value of an operand (of the encoded part, for "read")
    def value(vs, sz):
        return sum((v.f.scale(1 << (8 * sz * i)) for i, v in enumerate(vs)), Form(0))
    st = ex.start(fn, [])
    f = mod.func(fn)
    for k in names:
        st.mem[k] = {isz * i: (isz, v) for i, v in enumerate(cells[k])}
    st.mem["R"] = {}
    st.stack[0]["env"] = dict(zip(f["args"], [Ptr(k) for k in names] + [Ptr("R")]))
    # the reference conversion runs first, on the same operands
    def push(o, src, dst):
        e = entry(o)
        if e is None:
            return False
        g = mod.func(e)
        st.mem[dst] = {}
        ex.called.add(e)
        st.stack.append({"f": g, "bb": g["entry"], "prev": None, "i": 0, "env": dict(zip(g["args"], [Ptr(src), Ptr(dst)])), "dst": None, "normal": None})
        return True
    limbs_in = None
    if elements and op not in ("eq",):
        for k in names:
            if not push("to_canonical", k, "T" + k):
                res["undecided"].append("reference conversion not found")
                return res, ex, t0
    elif op in ("from_u64", "from_u32", "from_u8", "read", "from_canonical_u64"):
        per = 8 // isz
        vs = cells["a"][:n * per]
        limbs_in = [Int(sum((v.f.scale(1 << (8 * isz * j)) for j, v in enumerate(vs[i * per:(i + 1) * per])), Form(0)), 64) for i in range(n)]
        limbs_in = [l if l.f.t else C(0, 64) for l in limbs_in]
        st.mem["V"] = {8 * i: (8, v) for i, v in enumerate(limbs_in)}
        push("from_canonical", "V", "S")

    def model(ex, s, m):
        ev = lambda form: m.eval(ex.zf(form), model_completion=True).as_long()
        d = {}
        for k in names:
            if not elements:
                d[k] = ev(value(cells[k], isz))
            elif op == "eq":
                d[k] = ev(value(cells[k], 8)) * pow(1 << (64 * n), -1, p) % p
            else:
                d[k] = ev(value([ex.load(s, Ptr("T" + k, 8 * i), 8, ("i", 64)) for i in range(n)], 8))
        return d
    EDGE = [0, 1, p - 1, p, p + 1, 2, 255, 2**32, 2**64 - 1, 2**64, 2**63, (1 << (64 * n)) - 1, (p - 1) // 2, p % 2**64, p - p % 2**64, p - (p % 2**128), p - p % 2**192]
    def decide(ex, s, label, neg):
        """neg: the obligation fails (a z3 formula, or a bool)"""
        res["obligations"] += 1
        if neg is False:
            ex.stats["normal"] = ex.stats.get("normal", 0) + 1
            return
        r = ex.check(s, *([] if neg is True else [neg]))
        if r == "unsat":
            return
        if r == "sat" and not res["violations"]:
            d = model(ex, s, ex.last_model)
            tries = [d] + [dict(d, a=e) for e in EDGE] + ([dict(d, b=d["a"]), {"a": p - 1, "b": 1}, {"a": 1, "b": 2**64}, {"a": 2**64, "b": 1}] if "b" in d else [])
            for dd in tries:
                if elements and not all(0 <= v < p for v in dd.values()):
                    continue
                if not elements and not all(0 <= v < 1 << (8 * isz * icnt) for v in dd.values()):
                    continue
                why = replay_conv(unit, lib, dd)
                if why:
                    res["violations"].append({"label": label, "values": {k: str(v) for k, v in dd.items()}, "solver": "sat", "detail": why})
                    return
        if not res["violations"]:
            res["undecided"].append("%s (%s)" % (label, r if r != "sat" else "solver model does not reproduce on the real code"))
    def done(s, ret):
        ex = s.ex
        out = [ex.load(s, Ptr("R", osz * i), osz, ("i", 8 * osz)) for i in range(ocnt)]
        T = {k: [ex.load(s, Ptr("T" + k, 8 * i), 8, ("i", 64)) for i in range(n)] for k in names} if elements and op != "eq" else {}
        def same(label, got, want):
            if not isinstance(got, Int):
                res["undecided"].append(label + " is not defined")
                return
            d = ex.known(got).f - (want.f if isinstance(want, Int) else Form(want))
            decide(ex, s, label, False if d.is_const() and d.c == 0 else (True if d.is_const() else ex.zf(d) != 0))
        Z = lambda vs: ex.zf(value(vs, 8))
        o0 = out[0]
        if op in ("to_u64", "to_u32", "to_u8", "write", "to_bool"):
            per = {"to_u64": 1, "to_u32": 2, "to_bool": 64}.get(op, 8)
            for i in range(per * n):
                t = T["a"][i // per]
                same("digit %d of the encoding" % i, out[i], t if per == 1 else ex.bits(s, t, (64 // per) * (i % per), 64 // per))
            tail = {"to_u64": [n], "to_u32": [2 * n, 0], "to_u8": [8 * n] + [0] * 7, "to_bool": [8 * n] + [0] * 7, "write": [8 * n, 1] + [0] * 6}[op]
            for g, w in zip(out[per * n:], tail):
                same("length of the encoding", g, w)
        elif op == "num_bits":
            z, t = ex.zf(ex.known(o0).f), Z(T["a"])
            ok = z3.Or([z3.And(z == v, t < (1 << v), t >= (1 << v >> 1) if v else t >= 0) for v in range(0, 64 * n + 1)])
            decide(ex, s, "bit length", z3.Not(ok))
        elif op == "cmp":
            z, x, y = ex.zf(ex.known(o0).f), Z(T["a"]), Z(T["b"])
            ok = z3.Or(z3.And(z == 0, x == y), z3.And(z == 1, x > y), z3.And(z == 2**64 - 1, x < y))
            decide(ex, s, "order", z3.Not(ok))
        elif op == "eq":
            z = ex.zf(ex.known(o0).f)
            decide(ex, s, "equality", z3.Not(z == z3.If(Z(cells["a"]) == Z(cells["b"]), 1, 0)))
        elif op in ("is_zero", "is_one"):
            z, want = ex.zf(ex.known(o0).f), (0 if op == "is_zero" else (1 << (64 * n)) % p)
            decide(ex, s, op, z3.Not(z == z3.If(Z(cells["a"]) == want, 1, 0)))
        elif op == "is_valid":
            decide(ex, s, "validity", z3.Not(ex.zf(ex.known(o0).f) == z3.If(Z(cells["a"]) < p, 1, 0)))
        elif op == "is_valid_len":
            same("validity of a string of another length", o0, 0)
        else:
            v = ex.zf(value(limbs_in, 8))
            S = [ex.load(s, Ptr("S", 8 * i), 8, ("i", 64)) for i in range(n)]
            if op in ("from_u8", "read"):
                flag = ex.known(out[n])
                decide(ex, s, "accepted exactly when below the modulus", z3.Not(ex.zf(flag.f) == z3.If(v < p, 1, 0)))
                if flag.const() == 0:
                    return
                if op == "read":
                    same("bytes left unread", out[n + 1], 8)
            for i in range(n):
                if not isinstance(out[i], Int):
                    res["undecided"].append("limb %d is not defined" % i)
                    return
                d = ex.known(out[i]).f - S[i].f
                decide(ex, s, "limb %d of the element" % i, False if d.is_const() and d.c == 0 else z3.And(v < p, ex.zf(d) != 0))
        if len(res["samples"]) < 1:
            res["samples"].append("%s: %s, on the first of its paths: unsat" % (unit, about))
    def panic(s, what):
        ex = s.ex
        if limbs_in is not None and op in ("from_u8", "read", "from_u64", "from_u32"):
            v = ex.zf(value(limbs_in, 8))
            decide(ex, s, "rejects only integers that are not below the modulus" if what == "REJECT" else "no panic on valid input", v < p)
        else:
            decide(ex, s, "no panic (%s)" % what[:60], True)
    try:
        ex.run(st, done, panic)
    except Unsupported as e:
        res["undecided"].append("cannot encode: %s" % e)
    return res, ex, t0

def path_equations(ex, s):
    """forms that are 0 on this path (from the branch decisions)"""
    from irexec import Form
    out, seen = [], set()
    todo = [(f - v) for f, v in s.trace]
    while todo:
        f = todo.pop()
        k = f.key()
        if k in seen or f.is_const():
            continue
        seen.add(k)
        out.append(f)
        if len(f.t) != 1:
            continue
        (a, c), = f.t.items()
        if f.c % c:
            continue
        v = -f.c // c
        kind, data = ex.atoms[a][:2]
        if kind == "eq" and v == 1:
            todo.append(data)
        if kind == "and" and v == 1:
            todo += [data[0] - 1, data[1] - 1]
        if kind == "or" and v == 0:
            todo += [data[0], data[1]]
    return out

def in_span(D, eqs, p):
    """D = combination of eqs modulo p (over the prime field)?  Returns the remainder {atom: coefficient}"""
    vec = lambda f: {k: v % p for k, v in list(f.t.items()) + [(-1, f.c)] if v % p}
    rows = []
    def red(d):
        for piv, r in rows:
            if piv in d:
                c = d[piv]
                for k, v in r.items():
                    x = (d.get(k, 0) - c * v) % p
                    if x:
                        d[k] = x
                    else:
                        d.pop(k, None)
        return d
    for e in eqs:
        d = red(vec(e))
        piv = [k for k in d if k != -1]
        if not piv:
            continue
        i = pow(d[piv[0]], -1, p)
        d = {k: v * i % p for k, v in d.items()}
        # keep the rows fully reduced
        for j, (q, r) in enumerate(rows):
            if piv[0] in r:
                c = r[piv[0]]
                for k, v in d.items():
                    x = (r.get(k, 0) - c * v) % p
                    if x:
                        r[k] = x
                    else:
                        r.pop(k, None)
        rows.append((piv[0], d))
    return red(vec(D))

def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for u, about in units(sys.argv[2]):
            print(u + "\t" + about)
        return
    if cmd == "replay":
        unit, lib = sys.argv[2:4]
        vals = {}
        for kv in sys.argv[4:]:
            k, v = kv.split("=")
            vals[k] = int(v)
        why = (replay_conv if unit.startswith("cv_") else replay_arith)(unit, lib, vals)
        print(why or "holds")
        sys.exit(1 if why else 0)
    unit, ll, lib, budget = sys.argv[2], sys.argv[3], sys.argv[4], float(sys.argv[5])
    res, ex, t0 = (run_conv if unit.startswith("cv_") else run_arith)(unit, ll, lib, budget)
    s = ex.stats
    res.update({"unit": unit, "engine": "llvm-ir", "about": dict(u for p in ("P01", "P03", "P10") for u in units(p)).get(unit, ""),
                "paths": s["paths"], "infeasible": s["infeasible"], "decisions": s["decisions"], "queries": s["queries"], "unsat": s["unsat"],
                "sat": s["sat"], "unknown": s["unknown"], "solver_s": round(s["solver_s"], 3), "normal_form_only": s.get("normal", 0),
                "wall_s": round(time.time() - t0, 2), "validated": 0, "truncated": False, "functions": sorted(x[1:] for x in ex.called)})
    print(json.dumps(res))

main()
