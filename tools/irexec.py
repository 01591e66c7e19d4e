"""Symbolic execution of LLVM IR over exact integer linear forms.

Every integer value of the program is a linear form  c0 + sum c_i * x_i  over integer-valued atoms, exactly
equal to the machine value.  Atoms are: input limbs; products of atoms (nonlinear terms, kept apart); floor
quotients q = floor(f / 2^k) of a form (they stand for carries, borrows, high words and Montgomery factors);
truth values of equalities.  Each atom comes with the linear facts that define it.  A branch whose condition
is not fixed by the facts and the path so far is explored both ways.  Questions about forms (does this
addition wrap? is this branch possible? does the assertion hold?) go to an SMT solver (z3, linear integer
arithmetic).
"""
import re, time, z3

class Unsupported(Exception):
    pass

class Infeasible(Exception):
    pass

# ------------------------------------------------------------------ linear forms
class Form(object):
    __slots__ = ("c", "t", "_k")
    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t or {}
        self._k = None
    def is_const(self):
        return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Form(self.c + o, self.t)
        if not o.t:
            return Form(self.c + o.c, self.t)
        t = dict(self.t)
        for a, k in o.t.items():
            v = t.get(a, 0) + k
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        return Form(self.c + o.c, t)
    def scale(self, k):
        if k == 0:
            return Form(0)
        return Form(self.c * k, {a: v * k for a, v in self.t.items()})
    def __neg__(self):
        return self.scale(-1)
    def __sub__(self, o):
        if isinstance(o, int):
            return Form(self.c - o, self.t)
        return self + o.scale(-1)
    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.t.items())))
        return self._k
    def tz(self):
        """number of trailing zero bits every value has (None: zero)"""
        g = self.c
        for v in self.t.values():
            g |= v
        if g == 0:
            return 10**6
        return (g & -g).bit_length() - 1
    def __repr__(self):
        return " + ".join(["%d" % self.c] + ["%d*x%d" % (v, a) for a, v in sorted(self.t.items())])

class Int(object):
    """machine integer: exact form, width, known range"""
    __slots__ = ("f", "w", "lo", "hi")
    def __init__(self, f, w, lo=0, hi=None):
        self.f, self.w = f, w
        if f.is_const():
            lo = hi = f.c
        m = (1 << w) - 1
        self.lo = max(0, lo)
        self.hi = m if hi is None or hi > m else hi
    def const(self):
        return self.f.c if not self.f.t else None
    def __repr__(self):
        return "i%d(%r)" % (self.w, self.f)

class Ptr(object):
    __slots__ = ("obj", "off")
    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self):
        return hash((self.obj, self.off))
    def __repr__(self):
        return "&%s+%d" % (self.obj, self.off)

NULL = Ptr("null", 0)
UNDEF = object()

def C(v, w):
    return Int(Form(v % (1 << w)), w)

# ------------------------------------------------------------------ module parser
TOK = re.compile(r'%"(?:[^"\\]|\\.)*"|@"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|%[\w.$-]+|@[\w.$-]+|"(?:[^"\\]|\\.)*"|<\{|\}>|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[{}\[\]()<>,=*]|![\w.]*|#\d+|[^\s]')

def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n

class Ty(object):
    pass

class Module(object):
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        cur = None
        for line in open(path):
            s = line.rstrip("\n")
            if cur is not None:
                if s == "}":
                    cur = None
                elif s.strip():
                    cur["body"].append(s)
                continue
            if s.startswith("%"):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[\w.$-]+) = type (.*)', s)
                if m:
                    self.types[unq(m.group(1))] = m.group(2)
            elif s.startswith("@"):
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+) = (.*)', s)
                if m:
                    self.globals[unq(m.group(1))] = m.group(2)
            elif s.startswith("define"):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\(', s)
                name = unq(m.group(1))
                args = s[m.end():]
                names = self._argnames(args)
                cur = {"name": name, "head": s, "args": names, "body": []}
                self.funcs[name] = cur
            elif s.startswith("declare"):
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\(', s)
                if m:
                    self.decls.add(unq(m.group(1)))
        self._parsed = {}

    def _argnames(self, s):
        depth, i, out, cur = 1, 0, [], []
        toks = TOK.findall(s)
        for t in toks:
            if t in "([{" or t == "<{":
                depth += 1
            elif t in ")]}" or t == "}>":
                depth -= 1
                if depth == 0:
                    break
            if t == "," and depth == 1:
                out.append(cur); cur = []
            else:
                cur.append(t)
        if cur:
            out.append(cur)
        return [unq(a[-1]) for a in out if a and a[-1].startswith("%")]

    # ---- types: returned as tuples ("i",w) ("ptr",) ("arr",n,t) ("st",[..],packed) ("void",)
    def ptype(self, toks, i):
        t = toks[i]
        if re.match(r'i\d+$', t):
            return ("i", int(t[1:])), i + 1
        if t == "ptr":
            return ("ptr",), i + 1
        if t == "void":
            return ("void",), i + 1
        if t in ("float", "double", "half", "metadata", "label", "token"):
            return (t,), i + 1
        if t == "[":
            n = int(toks[i + 1])
            e, j = self.ptype(toks, i + 3)
            return ("arr", n, e), j + 1
        if t == "<{" or t == "{":
            close = "}>" if t == "<{" else "}"
            j, es = i + 1, []
            while toks[j] != close:
                if toks[j] == ",":
                    j += 1
                    continue
                e, j = self.ptype(toks, j)
                es.append(e)
            return ("st", es, t == "<{"), j + 1
        if t.startswith("%"):
            return self.ptype(TOK.findall(self.types[unq(t)]), 0)[0], i + 1
        if t == "<":
            raise Unsupported("vector type")
        raise Unsupported("type " + t)

    def size(self, t):
        k = t[0]
        if k == "i":
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return p if t[1] <= 64 else 16
        if k == "ptr":
            return 8
        if k == "arr":
            return t[1] * self.size(t[2])
        if k == "st":
            off = 0
            for e in t[1]:
                if not t[2]:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            if not t[2] and t[1]:
                a = max(self.align(e) for e in t[1])
                off = (off + a - 1) // a * a
            return off
        raise Unsupported("size of %r" % (t,))

    def align(self, t):
        k = t[0]
        if k == "i":
            return min(8, self.size(t))
        if k == "ptr":
            return 8
        if k == "arr":
            return self.align(t[2])
        if k == "st":
            return 1 if t[2] or not t[1] else max(self.align(e) for e in t[1])
        raise Unsupported("align")

    def field_off(self, t, i):
        off = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.size(e)
        raise Unsupported("field index")

    def func(self, name):
        if name in self._parsed:
            return self._parsed[name]
        f = self.funcs[name]
        blocks, order, cur = {}, [], None
        lines, buf = [], None
        for l in f["body"]:
            # join multi-line switch
            if buf is not None:
                buf += " " + l.strip()
                if l.strip().startswith("]"):
                    lines.append(buf); buf = None
                continue
            if re.match(r'\s+switch ', l) and not l.rstrip().endswith("]"):
                buf = l
                continue
            lines.append(l)
        for l in lines:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):', l)
            if m:
                n = m.group(1)
                n = n[1:-1] if n[0] == '"' else n
                cur = []
                blocks["%" + n] = cur
                order.append("%" + n)
                continue
            if cur is None:
                cur = []
                blocks["%entry"] = cur
                order.append("%entry")
            s = l.strip()
            s = re.split(r', ![\w.]+ !', s)[0] if ", !" in s else s
            cur.append(TOK.findall(s))
        r = {"name": name, "args": f["args"], "blocks": blocks, "entry": order[0]}
        self._parsed[name] = r
        return r

# ------------------------------------------------------------------ executor
ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "immarg", "returned", "inreg", "captures", "nofree", "dead_on_unwind", "writable", "noext"}
PATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range"}

class State(object):
    def clone(self):
        s = State()
        s.stack = [dict(fr, env=dict(fr["env"])) for fr in self.stack]
        s.mem = {o: dict(c) for o, c in self.mem.items()}
        s.path = list(self.path)
        s.lpath = list(self.lpath)
        s.nobj = self.nobj
        s.steps = self.steps
        s.trace = list(self.trace)
        s.consts = dict(self.consts)
        s.ex = self.ex
        s.tried = set()
        return s

class Exec(object):
    def __init__(self, mod, timeout_ms=10000, deadline=None):
        self.mod = mod
        self.atoms = []          # (kind, data, lo, hi)
        self.zv = []
        self.facts = []          # z3 facts (definitional, global)
        self.qkey, self.pkey, self.ekey, self.lkey = {}, {}, {}, {}
        self.solver = z3.SolverFor("QF_LIA")
        self.timeout = timeout_ms
        self.stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "paths": 0, "decisions": 0, "infeasible": 0}
        self.summaries = []      # (regex, fn(exec, state, args, toks) -> value)
        self.deadline = deadline
        self.called = set()
        self.models = []
        self.max_paths = 4000
        self.unproved_panics = []
        self.lvars = {}          # form key -> z3 variable standing for the whole form
        self.lfacts = []         # (variable names, fact): facts about machine values, not expanded into atoms
        self.lindex = {}
        self.lseen = set()
        self.sub = {}            # forms the path has shown equal to a constant
        self.cmp_mode = True
        self.quots = []          # (quotient form, its local term, range): quotients a path may still determine

    def fork(self):
        """a copy for another path: facts and ranges found on one path must not reach the other"""
        e = Exec.__new__(Exec)
        e.__dict__.update(self.__dict__)
        e.atoms = [list(a) for a in self.atoms]
        for k in ("zv", "facts", "lfacts", "quots"):
            setattr(e, k, list(getattr(self, k)))
        for k in ("qkey", "pkey", "ekey", "lkey", "lvars"):
            setattr(e, k, dict(getattr(self, k)))
        e.lindex = {k: list(v) for k, v in self.lindex.items()}
        e.lseen = set(self.lseen)
        e.sub = dict(self.sub)
        e.solver = z3.SolverFor("QF_LIA")
        e.solver.add(self.facts)
        return e
    # -------- atoms
    def atom(self, kind, data, lo, hi):
        i = len(self.atoms)
        self.atoms.append([kind, data, lo, hi])
        v = z3.Int("x%d" % i)
        self.zv.append(v)
        self.fact(v >= lo)
        self.fact(v <= hi)
        return i
    def fact(self, f):
        self.facts.append(f)
        self.solver.add(f)
    def zf(self, f):
        if not f.t:
            return z3.IntVal(f.c)
        return z3.Sum([z3.IntVal(v) * self.zv[a] if v != 1 else self.zv[a] for a, v in f.t.items()] + [z3.IntVal(f.c)])
    def var(self, name, w=64, hi=None):
        hi = (1 << w) - 1 if hi is None else hi
        a = self.atom("var", name, 0, hi)
        return Int(Form(0, {a: 1}), w, 0, hi)
    def interval(self, f):
        lo = hi = f.c
        for a, v in f.t.items():
            l, h = self.atoms[a][2], self.atoms[a][3]
            if v > 0:
                lo += v * l; hi += v * h
            else:
                lo += v * h; hi += v * l
        return lo, hi

    # -------- local facts: relations between neighbouring machine values, without their expansion
    def lx(self, f, lo=None, hi=None):
        """z3 term for a form: the form itself if it is short, else a variable that stands for it"""
        if len(f.t) <= 3:
            z = self.zf(f)
            if lo is not None and len(f.t) > 1:
                self.lfact(z3.And(z >= lo, z <= hi))
            return z
        k = (0, f.key()[1])
        if k not in self.lvars:
            self.lvars[k] = z3.Int("f%d" % len(self.lvars))
        v = self.lvars[k]
        if lo is not None:
            self.lfact(z3.And(v + f.c >= lo, v + f.c <= hi))
        return v + f.c if f.c else v
    def lxi(self, x):
        return self.lx(x.f, x.lo, x.hi)
    def lnames(self, e, out=None):
        out = set()
        todo, seen = [e], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
        return out
    def lfact(self, e):
        i = e.get_id()
        if i in self.lseen:
            return
        self.lseen.add(i)
        ns = self.lnames(e)
        k = len(self.lfacts)
        self.lfacts.append((ns, e))
        for n in ns:
            self.lindex.setdefault(n, []).append(k)
    def prove_local(self, st, claim, depth=4, limit=120, ms=1500):
        """claim follows from the facts about machine values near it (sound: a subset of all facts)"""
        names = self.lnames(claim)
        used, front = {}, set(names)
        pl = [(self.lnames(p), p) for p in st.lpath]
        for _ in range(depth):
            nxt = set()
            for n in front:
                for k in self.lindex.get(n, ()):
                    if k not in used and len(used) < limit:
                        used[k] = self.lfacts[k][1]
                        nxt |= self.lfacts[k][0]
            front = nxt - names
            names |= nxt
            if not front:
                break
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", ms)
        for e in used.values():
            s.add(e)
        for n in names:
            if n[0] == "x":
                a = self.atoms[int(n[1:])]
                s.add(self.zv[int(n[1:])] >= a[2], self.zv[int(n[1:])] <= a[3])
        for ns, p in pl:
            if ns <= names:
                s.add(p)
        s.add(z3.Not(claim))
        t = time.time()
        r = str(s.check())
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats["local_" + r] = self.stats.get("local_" + r, 0) + 1
        if r == "unsat":
            self.stats["unsat"] += 1
        else:
            self.stats["localonly"] = self.stats.get("localonly", 0) + 1
        return r == "unsat"

    # -------- queries
    def check(self, st, *extra, **kw):
        """sat / unsat / unknown of facts + path + extra"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget used up")
        self.solver.push()
        self.solver.set("timeout", int(kw.get("ms", self.timeout)))
        for p in st.path:
            self.solver.add(p)
        for e in extra:
            self.solver.add(e)
        t = time.time()
        r = self.solver.check()
        dt = time.time() - t
        self.stats["solver_s"] += dt
        self.stats["queries"] += 1
        r = str(r)
        self.stats[r] += 1
        self.last_model = self.solver.model() if r == "sat" else None
        self.solver.pop()
        return r
    def prove(self, st, claim, ms=2000):
        return self.check(st, z3.Not(claim), ms=ms) == "unsat"

    # -------- floor quotient of a form by 2^k
    def floor(self, st, f, k, lo=None, hi=None, exact_small=True, local=None):
        """Form equal to floor(f / 2^k); (lo, hi) is a known range of f"""
        il, ih = self.interval(f)
        lo = il if lo is None else max(lo, il)
        hi = ih if hi is None else min(hi, ih)
        ql, qh = lo >> k, hi >> k
        if ql == qh:
            return Form(ql)
        M = 1 << k
        g, h, gt, ht = 0, 0, {}, {}
        def sp(v):
            r = v % M
            if r > M // 2:
                r -= M
            return (v - r) // M, r
        g, h = sp(f.c)
        # constants are kept non-symmetric inside h only through sp, so congruent forms share atoms
        for a, v in f.t.items():
            q, r = sp(v)
            if q:
                gt[a] = q
            if r:
                ht[a] = r
        G, H = Form(g, gt), Form(h, ht)
        if not ht:
            # floor of a constant < 2^(k-1) in size
            return G + Form(h >> k)
        # divide out common powers of two of the variable part
        z = min((v & -v).bit_length() - 1 for v in ht.values())
        kk = k
        if z:
            H = Form(h >> z, {a: v >> z for a, v in ht.items()})
            kk = k - z
        key = (H.key(), kk)
        ck = (key, G.key())
        if ck in st.consts:
            return Form(st.consts[ck])
        if key in self.qkey:
            at = self.qkey[key]
            tot = G + Form(0, {at: 1})
            return self.settle(st, ck, tot, ql, qh, exact_small, local, k)
        # try to see Q as constant
        hl, hh = self.interval(H)
        if not gt:
            # the total range carries over
            a, b = (ql - g), (qh - g)
        else:
            a, b = -(1 << 4096), 1 << 4096
        a, b = max(a, hl >> kk), min(b, hh >> kk)
        if a == b:
            return G + Form(a)
        at = self.atom("fl", (H, kk), a, b)
        x = self.zv[at]
        hz = self.zf(H)
        self.fact(z3.And(hz - z3.IntVal(1 << kk) * x >= 0, hz - z3.IntVal(1 << kk) * x <= (1 << kk) - 1))
        self.qkey[key] = at
        tot = G + Form(0, {at: 1})
        if gt:
            tz = self.zf(tot)
            self.fact(z3.And(tz >= ql, tz <= qh))
        return self.settle(st, ck, tot, ql, qh, exact_small, local, k)
    def settle(self, st, ck, tot, ql, qh, exact_small, local, k):
        """a quotient with few possible values may be a constant on this path"""
        if local is not None:
            T = self.lx(tot, ql, qh)
            self.lfact(z3.And(local - z3.IntVal(1 << k) * T >= 0, local - z3.IntVal(1 << k) * T <= (1 << k) - 1))
        if exact_small and qh - ql <= 2 and ck not in st.tried:
            st.tried.add(ck)
            if local is not None:
                for v in range(ql, qh + 1):
                    if self.prove_local(st, T == v):
                        st.consts[ck] = v
                        return Form(v)
            for v in range(ql, qh + 1):
                if self.prove(st, self.zf(tot) == v):
                    st.consts[ck] = v
                    return Form(v)
        if local is not None and qh - ql <= 2 and not tot.is_const():
            self.quots.append((tot, T, ql, qh))
        return tot

    def wrap(self, st, f, w, lo=None, hi=None, exact_small=True, local=None):
        """machine integer  f mod 2^w"""
        il, ih = self.interval(f)
        lo = il if lo is None else max(lo, il)
        hi = ih if hi is None else min(hi, ih)
        if lo >= 0 and hi < (1 << w):
            r = Int(f, w, lo, hi)
            if local is not None and len(f.t) > 3:
                self.lfact(self.lxi(r) == local)
            return r, Form(0)
        Q = self.floor(st, f, w, lo, hi, exact_small, local)
        r = f - Q.scale(1 << w)
        if Q.is_const():
            r = Int(r, w, lo - (Q.c << w), hi - (Q.c << w))
        else:
            # all variable coefficients share 2^z: the low z bits are those of the constant
            z = min([w] + [(v & -v).bit_length() - 1 for v in f.t.values()])
            r = Int(r, w, f.c % (1 << z), (1 << w) - (1 << z) + f.c % (1 << z)) if z else Int(r, w)
        if local is not None:
            self.lfact(self.lxi(r) == local - z3.IntVal(1 << w) * self.lx(Q))
        return r, Q

    def product(self, f, g):
        out = Form(f.c * g.c)
        t = dict()
        for a, v in f.t.items():
            if g.c:
                t[a] = t.get(a, 0) + v * g.c
        for b, v in g.t.items():
            if f.c:
                t[b] = t.get(b, 0) + v * f.c
        for a, v in f.t.items():
            for b, u in g.t.items():
                p = self.patom(a, b)
                t[p] = t.get(p, 0) + v * u
        return Form(out.c, {k: v for k, v in t.items() if v})
    def leaves(self, a):
        k = self.atoms[a]
        return k[1] if k[0] == "prod" else (a,)
    def patom(self, a, b):
        key = tuple(sorted(self.leaves(a) + self.leaves(b)))
        if key not in self.pkey:
            cs = [1]
            (l1, h1), (l2, h2) = self.atoms[a][2:4], self.atoms[b][2:4]
            ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            self.pkey[key] = self.atom("prod", key, min(ps), max(ps))
        return self.pkey[key]

    # -------- truth values (forms in {0,1})
    def ult(self, st, x, y):
        """1 iff x < y (unsigned)"""
        if x.hi < y.lo:
            return Form(1)
        if x.lo >= y.hi:
            return Form(0)
        f = x.f - y.f
        q = self.floor(st, f, max(x.w, 1), x.lo - y.hi, x.hi - y.lo, False, self.lxi(x) - self.lxi(y))
        return -q
    def eq(self, st, x, y):
        f = x.f - y.f
        if f.is_const():
            return Form(1 if f.c == 0 else 0)
        if x.hi < y.lo or y.hi < x.lo:
            return Form(0)
        il, ih = self.interval(f)
        if il > 0 or ih < 0:
            return Form(0)
        if x.w == 1:
            # f in {-1,0,1}
            if y.f.is_const():
                return x.f if y.f.c == 1 else Form(1) - x.f
            if x.f.is_const():
                return y.f if x.f.c == 1 else Form(1) - y.f
        k = f.key()
        k2 = (-f).key()
        k = min(k, k2)
        if k not in self.ekey:
            e = self.atom("eq", f, 0, 1)
            z = self.zf(f)
            self.fact(z3.If(z == 0, self.zv[e] == 1, self.zv[e] == 0))
            self.lfact(z3.If(self.lxi(x) - self.lxi(y) == 0, self.zv[e] == 1, self.zv[e] == 0))
            self.ekey[k] = e
        return Form(0, {self.ekey[k]: 1})
    def lor(self, st, p, q):
        if p.is_const():
            return Form(1) if p.c else q
        if q.is_const():
            return Form(1) if q.c else p
        if p.key() == q.key():
            return p
        s = p + q
        key = ("or",) + tuple(sorted((p.key(), q.key())))
        if key in self.lkey:
            return self.lkey[key]
        if self.prove_local(st, self.lx(s) <= 1) or self.prove(st, self.zf(s) <= 1):
            return s
        o = self.atom("or", (p, q), 0, 1)
        zp, zq, zo = self.zf(p), self.zf(q), self.zv[o]
        self.fact(z3.And(zo >= zp, zo >= zq, zo <= zp + zq))
        zp, zq = self.lx(p, 0, 1), self.lx(q, 0, 1)
        self.lfact(z3.And(zo >= zp, zo >= zq, zo <= zp + zq))
        r = Form(0, {o: 1})
        self.lkey[key] = r
        return r
    def lnot(self, p):
        return Form(1) - p
    def land(self, st, p, q):
        if p.is_const():
            return q if p.c else Form(0)
        if q.is_const():
            return p if q.c else Form(0)
        if p.key() == q.key():
            return p
        key = ("and",) + tuple(sorted((p.key(), q.key())))
        if key in self.lkey:
            return self.lkey[key]
        o = self.atom("and", (p, q), 0, 1)
        zp, zq, zo = self.zf(p), self.zf(q), self.zv[o]
        self.fact(z3.And(zo <= zp, zo <= zq, zo >= zp + zq - 1))
        zp, zq = self.lx(p, 0, 1), self.lx(q, 0, 1)
        self.lfact(z3.And(zo <= zp, zo <= zq, zo >= zp + zq - 1))
        self.lkey[key] = Form(0, {o: 1})
        return self.lkey[key]

    # -------- memory
    def new_obj(self, st, tag):
        st.nobj += 1
        n = "%s#%d" % (tag, st.nobj)
        st.mem[n] = {}
        return Ptr(n, 0)
    def store(self, st, p, v, size):
        if not isinstance(p, Ptr) or p.obj not in st.mem:
            raise Unsupported("store through %r" % (p,))
        m = st.mem[p.obj]
        # cut overlapping cells
        for o in list(m):
            s = m[o][0]
            if o < p.off + size and o + s > p.off and not (o == p.off and s == size):
                val = m.pop(o)
                self.split_back(st, m, o, val, p.off, p.off + size)
        m[p.off] = (size, v)
    def split_back(self, st, m, o, cell, a, b):
        s, v = cell
        if v is UNDEF:
            return
        if not isinstance(v, Int):
            raise Unsupported("partial overwrite of a pointer")
        for i in range(s):
            if not (a <= o + i < b):
                m[o + i] = (1, self.bits(st, v, 8 * i, 8))
    def bits(self, st, v, sh, n):
        """bits [sh, sh+n) of v as an n-bit integer"""
        c = v.const()
        if c is not None:
            return C((c >> sh) & ((1 << n) - 1), n)
        lo = self.floor(st, v.f, sh, v.lo, v.hi, False) if sh else v.f
        l, h = v.lo >> sh, v.hi >> sh
        if h < (1 << n):
            return Int(lo, n, l, h)
        hi = self.floor(st, v.f, sh + n, v.lo, v.hi, False)
        return Int(lo - hi.scale(1 << n), n)
    def load(self, st, p, size, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.obj.startswith("@"):
            return self.load_global(st, p, size, ty)
        if p.obj not in st.mem:
            raise Unsupported("load through %r" % (p,))
        m = st.mem[p.obj]
        c = m.get(p.off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Int) and ty[0] == "i" and v.w != ty[1]:
                v = Int(v.f, ty[1], v.lo, v.hi)
            return v
        if ty[0] != "i":
            return UNDEF if c is None else self.bad("load of a split pointer")
        # compose from bytes
        f, i, lo, hi = Form(0), 0, 0, 0
        while i < size:
            o = p.off + i
            c = m.get(o)
            if c is not None and c[0] <= size - i:
                s, v = c
                off = 0
            else:
                hit = None
                for oo, cc in m.items():
                    if oo <= o < oo + cc[0]:
                        hit = (oo, cc)
                        break
                if hit is None:
                    return UNDEF
                oo, (s0, v) = hit
                off = o - oo
                s = min(s0 - off, size - i)
                if v is UNDEF:
                    return UNDEF
                if not isinstance(v, Int):
                    raise Unsupported("partial load of a pointer")
                v = self.bits(st, v, 8 * off, 8 * s)
            if v is UNDEF:
                return UNDEF
            if not isinstance(v, Int):
                raise Unsupported("integer load of a pointer")
            f = f + v.f.scale(1 << (8 * i))
            lo += v.lo << (8 * i)
            hi += v.hi << (8 * i)
            i += s
        return Int(f, 8 * size if ty[1] % 8 == 0 else ty[1], lo, hi)
    def bad(self, m):
        raise Unsupported(m)
    def global_bytes(self, name):
        """list of bytes or (ptr) cells of a constant"""
        if not hasattr(self, "_gb"):
            self._gb = {}
        if name in self._gb:
            return self._gb[name]
        d = self.mod.globals[name]
        m = re.search(r'\bconstant\s+(.*)$', d)
        if not m:
            raise Unsupported("global " + name)
        toks = TOK.findall(m.group(1))
        ty, i = self.mod.ptype(toks, 0)
        cells = {}
        self.init_const(cells, 0, ty, toks, i)
        self._gb[name] = cells
        return cells
    def init_const(self, cells, off, ty, toks, i):
        t = toks[i]
        if t in ("zeroinitializer", "undef", "poison"):
            for k in range(self.mod.size(ty)):
                cells[off + k] = (1, C(0, 8))
            return i + 1
        if ty[0] == "i":
            n = self.mod.size(ty)
            v = {"true": 1, "false": 0}.get(t)
            v = int(t) if v is None else v
            for k in range(n):
                cells[off + k] = (1, C((v >> (8 * k)) & 255, 8))
            return i + 1
        if ty[0] == "ptr":
            v, j = self.pval(None, toks, i, ty)
            cells[off] = (8, v)
            return j
        if ty[0] == "arr" and t.startswith('c"'):
            s, k, j = t[2:-1], 0, 0
            while j < len(s):
                if s[j] == "\\":
                    if s[j + 1] == "\\":
                        b = 92; j += 2
                    else:
                        b = int(s[j + 1:j + 3], 16); j += 3
                else:
                    b = ord(s[j]); j += 1
                cells[off + k] = (1, C(b, 8))
                k += 1
            return i + 1
        if ty[0] in ("arr", "st"):
            i += 1
            for k in range(ty[1] if ty[0] == "arr" else len(ty[1])):
                if toks[i] == ",":
                    i += 1
                ety, i = self.mod.ptype(toks, i)
                o = k * self.mod.size(ety) if ty[0] == "arr" else self.mod.field_off(ty, k)[0]
                i = self.init_const(cells, off + o, ety, toks, i)
            return i + 1
        raise Unsupported("constant")
    def load_global(self, st, p, size, ty):
        cells = self.global_bytes(p.obj)
        if ty[0] == "ptr":
            c = cells.get(p.off)
            if c and c[0] == 8:
                return c[1]
            z = [cells.get(p.off + i) for i in range(8)]
            if all(x and x[1].const() == 0 for x in z):
                return NULL
            raise Unsupported("pointer constant")
        v = 0
        for i in range(size):
            c = cells.get(p.off + i)
            if c is None or c[0] != 1:
                raise Unsupported("constant bytes")
            v |= c[1].const() << (8 * i)
        return C(v, ty[1])
    def copy(self, st, d, s, n):
        if n == 0:
            return
        if s.obj.startswith("@"):
            cells = self.global_bytes(s.obj)
            src = {o - s.off: c for o, c in cells.items() if s.off <= o < s.off + n}
            # group constant bytes into words
            out, i = {}, 0
            while i < n:
                if all(i + k in src and src[i + k][0] == 1 for k in range(8)) and i + 8 <= n:
                    out[i] = (8, C(sum(src[i + k][1].const() << (8 * k) for k in range(8)), 64))
                    i += 8
                else:
                    out[i] = src[i]
                    i += src[i][0]
            src = out
        else:
            m = st.mem[s.obj]
            src = {}
            for o, (sz, v) in m.items():
                if o >= s.off and o + sz <= s.off + n:
                    src[o - s.off] = (sz, v)
                elif o < s.off + n and o + sz > s.off:
                    if v is UNDEF:
                        continue
                    if not isinstance(v, Int):
                        raise Unsupported("partial copy of a pointer")
                    for k in range(sz):
                        if s.off <= o + k < s.off + n:
                            src[o + k - s.off] = (1, self.bits(st, v, 8 * k, 8))
        m = st.mem[d.obj]
        for o in list(m):
            sz = m[o][0]
            if o < d.off + n and o + sz > d.off:
                val = m.pop(o)
                if not (o >= d.off and o + sz <= d.off + n):
                    self.split_back(st, m, o, val, d.off, d.off + n)
        for o, c in src.items():
            m[d.off + o] = c

    # -------- operands
    def pval(self, fr, toks, i, ty):
        t = toks[i]
        if t[0] == "%":
            n = unq(t)
            if n not in fr["env"]:
                raise Unsupported("undefined value " + n)
            v = fr["env"][n]
            return (self.known(v) if isinstance(v, Int) else v), i + 1
        if ty[0] == "i":
            if t == "true":
                return C(1, 1), i + 1
            if t == "false":
                return C(0, 1), i + 1
            if t in ("undef", "poison"):
                return UNDEF, i + 1
            if t == "ptrtoint":
                raise Unsupported("ptrtoint constant")
            if t == "zeroinitializer":
                return C(0, ty[1]), i + 1
            return C(int(t), ty[1]), i + 1
        if ty[0] == "ptr":
            if t == "null" or t == "zeroinitializer":
                return NULL, i + 1
            if t in ("undef", "poison"):
                return UNDEF, i + 1
            if t[0] == "@":
                return Ptr(unq(t), 0), i + 1
            if t == "getelementptr":
                j = i + 1
                while toks[j] != "(":
                    j += 1
                p, j = self.gep(fr, toks, j + 1)
                return p, j + 1
            if t == "inttoptr":
                # inttoptr (i64 8 to ptr)
                v = int(toks[i + 3])
                return Ptr("int", v), i + 7
            raise Unsupported("pointer constant " + t)
        if t in ("undef", "poison"):
            return self.undef(ty), i + 1
        if t == "zeroinitializer":
            return self.zero(ty), i + 1
        if t in ("{", "[", "<{"):
            out, j = [], i + 1
            while toks[j] not in ("}", "]", "}>"):
                if toks[j] == ",":
                    j += 1
                    continue
                e, j = self.mod.ptype(toks, j)
                v, j = self.pval(fr, toks, j, e)
                out.append(v)
            return tuple(out), j + 1
        raise Unsupported("operand " + t)
    def undef(self, ty):
        if ty[0] == "st":
            return tuple(self.undef(e) for e in ty[1])
        if ty[0] == "arr":
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        return UNDEF
    def zero(self, ty):
        if ty[0] == "st":
            return tuple(self.zero(e) for e in ty[1])
        if ty[0] == "arr":
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        return NULL if ty[0] == "ptr" else C(0, ty[1])
    def tv(self, fr, toks, i):
        """type and value"""
        ty, i = self.mod.ptype(toks, i)
        i = self.attrs(toks, i)
        v, i = self.pval(fr, toks, i, ty)
        return ty, v, i
    def attrs(self, toks, i):
        while i < len(toks) and (toks[i] in ATTRS or toks[i] in PATTRS):
            if toks[i] in PATTRS:
                i += 1
                if toks[i] == "(":
                    d = 0
                    while True:
                        if toks[i] == "(":
                            d += 1
                        if toks[i] == ")":
                            d -= 1
                            if d == 0:
                                break
                        i += 1
                i += 1
            else:
                i += 1
        return i
    def gep(self, fr, toks, i):
        ty, i = self.mod.ptype(toks, i)
        _, p, i = self.tv(fr, toks, i + 1)
        if not isinstance(p, Ptr):
            raise Unsupported("gep on %r" % (p,))
        off, first = p.off, True
        while i < len(toks) and toks[i] == ",":
            if toks[i + 1].startswith("!"):
                break
            ity, v, i = self.tv(fr, toks, i + 1)
            c = v.const() if isinstance(v, Int) else None
            if c is None:
                raise Unsupported("symbolic address")
            if c >= 1 << (ity[1] - 1):
                c -= 1 << ity[1]
            if first:
                off += c * self.mod.size(ty)
                first = False
            elif ty[0] == "arr":
                off += c * self.mod.size(ty[2])
                ty = ty[2]
            else:
                o, ty = self.mod.field_off(ty, c)
                off += o
        return Ptr(p.obj, off), i

    # -------- running
    def start(self, fname, args):
        st = State()
        f = self.mod.func(fname)
        st.stack, st.mem, st.path, st.nobj, st.steps, st.trace = [], {}, [], 0, 0, []
        st.consts, st.tried, st.lpath = {}, set(), []
        st.stack.append({"f": f, "bb": f["entry"], "prev": None, "i": 0, "env": dict(zip(f["args"], args)), "dst": None})
        self.called.add(fname)
        return st
    def run(self, st, on_done, on_panic):
        st.ex = self
        """explores every path; on_done(st, ret), on_panic(st, what)"""
        work = [st]
        while work:
            s = work.pop()
            try:
                while True:
                    r = s.ex.step(s)
                    if r is None:
                        continue
                    if r[0] == "ret":
                        self.stats["paths"] += 1
                        on_done(s, r[1])
                        break
                    if r[0] == "panic":
                        self.stats["paths"] += 1
                        on_panic(s, r[1])
                        break
                    if r[0] == "fork":
                        work += r[1]
                        if self.stats["paths"] + len(work) > self.max_paths:
                            raise Unsupported("more than %d paths" % self.max_paths)
                        break
            except Infeasible:
                self.stats["infeasible"] += 1
    def assume(self, st, cond, v):
        st.path.append(self.zf(cond) == v)
        st.lpath.append(self.lx(cond, 0, 1) == v)
        st.trace.append((cond, v))
        todo = [cond - v]
        while todo:
            f = todo.pop()
            if len(f.t) != 1:
                continue
            (a, c), = f.t.items()
            if f.c % c:
                continue
            b = -f.c // c
            kind, data = self.atoms[a][:2]
            self.sub[Form(0, {a: 1}).key()] = b
            if kind == "eq" and b == 1:
                # x = y; a constant side replaces the other
                k = data.c
                for sg in (1, -1):
                    g = Form(0, {x: sg * y for x, y in data.t.items()})
                    # sg*data = 0  =>  g = -sg*k
                    self.sub[g.key()] = -sg * k
            if kind == "and" and b == 1:
                todo += [data[0] - 1, data[1] - 1]
            if kind == "or" and b == 0:
                todo += [data[0], data[1]]
    def known(self, v):
        if not self.sub or not v.f.t:
            return v
        k = self.sub.get((0, v.f.key()[1]))
        if k is None:
            return v
        k += v.f.c
        return C(k, v.w) if 0 <= k < (1 << v.w) else v
    def impossible(self, st, cond, v):
        """cond = v cannot be (unproved counts as possible)"""
        return self.prove_local(st, self.lx(cond, 0, 1) == 1 - v, ms=500) or self.check(st, self.zf(cond) == v, ms=400) == "unsat"
    def branch(self, st, cond, alts):
        """cond: Form in {0,1}; alts: functions applied to the state for 1 / 0.  Returns None or ("fork", states)"""
        if cond is UNDEF:
            raise Unsupported("branch on an undefined value")
        if cond.is_const():
            alts[0 if cond.c else 1](st)
            return None
        self.stats["decisions"] += 1
        for f, v in st.trace:
            if f.key() == cond.key():
                alts[0 if v else 1](st)
                return None
        for v in (1, 0):
            if self.impossible(st, cond, v):
                self.assume(st, cond, 1 - v)
                alts[v](st)
                return None
        s2 = st.clone()
        # the continuations evaluate phis with what both paths know
        alts[0](st)
        alts[1](s2)
        s2.ex = self.fork()
        self.assume(st, cond, 1)
        s2.ex.assume(s2, cond, 0)
        return ("fork", [s2, st])
    def goto(self, st, bb):
        fr = st.stack[-1]
        fr["prev"], fr["bb"], fr["i"] = fr["bb"], bb, 0
        # phis are evaluated together
        blk = fr["f"]["blocks"][bb]
        new = {}
        i = 0
        while i < len(blk) and len(blk[i]) > 2 and blk[i][2] == "phi":
            t = blk[i]
            ty, j = self.mod.ptype(t, 3)
            done = False
            while j < len(t):
                # [ val, %bb ]
                if t[j] == ",":
                    j += 1
                    continue
                if t[j] != "[":
                    break
                # find end and label
                d, e = 0, j
                while True:
                    if t[e] == "[":
                        d += 1
                    if t[e] == "]":
                        d -= 1
                        if d == 0:
                            break
                    e += 1
                if unq(t[e - 1]) == fr["prev"]:
                    v, _ = self.pval(fr, t, j + 1, ty)
                    new[unq(t[0])] = v
                    done = True
                    break
                j = e + 1
            if not done:
                raise Unsupported("phi without the incoming edge")
            i += 1
        fr["env"].update(new)
        fr["i"] = i

    def step(self, st):
        fr = st.stack[-1]
        st.steps += 1
        if st.steps > 400000:
            raise Unsupported("too many steps")
        t = fr["f"]["blocks"][fr["bb"]][fr["i"]]
        fr["i"] += 1
        dst = None
        i = 0
        if len(t) > 1 and t[1] == "=":
            dst, i = unq(t[0]), 2
        op = t[i]
        i += 1
        if op in ("tail", "musttail", "notail"):
            op = t[i]
            i += 1
        env = fr["env"]
        if op == "br":
            if t[i] == "label":
                self.goto(st, unq(t[i + 1]))
                return None
            c, i = self.pval(fr, t, i + 1, ("i", 1))
            a, b = unq(t[i + 2]), unq(t[i + 5])
            return self.branch(st, c.f if c is not UNDEF else UNDEF, [lambda s: self.goto(s, a), lambda s: self.goto(s, b)])
        if op == "ret":
            v = None
            if t[i] != "void":
                _, v, _ = self.tv(fr, t, i)
            if len(st.stack) == 1:
                return ("ret", v)
            st.stack.pop()
            up = st.stack[-1]
            if fr["dst"]:
                up["env"][fr["dst"]] = v
            if fr.get("normal"):
                self.goto(st, fr["normal"])
            return None
        if op == "unreachable":
            return ("panic", "unreachable code reached")
        if op == "switch":
            ty, v, i = self.tv(fr, t, i)
            if v is UNDEF:
                raise Unsupported("switch on an undefined value")
            default = unq(t[i + 2])
            cases = []
            i += 4
            while t[i] != "]":
                ety, i = self.mod.ptype(t, i)
                k = {"true": 1, "false": 0}.get(t[i])
                k = int(t[i]) if k is None else k
                cases.append((k % (1 << ety[1]), unq(t[i + 3])))
                i += 4
            if v.const() is not None:
                d = dict(cases)
                self.goto(st, d.get(v.const(), default))
                return None
            return self.switch(st, v, cases, default)
        if op in ("call", "invoke"):
            return self.call(st, fr, t, i, dst, op)
        v = self.compute(st, fr, op, t, i)
        if isinstance(v, tuple) and v and v[0] == "__fork":
            return self.branch(st, v[1], [lambda s, x=v[2]: s.stack[-1]["env"].__setitem__(dst, x), lambda s, x=v[3]: s.stack[-1]["env"].__setitem__(dst, x)])
        if dst:
            env[dst] = v
        return None
    def switch(self, st, v, cases, default):
        out = []
        cur = st
        for k, bb in cases:
            e = self.eq(cur, v, C(k, v.w))
            if e.is_const():
                if e.c:
                    self.goto(cur, bb)
                    out.append(cur)
                    return ("fork", out)
                continue
            if not self.impossible(cur, e, 1):
                s2 = cur.clone()
                s2.ex = self.fork()
                s2.ex.assume(s2, e, 1)
                self.goto(s2, bb)
                out.append(s2)
            self.assume(cur, e, 0)
        if self.check(cur, ms=700) != "unsat":
            self.goto(cur, default)
            out.append(cur)
        return ("fork", out)

    def num(self, v):
        if v is UNDEF:
            return None
        if not isinstance(v, Int):
            raise Unsupported("arithmetic on %r" % (v,))
        return v
    def compute(self, st, fr, op, t, i):
        if op == "or" and t[i] == "disjoint":
            op = "add"
        while t[i] in ("nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "volatile", "nusw", "samesign"):
            i += 1
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            ty, x, i = self.tv(fr, t, i)
            y, i = self.pval(fr, t, i + 1, ty)
            if x is UNDEF or y is UNDEF:
                if op == "sub" and isinstance(x, Ptr):
                    raise Unsupported("pointer arithmetic")
                return UNDEF
            if ("P2I",) == getattr(x, "tag", None):
                pass
            return self.arith(st, op, x, y, ty[1])
        if op == "icmp":
            pred = t[i]
            ty, x, i = self.tv(fr, t, i + 1)
            y, i = self.pval(fr, t, i + 1, ty)
            if ty[0] == "ptr" or isinstance(x, Ptr) or isinstance(y, Ptr):
                if x is UNDEF or y is UNDEF:
                    return UNDEF
                if not isinstance(x, Ptr) or not isinstance(y, Ptr):
                    raise Unsupported("pointer comparison with an integer")
                if pred in ("eq", "ne"):
                    e = x == y
                    return C(int(e == (pred == "eq")), 1)
                if x.obj == y.obj:
                    r = {"ult": x.off < y.off, "ugt": x.off > y.off, "ule": x.off <= y.off, "uge": x.off >= y.off}[pred]
                    return C(int(r), 1)
                raise Unsupported("pointer order")
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if pred in ("slt", "sgt", "sle", "sge"):
                half = 1 << (ty[1] - 1)
                if x.hi < half and y.hi < half:
                    pred = "u" + pred[1:]
                elif ty[1] == 1:
                    raise Unsupported("signed comparison of i1")
                elif x.const() is not None and y.const() is not None:
                    s = lambda c: c - 2 * half if c >= half else c
                    a, b = s(x.const()), s(y.const())
                    return C(int({"slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b}[pred]), 1)
                elif pred == "slt" and y.const() == 0:
                    # sign bit
                    return Int(self.floor(st, x.f, ty[1] - 1, x.lo, x.hi, False), 1)
                elif pred == "sgt" and y.const() == (1 << ty[1]) - 1:
                    return Int(self.lnot(self.floor(st, x.f, ty[1] - 1, x.lo, x.hi, False)), 1)
                else:
                    x = self.arith(st, "xor", x, C(half, ty[1]), ty[1])
                    y = self.arith(st, "xor", y, C(half, ty[1]), ty[1])
                    pred = "u" + pred[1:]
            if pred == "eq":
                return Int(self.eq(st, x, y), 1)
            if pred == "ne":
                return Int(self.lnot(self.eq(st, x, y)), 1)
            if pred == "ult":
                return Int(self.ult(st, x, y), 1)
            if pred == "ugt":
                return Int(self.ult(st, y, x), 1)
            if pred == "ule":
                return Int(self.lnot(self.ult(st, y, x)), 1)
            if pred == "uge":
                return Int(self.lnot(self.ult(st, x, y)), 1)
            raise Unsupported("icmp " + pred)
        if op in ("zext", "trunc", "sext"):
            ty, x, i = self.tv(fr, t, i)
            to, _ = self.mod.ptype(t, i + 1)
            if x is UNDEF:
                return UNDEF
            if not isinstance(x, Int):
                raise Unsupported(op + " of a pointer")
            if op == "zext":
                return Int(x.f, to[1], x.lo, x.hi)
            if op == "trunc":
                return self.bits(st, x, 0, to[1])
            if x.hi < 1 << (x.w - 1):
                return Int(x.f, to[1], x.lo, x.hi)
            s = x.f if x.w == 1 else self.floor(st, x.f, x.w - 1, x.lo, x.hi, False)
            return Int(x.f + s.scale((1 << to[1]) - (1 << x.w)), to[1])
        if op == "select":
            _, c, i = self.tv(fr, t, i)
            ty, a, i = self.tv(fr, t, i + 1)
            _, b, i = self.tv(fr, t, i + 1)
            if c is UNDEF:
                raise Unsupported("select on an undefined value")
            if c.const() is not None:
                return a if c.const() else b
            if ty == ("i", 1) and isinstance(a, Int) and isinstance(b, Int):
                if a.const() == 1:
                    return Int(self.lor(st, c.f, b.f), 1)
                if b.const() == 0:
                    return Int(self.land(st, c.f, a.f), 1)
                if a.const() == 0:
                    return Int(self.land(st, self.lnot(c.f), b.f), 1)
                if b.const() == 1:
                    return Int(self.lor(st, self.lnot(c.f), a.f), 1)
            if isinstance(a, Int) and isinstance(b, Int):
                d = a.f - b.f
                if d.is_const():
                    # b + c*(a-b)
                    return Int(b.f + c.f.scale(d.c), ty[1], min(a.lo, b.lo), max(a.hi, b.hi))
            return ("__fork", c.f, a, b)
        if op == "freeze":
            _, v, _ = self.tv(fr, t, i)
            return C(0, 64) if v is UNDEF else v
        if op == "getelementptr":
            p, _ = self.gep(fr, t, i)
            return p
        if op == "alloca":
            return self.new_obj(st, "stack")
        if op == "load":
            ty, i = self.mod.ptype(t, i)
            _, p, _ = self.tv(fr, t, i + 1)
            return self.load_ty(st, p, ty)
        if op == "store":
            ty, v, i = self.tv(fr, t, i)
            _, p, _ = self.tv(fr, t, i + 1)
            self.store_ty(st, p, v, ty)
            return None
        if op == "extractvalue":
            ty, v, i = self.tv(fr, t, i)
            while i < len(t) and t[i] == ",":
                v = v[int(t[i + 1])]
                i += 2
            return v
        if op == "insertvalue":
            ty, v, i = self.tv(fr, t, i)
            _, x, i = self.tv(fr, t, i + 1)
            idx = []
            while i < len(t) and t[i] == ",":
                idx.append(int(t[i + 1]))
                i += 2
            return self.insert(v, x, idx)
        if op == "ptrtoint":
            _, p, i = self.tv(fr, t, i)
            if isinstance(p, Ptr) and p.obj in ("int", "null"):
                return C(p.off, 64)
            return p
        if op == "inttoptr":
            _, v, i = self.tv(fr, t, i)
            if isinstance(v, Ptr):
                return v
            if v.const() is None:
                raise Unsupported("symbolic pointer")
            return Ptr("int", v.const()) if v.const() else NULL
        if op == "bitcast":
            _, v, _ = self.tv(fr, t, i)
            return v
        raise Unsupported("instruction " + op)
    def insert(self, v, x, idx):
        l = list(v)
        l[idx[0]] = x if len(idx) == 1 else self.insert(l[idx[0]], x, idx[1:])
        return tuple(l)
    def load_ty(self, st, p, ty):
        if ty[0] == "st":
            return tuple(self.load_ty(st, Ptr(p.obj, p.off + self.mod.field_off(ty, k)[0]), e) for k, e in enumerate(ty[1]))
        if ty[0] == "arr":
            s = self.mod.size(ty[2])
            return tuple(self.load_ty(st, Ptr(p.obj, p.off + k * s), ty[2]) for k in range(ty[1]))
        return self.load(st, p, self.mod.size(ty), ty)
    def store_ty(self, st, p, v, ty):
        if ty[0] == "st":
            for k, e in enumerate(ty[1]):
                self.store_ty(st, Ptr(p.obj, p.off + self.mod.field_off(ty, k)[0]), v[k], e)
            return
        if ty[0] == "arr":
            s = self.mod.size(ty[2])
            for k in range(ty[1]):
                self.store_ty(st, Ptr(p.obj, p.off + k * s), v[k], ty[2])
            return
        self.store(st, p, v, self.mod.size(ty))

    def arith(self, st, op, x, y, w):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                return C(x.off - y.off, w)
            if op in ("add", "sub") and isinstance(x, Ptr) and isinstance(y, Int) and y.const() is not None:
                c = y.const()
                if c >= 1 << (w - 1):
                    c -= 1 << w
                return Ptr(x.obj, x.off + (c if op == "add" else -c))
            if op == "and" and isinstance(x, Ptr) and y.const() is not None and y.const() < 8 and not x.obj.startswith("@"):
                return C(x.off & y.const(), w)
            raise Unsupported("pointer arithmetic")
        cx, cy = x.const(), y.const()
        m = (1 << w) - 1
        if cx is not None and cy is not None:
            s = lambda c: c - (1 << w) if c >> (w - 1) else c
            if op in ("udiv", "urem", "sdiv", "srem") and cy == 0:
                raise Unsupported("division by zero")
            r = {"add": lambda: cx + cy, "sub": lambda: cx - cy, "mul": lambda: cx * cy, "and": lambda: cx & cy, "or": lambda: cx | cy,
                 "xor": lambda: cx ^ cy, "shl": lambda: cx << cy, "lshr": lambda: cx >> cy, "ashr": lambda: s(cx) >> cy,
                 "udiv": lambda: cx // cy, "urem": lambda: cx % cy,
                 "sdiv": lambda: abs(s(cx)) // abs(s(cy)) * (1 if s(cx) * s(cy) >= 0 else -1),
                 "srem": lambda: abs(s(cx)) % abs(s(cy)) * (1 if s(cx) >= 0 else -1)}[op]()
            return C(r, w)
        if op == "add":
            if w == 1:
                return self.arith(st, "xor", x, y, w)
            # x + sext(b) is x - b
            for u, v in ((x, y), (y, x)):
                if 1 <= len(v.f.t) <= 3 and v.hi > m // 2:
                    half = 1 << (w - 1)
                    sy = lambda k: (k + half) % (2 * half) - half
                    g = Form(sy(v.f.c), {a: sy(k) for a, k in v.f.t.items() if sy(k)})
                    gl, gh = self.interval(g)
                    if v.lo >= 0 and v.hi <= m and not (v.f.c % m or any(k % m for k in v.f.t.values())):
                        # m times a truth value
                        g, gl, gh = Form(-v.f.c // m, {a: -k // m for a, k in v.f.t.items()}), -1, 0
                    if -half < gl and gh < half and gl < 0:
                        return self.wrap(st, u.f + g, w, u.lo + gl, u.hi + gh, True, self.lxi(u) + self.lx(g))[0]
            # x + (2^w - c) is a subtraction
            if cy is not None and cy > m // 2:
                return self.arith_sub(st, x, C(-cy, w), w)
            return self.wrap(st, x.f + y.f, w, x.lo + y.lo, x.hi + y.hi, True, self.lxi(x) + self.lxi(y))[0]
        if op == "sub":
            return self.arith_sub(st, x, y, w)
        if op == "mul":
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                return self.wrap(st, x.f.scale(cy), w, x.lo * cy, x.hi * cy)[0]
            f = self.product(x.f, y.f)
            if len(x.f.t) > 1 or len(y.f.t) > 1 or x.f.c or y.f.c:
                key = ("mulrange", f.key())
                if key not in self.lkey:
                    self.lkey[key] = True
                    z = self.zf(f)
                    self.fact(z3.And(z >= x.lo * y.lo, z <= x.hi * y.hi))
            return self.wrap(st, f, w, x.lo * y.lo, x.hi * y.hi)[0]
        if op == "shl":
            if cy is None:
                raise Unsupported("symbolic shift")
            if cy >= w:
                return UNDEF
            return self.wrap(st, x.f.scale(1 << cy), w, x.lo << cy, x.hi << cy, False)[0]
        if op == "lshr":
            if cy is None:
                raise Unsupported("symbolic shift")
            if cy >= w:
                return UNDEF
            return Int(self.floor(st, x.f, cy, x.lo, x.hi, False), w, x.lo >> cy, x.hi >> cy)
        if op == "ashr":
            if cy is None:
                raise Unsupported("symbolic shift")
            q = self.floor(st, x.f, cy, x.lo, x.hi, False)
            if x.hi < 1 << (w - 1):
                return Int(q, w, x.lo >> cy, x.hi >> cy)
            s = self.floor(st, x.f, w - 1, x.lo, x.hi, False)
            return Int(q + s.scale((1 << w) - (1 << (w - cy))), w)
        if op in ("and", "or", "xor"):
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if w == 1:
                if op == "and":
                    return Int(self.land(st, x.f, y.f), 1)
                if op == "or":
                    return Int(self.lor(st, x.f, y.f), 1)
                if cy is not None:
                    return Int(self.lnot(x.f) if cy else x.f, 1)
                o = self.land(st, x.f, y.f)
                return Int(x.f + y.f - o.scale(2), 1)
            if cy is not None:
                if op == "and":
                    return self.and_const(st, x, cy, w)
                if op == "xor" and cy == m:
                    return Int(Form(m) - x.f, w, m - x.hi, m - x.lo)
                a = self.and_const(st, x, cy, w)
                if op == "or":
                    return Int(x.f + cy - a.f, w, max(x.lo, cy), x.hi | cy if False else m)
                return Int(x.f + cy - a.f.scale(2), w)
            if op in ("or", "xor"):
                for a, b in ((x, y), (y, x)):
                    tz = a.f.tz()
                    if b.hi < (1 << min(tz, w)):
                        return Int(a.f + b.f, w, a.lo + b.lo, a.hi + b.hi)
            if x.hi <= 1 and y.hi <= 1:
                if op == "and":
                    return Int(self.land(st, x.f, y.f), w, 0, 1)
                if op == "or":
                    return Int(self.lor(st, x.f, y.f), w, 0, 1)
                return Int(x.f + y.f - self.land(st, x.f, y.f).scale(2), w, 0, 1)
            raise Unsupported("bitwise %s of two symbolic words" % op)
        if op in ("udiv", "urem"):
            if cy is not None and cy & (cy - 1) == 0:
                k = cy.bit_length() - 1
                q = self.floor(st, x.f, k, x.lo, x.hi, False)
                if op == "udiv":
                    return Int(q, w, x.lo >> k, x.hi >> k)
                return Int(x.f - q.scale(cy), w, 0, cy - 1)
            if cy is not None:
                key = ("div", x.f.key(), cy)
                if key not in self.lkey:
                    a = self.atom("div", (x.f, cy), x.lo // cy, x.hi // cy)
                    z = self.zf(x.f) - z3.IntVal(cy) * self.zv[a]
                    self.fact(z3.And(z >= 0, z < cy))
                    self.lkey[key] = a
                q = Form(0, {self.lkey[key]: 1})
                if op == "udiv":
                    return Int(q, w, x.lo // cy, x.hi // cy)
                return Int(x.f - q.scale(cy), w, 0, cy - 1)
        raise Unsupported(op + " of symbolic values")
    def arith_sub(self, st, x, y, w):
        return self.wrap(st, x.f - y.f, w, x.lo - y.hi, x.hi - y.lo, True, self.lxi(x) - self.lxi(y))[0]
    def and_const(self, st, x, c, w):
        # runs of ones in the mask
        f, lo, hi, sh = Form(0), 0, 0, 0
        while c >> sh:
            if not (c >> sh) & 1:
                sh += 1
                continue
            n = 0
            while (c >> (sh + n)) & 1:
                n += 1
            b = self.bits(st, x, sh, n)
            f = f + b.f.scale(1 << sh)
            hi += b.hi << sh
            sh += n
        return Int(f, w, 0, hi)

    # -------- calls
    def call(self, st, fr, t, i, dst, op):
        # skip calling convention / return attributes up to the callee
        depth, j, callee = 0, i, None
        while j < len(t):
            if t[j] == "asm":
                raise Unsupported("inline assembly")
            if t[j][0] in "@%" and j + 1 < len(t) and t[j + 1] == "(" and t[j][0] == "@":
                callee = j
                break
            if t[j][0] == "%" and j + 1 < len(t) and t[j + 1] == "(" and t[j - 1] != "type":
                raise Unsupported("indirect call")
            j += 1
        if callee is None:
            raise Unsupported("call shape")
        name = unq(t[callee])
        # arguments
        args, tys, k = [], [], callee + 2
        while t[k] != ")":
            if t[k] == ",":
                k += 1
                continue
            if t[k] == "metadata":
                # skip to end of this argument
                d = 0
                while not (d == 0 and t[k] in (",", ")")):
                    if t[k] in "([{":
                        d += 1
                    elif t[k] in ")]}":
                        d -= 1
                    k += 1
                continue
            ty, v, k = self.tv(fr, t, k)
            args.append(v)
            tys.append(ty)
        normal = None
        if op == "invoke":
            rest = t[k + 1:]
            n = rest.index("to")
            normal = unq(rest[n + 2])
        r = self.builtin(st, name, args, tys)
        if r is not NotImplemented:
            if isinstance(r, tuple) and r and r[0] == "__panic":
                return ("panic", r[1])
            if isinstance(r, tuple) and r and r[0] == "__fork":
                def mk(x):
                    def go(s):
                        if dst:
                            s.stack[-1]["env"][dst] = x
                        if normal:
                            self.goto(s, normal)
                    return go
                return self.branch(st, r[1], [mk(r[2]), mk(r[3])])
            if dst:
                fr["env"][dst] = r
            if normal:
                self.goto(st, normal)
            return None
        if name in self.mod.funcs:
            f = self.mod.func(name)
            self.called.add(name)
            if len(st.stack) > 60:
                raise Unsupported("recursion")
            st.stack.append({"f": f, "bb": f["entry"], "prev": None, "i": 0, "env": dict(zip(f["args"], args)), "dst": dst, "normal": normal})
            return None
        raise Unsupported("call of " + name)

    def builtin(self, st, name, args, tys):
        for rx, fn in self.summaries:
            if rx.search(name):
                return fn(self, st, args)
        n = name[1:]
        if n.startswith("llvm."):
            if n.startswith(("llvm.experimental.noalias", "llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.donothing")):
                return None
            m = re.match(r"llvm\.(uadd|usub|umul)\.with\.overflow\.i(\d+)", n)
            if m:
                w = int(m.group(2))
                x, y = args
                if x is UNDEF or y is UNDEF:
                    return (UNDEF, UNDEF)
                if m.group(1) == "uadd":
                    v, q = self.wrap(st, x.f + y.f, w, x.lo + y.lo, x.hi + y.hi, False, self.lxi(x) + self.lxi(y))
                    return (v, Int(q, 1))
                if m.group(1) == "usub":
                    v, q = self.wrap(st, x.f - y.f, w, x.lo - y.hi, x.hi - y.lo, False, self.lxi(x) - self.lxi(y))
                    return (v, Int(-q, 1))
                f = self.product(x.f, y.f)
                v, q = self.wrap(st, f, w, x.lo * y.lo, x.hi * y.hi)
                if q.is_const():
                    return (v, C(1 if q.c else 0, 1))
                return (v, Int(self.lnot(self.eq(st, Int(q, w), C(0, w))), 1))
            m = re.match(r"llvm\.(fshl|fshr)\.i(\d+)", n)
            if m:
                w = int(m.group(2))
                a, b, k = args
                if a is UNDEF or b is UNDEF:
                    return UNDEF
                if k.const() is None:
                    raise Unsupported("symbolic funnel shift")
                k = k.const() % w
                if m.group(1) == "fshr":
                    k = w - k
                if k == 0:
                    return a
                if k == w:
                    return b
                hi = self.wrap(st, a.f.scale(1 << k), w, a.lo << k, a.hi << k, False)[0]
                lo = self.floor(st, b.f, w - k, b.lo, b.hi, False)
                return Int(hi.f + lo, w)
            m = re.match(r"llvm\.(ctlz|cttz|ctpop|bswap|bitreverse)\.i(\d+)", n)
            if m:
                return self.bitfun(st, m.group(1), args[0], int(m.group(2)))
            m = re.match(r"llvm\.(umin|umax)\.i(\d+)", n)
            if m:
                x, y = args
                c = self.ult(st, x, y)
                a, b = (x, y) if m.group(1) == "umin" else (y, x)
                if c.is_const():
                    return a if c.c else b
                return ("__fork", c, a, b)
            m = re.match(r"llvm\.usub\.sat\.i(\d+)", n)
            if m:
                x, y = args
                w = int(m.group(1))
                c = self.ult(st, x, y)
                if c.is_const():
                    return C(0, w) if c.c else Int(x.f - y.f, w)
                return ("__fork", c, C(0, w), Int(x.f - y.f, w))
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                if args[2].const() is None:
                    raise Unsupported("symbolic copy length")
                self.copy(st, args[0], args[1], args[2].const())
                return None
            if n.startswith("llvm.memset"):
                if args[2].const() is None or args[1].const() is None:
                    raise Unsupported("symbolic memset")
                ln, b = args[2].const(), args[1].const()
                i = 0
                while i < ln:
                    k = 8 if ln - i >= 8 else 1
                    self.store(st, Ptr(args[0].obj, args[0].off + i), C(int.from_bytes(bytes([b]) * k, "little"), 8 * k), k)
                    i += k
                return None
            if n.startswith("llvm.expect"):
                return args[0]
            if n == "llvm.trap":
                return ("__panic", "trap")
            raise Unsupported("intrinsic " + n)
        if n in ("bcmp", "memcmp"):
            ln = args[2].const()
            if ln is None:
                raise Unsupported("symbolic comparison length")
            e, i = Form(1), 0
            k = 8 if ln % 8 == 0 else 1
            while i < ln:
                a = self.load(st, Ptr(args[0].obj, args[0].off + i), k, ("i", 8 * k))
                b = self.load(st, Ptr(args[1].obj, args[1].off + i), k, ("i", 8 * k))
                if a is UNDEF or b is UNDEF:
                    raise Unsupported("comparison of undefined bytes")
                e = self.land(st, e, self.eq(st, a, b))
                i += k
            if n == "memcmp":
                raise Unsupported("memcmp order") if not e.is_const() or not e.c else None
                return C(0, 32)
            return Int(self.lnot(e), 32, 0, 1)
        if n in ("memcpy", "memmove"):
            self.copy(st, args[0], args[1], args[2].const())
            return args[0]
        if n in ("__rust_alloc", "__rust_alloc_zeroed", "__rg_alloc", "malloc"):
            p = self.new_obj(st, "heap")
            if n.endswith("zeroed"):
                ln = args[0].const()
                for k in range(0, ln, 8):
                    s = min(8, ln - k)
                    self.store(st, Ptr(p.obj, k), C(0, 8 * s), s)
            return p
        if n in ("__rust_dealloc", "__rg_dealloc", "free"):
            if isinstance(args[0], Ptr):
                st.mem.pop(args[0].obj, None)
            return None
        if n in ("__rust_realloc", "__rg_realloc"):
            p = self.new_obj(st, "heap")
            st.mem[p.obj] = dict(st.mem[args[0].obj])
            st.mem.pop(args[0].obj)
            return p
        if re.search(r"panic|handle_alloc_error|capacity_overflow|unwrap_failed|expect_failed|slice_\w+_fail|copy_from_slice.*fail|index_len_fail|assert_failed|unwrap_none", n):
            return ("__panic", n)
        return NotImplemented
    def bitfun(self, st, fn, x, w):
        c = x.const()
        if c is not None:
            if fn == "ctlz":
                return C(w - c.bit_length(), w)
            if fn == "cttz":
                return C(w if c == 0 else (c & -c).bit_length() - 1, w)
            if fn == "ctpop":
                return C(bin(c).count("1"), w)
            if fn == "bswap":
                return C(int.from_bytes(c.to_bytes(w // 8, "little"), "big"), w)
            return C(int(bin(c)[2:].zfill(w)[::-1], 2), w)
        if fn == "bswap":
            f = Form(0)
            for k in range(w // 8):
                f = f + self.bits(st, x, 8 * k, 8).f.scale(1 << (w - 8 - 8 * k))
            return Int(f, w)
        if fn == "bitreverse":
            f = Form(0)
            for k in range(w):
                f = f + self.bits(st, x, k, 1).f.scale(1 << (w - 1 - k))
            return Int(f, w)
        if fn == "ctpop":
            f = Form(0)
            for k in range(w):
                f = f + self.bits(st, x, k, 1).f
            return Int(f, w, 0, w)
        if fn == "ctlz":
            # a fresh integer z with  2^(w-1-z) <= x < 2^(w-z)  (z = w for x = 0)
            key = ("ctlz", x.f.key(), w)
            if key not in self.lkey:
                a = self.atom("ctlz", x.f, 0, w)
                z = self.zf(x.f)
                cs = [z3.And(self.zv[a] == w, z == 0)]
                for k in range(w):
                    cs.append(z3.And(self.zv[a] == k, z >= (1 << (w - 1 - k)), z < (1 << (w - k))))
                self.fact(z3.Or(cs))
                self.lkey[key] = a
            return Int(Form(0, {self.lkey[key]: 1}), w, 0, w)
        if fn == "cttz":
            key = ("cttz", x.f.key(), w)
            raise Unsupported("cttz of a symbolic word")
        raise Unsupported(fn)
