import json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

class CheckError(Exception):
    pass

class Ctx:
    def __init__(self, here, prop, tier, seed):
        self.here, self.prop, self.tier, self.seed = here, prop, tier, seed
        self.build = os.environ.get("VERIF_BUILD", os.path.join(here, ".build"))
        os.makedirs(self.build, exist_ok=True)

def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")

# ---------------------------------------------------------------- symbolic-field engine
# properties some of whose scenarios reach crate-private items through /repo/src/verif_hooks.rs
HOOKED = ("P20", "P22", "P23", "P24", "P27")

def build_sym(ctx):
    d = os.path.join(ctx.here, "sym")
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(d, "Cargo.lock"))
    hooked = ctx.prop in HOOKED
    tgt = os.path.join(ctx.build, "symh" if hooked else "sym")
    cmd = "export VERIF_TARGET=%s VERIF_CFG='%s'; . %s/tools/env.sh; cd %s && cargo build --offline %s" % (
        tgt, "--cfg plonky_verif" if hooked else "", ctx.here, d, "--features hooks" if hooked else "")
    rc, out, err = sh(cmd, timeout=600)
    if rc != 0:
        raise CheckError("cannot build the symbolic harness against /repo:\n" + err[-3000:])
    return os.path.join(tgt, "debug", "sym")

def sym_list(exe):
    rc, out, err = sh(exe + " list", timeout=60)
    res = []
    for l in out.splitlines():
        f = l.split("\t")
        if len(f) >= 4:
            res.append({"prop": f[0], "name": f[1], "tier": int(f[2]), "about": f[3]})
    return res

def run_sym(ctx, exe, sc):
    thorough = ctx.tier == "thorough"
    max_s = 600 if thorough else 100
    max_paths = 200000 if thorough else 20000
    rc, out, err = sh("ulimit -v 16000000; exec %s run %s %d %d" % (exe, sc["name"], max_paths, max_s), timeout=max_s + 450,
                      env={"RAYON_NUM_THREADS": "1"})
    line = [l for l in out.splitlines() if l.startswith("{\"scenario\"")]
    if not line:
        return {"unit": sc["name"], "engine": "symbolic-field", "about": sc["about"], "violations": [],
                "undecided": ["scenario did not finish (rc %d): %s" % (rc, err[-300:])], "notes": []}
    r = json.loads(line[0])
    res = {"unit": sc["name"], "engine": "symbolic-field"}
    res.update({k: r[k] for k in ("about", "paths", "infeasible", "panics", "decisions", "obligations", "queries", "unsat", "sat",
                                  "unknown", "normal_form_only", "validated", "solver_s", "wall_s", "truncated", "undecided", "notes")})
    if r.get("generic"):
        res["notes"] = list(res["notes"]) + ["%d zero tests the code made were taken as nonzero without a verdict (generic direction)" % r["generic"]]
    res["samples"] = ["%s: %s = 0 (mod p) for all values: unsat" % (sc["name"], s) for s in r["samples"]]
    res["violations"] = [{"label": v["label"], "values": v["values"], "solver": v["solver"], "detail": v["detail"],
                          "replay_cmd": "%s replay %s %s" % (exe, sc["name"], " ".join("'%s=%s'" % kv for kv in v["values"].items()))}
                         for v in r["violations"]]
    return res

# ---------------------------------------------------------------- LLVM-IR engine
# properties decided (also) by executing the compiler's IR of the real fields symbolically (tools/irexec.py)
IR = ("P01", "P03", "P10")
IR_ONLY = ("P01", "P03")
LLVM = "/usr/lib/llvm-18/bin"

def build_ir(ctx):
    d = os.path.join(ctx.here, "ir")
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(d, "Cargo.lock"))
    tgt = os.path.join(ctx.build, "ir")
    cmd = ("export VERIF_TARGET=%s VERIF_CFG=''; . %s/tools/env.sh; export RUSTFLAGS=\"$RUSTFLAGS --emit=llvm-bc,link -Zshare-generics=no -C no-vectorize-loops -C no-vectorize-slp\"; "
           "cd %s && cargo build --offline") % (tgt, ctx.here, d)
    rc, out, err = sh(cmd, timeout=600)
    if rc != 0:
        raise CheckError("cannot build the IR harness against /repo:\n" + err[-3000:])
    deps = os.path.join(tgt, "debug", "deps")
    lib = os.path.join(tgt, "debug", "libirharness.so")
    bc = sorted((f for f in os.listdir(deps) if re.fullmatch(r"plonky-[0-9a-f]+\.bc", f)), key=lambda f: os.path.getmtime(os.path.join(deps, f)))
    if not bc:
        raise CheckError("no bitcode of the plonky crate was produced")
    # loops over limbs are unrolled; no vector instructions, so that every operation is on machine words.
    # all2: the same program with the Montgomery multiplications' bodies taken away. P01 decides those; the conversion
    # units need only that their result is reduced and a function of the operands (irexec.py, CALL).
    opt = ("%s/opt -passes='internalize,globaldce,default<O2>' -internalize-public-api-list=$K -inline-threshold=100000 "
           "-vectorize-loops=false -vectorize-slp=false -unroll-threshold=2000 -S" % LLVM)
    cmd = ("set -e; cd %s; %s/llvm-link debug/deps/irharness.bc debug/deps/%s -o all.bc; "
           "K=$(nm -D --defined-only %s | awk '/ vp_/{print $3}' | paste -sd,); " % (tgt, LLVM, bc[-1], lib))
    if ctx.prop == "P01":
        cmd += opt + " all.bc -o all.ll"
        ll = "all.ll"
    else:
        cmd += ("M=$(%s/llvm-dis all.bc -o - | grep -E '^define.*@.*(monty_multiply|montgomery_multiply)' | grep -oE '@\"?[^\"( ]+\"?\\(' | tr -d '@\"(' || true); "
                "if [ -n \"$M\" ]; then %s/llvm-extract --delete $(echo \"$M\" | sed 's/^/--func=/') all.bc -o all2.bc; else cp all.bc all2.bc; fi; " % (LLVM, LLVM)).replace('\\"', '"')
        cmd += opt + " all2.bc -o all2.ll"
        ll = "all2.ll"
    rc, out, err = sh(cmd, timeout=600)
    if rc != 0:
        raise CheckError("cannot link the IR:\n" + err[-3000:])
    return os.path.join(tgt, ll), lib

def run_ir(ctx, t0):
    ll, lib = build_ir(ctx)
    tool = os.path.join(ctx.here, "tools", "irchecks.py")
    rc, out, err = sh("python3-vt %s list %s" % (tool, ctx.prop), timeout=60)
    if rc != 0:
        raise CheckError("irchecks.py list: " + err[-2000:])
    units = [l.split("\t") for l in out.splitlines() if "\t" in l]
    thorough = ctx.tier == "thorough"
    each, total = (1500, 10000) if thorough else (250, 560)
    def one(u):
        name, about = u
        base = {"unit": name, "engine": "llvm-ir", "about": about, "violations": [], "undecided": [], "notes": []}
        left = t0 + total - time.time()
        if left < 10:
            return dict(base, undecided=["not run: the check's time was used up"])
        sec = min(each, left)
        rc, out, err = sh("ulimit -v 6000000; exec python3-vt %s run %s %s %s %d" % (tool, name, ll, lib, sec), timeout=sec + 120)
        line = [l for l in out.splitlines() if l.startswith("{")]
        if not line:
            return dict(base, undecided=["unit did not finish (rc %d): %s" % (rc, err[-300:])])
        r = json.loads(line[0])
        for v in r["violations"]:
            v["replay_cmd"] = "python3-vt %s replay %s %s %s" % (tool, name, lib, " ".join("%s=%s" % kv for kv in v["values"].items()))
        return r
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))

def assumptions(prop):
    ir = []
    if prop in IR:
        ir = [
            "the IR of rustc's optimised build (no debug assertions) linked by llvm-link and simplified by opt 18 means what the code means",
            "tools/irexec.py's translation of LLVM instructions into integer constraints, and z3's unsat verdicts, are trusted",
            "the moduli (and their Montgomery radix 2^(64 n)) written in tools/irchecks.py are the fields' definitions",
        ]
        if prop != "P01":
            ir.append("Montgomery multiplication returns a reduced value that depends only on its operands (what P01 decides)")
        if prop in IR_ONLY:
            return ir
    return ir + [
        "mock field/curve instances satisfy the documented contract of the code's generic parameters",
        "the solver's unsat verdicts and the engine's translation of recorded field operations are trusted",
    ]

def run_all(ctx):
    results, t0 = [], time.time()
    if ctx.prop in IR:
        results += run_ir(ctx, t0)
    if ctx.prop in IR_ONLY:
        if not results:
            raise CheckError("no units for %s" % ctx.prop)
        return results
    exe = build_sym(ctx)
    scs = [s for s in sym_list(exe) if s["prop"] == ctx.prop and (s["tier"] == 0 or ctx.tier == "thorough")]
    with ThreadPoolExecutor(8) as ex:
        results += list(ex.map(lambda s: run_sym(ctx, exe, s), scs))
    if not results:
        raise CheckError("no units for %s" % ctx.prop)
    return results
