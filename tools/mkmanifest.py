#!/usr/bin/env python3
"""Generates MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "symbolic execution of the compiled Rust (generic code instantiated with a symbolic field), z3 decides every obligation over all field values"
SYMNOTE = "Bounded: every field value is symbolic, sizes/shapes are the concrete ones listed in the evidence; trusts the symbolic field's semantics, z3, and (for generic code) that the concrete fields meet P01-P02."
GRPNOTE = SYMNOTE + " The curve is a stand-in group in which a point is its discrete logarithm (hook 4a575c6), so group equations become field equations; in protocol scenarios the hash is a fixed collision-free function of its symbolic input (challenges are constants), unresolved zero tests in the prover are taken in the generic direction and counted."
IR = "symbolic execution of the LLVM IR of the real field types' compiled functions (tools/irexec.py): machine words as integer forms, z3 decides carries, ranges and residues over all operands"
IRNOTE = "All operands below the modulus, all six fields, loops fully unrolled by construction (fixed limb counts); trusts rustc/opt's IR, the executor's instruction semantics and z3."
CLAIMS = {
    "P01": (IR, IRNOTE),
    "P02": (SYM, SYMNOTE),
    "P03": (IR, IRNOTE + " Montgomery multiplication enters as a reduced value that is a function of its operands (P01)."),
    "P10": (IR + " (field encodings, concrete fields); " + SYM + " (points, openings, proofs)", IRNOTE + " " + SYMNOTE + " In the generic part a symbolic value's bytes are an opaque token, distinct for distinct values, whose lowest bit is a case split."),
    "P17": (SYM, SYMNOTE),
    "P06": (SYM, SYMNOTE),
    "P05": (SYM, SYMNOTE),
    "P07": (SYM, SYMNOTE),
    "P08": (SYM, SYMNOTE),
    "P09": (SYM, SYMNOTE),
    "P11": (SYM, SYMNOTE),
    "P12": (SYM, SYMNOTE),
    "P13": (SYM, SYMNOTE),
    "P14": (SYM, SYMNOTE),
    "P15": (SYM, SYMNOTE),
    "P16": (SYM, SYMNOTE),
    "P20": (SYM, SYMNOTE),
    "P21": (SYM, SYMNOTE),
    "P22": (SYM, GRPNOTE),
    "P23": (SYM, GRPNOTE),
    "P24": (SYM, GRPNOTE),
    "P25": (SYM, SYMNOTE),
    "P26": (SYM, SYMNOTE),
    "P27": (SYM, GRPNOTE),
    "P28": (SYM, SYMNOTE + " Hash output is arbitrary (a symbol per distinct byte string), residuosity and sign bits are case splits, a root is a symbol whose square is the argument."),
}
NA = {}
TODO = "check not built yet"
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "cfg(plonky_verif) / cfg(kani)", "enable": "RUSTFLAGS='--cfg plonky_verif' (tools/env.sh); cargo kani sets cfg(kani) itself", "source_commits": ["efd51a1", "4a575c6"]},
    "checks": [], "not_applicable": [],
}
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, TODO)})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
