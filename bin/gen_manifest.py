#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
COMMON = " Trusted: rustc's LLVM IR, the engine's reading of it (sampled paths are replayed on the compiled code and compared), z3. Texts and shapes beyond the templates listed in the evidence file are outside the bounds."
NOTE = {
 "C01": "Every path of parse, Display, vars, eval on all byte texts up to 3-4 bytes and on longer token templates; panics, aborts, out-of-bounds and invalid accesses are events.",
 "C02": "Value of every accepted template instance equals that of an independent reference reading for all 2^64 values of each variable, both precedence features.",
 "C03": "Accept/reject equals the reference recogniser for every template instance, in the four feature sets.",
 "C04": "Scanner and value of literals against exact decimal arithmetic; correct rounding is decided for digit counts where the product or quotient of two exact doubles is the definition, and by core's own correctly rounded parse (executed) otherwise.",
 "C05": "Span, source, labels, help and counts of every error over all byte texts up to 3 bytes and longer templates.",
 "C06": "All names of up to 4 bytes over the name alphabet, near-misses of built-ins, contexts that shadow.",
 "C07": "Arities 0-10 and 255 against 0-10 arguments, order and values of arguments with uninterpreted functions.",
 "C08": "Any subset of variables supplied, any values.",
 "C09": "Optimised value equals the unoptimised reference value for all variable values whose intermediates are finite; rewriting over IEEE terms whose rules are proved with z3's floating-point theory (engine --selftest), z3 deciding what remains.",
 "C10": "Variable-free expressions over a set of special values, bit for bit.",
 "C11": "Substitution forms against evaluation, symbolic values.",
 "C12": "Variable set against the variables evaluation needs, after substitutions.",
 "C13": "bind..bind9, bind_n, bind_n_runtime with symbolic names and values; up to 509 variables missing.",
 "C14": "All 2^64 arguments.",
 "C15": "All sequences of up to 2 (thorough 3) setter calls out of all setters over a set of names; declared-variable check on templates.",
 "C16": "parse, display, parse: same value terms and texts.",
 "C17": "Panic at every call of a user function (symbolic index); the engine checks every access and free.",
 "C18": "Each built-in with 1-3 (variadic 1-5) symbolic or constant arguments; libm functions are uninterpreted, arithmetic is IEEE.",
 "C19": "Two symbolic texts interleaved with symbolic operations; repeated outcomes equal.",
 "C20": "Pairs of symbolic texts that compare equal evaluate equal.",
 "C21": "The binary's own source (src/bin/repl.rs, compiled as a module) over a stand-in terminal: every session of up to 6 lines from the templates, against what the library says about each line. The terminal itself and miette's graphical report are replaced.",
 "C22": "Send/Sync decided by the compiler's own obligation; the engine checks that parsing and evaluating through shared references writes to nothing reachable from two threads (no data race is possible) on every path.",
}
checks = []
for i in ids:
    if i in NA: continue
    checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique="symbolic execution of the compiled LLVM IR with z3 deciding branches and assertions", level="model_checking", level_note=NOTE[i] + COMMON))
json.dump(dict(version=1, setup_cmd="bin/setup.sh", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes="See DESIGN.md. known_findings.txt lists the defects repaired in /repo."), open(V + "/MANIFEST.json", "w"), indent=1)
