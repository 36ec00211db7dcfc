#!/usr/bin/env python3
"""dev.py CFG BUDGET ENTRY:p0,p1,"template" ...   run some jobs and print a summary (development aid)"""
import sys, time, json, os
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import xv
cfg, budget, jobs = sys.argv[1], float(sys.argv[2]), []
for a in sys.argv[3:]:
    e, _, ps = a.partition(":")
    ps = ps.split("|") if ps else []
    params = []
    for p in ps: params += [int(p)] if p.isdigit() and not p.startswith("'") else xv.T(p.strip("'"))
    jobs.append((a, e, params))
jobs = [("%d:%s" % (k, n), e, p) for k, (n, e, p) in enumerate(jobs)]
t = time.time(); xv.build_engine(); ll = xv.build_ir(cfg, {e for _, e, _ in jobs}); print("build %.1f" % (time.time() - t))
# job names must not contain '='
jobs = [(n.replace("=", "~"), e, p) for n, e, p in jobs]
if __import__("os").environ.get("SYMX_DEBUG"): print(xv.sh([xv.B+"/engine/release/symx", ll, "--budget", str(budget), "--out", "/dev/null", "--fact-uf"] + sum([["--job", "%s=%s:%s" % (n, e, ",".join(map(str, p)))] for n, e, p in jobs], [])).stdout)
r = xv.run_engine(ll, jobs, budget, fact_uf='NOFACT' not in __import__('os').environ)
s = r["solver"]
print("engine %.1f s, queries %d exact %d unknown %d solver %.1f s max %.1f, instr %d" % (r["seconds"], s["queries"], s["exact_queries"], s["unknown"], s["seconds"], s["max_seconds"], s["instructions"]))
os.unlink(ll)
rb = None
for j, (n, e, p) in zip(r["jobs"], jobs):
    print(n, "COMPLETE" if j["complete"] else "pending %d" % j["pending"], "paths", j["paths"], "killed", j["killed"], "checks", j["checks"], "trivial", j["trivial"], "ninc", j["inconclusive"], "unsup", j["unsupported"], "ncand", j["ncand"], "covers", j["covers"])
    print("   audited %d lost %s" % (j["audited"], [[(i[0], bytes([int(i[2])]) if i[1]==0 else i[2]) for i in l] for l in j["lost"][:2]]))
    for m in j["inconclusive_msgs"][:3]: print("   inc:", m)
    for m, k in list(j["unsupported_msgs"].items())[:4]: print("   unsup:", k, m)
    for c in j["cands"][:int(__import__("os").environ.get("NC", "3"))]:
        print("   cand:", c["kind"], c["tag"], c["msg"], "exact" if c["exact"] else "", [(i[0], (bytes([int(i[2]) & 255]) if i[1] == 0 else (xv.bits_f64(int(i[2])) if i[0] >= 1000 and i[0] < 3000 else i[2]))) for i in c["inputs"]])
        rb = rb or xv.build_replay(cfg)
        open(xv.B + "/dev.case", "w").write(xv.case_text(e, p, c["inputs"]))
        print("      native:", xv.run_case(rb, xv.B + "/dev.case"))
