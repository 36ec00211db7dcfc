#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--budget S]: decide one property of /repo's current tree by symbolic execution."""
import argparse, json, os, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs as J, xv

ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--budget", type=float); ap.add_argument("-v", action="store_true"); ap.add_argument("--only")
A = ap.parse_args()
t0 = time.time()
SEED = int(os.environ.get("VERIF_SEED", "1"))
thorough = A.tier == "thorough"
groups = J.ALL[A.id](A.tier)
if A.only: groups = [g for g in groups if g[0] in A.only.split(",")]
budget = A.budget or (600 if thorough else 300)
budget = min(budget, 700)

# ------------------------------------------------------------------ jobs
def text_of(p, al, ins=None, start=0):
    """a template (ins None) or its instance, as a printable string, and the next input id"""
    out, i = "", start
    while p:
        if p[0] == "{" and "}" in p and p[1:p.index("}")].isdigit():
            k = p[1:p.index("}")]
            out += "{%s}" % k if ins is None else chr(ins.get(i, al[int(k)][0] if al[int(k)] else 0))
            p = p[p.index("}") + 1:]; i += 1
        else: out += p[0]; p = p[1:]
    return out, i
AL = xv.alphabets()
def describe(entry, params, inputs=None):
    ins = None if inputs is None else {i[0]: int(i[2]) & 255 for i in inputs if i[0] < 1000}
    ps, at = [], 0
    for p in params:
        if isinstance(p, str):
            s, at = text_of(p, AL, ins, at); ps.append(repr(s) if ins is None else repr(s.encode("latin1").decode("utf8", "replace")))
        else: ps.append(str(p))
    s = "%s(%s)" % (entry, ", ".join(ps))
    if inputs:
        more = []
        for i in inputs:
            if 1000 <= i[0] < 3000: more.append("v%d=%r" % (i[0], xv.bits_f64(int(i[2]))))
            elif i[0] >= 3000: more.append("c%d=%s" % (i[0], i[2]))
        if more: s += " with " + " ".join(more)
    return s
def flat(params):
    out = []
    for p in params: out += xv.T(p) if isinstance(p, str) else [p]
    return out

# ------------------------------------------------------------------ known findings
KNOWN = []
kf = os.path.join(xv.V, "known_findings.txt")
if os.path.exists(kf):
    for l in open(kf):
        # known: property=<id> key=<property|entry|tag|text> <what fails>
        if l.startswith("known: property=%s " % A.id): w = l.split(" ", 3); KNOWN.append((w[2][4:], w[3].strip() if len(w) > 3 else ""))

# ------------------------------------------------------------------ build
def build_all():
    want = {}
    for c, js in groups: want.setdefault(c.rstrip("!"), set()).update(j[0] for j in js)
    irs, errs = {}, []
    def one(c, es):
        try: irs[c] = xv.build_ir(c, es)
        except Exception as e: errs.append(e)
    def eng():
        try: xv.build_engine()
        except Exception as e: errs.append(e)
    th = [threading.Thread(target=eng)] + [threading.Thread(target=one, args=(c, es)) for c, es in want.items()]
    for x in th: x.start()
    for x in th: x.join()
    if errs: raise errs[0]
    return irs

rep_dir = os.path.join(xv.B, "replays"); os.makedirs(rep_dir, exist_ok=True)
tmp_dir = os.path.join(xv.B, "tmp-%d" % os.getpid()); os.makedirs(tmp_dir)
violations, knowns, unconfirmed, mismatches, replays, replay_ok = [], {}, [], [], 0, 0
samples_ev, jobs_ev, funcs = [], [], set()
tot = dict(paths=0, killed=0, forks=0, checks=0, trivial=0, instructions=0, inconclusive=0, unsupported=0, incomplete=0, complete=0)
solver = dict(queries=0, exact_queries=0, unknown=0, seconds=0.0, max_seconds=0.0, cache_hits=0, domain_decisions=0, version="")
covers = {}
audit = [0, 0]
cut_run, cut_time = [0], [0.0]

def native(cfg, path, kind, threads=1):
    """does the real code fail on this case? (reason or None)"""
    r = native1(cfg, path, kind)
    if r is None and A.id == "C22" and kind in ("check", "panic"):
        # an interleaving: run both sides on eight threads until it shows
        os.environ["REPLAY_STRESS"] = "4"
        try: r = native1(cfg, path, kind)
        finally: del os.environ["REPLAY_STRESS"]
        if r: r += " (eight threads)"
    return r
def native1(cfg, path, kind):
    rb = xv.build_replay(cfg)
    rc, out, err = xv.run_case(rb, path)
    fails = [l for l in out if l.startswith("check ")]
    if rc == 1 and fails: return "fails %s" % ",".join(sorted(set(fails)))
    if rc == 2: return "panics: " + (err.strip().splitlines() or ["?"])[-1][:200]
    if rc == -999: return "does not end within 60 s"
    if rc < 0 or rc > 3: return "ends with signal/exit %d: %s" % (rc, (err.strip().splitlines() or ["?"])[-1][:200])
    if rc == 3: return None
    if kind in ("memory", "unreachable", "abort") and shutil.which("valgrind"):
        rc, out, err = xv.run_case(rb, path, timeout=120, wrap=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--track-origins=no"])
        if rc == 99: return "valgrind: " + " / ".join(l.split("==", 2)[-1].strip() for l in err.splitlines() if l.startswith("=="))[:300]
    if kind == "race" and shutil.which("valgrind"):
        rc, out, err = xv.run_case(rb, path, timeout=200, wrap=["valgrind", "-q", "--tool=helgrind", "--error-exitcode=99"])
        if rc == 99 and "data race" in err: return "helgrind: " + " / ".join(l.split("==", 2)[-1].strip() for l in err.splitlines() if "data race" in l or " at 0x" in l)[:300]
    return None

def compare(s, out, text=""):
    """the translation against the real code on one path: recorded observations"""
    want = []
    for k, b in s["outs"]:
        if k == 0: want.append("out %d" % int(b))
        else:
            v = xv.bits_f64(int(b)); want.append("outf nan" if v != v else "outf %d" % int(b))
    got = [l for l in out if l.startswith("out")]
    # which of two zeros is the larger is left open by the intrinsic
    if "max" in text or "min" in text: want, got = [[l.replace("outf %d" % (1 << 63), "outf 0") for l in x] for x in (want, got)]
    return None if want == got else "expected %s, real code gives %s" % (want, got)

def finish(code):
    shutil.rmtree(tmp_dir, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(property=A.id, tier=A.tier, seed=SEED, level="model_checking", wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=replay_ok, samples=samples_ev[:12],
            exhaustive=tot["incomplete"] == 0 and tot["unsupported"] == 0 and tot["inconclusive"] == 0,
            explanation="states = symbolic paths of the real code executed to their end, each standing for every input that takes it; transitions = branch points where the solver found both ways possible; traces_validated_against_impl = paths whose solver-chosen inputs were run through the real compiled code with the same observations",
            assertions_checked=tot["checks"], assertions_decided_by_simplification=tot["trivial"], instructions=tot["instructions"],
            solver=solver, functions_encoded=len(funcs), functions=sorted(funcs)[:400],
            paths_cut_short=tot["unsupported"], inputs_of_cut_paths_run=cut_run[0], assertions_inconclusive=tot["inconclusive"], jobs_complete=tot["complete"], jobs_incomplete=tot["incomplete"],
            audit=dict(inputs_found_on_a_path=audit[0], inputs_lost=audit[1], explanation="64 fixed inputs of each completed job: each must satisfy the condition of a path that was followed"),
            covers=covers, jobs=jobs_ev, unconfirmed=unconfirmed[:10], translator_mismatches=mismatches[:10], violations=violations[:20], known=sorted(knowns)),
        assumptions=ASSUME)
    os.makedirs(os.path.join(xv.V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(xv.V, "evidence", A.id + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d assertions, %d queries, solver %.1f s, jobs %d complete %d incomplete, %d replayed, %d unconfirmed, %d mismatches, %d inconclusive, %d cut short, %.1f s" % (A.id, A.tier, tot["paths"], tot["checks"], solver["queries"], solver["seconds"], tot["complete"], tot["incomplete"], replay_ok, len(unconfirmed), len(mismatches), tot["inconclusive"], tot["unsupported"], wall))
    sys.exit(code)
ASSUME = ["inputs outside the templates of the jobs listed (longer texts, other shapes) are not covered",
    "the compiler's translation to LLVM IR, the engine's reading of it and z3 are trusted; sampled paths are replayed on the compiled code",
    "f64 arithmetic is IEEE-754 round-to-nearest; libm functions (sin, pow, ..) are unknown functions of their arguments, equal for equal arguments",
    "allocation never fails; hashing uses fixed keys"] + ([] if A.id in J.NO_FACT_SUMMARY else ["the factorial of an unknown number is an unknown function (its real code is decided under C14)"])

def main():
    global replays, replay_ok
    if A.id == "C22":
        for c in sorted({c.rstrip("!") for c, _ in groups}):
            r = xv.check_share(c)
            if r:
                path = os.path.join(rep_dir, "C22-share-%s.txt" % c); open(path, "w").write(r)
                violations.append("types cannot be shared between threads (%s)" % c); print("VIOLATION property=C22 replay=%s" % path, flush=True)
    irs = build_all()
    left = budget
    pend = list(groups)
    first_cfg = True
    while pend:
        cfg, js = pend.pop(0)
        fact_uf = A.id not in J.NO_FACT_SUMMARY and not cfg.endswith("!")
        cfg = cfg.rstrip("!")
        b = left / (len(pend) + 1)
        named = [("%d" % k, e, flat(p)) for k, (e, p) in enumerate(js)]
        ts = time.time()
        r = xv.run_engine(irs[cfg], named, b, fact_uf=fact_uf, samples=2, max_steps=60_000_000)
        left = max(5.0, left - (time.time() - ts))
        if not any(g[0].rstrip("!") == cfg for g in pend): os.unlink(irs[cfg])
        for k in ("queries", "exact_queries", "unknown", "cache_hits", "domain_decisions"): solver[k] += r["solver"][k]
        solver["seconds"] = round(solver["seconds"] + r["solver"]["seconds"], 3); solver["max_seconds"] = max(solver["max_seconds"], r["solver"]["max_seconds"]); solver["version"] = r["solver"]["version"]
        tot["instructions"] += r["solver"]["instructions"]
        funcs.update(xv.demangle(r["functions"]))
        for j, (e, p) in zip(r["jobs"], js):
            for k in ("paths", "killed", "forks", "checks", "trivial", "inconclusive", "unsupported"): tot[k] += j[k]
            tot["complete" if j["complete"] and not j["lost"] else "incomplete"] += 1
            audit[0] += j["audited"] if j["complete"] else 0; audit[1] += len(j["lost"])
            d = describe(e, p)
            for c, n in j["covers"].items(): covers[c] = covers.get(c, 0) + n
            jobs_ev.append(dict(config=cfg, job=d, complete=j["complete"], paths=j["paths"], pending=j["pending"], assertions=j["checks"], inconclusive=j["inconclusive"], cut_short=j["unsupported"], why=(list(j["unsupported_msgs"]) + j["inconclusive_msgs"])[:2]))
            if A.v or not j["complete"] or j["ncand"]: print("  %s %s %s paths=%d checks=%d inc=%d cut=%d cand=%d %s" % (cfg, d, "complete" if j["complete"] else "pending=%d" % j["pending"], j["paths"], j["checks"], j["inconclusive"], j["unsupported"], j["ncand"], (list(j["unsupported_msgs"]) + j["inconclusive_msgs"])[:2] or ""))
            seen = {}
            for n, c in enumerate(j["cands"]):
                key0 = (c["kind"], c["tag"])
                if seen.get(key0, 0) >= 6 or seen.get(("ok",) + key0): continue
                seen[key0] = seen.get(key0, 0) + 1
                path = os.path.join(tmp_dir, "c")
                open(path, "w").write(xv.case_text(e, flat(p), c["inputs"]))
                what = describe(e, p, c["inputs"])
                why = native(cfg, path, c["kind"])
                replays += 1
                if why is None: unconfirmed.append("%s %s: %s %s %s" % (cfg, what, c["kind"], c["tag"], c["msg"])); print("  UNCONFIRMED %s" % unconfirmed[-1]); continue
                seen[("ok",) + key0] = 1
                key = "%s|%s|%s" % (A.id, c["tag"] if c["kind"] == "check" else c["kind"], what)
                kn = [k for k in KNOWN if k[0] == key.replace(" ", "_")]
                if kn: knowns[key] = kn[0][1]; continue
                path2 = os.path.join(rep_dir, "%s-%s-%d.case" % (A.id, cfg, len(violations)))
                open(path2, "w").write("# %s, config %s: %s\n# %s %s %s\n# real code: %s\n# replay: %s %s\n" % (A.id, cfg, what, c["kind"], c["tag"], c["msg"], why, xv.replay_bin(cfg), path2) + xv.case_text(e, flat(p), c["inputs"]))
                violations.append("%s %s: %s %s; %s" % (cfg, what, c["kind"], c["tag"], why))
                if len(violations) <= 10: print("VIOLATION property=%s replay=%s\n  %s" % (A.id, path2, violations[-1]), flush=True)
            # inputs the exploration lost (an error of the engine): the job counts as incomplete, the real code judges them
            for c in j["lost"]: mismatches.append("%s %s: lost" % (cfg, describe(e, p, c))); print("  LOST %s" % mismatches[-1]); j["cuts"].append(c)
            # paths the engine could not follow to their end: at least some of their inputs, on the real code
            if j["cuts"] and not violations and cut_time[0] < 60:
                rb = xv.build_replay(cfg); tc = time.time()
                for n, c in enumerate(j["cuts"]):
                    if time.time() - tc > 20: break
                    path = os.path.join(tmp_dir, "u"); open(path, "w").write(xv.case_text(e, flat(p), c))
                    rc, out, err = xv.run_case(rb, path)
                    cut_run[0] += 1
                    if rc in (0, 3): continue
                    what = "%s %s: %s %s" % (cfg, describe(e, p, c), [l for l in out if l.startswith(("check", "panic", "values"))][:4] or "exit %d" % rc, (err.strip().splitlines() or [""])[-1][:200])
                    path2 = os.path.join(rep_dir, "%s-%s-u%d.case" % (A.id, cfg, len(violations))); shutil.copy(path, path2)
                    violations.append(what); print("VIOLATION property=%s replay=%s\n  %s" % (A.id, path2, what), flush=True)
                    break
                cut_time[0] += time.time() - tc
            # the translation against the real code
            if not violations and j["samples"]:
                rb = xv.build_replay(cfg)
                for s in j["samples"]:
                    path = os.path.join(tmp_dir, "s"); open(path, "w").write(xv.case_text(e, flat(p), s["inputs"]))
                    rc, out, err = xv.run_case(rb, path)
                    replays += 1
                    m = compare(s, out, str(p)) if rc == 0 else "real code: exit %d %s %s" % (rc, [l for l in out if not l.startswith("cover")][:6], err.strip().splitlines()[-1:])
                    if m is None:
                        replay_ok += 1
                        if len(samples_ev) < 12 and (len(samples_ev) < 4 or s["outs"]): samples_ev.append(dict(config=cfg, case=describe(e, p, s["inputs"]), observed=out[:6]))
                    elif rc in (1, 2):
                        # a path the engine found clean fails for real: the real code is the judge
                        path2 = os.path.join(rep_dir, "%s-%s-s%d.case" % (A.id, cfg, len(violations))); shutil.copy(path, path2)
                        mismatches.append("%s %s: %s" % (cfg, describe(e, p, s["inputs"]), m)); print("  MISMATCH %s" % mismatches[-1])
                        violations.append(mismatches[-1]); print("VIOLATION property=%s replay=%s\n  %s" % (A.id, path2, violations[-1]), flush=True)
                    else: mismatches.append("%s %s: %s" % (cfg, describe(e, p, s["inputs"]), m)); print("  MISMATCH %s" % mismatches[-1])
    for k, w in knowns.items(): print("KNOWN-FINDING: property=%s %s" % (A.id, w))
    if violations: finish(1)
    # nothing was explored at all: no verdict
    if tot["paths"] == 0 or (tot["unsupported"] > 0 and not covers): print("no path could be explored"); finish(2)
    finish(0)
try: main()
except xv.BuildError as e:
    print("BUILD ERROR\n%s" % e); shutil.rmtree(tmp_dir, ignore_errors=True); sys.exit(2)
