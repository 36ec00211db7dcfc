"""Building the engine, the harness IR and the native replay binaries; running jobs; replaying candidates."""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
# configuration: toolchain, features
CONFIGS = {
    "p": (STABLE, "pemdas"), "j": (STABLE, "pejmdas"), "po": (STABLE, "pemdas,opt"), "jo": (STABLE, "pejmdas,opt"),
    "npo": (NIGHTLY, "pemdas,opt"), "np": (NIGHTLY, "pemdas"), "njo": (NIGHTLY, "pejmdas,opt"),
    # with the REPL's code over a stand-in terminal
    "pr": (STABLE, "pemdas,repl"), "por": (STABLE, "pemdas,opt,repl"),
}
class BuildError(Exception): pass

def sh(cmd, cwd=None, env=None, timeout=None, check=True):
    e = dict(os.environ); e.pop("RUSTFLAGS", None)
    if env: e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if check and r.returncode != 0: raise BuildError("%s\nexit %d\n%s" % (" ".join(cmd), r.returncode, (r.stdout[r.stdout.find("\nerror"):] if "\nerror" in r.stdout else r.stdout)[-5000:]))
    return r

def toolchains():
    return sorted(os.listdir(os.path.expanduser("~/.rustup/toolchains")))
def toolchain(t):
    """the pinned toolchain, or one of the same channel"""
    have = toolchains()
    if t in have: return t
    ch = t.split("-")[0]
    c = [x for x in have if x.startswith(ch)]
    if not c: raise BuildError("no %s toolchain in %s" % (ch, have))
    return c[-1]
def opt_bin():
    return os.path.expanduser("~/.rustup/toolchains/%s/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt" % toolchain(STABLE))

class Lock:
    def __init__(self, name): os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, name + ".lock"), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build_engine():
    with Lock("engine"):
        sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=V + "/engine", env={"RUSTUP_TOOLCHAIN": toolchain(STABLE), "CARGO_TARGET_DIR": B + "/engine"})
    return B + "/engine/release/symx"

def cargo_env(cfg):
    return {"RUSTUP_TOOLCHAIN": toolchain(CONFIGS[cfg][0]), "CARGO_TARGET_DIR": os.path.join(B, "h-" + cfg), "CARGO_TERM_COLOR": "never"}

REPO = "/repo"
def forget_stale(root):
    """makes cargo build /repo's crate again if any file of it has another content than last time (cargo only looks at times)"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            p = os.path.join(d, f); h.update(p.encode())
            if os.path.isfile(p): h.update(open(p, "rb").read())
    mark = os.path.join(root, "repo.sha256")
    if os.path.exists(mark) and open(mark).read() == h.hexdigest(): return
    for p in glob.glob(root + "/*/.fingerprint/xprs-*"): shutil.rmtree(p)
    os.makedirs(root, exist_ok=True); open(mark, "w").write(h.hexdigest())

def build_ir(cfg, entries):
    """LLVM IR of the harness entries with the current /repo, regenerated on every call"""
    env = cargo_env(cfg)
    with Lock("h-" + cfg):
        forget_stale(env["CARGO_TARGET_DIR"])
        root = os.path.join(env["CARGO_TARGET_DIR"], "debug")
        find = lambda: [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs if f.startswith("harness") and f.endswith(".lto.after-restriction.bc")]
        for f in find(): os.unlink(f)
        feats = CONFIGS[cfg][1]
        # touching the library forces cargo to produce the bitcode again
        os.utime(V + "/harness/src/lib.rs")
        sh(["cargo", "rustc", "--offline", "--quiet", "--lib", "--crate-type", "cdylib", "--features", feats, "--",
            "-Csave-temps", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], cwd=V + "/harness", env=env)
        bc = find()
        if len(bc) != 1: raise BuildError("expected one bitcode file, found %s" % bc)
        ll = os.path.join(B, "ir-%s-%s.ll" % (cfg, os.getpid()))
        sh([opt_bin(), "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,dce)", "-internalize-public-api-list=" + ",".join(sorted(entries)), "-S", bc[0], "-o", ll])
    return ll

BUILT = {}
def build_replay(cfg, profile="rdev"):
    if (cfg, profile) not in BUILT: BUILT[cfg, profile] = build_replay1(cfg, profile)
    return BUILT[cfg, profile]
def build_replay1(cfg, profile):
    env = cargo_env(cfg)
    with Lock("h-" + cfg):
        forget_stale(env["CARGO_TARGET_DIR"])
        sh(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--features", CONFIGS[cfg][1], "--bin", "replay"], cwd=V + "/harness", env=env)
    return os.path.join(env["CARGO_TARGET_DIR"], profile, "replay")

def replay_bin(cfg, profile="rdev"): return os.path.join(B, "h-" + cfg, profile, "replay")

def check_share(cfg):
    """the compiler's complaint when a type cannot be shared between threads, or None"""
    env = cargo_env(cfg)
    with Lock("h-" + cfg):
        forget_stale(env["CARGO_TARGET_DIR"])
        r = sh(["cargo", "check", "--offline", "--quiet", "--lib", "--features", CONFIGS[cfg][1] + ",share"], cwd=V + "/harness", env=env, check=False)
    if r.returncode == 0: return None
    if "E0277" in r.stdout and ("cannot be sent between threads" in r.stdout or "cannot be shared between threads" in r.stdout): return r.stdout[-6000:]
    raise BuildError(r.stdout[-6000:])

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True) if __import__("shutil").which("c++filt") else None
    out = r.stdout.split("\n") if r else names
    return sorted({re.sub(r"::h[0-9a-f]{16}$", "", n) for n in out if n})

def alphabets():
    src = open(V + "/harness/src/util.rs").read()
    src = src[src.index("pub const AL"):]; src = src[src.index("= &["):src.index("];")]
    out = []
    for m in re.finditer(r'^\s+b"((?:[^"\\]|\\.)*)"', src, re.M): out.append(m.group(1).encode().decode("unicode_escape").encode("latin1"))
    return out

# ---------------------------------------------------------------- templates
def T(s):
    """text template: {n} is a byte out of alphabet n"""
    out = bytearray(); i = 0
    while i < len(s):
        m = re.match(r"\{(\d+)\}", s[i:])
        if m: out.append(0x80 + int(m.group(1))); i += m.end()
        else: out += s[i].encode(); i += 1
    n = len(out)
    out += b"\0" * (-n % 8)
    return [n] + [struct.unpack("<Q", out[k:k + 8])[0] for k in range(0, len(out), 8)]

def bits_f64(b): return struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]

def run_engine(ll, jobs, budget, threads=8, max_cands=40, max_steps=20_000_000, samples=3, timeout=5000, timeout_exact=10000, fact_uf=False, out=None):
    out = out or os.path.join(B, "res-%d.json" % os.getpid())
    cmd = [B + "/engine/release/symx", ll, "--threads", str(threads), "--budget", "%.1f" % budget, "--max-cands", str(max_cands), "--max-steps", str(max_steps),
           "--samples", str(samples), "--timeout", str(timeout), "--timeout-exact", str(timeout_exact), "--out", out]
    if fact_uf: cmd.append("--fact-uf")
    for name, entry, params in jobs: cmd += ["--job", "%s=%s:%s" % (name, entry, ",".join(map(str, params)))]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget + 60)
    except subprocess.TimeoutExpired:
        # the solver did not come back: nothing is decided
        z = dict(paths=0, killed=0, forks=0, checks=0, trivial=0, events=0, instructions=0, pending=1, inconclusive=0, inconclusive_msgs=["the solver did not answer in time"], unsupported=0, unsupported_msgs={}, covers={}, ncand=0, cands=[], cuts=[], audited=0, lost=[], samples=[], complete=False)
        return dict(solver=dict(queries=0, exact_queries=0, unknown=0, seconds=0.0, max_seconds=0.0, cache_hits=0, domain_decisions=0, version="", instructions=0), functions=[], functions_total=0, jobs=[dict(z, name=n) for n, _, _ in jobs])
    if r.returncode != 0: raise BuildError("engine: exit %d\n%s" % (r.returncode, r.stdout[-3000:]))
    d = json.load(open(out)); os.unlink(out)
    return d

def case_text(entry, params, inputs):
    s = "entry %s\n" % entry + "".join("param %d\n" % p for p in params)
    return s + "".join("in %d %s\n" % (i[0], i[2]) for i in inputs)

def run_case(binary, path, threads=1, timeout=60, wrap=None):
    """(exit code, output lines)"""
    cmd = (wrap or []) + [binary, path] + ([str(threads)] if threads > 1 else [])
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return -999, [], "timeout"
    return r.returncode, r.stdout.splitlines(), r.stderr
