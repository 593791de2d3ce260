#!/usr/bin/env python3
"""Driver of the solver-based checks of walky.

usage: check.py <property id> [quick|thorough]      decide one property
       check.py --build                             build the engine and the harnesses
       check.py --replay <file>                     replay a recorded counterexample natively

Every run compiles /repo's current source (with the harnesses and the dependency stubs) to LLVM IR,
explores the entry points listed in props.py with the symbolic executor (engine/) and the SMT solver,
and replays every counterexample natively before it is reported.
"""
import fcntl, glob, hashlib, json, os, random, re, resource, shutil, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
import props  # noqa: E402

SYM = f"{V}/engine/target/release/symwalk"
WORK = f"{V}/work"
WORKERS = max(2, min(8, os.cpu_count() or 2))
MEM = 3_600 << 20
VARIANTS = {"plain": ("target", []), "mpi": ("target-mpi", ["--features", "mpi"]), "gen": ("target-gen", ["--features", "gen"])}
T0 = time.time()


def env():
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", "target-mpi", "work", ".git", "seeded", "evidence", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(r, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, d).encode() + b"\0")
                h.update(open(p, "rb").read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def sh(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        i = p.stdout.find("\nerror")
        raise BuildError(f"{what} failed:\n" + (p.stdout[i:i + 4000] if i >= 0 else p.stdout[-4000:]))
    return p.stdout


def build_engine():
    key = tree_hash(f"{V}/engine/src", f"{V}/engine/Cargo.toml")
    kf = f"{WORK}/engine.key"
    if os.path.exists(SYM) and os.path.exists(kf) and open(kf).read() == key:
        return
    sh(["cargo", "build", "--release", "--offline"], f"{V}/engine", env(), "building the engine")
    open(kf, "w").write(key)


def ll(variant):
    return f"{WORK}/{variant}.ll"


def native(variant):
    return f"{WORK}/walkyh-{variant}"


def model_pthreads(f):
    """threads of the standard library become threads of the executor (harness/src/sym.rs)"""
    text = open(f, errors="surrogateescape").read()
    call = re.compile(r"^( +.*call )([^@\n]*)@pthread_(create|join|detach|attr_init|attr_destroy|attr_setstacksize|attr_setguardsize|setname_np)\(([^\n]*)$", re.M)
    decl = set()

    def sub(m):
        k = m.group(3)
        if k in ("create", "join"):
            return f"{m.group(1)}{m.group(2)}@__sym_pthread_{k}({m.group(4)}"
        attrs = re.search(r"\)( [^)]*)$", m.group(4))
        return f"{m.group(1)}noundef i32 @__sym_pthread_other(){attrs.group(1) if attrs else ''}"

    out, skip = [], False
    for l in text.splitlines(keepends=True):
        if l.startswith("define "):
            n = re.search(r'@("?[^"(]+"?)\(', l).group(1)
            skip = "__sym_" in n or "6walkyh3sym" in n
        elif not skip and "@pthread_" in l and not l.startswith("declare"):
            l = call.sub(sub, l)
        out.append(l)
    open(f, "w", errors="surrogateescape").write("".join(out))


def build_mt():
    """The plain harness, with a switch point before every atomic operation in code of walky, and
    with the system calls of the code under test (futex, yield) going to the model of the
    scheduler. The same module is compiled for native replays."""
    kf = f"{WORK}/mt.key"
    key = open(f"{WORK}/plain.key").read() + tree_hash(os.path.abspath(__file__))
    if os.path.exists(ll("mt")) and os.path.exists(native("mt")) and os.path.exists(kf) and open(kf).read() == key:
        return
    atomic = re.compile(r"^\s+(%\S+ = )?(tail )?(load atomic|store atomic|cmpxchg|atomicrmw|fence)\b")
    out, skip, mine = [], False, False
    for l in open(ll("plain"), errors="surrogateescape"):
        if l.startswith("define "):
            name = re.search(r'@("?[^"(]+"?)\(', l).group(1)
            skip = "__sym_" in name or "6walkyh3sym" in name
            mine = "5walky" in name
        elif l.startswith("}"):
            skip = mine = False
        elif not skip and not l.startswith("declare"):
            if mine and atomic.match(l) and "GLOBAL_PANIC_COUNT" not in l:
                out.append("  call void @__sym_yield()\n")
            l = l.replace("@syscall(", "@__sym_syscall(")
        out.append(l)
    open(ll("mt"), "w", errors="surrogateescape").writelines(out)
    llc = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/llc"))
    rt = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/lib/libcompiler_builtins-*.rlib"))
    if not llc or not rt:
        raise BuildError("llc or compiler_builtins of the stable toolchain not found")
    obj = f"{WORK}/mt.o"
    sh([llc[0], "-O1", "-filetype=obj", "-relocation-model=pic", ll("mt"), "-o", obj], WORK, env(), "llc")
    sh(["cc", obj, rt[0], "-o", native("mt"), "-lgcc_s", "-lm", "-lpthread", "-ldl"], WORK, env(), "linking the threads variant")
    os.unlink(obj)
    open(kf, "w").write(key)


def build_harness(variant):
    if variant == "mt":
        build_harness("plain")
        return build_mt()
    tgt, feats = VARIANTS[variant]
    h = f"{V}/harness"
    key = tree_hash(REPO, f"{h}/src", f"{h}/build.rs", f"{h}/Cargo.toml", f"{h}/Cargo.lock", f"{V}/stubs") + tgt
    kf = f"{WORK}/{variant}.key"
    if os.path.exists(ll(variant)) and os.path.exists(native(variant)) and os.path.exists(kf) and open(kf).read() == key:
        return
    t = f"{h}/{tgt}"
    # always recompile walky and the harness, whatever the time stamps say
    for pat in ("walky-*", "walkyh-*"):
        for d in glob.glob(f"{t}/release/.fingerprint/{pat}"):
            shutil.rmtree(d, ignore_errors=True)
    for d in glob.glob(f"{t}/release/deps/walkyh-*"):
        os.unlink(d)
    e = env()
    e["RUSTFLAGS"] = "-Ctarget-cpu=x86-64 -Csave-temps -Cno-vectorize-loops -Cno-vectorize-slp"
    e["CARGO_TARGET_DIR"] = t
    lock = open(f"{h}/Cargo.lock").read()
    try:
        sh(["cargo", "build", "--release", "--offline"] + feats, h, e, f"building the {variant} harness")
    finally:
        if open(f"{h}/Cargo.lock").read() != lock:
            open(f"{h}/Cargo.lock", "w").write(lock)
    bc = glob.glob(f"{t}/release/deps/walkyh-*cgu.0.rcgu.bc")
    if len(bc) != 1:
        raise BuildError(f"expected one bitcode file, found {bc}")
    opt = glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/opt"))
    if not opt:
        raise BuildError("opt of the stable toolchain not found")
    sh([opt[0], "-S", "--strip-debug", bc[0], "-o", ll(variant)], h, e, "opt")
    model_pthreads(ll(variant))
    shutil.copy2(f"{t}/release/walkyh", native(variant))
    for f in glob.glob(f"{t}/release/deps/walkyh-*.bc") + glob.glob(f"{t}/release/deps/walkyh-*.o"):
        os.unlink(f)
    open(kf, "w").write(key)


def build(variants):
    os.makedirs(WORK, exist_ok=True)
    with open(f"{WORK}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine()
        for v in variants:
            build_harness(v)


# ---------------------------------------------------------------------------------- running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM + (1 << 30), MEM + (1 << 30)))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Runner:
    def __init__(self, pid, tier, deadline):
        self.pid, self.tier, self.deadline = pid, tier, deadline
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()

    def engine(self, c, shard):
        """one symbolic execution; returns the report or an error text"""
        rest = self.deadline - time.time()
        if self.stop.is_set():
            return None
        if rest < 3:
            return "not started before the deadline"
        to = min(c.get("to", 600), rest)
        variant = c.get("variant", "plain")
        cmd = [SYM, "--ll", ll(variant), "--entry", c["h"], "--param", ",".join(map(str, c["p"])), "--timeout", f"{to:.0f}", "--steps", "150000000"]
        cmd += c.get("flags", [])
        if variant == "mt":
            cmd += ["--no-atomics", "--ncpu", str(c.get("ncpu", 2)), "--preempt", str(c.get("preempt", 0)), "--switches", str(c.get("switches", 0))]
        if shard[1] > 1:
            cmd += ["--shard", f"{shard[0]}/{shard[1]}"]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits)
        with self.lock:
            self.procs.add(p)
        try:
            out, err = p.communicate(timeout=to + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "the solver did not answer in time"
        finally:
            with self.lock:
                self.procs.discard(p)
        if self.stop.is_set():
            return None
        try:
            return json.loads(out)
        except ValueError:
            return f"engine ended with {p.returncode}: {(err or out)[-300:].strip()}"

    def kill(self):
        self.stop.set()
        with self.lock:
            for p in self.procs:
                p.kill()


def replay_file(c, v, k, pid):
    d = f"{WORK}/replays"
    os.makedirs(d, exist_ok=True)
    f = f"{d}/{pid}-{k}.trace"
    with open(f, "w") as o:
        o.write(f"# property {pid}\n# variant {c.get('variant', 'plain')}\n# harness {c['h']}\n# params {','.join(map(str, c['p']))}\n")
        for q in ("ncpu", "preempt", "switches"):
            if q in c:
                o.write(f"# {q} {c[q]}\n")
        o.write(f"# kind {v.get('kind', 'sample')}\n# what {v.get('what', '')}\n")
        o.write("# replay with: ./check.py --replay <this file>\n")
        for l in v.get("notes", []):
            o.write(f"# note {l}\n")
        for l in v.get("stack", []):
            o.write(f"# at {l}\n")
        for l in v["trace"]:
            o.write(l + "\n")
    return f


def run_native(c, trace, timeout=20, wrap=None, scale=None):
    """replay a trace against the compiled code; returns (verdict, detail)"""
    scratch = f"{WORK}/native-{os.getpid()}-{threading.get_ident()}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    res = f"{scratch}/result"
    try:
        cmd = (wrap or []) + [native(c.get("variant", "plain")), c["h"], ",".join(map(str, c["p"])), trace, res]
        e = dict(os.environ)
        if "ncpu" in c:
            cpus = sorted(os.sched_getaffinity(0))[: c["ncpu"]]
            cmd = ["taskset", "-c", ",".join(map(str, cpus))] + cmd
            e["WALKY_PREEMPT"], e["WALKY_SWITCHES"] = str(c.get("preempt", 0)), str(c.get("switches", 0))
        if scale is not None:
            e["WALKY_SCALE"] = repr(scale)
        try:
            p = subprocess.run(cmd, cwd=scratch, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            return "hang", f"no end after {timeout} s"
        lines = open(res, errors="replace").read().splitlines() if os.path.exists(res) else []
        for l in lines:
            if l.startswith("VIOLATED ") or l.startswith("PANIC "):
                return "violated", l
        if rc == 99 and wrap:
            return "violated", "invalid memory access"
        if any(l.startswith("ASSUME") for l in lines):
            return "assume", "the input is outside the assumptions"
        if any(l.startswith("ALLOWEDPANIC") for l in lines):
            return "ok", "allowed panic"
        if rc != 0:
            return "violated", f"the process ended with {rc}: {p.stderr[-200:].decode(errors='replace')}"
        if "DONE" in lines:
            return "ok", "; ".join(l for l in lines if l.startswith("REACH"))
        return "odd", "; ".join(lines)[-300:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def numeric_fill(c, f):
    """The terms differ, but a model of uninterpreted operations need not show it: look for numbers
    for which the difference shows."""
    rnd = random.Random(1)
    base = open(f).read().splitlines()
    for k in range(150):
        if c.get("variant") == "gen":
            # numbers from [0, 1), close to each other, on a grid or arbitrary
            mid, eps = rnd.random(), 10.0 ** -rnd.choice((3, 5, 7, 9, 12, 14, 16))
            num = lambda: min(max([rnd.random(), mid + rnd.uniform(-1, 1) * eps, rnd.randint(0, 4) / 8, rnd.choice((mid, 0.0, 0.5))][rnd.choice((1, k % 4, k % 4))], 0.0), 1.0 - 2.0 ** -53)
        else:
            big = 10.0 ** rnd.choice((0, 3, 6, 9, 15, 100))
            num = lambda: [rnd.uniform(-1, 1) * big, big + rnd.uniform(-1, 1), float(rnd.randint(-9, 9)), rnd.choice((0.0, -0.0, 0.1, 1.0))][rnd.choice((0, 1, k % 4))]
        g = [l if not l.startswith("f ") else "f " + str(struct.unpack("<Q", struct.pack("<d", num()))[0]) for l in base]
        open(f, "w").write("\n".join(g) + "\n")
        r, d = run_native(c, f)
        if r == "violated":
            return d
    open(f, "w").write("\n".join(base) + "\n")
    return None


def confirm(c, v, f):
    """does the compiled code really misbehave on this input?"""
    if "rounding errors aside" in v["what"]:
        # rounding depends on the last bits of the costs: try the same costs at several scales
        for q in (1 / 3, 0.1, 0.7, 1 / 7, 1.1, 3.3, 0.01, 1e-5 / 3, 9.7, 1 / 11, 1 / 13, 0.9):
            r, d = run_native(c, f, scale=q)
            if r == "violated" and "rounding errors aside" in d:
                with open(f, "a") as o:
                    o.write(f"# scale {q!r}\n")
                return True, d
        return False, "no scale of the costs shows the error"
    r, d = run_native(c, f)
    if r == "violated":
        return True, d
    if "--uf" in c.get("flags", []):
        d = numeric_fill(c, f)
        return (True, d) if d else (False, "no numbers show the difference of the terms")
    if r == "hang" and v["kind"] in ("deadlock", "steplimit"):
        return True, d
    if v["kind"] == "memory" and r in ("ok", "odd") and shutil.which("valgrind"):
        r, d = run_native(c, f, 120, ["valgrind", "-q", "--error-exitcode=99"])
        if r == "violated":
            return True, d
    return False, f"{r}: {d}"


def known_findings(pid):
    out = []
    f = f"{V}/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def check(pid, tier):
    p = props.PROPS[pid]
    cfgs = [c for c in p["cfgs"] if tier == "thorough" or not c.get("thorough")]
    if tier == "thorough":
        cfgs = [c for c in cfgs if not c.get("quick_only")]
    budget = 840 if tier == "quick" else 3 * 3600
    soft = p.get("soft", 560) if tier == "quick" else 2 * 3600
    variants = []
    for c in cfgs:
        v = c.get("variant", "plain")
        if v not in variants:
            variants.append(v)
    try:
        build(variants)
    except BuildError as e:
        print(f"ERROR: {e}")
        return 2
    tb = time.time()
    r = Runner(pid, tier, min(T0 + budget - 60, tb + soft))
    jobs = []
    for c in cfgs:
        n = c.get("shards", 1)
        for k in range(n):
            jobs.append((c, (k, n)))
    # long jobs first
    jobs.sort(key=lambda j: -j[0].get("w", 1) / j[1][1])
    known = known_findings(pid)
    viol, knownhit, incomplete, reports = [], [], [], []
    mu = threading.Lock()
    count = [0]

    def work(job):
        c, shard = job
        name = f"{c['h']}({','.join(map(str, c['p']))})" + "".join(f" {q} {c[q]}" for q in ("ncpu", "preempt", "switches") if q in c) + (f" {' '.join(c['flags'])}" if c.get("flags") else "") + (f" shard {shard[0]}/{shard[1]}" if shard[1] > 1 else "")
        try:
            rep = r.engine(c, shard)
        except Exception as e:  # noqa: BLE001
            rep = f"{type(e).__name__}: {e}"
        if rep is None:
            return
        if isinstance(rep, str):
            with mu:
                incomplete.append((name, rep))
            return
        bad = []
        for v in rep["violations"]:
            with mu:
                count[0] += 1
                k = count[0]
            f = replay_file(c, v, k, pid)
            if r.stop.is_set():
                return
            ok, d = confirm(c, v, f)
            if not ok:
                bad.append(f"counterexample not reproduced natively ({v['kind']} {v['what']}: {d})")
                continue
            hit = [t for m, t in known if m in f"{c['h']} {v['what']} {d}"]
            with mu:
                if hit:
                    knownhit.append((hit[0], f))
                else:
                    viol.append((f, v, d, name))
                    r.kill()
                    return
        for i, v in enumerate(rep.get("suspects", [])[:12]):
            if r.stop.is_set():
                return
            with mu:
                count[0] += 1
                k = count[0]
            f = replay_file(c, v, k, pid)
            # the code may leave the model of the threads here: let the real scheduler run it
            if run_native(dict(c, variant="plain") if c.get("variant") == "mt" else c, f)[0] == "violated" or (i == 0 and "--uf" in c.get("flags", []) and numeric_fill(c, f)):
                with mu:
                    viol.append((f, v, "found while replaying a path the engine could not follow", name))
                    r.kill()
                    return
            os.unlink(f)
        nval = 0
        samples = []
        for v in rep.get("samples", [])[:2]:
            if r.stop.is_set():
                return
            with mu:
                count[0] += 1
                k = count[0]
            f = replay_file(c, v, f"s{k}", pid)
            q, d = run_native(c, f)
            if q == "ok":
                nval += 1
                samples.append({"harness": name, "input": v["trace"][:40], "native": d})
            elif q == "assume":
                pass
            else:
                bad.append(f"a sample path behaves differently natively: {q} {d}")
            os.unlink(f)
        if rep["truncated"]:
            bad.append("exploration truncated by its time limit")
        if rep["unknown"]:
            bad.append(f"{rep['unknown']} solver queries without an answer")
        bad += rep["errors"]
        if shard[1] == 1 and not rep["violations"]:
            for w in c.get("reach", []):
                if not rep["reach"].get(w):
                    bad.append(f"reachability witness '{w}' missing")
        with mu:
            reports.append((c, name, rep, nval, samples, not bad))
            for b in bad:
                incomplete.append((name, b))

    with ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(work, jobs))
    # witnesses of sharded configurations
    if not viol:
        for c in cfgs:
            if c.get("shards", 1) > 1:
                rs = [x for x in reports if x[0] is c]
                for w in c.get("reach", []):
                    if not sum(x[2]["reach"].get(w, 0) for x in rs):
                        incomplete.append((c["h"], f"reachability witness '{w}' missing"))
    wall = time.time() - T0
    S = lambda k: sum(x[2][k] for x in reports)
    funcs = sorted({f for x in reports for f in x[2]["functions"]})
    checks = {}
    for x in reports:
        for k, s in x[2]["checks"].items():
            t = checks.setdefault(k, dict(reached=0, trivial=0, solver=0, violated=0))
            for q in t:
                t[q] += s[q]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": S("paths"),
            "transitions": S("instructions"),
            "traces_validated_against_impl": sum(x[3] for x in reports),
            "samples": [s for k in (0, 1) for x in reports for s in x[4][k:k + 1]][:12],
            "what_is_counted": "states: explored path classes (each decided for all values of its symbolic inputs); transitions: LLVM instructions executed symbolically",
            "configurations": len(reports),
            "configurations_complete": sum(1 for x in reports if x[5]),
            "runs": [{"run": x[1], "paths": x[2]["paths"], "forks": x[2]["forks"], "queries": x[2]["queries"], "solver_s": x[2]["solver_s"], "wall_s": x[2]["wall_s"], "symbolic_variables": x[2]["symbolic_variables"], "outcomes": x[2]["outcomes"], "reach": x[2]["reach"], "complete": x[5]} for x in reports],
            "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"),
            "solver_s": round(S("solver_s"), 3),
            "solver": next((x[2]["solver"] for x in reports), ""),
            "functions_encoded": funcs,
            "functions_executed_total": max([x[2]["functions_total"] for x in reports] or [0]),
            "assertions": checks,
            "bounds": p["bounds"],
            "outside_the_bounds": p.get("outside", ""),
            "incomplete": [f"{a}: {b}" for a, b in incomplete][:50],
            "exhaustive": not incomplete,
        },
        "assumptions": props.COMMON + p.get("assume", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    tmp = f"{V}/evidence/.{pid}.{os.getpid()}"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{V}/evidence/{pid}.json")
    for t, f in {t: f for t, f in knownhit}.items():
        print(f"KNOWN-FINDING: property={pid} {t}")
    if viol:
        f, v, d, name = viol[0]
        print(f"{name}: {v['kind']} {v['what']} [{d}]")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    for a, b in incomplete[:20]:
        print(f"INCOMPLETE {a}: {b}")
    done = sum(1 for x in reports if x[5])
    print(f"{pid}: {done}/{len(jobs)} runs complete, {S('paths')} paths, {S('queries')} queries ({S('unknown')} unknown), solver {S('solver_s'):.1f} s, build {tb - T0:.1f} s, wall {time.time() - T0:.1f} s")
    if done == 0:
        print("ERROR: nothing could be decided")
        return 2
    return 0


def replay(f):
    h = {}
    for l in open(f):
        if l.startswith("# "):
            a = l[2:].rstrip("\n").split(" ", 1)
            h.setdefault(a[0], a[1] if len(a) > 1 else "")
    c = {"variant": h["variant"], "h": h["harness"], "p": h["params"].split(",")}
    c.update({q: int(h[q]) for q in ("ncpu", "preempt", "switches") if q in h})
    build([c["variant"]])
    print(*run_native(c, f, scale=float(h["scale"]) if "scale" in h else None))
    return 0


def main(a):
    if a[:1] == ["--build"]:
        try:
            build(["plain", "mt", "mpi", "gen"] if len(a) < 2 else a[1:])
        except BuildError as e:
            print(e)
            return 2
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print(f"ERROR: {type(e).__name__}: {e}")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
