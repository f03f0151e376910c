#!/usr/bin/env python3
"""Decides one property: check.py <id> [--tier quick|thorough] [--only ENTRY] [--keep]

Compiles the harness and the real sources of /repo to LLVM IR, executes every
entry symbolically with symex/vsx, replays each counterexample natively against
the same sources, and writes evidence/<id>.json.
Exit 0 held on everything explored, 1 VIOLATION printed, 2 no answer."""
import sys, os, json, subprocess, time, shutil, itertools, hashlib, re, threading
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks as T

CLANG, LINK, OPT = "clang++-18", "llvm-link-18", "opt-18"
NPROC = os.cpu_count() or 4


def sh(cmd, timeout=600, env=None, cwd=None):
    if STOP:
        return -998, "", "stopped"
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd)
    RUNNING.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return -999, o.decode("utf8", "replace"), "timeout"
    finally:
        RUNNING.discard(p)


RUNNING, STOP = set(), []


def stop_all():
    STOP.append(1)
    for p in list(RUNNING):
        try:
            p.kill()
        except OSError:
            pass


class NoAnswer(Exception):
    pass


def build_engine():
    """the engine is built from symex/, once per content"""
    h = hashlib.sha1()
    d = os.path.join(V, "symex")
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    out = os.path.join(V, ".build", "engine-" + h.hexdigest()[:12])
    exe = os.path.join(out, "vsx")
    if not os.path.exists(exe):
        tmp = out + ".%d" % os.getpid()
        rc, o, e = sh(["make", "-j%d" % NPROC, "-C", d, "OUT=" + tmp], 900)
        if rc:
            raise NoAnswer("engine build failed: " + e[-2000:])
        os.makedirs(out, exist_ok=True)
        os.replace(os.path.join(tmp, "vsx"), exe)
        shutil.rmtree(tmp)
    return exe


class Unit:
    """one linked module: a harness plus the repository sources it exercises"""

    def __init__(self, u, bdir):
        self.u, self.d = u, os.path.join(bdir, u["name"])
        os.makedirs(self.d, exist_ok=True)
        self.bc = os.path.join(self.d, "all.bc")
        self.gen = None
        self.lock = threading.Lock()

    def incs(self, native):
        r = []
        if not native:
            r += ["-I" + os.path.join(V, "shim")]
        for s in self.u.get("shims", []):
            r += ["-I" + os.path.join(V, "shim-" + s)]
        r += ["-I" + os.path.join(V, "symex"), "-I" + os.path.join(V, "harness")]
        r += ["-I" + REPO + "/" + x for x in ("src/include", "src/svr_training")] + ["-I" + REPO, "-I/usr/include/libsvm"]
        if native and self.gen:
            r += ["-I" + self.gen]
        if not native and self.u.get("protobuf"):
            r += ["-I" + os.path.join(self.d, "gen-ir")]
        return r

    def sources(self, native):
        s = [os.path.join(V, "harness", self.u["harness"])]
        s += [os.path.join(REPO, x) for x in self.u["repo"]]
        s += [os.path.join(V, x) for x in self.u.get("stubs", [])]
        if not native:
            s += [os.path.join(V, "rt", x) for x in self.u.get("rt", ["rt.cpp"])]
        return s

    def flags(self):
        return ["-std=c++17", "-DNDEBUG", "-DARMA_DONT_USE_WRAPPER", "-DARMA_DONT_USE_OPENMP", "-ffp-contract=off", "-Wno-everything" , "-w"] + self.u.get("cflags", [])

    def build_ir(self, pool):
        cf = [CLANG] + self.flags() + [self.u.get("opt", "-O2"), "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-access-control", "-fno-pic", "-fno-pie", "-include", V + "/symex/prelude.h", "-DVSX_IR"] + self.u.get("irflags", []) + self.incs(False) + ["-emit-llvm", "-c"]
        objs, futs = [], []
        if self.u.get("protobuf"):
            rc, o, e = sh([sys.executable, V + "/tools/protoshim.py", REPO + "/src/proto", self.d + "/gen-ir/src/proto"])
            if rc:
                raise NoAnswer("protoshim: " + e[-2000:])
        for s in self.sources(False):
            o = os.path.join(self.d, os.path.basename(s) + ".bc")
            objs.append(o)
            extra = self.u.get("perfile", {}).get(os.path.basename(s), [])
            futs.append(pool.submit(sh, cf + extra + [s, "-o", o]))

        def fin():
            for s, f in zip(self.sources(False), futs):
                rc, o, e = f.result()
                if rc:
                    raise NoAnswer("cannot compile %s: %s" % (s, e[-3000:]))
            rc, o, e = sh([LINK] + objs + ["-o", self.bc])
            if rc:
                raise NoAnswer("llvm-link: " + e[-2000:])
        return fin

    def build_native(self, kind):
        """kind: asan | plain"""
        exe = os.path.join(self.d, "replay-" + kind)
        with self.lock:
            if not os.path.exists(exe):
                self.build_native1(kind, exe)
        return exe

    def build_native1(self, kind, exe):
        libs = self.u.get("libs", [])
        srcs = self.sources(True) + [os.path.join(V, "symex", "native_rt.cpp")]
        if self.u.get("protobuf"):
            self.gen = os.path.join(self.d, "gen")
            os.makedirs(self.gen, exist_ok=True)
            ps = [os.path.join(REPO, "src/proto", p) for p in sorted(os.listdir(REPO + "/src/proto")) if p.endswith(".proto")]
            rc, o, e = sh(["protoc", "--cpp_out=" + self.gen, "-I" + REPO] + ps)
            if rc:
                raise NoAnswer("protoc: " + e)
            for r, _, fs in os.walk(self.gen):
                srcs += [os.path.join(r, f) for f in fs if f.endswith(".cc")]
            libs = libs + ["-lprotobuf"]
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow"] if kind == "asan" else ["-fno-lto"]
        cf = ["g++"] + self.flags() + ["-O1", "-g1", "-fno-access-control", "-fno-omit-frame-pointer"] + san + self.incs(True) + ["-c"]
        objs = []
        jobs = []
        with ThreadPoolExecutor(NPROC) as p:
            for i, s in enumerate(srcs):
                o = os.path.join(self.d, "%s-%d-%s.o" % (kind, i, os.path.basename(s)))
                objs.append(o)
                extra = [x for x in self.u.get("perfile", {}).get(os.path.basename(s), []) if not x.startswith("-mllvm")]
                jobs.append(p.submit(sh, [x for x in cf if x != "-Wno-everything"] + extra + [s, "-o", o], 600))
        for s, f in zip(srcs, jobs):
            rc, o, e = f.result()
            if rc:
                raise NoAnswer("cannot compile %s natively: %s" % (s, e[-3000:]))
        absl = ["-l:" + x for x in sorted(os.listdir("/usr/lib/x86_64-linux-gnu")) if re.fullmatch(r"libabsl_.*\.a", x) and "test" not in x] or ["-labsl_" + x for x in "status statusor strings strings_internal raw_logging_internal flags flags_parse flags_usage flags_internal flags_reflection flags_config flags_marshalling flags_commandlineflag flags_commandlineflag_internal flags_private_handle_accessor flags_program_name synchronization base throw_delegate bad_optional_access bad_variant_access cord time int128 hash raw_hash_set str_format_internal spinlock_wait".split()]
        rc, o, e = sh(["g++"] + san + ["-rdynamic", "-o", exe] + objs + ["-Wl,--start-group"] + absl + libs + ["-Wl,--end-group", "-ldl", "-lpthread"])
        if rc:
            raise NoAnswer("native link: " + e[-3000:])


def expand(e, tier):
    """one job per combination of the entry's parameters"""
    p = dict(e.get("p", {}))
    if tier == "thorough":
        p.update(e.get("tp", {}))
    keys = list(p)
    vals = [p[k] if isinstance(p[k], (list, tuple)) else [p[k]] for k in keys]
    for c in itertools.product(*vals):
        yield dict(zip(keys, c))


def with_mode(params, mode):
    """harnesses may choose smaller inputs where the encoding is over the reals"""
    return dict(params, real=1) if mode == "real" else params


def run_job(vsx, unit, e, params, mode, tier, outdir, coarse=False):
    name = e["fn"] + "".join("_%s%s" % (re.sub(r"\W", "", k), v) for k, v in params.items()) + "_" + mode
    out = os.path.join(outdir, name + ".json")
    tm = e.get("time", 300) if tier == "quick" else e.get("ttime", max(700, e.get("time", 300)))
    cmd = [vsx, "--entry=" + e["fn"], "--out=" + out, "--mode=" + mode, "--time=%g" % tm] + e.get("opts", [])
    if coarse:  # something else decides if this does not
        cmd += ["--qt=8000"]
    params = with_mode(params, mode)
    cmd += ["--p:%s=%s" % kv for kv in params.items()] + [unit.bc]
    t = time.time()
    rc, o, er = sh(cmd, tm + 120)
    try:
        r = json.load(open(out))
    except Exception:
        r = {"crash": (er or o)[-1500:] or "exit %d" % rc, "paths": 0, "violations": [], "samples": []}
    r["name"], r["params"], r["mode"], r["wall"] = name, params, mode, time.time() - t
    return r


def write_inputs(path, params, inputs):
    with open(path, "w") as f:
        for k, v in params.items():
            f.write("param:%s\t%s\n" % (k, v))
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))


SANENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:abort_on_error=0:exitcode=66", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=66")


def native(exe, entry, path, seed=None, valgrind=False, timeout=60):
    env = dict(SANENV)
    if seed:
        env["VSX_PERTURB"] = str(seed)
    cmd = [exe, entry, path]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=66"] + cmd
    d = os.path.join(os.path.dirname(path), "cwd-" + os.path.basename(path))
    os.makedirs(d, exist_ok=True)
    rc, o, e = sh(cmd, timeout, env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    reach = sorted(set(re.findall(r"^VSX-REACH (.*)$", o, re.M)))
    m = re.search(r"^VSX-FAIL (.*)$", o, re.M)
    vals = re.search(r"^VSX-VALUES (.*)$", o, re.M)
    return dict(rc=rc, reach=reach, fail=m.group(1) if m else None, values=vals.group(1) if vals else None, err=e, out=o, diverged="VSX-DIVERGED" in o or rc == 98)


def bad(r):
    return r["rc"] not in (0, 77, 98, 2)


def confirm(unit, e, viol, params, mode, work, seed, n, tries):
    """replay on the real code; returns (confirmed, how, path)"""
    os.makedirs(work, exist_ok=True)
    base = os.path.join(work, "%s-%s" % (e["fn"], n))
    cex = base + ".inputs"
    write_inputs(cex, with_mode(params, mode), viol["inputs"])
    exe = unit.build_native("asan")
    how, ok = "", False
    r = native(exe, e["fn"], cex)
    if bad(r):
        ok, how = True, r["fail"] or ("process ended with status %d: %s" % (r["rc"], (r["err"].strip().splitlines() or ["?"])[0][:300] if r["rc"] != -999 else "no end within 60 s"))
        used = None
    elif viol["kind"] == "uninit":
        p = unit.build_native("plain")
        r = native(p, e["fn"], cex, valgrind=True, timeout=300)
        if r["rc"] == 66:
            ok, how, used = True, "valgrind: use of uninitialised value", None
    if not ok and e.get("perturb", True) and any(v[1][0] in "df" for v in viol["inputs"]):
        # the encoding may leave library functions uninterpreted: look for a
        # witness near the solver's assignment
        for k in range(1, tries + 1):
            r = native(exe, e["fn"], cex, seed=seed * 1000 + k)
            if bad(r) and r["rc"] != -999:
                ok, how, used = True, r["fail"] or ("process ended with status %d" % r["rc"]), seed * 1000 + k
                break
    if ok:
        doc = {"entry": e["fn"], "unit": unit.u["name"], "params": params, "kind": viol["kind"], "message": viol["msg"], "location": viol["loc"], "stack": viol["stack"], "inputs": viol["inputs"], "observed": how, "values": r["values"], "perturb": used}
        json.dump(doc, open(base + ".json", "w"), indent=1)
        return True, how, base + ".json"
    return False, "not reproduced natively (status %d)" % r["rc"], cex


def job(vsx, u, e, p, tier, outdir, rep, seed, n):
    """decides one entry: encode, replay what the solver reports, refine the encoding where needed"""
    chain = [e.get("mode", "exact")] + list(e.get("then", []))
    rs, oks = [], []
    while True:
        mode = chain.pop(0)
        r = run_job(vsx, u, e, p, mode, tier, outdir, coarse=bool(chain or e.get("optional")))
        if rs:
            r["refined_from"] = rs[-1]["name"]
        rs.append(r)
        pend = []
        for k, v in enumerate(r["violations"]):
            ok, how, path = confirm(u, e, v, p, mode, rep, seed, "%d-%d" % (n, k), 40 if chain or e.get("optional") else e.get("tries", 150))
            if ok:
                oks.append((v, how, path))
            else:
                pend.append((v, how))
                if chain:
                    break
        # an unconfirmed difference of an over-approximating encoding is decided again with a finer one
        if chain and not oks and (pend or r.get("unknown_asserts") or "crash" in r or r.get("timed_out")):
            continue
        return rs, oks, pend


def is_new(res, e, kn):
    return any(not any(re.fullmatch(x[0], "%s|%s|%s|%s" % (e["fn"], v["kind"], v["msg"], v["loc"])) for x in kn) for v, _, _ in res[1])


def known(pid):
    r = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(.+?) :: (.*)", l.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep, verbose, only_ir = None, False, False, False
    pid = None
    i = 0
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "--keep": keep = True
        elif a[i] == "-v": verbose = True
        elif a[i] == "--ir": only_ir = keep = True
        elif a[i] == "--build-engine":
            print(build_engine())
            return
        else: pid = a[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    C = T.CHECKS[pid]
    bdir = os.path.join(V, ".build", "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    rep = os.path.join(V, ".build", "replay-" + pid)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep, exist_ok=True)
    rc = 2
    if only_ir:
        pool = ThreadPoolExecutor(NPROC)
        us = [Unit(u, bdir) for u in C["units"] if not only or u["name"] == only]
        build_engine()
        for f in [u.build_ir(pool) for u in us]:
            f()
        print(bdir)
        return
    try:
        rc = decide(pid, C, tier, only, seed, bdir, rep, t0, verbose)
    except NoAnswer as x:
        print("NO-ANSWER property=%s %s" % (pid, x))
    finally:
        stop_all()
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, C, tier, only, seed, bdir, rep, t0, verbose):
    pool = ThreadPoolExecutor(NPROC)
    eng = pool.submit(build_engine)
    units = [Unit(u, bdir) for u in C["units"]]
    if only:
        units = [u for u in units if any(re.fullmatch(only, e["fn"]) for e in u.u["entries"])]
    fins = [u.build_ir(pool) for u in units]
    vsx = eng.result()
    for f in fins:
        f()
    jobs = []
    for u in units:
        for e in u.u["entries"]:
            if only and not re.fullmatch(only, e["fn"]):
                continue
            if e.get("tier") == "thorough" and tier != "thorough":
                continue
            for p in expand(e, tier):
                jobs.append((u, e, p))
    # longest first
    jobs.sort(key=lambda j: -j[1].get("weight", 1))
    tbuild = time.time() - t0
    futs = [pool.submit(job, vsx, j[0], j[1], j[2], tier, bdir, rep, seed, k) for k, j in enumerate(jobs)]
    results, confirmed, openq, findings, extra = [], [], [], [], []  # extra: deeper bounds that the answer does not need
    kn = known(pid)
    # all answers, or what there is a while after the first violation or near the time limit
    limit = t0 + (780 if tier == "quick" else 6 * 3600)
    waiting = set(futs)
    while waiting:
        done, waiting = wait(waiting, timeout=max(1, min(10, limit - time.time())), return_when=FIRST_COMPLETED)
        if any(is_new(f.result(), jobs[futs.index(f)][1], kn) for f in done):
            limit = min(limit, time.time() + (60 if tier == "quick" else 600))
        if time.time() >= limit:
            break
    late = set(waiting)
    if late:
        stop_all()
        wait(late, timeout=30)
        STOP.clear()
    for (u, e, p), f in zip(jobs, futs):
        if f in late:
            (extra if e.get("optional") else openq).append("%s %s: no answer in time" % (e["fn"], p))
            continue
        rs, oks, pend = f.result()
        for v, how, path in oks:
            k = [x for x in kn if re.fullmatch(x[0], "%s|%s|%s|%s" % (e["fn"], v["kind"], v["msg"], v["loc"]))]
            if k:
                findings.append(k[0])
            else:
                confirmed.append((e, v, how, path))
        for v, how in pend:
            (extra if e.get("optional") else openq).append("%s: %s %s at %s: %s" % (rs[-1]["name"], v["kind"], v["msg"], v["loc"], how))
        results += [(u, e, r) for r in rs]
        r = rs[-1]
        if "crash" in r:
            (extra if e.get("optional") else openq).append("%s: engine failed: %s" % (r["name"], r["crash"]))
            continue
        und = extra if e.get("optional") else openq
        if r["timed_out"]: und.append("%s: time limit" % r["name"])
        if r["paths_limit"]: und.append("%s: %d paths hit the step limit" % (r["name"], r["paths_limit"]))
        if r["unsupported"]: und.append("%s: unsupported %s" % (r["name"], r["unsupported"]))
        if r["unknown_asserts"]: und.append("%s: undecided %s" % (r["name"], r["unknown_asserts"]))
        missing = [l for l in e.get("reach", []) if l not in r["reach"]]
        if missing and not r["violations"]:
            und.append("%s: vacuous, never reached %s" % (r["name"], missing))
        if verbose:
            print("%-40s %-5s paths %d err %d assumed %d asserts %d/%d queries %d solver %.1fs wall %.1fs viol %d" % (r["name"], r["mode"], r["paths"], r["paths_error"], r["paths_assumed_away"], r["asserts_proved"], r["asserts"], r["queries"], r["solver_seconds"], r["wall"], len(r["violations"])), flush=True)
    # trace validation: replay explored paths natively
    validated = mism = 0
    notes = []
    if not confirmed:
        vj = []
        for u, e, r in results:
            if e.get("novalidate"):
                continue
            for k, s in enumerate(r.get("samples", [])[: 2 if tier == "quick" else 4]):
                vj.append((u, e, r, k, s))
        lim = 24 if tier == "quick" else 60
        step = max(1, len(vj) // lim)
        vj = vj[::step]
        us = {id(x[0]): x[0] for x in vj}
        for u in us.values():
            u.build_native("asan")

        def val(x):
            u, e, r, k, s = x
            path = os.path.join(rep, "sample-%s-%d.inputs" % (r["name"], k))
            write_inputs(path, with_mode(r["params"], r["mode"]), s["inputs"])
            n = native(u.build_native("asan"), e["fn"], path)
            same = n["rc"] == 0 and not n["diverged"] and set(n["reach"]) == set(s["reach"])
            return same, n, path
        for x, (same, n, path) in zip(vj, pool.map(val, vj)):
            if same:
                validated += 1
                os.unlink(path)
            elif n["rc"] == 77 and x[2]["mode"] != "exact":
                os.unlink(path)
            else:
                mism += 1
                notes.append("%s: native run differs (status %d, %s, reached %s, expected %s)" % (x[2]["name"], n["rc"], n["fail"] or n["err"][:200], n["reach"], x[4]["reach"]))
                if bad(n) and n["rc"] != -999:
                    # the real code fails on a path the encoding accepted: report what was observed
                    v = dict(kind="replay", msg=n["fail"] or "abnormal end", loc="", stack="", inputs=x[4]["inputs"])
                    base = path + ".json"
                    json.dump({"entry": x[1]["fn"], "unit": x[0].u["name"], "params": x[2]["params"], "kind": "replay", "message": v["msg"], "inputs": v["inputs"], "observed": n["err"][:2000]}, open(base, "w"), indent=1)
                    openq.append("%s: the real code fails on an explored path: %s %s" % (x[2]["name"], n["fail"], n["err"][:300]))
    R = [r for _, _, r in results]
    tot = lambda k: sum(r.get(k, 0) for r in R)
    fns = {}
    for r in R:
        for k, v in r.get("functions", {}).items():
            fns[k] = fns.get(k, 0) + v
    reach = {}
    for r in R:
        for k, v in r.get("reach", {}).items():
            reach[r["name"] + ":" + k] = v
    samples = []
    for u, e, r in results:
        for s in r.get("samples", [])[:1]:
            samples.append({"entry": r["name"], "inputs": ["%s=%s" % tuple(x) for x in s["inputs"]][:24], "reached": s["reach"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
        "assumptions": C.get("assumptions", []) + T.COMMON_ASSUMPTIONS,
        "coverage": {
            "states": tot("instructions"), "transitions": tot("forks"), "traces_validated_against_impl": validated, "traces_not_matching": mism, "samples": samples[:8],
            "technique": "symbolic execution of the LLVM IR of /repo's current sources, decided by Z3", "bounds": C["bounds"],
            "functions_encoded": dict(sorted(fns.items())), "paths_completed": tot("paths"), "paths_ended_by_an_error": tot("paths_error"), "paths_outside_assumptions": tot("paths_assumed_away"), "paths_incomplete": tot("paths_limit") + tot("paths_unsupported"),
            "assertions": tot("asserts"), "assertions_proved_by_solver": tot("asserts_proved") - tot("asserts_concrete"), "assertions_constant": tot("asserts_concrete"),
            "solver_queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"), "solver_seconds": round(tot("solver_seconds"), 2), "longest_query_seconds": max([r.get("max_query_seconds", 0) for r in R] or [0]),
            "build_seconds": round(tbuild, 2), "entries": [{"entry": r["name"], "mode": r["mode"], "paths": r.get("paths"), "assertions": r.get("asserts"), "queries": r.get("queries"), "solver_seconds": r.get("solver_seconds"), "wall_s": round(r["wall"], 2)} for r in R],
            "witnesses_reached": reach, "known_findings_seen": sorted(set(x[1] for x in findings)), "undecided": openq, "deeper_bounds_undecided": extra, "notes": notes,
        },
    }
    if not only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k, t in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    print("%s: %d entries, %d paths, %d assertions (%d by the solver), %d queries, solver %.1f s, %d traces replayed, wall %.1f s" % (pid, len(R), tot("paths"), tot("asserts"), tot("asserts_proved") - tot("asserts_concrete"), tot("queries"), tot("solver_seconds"), validated, time.time() - t0))
    for n in notes:
        print("note: " + n)
    if confirmed:
        seen = set()
        for e, v, how, path in confirmed:
            key = (e["fn"], v["kind"], v["msg"])
            if key in seen:
                continue
            seen.add(key)
            print("%s: %s: %s at %s; observed: %s" % (e["fn"], v["kind"], v["msg"], v["loc"], how))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if openq:
        for q in openq:
            print("UNDECIDED property=%s %s" % (pid, q))
        return 2
    return 0


if __name__ == "__main__":
    main()
