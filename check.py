#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code (see DESIGN.md).
usage: check.py <ID> [--tier quick|thorough] [--entry E] [-v] ; check.py --setup ; check.py --list"""
import sys, os, json, hashlib, subprocess, time, glob, re, shutil, struct, fcntl, signal, argparse, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
SYMEX = os.path.join(BUILD, "engine", "symex")
NCPU = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, VERIF)
DEFS = ("-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 "
        "-DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 "
        "-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info "
        "-DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1 -DSTINGRAY_LIB_SOURCE").split()
INC = ["-I" + ENG + "/include", "-I" + VERIF + "/harness", "-I" + REPO]
BCF = (["clang++-18", "-std=gnu++14", "-O1", "-g", "-fwrapv", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
        "-fno-strict-aliasing", "-Wno-everything", "-pthread", "-emit-llvm", "-I" + ENG + "/include/regex_model"] + INC + DEFS)
NATF = (["g++", "-std=gnu++14", "-ffast-math", "-pthread", "-fno-strict-aliasing", "-fno-expensive-optimizations", "-g0", "-w",
         "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-pie", "-DSX_NATIVE"] + INC + DEFS)
RTC = ["clang-18", "-O1", "-g", "-fwrapv", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-D_GNU_SOURCE", "-Wno-everything", "-U_FORTIFY_SOURCE", "-emit-llvm"]

WRAPS = """__cxa_guard_abort __cxa_guard_acquire __cxa_guard_release clock_gettime gettimeofday nanosleep pthread_cond_broadcast pthread_cond_destroy
pthread_cond_init pthread_cond_signal pthread_cond_timedwait pthread_cond_wait pthread_create pthread_getspecific pthread_setspecific pthread_join pthread_key_create
pthread_key_delete pthread_mutex_clocklock pthread_mutex_destroy pthread_mutex_init pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock pthread_mutex_unlock
pthread_mutexattr_destroy pthread_mutexattr_init pthread_mutexattr_settype pthread_once pthread_self pthread_setname_np sched_yield sem_destroy sem_init sem_post
sem_timedwait sem_wait time usleep""".split()
LINKF = ["-pthread", "-no-pie", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all"] + ["-Wl,--wrap=" + w for w in WRAPS]
LIBS = ["-licuuc", "-licui18n", "-licudata", "-lrt", "-ldl"]
# replaced on both sides by engine/rt/log_model.cpp: logging and profiling are not part of any property
MODELLED = {"log/Logger.cpp", "log/LoggerStream.cpp", "log/SystemLogger.cpp", "diagnostics/AsyncProfiler.cpp"}

class BuildError(Exception): pass
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
def fhash(p, memo={}):
    st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
    if k not in memo:
        with open(p, "rb") as f: memo[k] = hashlib.sha1(f.read()).hexdigest()
    return memo[k]
def compile_cached(cmd, src, out_ext):
    """Compiles src, reusing an output whose command and every dependency are byte-identical."""
    key = hashlib.sha1((" ".join(cmd) + "|" + src).encode()).hexdigest()[:16]
    cdir = os.path.join(BUILD, "cache"); os.makedirs(cdir, exist_ok=True)
    base = os.path.join(cdir, os.path.basename(src).replace(".", "_") + "-" + key)
    out, dep = base + out_ext, base + ".deps"
    try:
        with open(dep) as f: deps = json.load(f)
        if os.path.exists(out) and all(fhash(p) == h for p, h in deps.items()): return out
    except (OSError, ValueError): pass
    tmp = tempfile.mktemp(dir=cdir)
    r = sh(cmd + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + out_ext])
    if r.returncode != 0: raise BuildError("compiling %s failed:\n%s" % (src, r.stderr.decode(errors="replace")[-6000:]))
    with open(tmp + ".d") as f: txt = f.read()
    files = [os.path.realpath(x) for x in re.split(r"(?<!\\)\s+", txt.replace("\\\n", " ").split(":", 1)[1].strip()) if x]
    files = [x for x in files if x.startswith(REPO) or x.startswith(VERIF) or True]
    with open(tmp + ".deps", "w") as f: json.dump({p: fhash(p) for p in set(files)}, f)
    os.unlink(tmp + ".d"); os.rename(tmp + out_ext, out); os.rename(tmp + ".deps", dep)
    return out
def build_engine():
    os.makedirs(os.path.join(BUILD, "engine"), exist_ok=True)
    with open(os.path.join(BUILD, "engine", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-C", ENG, "-j%d" % NCPU, "B=" + os.path.join(BUILD, "engine")])
        if r.returncode: raise BuildError("engine build failed: " + r.stderr.decode(errors="replace")[-4000:])
def lib_tus():
    return [t for t in sorted(glob.glob(REPO + "/stingraykit/**/*.cpp", recursive=True)) if os.path.relpath(t, REPO + "/stingraykit") not in MODELLED]
def syms(path, cache={}):
    if path not in cache:
        d, u = set(), set()
        r = sh(["llvm-nm-18", "--format=posix", path])
        for ln in r.stdout.decode(errors="replace").splitlines():
            p = ln.rsplit(" ", 3) if not ln.endswith(" ") else ln.split()
            p = ln.split()
            if len(p) < 2: continue
            (u if p[1] in "Uwv" else d).add(p[0])
        cache[path] = (d, u)
    return cache[path]
BUILTINS = None
def builtins():
    global BUILTINS
    if BUILTINS is None: BUILTINS = set(sh([SYMEX, "--list-builtins"]).stdout.decode().split())
    return BUILTINS
def tu_paths(hint):
    return [t for t in (os.path.join(REPO, "stingraykit", h) for h in hint) if os.path.exists(t)]
def providers(ex, compile_one, missing):
    """Library translation units that define the given symbols (compiles the whole library)."""
    tus = lib_tus(); prov = {}
    for t, o in zip(tus, ex.map(compile_one, tus)):
        for s in syms(o)[0]: prov.setdefault(s, os.path.relpath(t, REPO + "/stingraykit"))
    return sorted({prov[m] for m in missing if m in prov})
def build_bc(ex, prop, keys=()):
    h = os.path.join(VERIF, "harness", prop["harness"])
    extra = prop.get("cflags", [])
    hb = ex.submit(compile_cached, BCF + extra, h, ".bc")
    rt = ex.submit(compile_cached, BCF + ["-fno-builtin"], ENG + "/rt/rt.cpp", ".bc")
    rc = ex.submit(compile_cached, RTC, ENG + "/rt/rt_c.c", ".bc")
    lm = ex.submit(compile_cached, BCF, ENG + "/rt/log_model.cpp", ".bc")
    app = [hb.result()] + list(ex.map(lambda s: compile_cached(BCF, s, ".bc"), tu_paths(prop.get("tus", []))))
    if prop.get("log"): app.append(lm.result())
    out = os.path.join(BUILD, "run", prop["id"]); os.makedirs(out, exist_ok=True)
    bc = os.path.join(out, "prog.bc"); rts = [rt.result(), rc.result()]
    if prop.get("conc"):
        a, b = os.path.join(out, "app.bc"), os.path.join(out, "appi.bc")
        r = sh(["llvm-link-18", "-o", a] + app)
        if r.returncode: raise BuildError("llvm-link: " + r.stderr.decode(errors="replace")[-3000:])
        kf = os.path.join(out, "keys")
        with open(kf, "w") as f: f.write("".join(k + "\n" for k in sorted(keys)))
        r = sh([SYMEX, a, "--instrument", b, "--points", prop.get("sched_files", ""), "--keys", kf])
        if r.returncode: raise BuildError("instrument: " + r.stderr.decode(errors="replace")[-3000:])
        app = [b]
    r = sh(["llvm-link-18", "-o", bc] + app + rts)
    if r.returncode: raise BuildError("llvm-link: " + r.stderr.decode(errors="replace")[-3000:])
    return bc
def build_native(ex, prop):
    h = os.path.join(VERIF, "harness", prop["harness"])
    out = os.path.join(BUILD, "run", prop["id"]); os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "replay-" + str(os.getpid()))
    if prop.get("conc"): # the very bitcode the engine ran, scheduling points included, compiled to machine code
        nt = compile_cached(NATF + ["-fno-threadsafe-statics"], ENG + "/include/sx_native.cpp", ".o")
        o = exe + ".o"
        r = sh(["clang++-18", "-O1", "-fsanitize=address", "-fno-pie", "-Wno-everything", "-c", os.path.join(out, "appi.bc"), "-o", o])
        if r.returncode: raise BuildError("native compile: " + r.stderr.decode(errors="replace")[-3000:])
        objs = [o, nt]
    else:
        hb = ex.submit(compile_cached, NATF + prop.get("cflags", []), h, ".o")
        nt = ex.submit(compile_cached, NATF + ["-fno-threadsafe-statics"], ENG + "/include/sx_native.cpp", ".o")
        lm = ex.submit(compile_cached, NATF, ENG + "/rt/log_model.cpp", ".o")
        # library units that the harness does not execute are left out: their symbols stay unresolved and are never called
        objs = [hb.result(), nt.result()] + list(ex.map(lambda s: compile_cached(NATF, s, ".o"), tu_paths(prop.get("tus", []))))
        if prop.get("log"): objs.append(lm.result())
    r = sh(["g++", "-fsanitize=address", "-ffast-math", "-o", exe] + objs + LINKF + LIBS)
    if r.returncode: raise BuildError("native link: " + r.stderr.decode(errors="replace")[-4000:])
    os.rename(exe, os.path.join(out, "replay"))
    return os.path.join(out, "replay")
def native_run(exe, e, inputs, obs, tier, timeout=20):
    entry = e["name"]; pick = lambda k: str(e[k][tier] if isinstance(e.get(k), (list, tuple)) else e.get(k, 2))
    env = dict(SX_PREEMPT=pick("preempt"), SX_TIMEOUTS=pick("timeouts"), **dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048", SX_TIER=str(tier), TZ="UTC", LANG="C.UTF-8"))
    try:
        r = subprocess.run([exe, entry, inputs, obs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
        return r.returncode, r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "timeout", "timeout"
def write_inputs(path, header, inputs):
    with open(path, "w") as f:
        for h in header: f.write("# " + h.replace("\n", " ") + "\n")
        for k, v in inputs: f.write("%s=%d\n" % (k, int(v)))
def confirms(kind, msg, rc, err):
    if rc == 77: return True
    if rc == 99 or (isinstance(rc, int) and rc < 0): return True
    if rc == 134 or rc == 139 or rc == 1: return True
    if rc == "timeout": return kind in ("hang", "deadlock")
    return False

def run_check(prop, tier, seed, only=None, verbose=False, depth=0, keys=frozenset()):
    t0 = time.time(); pid = prop["id"]
    from known import load_known
    known = load_known()
    build_engine()
    ex = ThreadPoolExecutor(NCPU)
    npool = ThreadPoolExecutor(1)
    if not prop.get("conc"): nat = npool.submit(build_native, ThreadPoolExecutor(4), prop)
    bc = build_bc(ex, prop, keys)
    if prop.get("conc"): nat = npool.submit(build_native, ThreadPoolExecutor(4), prop)
    rdir = os.path.join(BUILD, "run", pid)
    for f in glob.glob(rdir + "/out-*"): os.unlink(f)
    tno = 0 if tier == "quick" else 1
    slots = os.path.join(rdir, "slots")
    entries = [e for e in prop["entries"] if (not only or e["name"] in only) and not (tno == 0 and e.get("thorough_only"))]
    budget = prop.get("budget", (45, 900))[tno]
    tx = time.time()
    procs = {}; queue = list(entries); results = {}
    nslots = NCPU
    with open(slots, "wb") as f: f.write(struct.pack("i", max(0, NCPU - len(queue))) + b"\0" * 4092)
    def slot_add(n):
        # the engine updates this counter atomically through a shared mapping; one writer here, small race is harmless
        import mmap
        with open(slots, "r+b") as f:
            m = mmap.mmap(f.fileno(), 4096); v = struct.unpack("i", m[:4])[0]; m[:4] = struct.pack("i", v + n); m.flush(); m.close()
    free = NCPU
    errors = []
    def launch(e):
        out = os.path.join(rdir, "out-" + e["name"])
        left = max(5, budget - (time.time() - tx))
        tl = min(left, e.get("time", (budget, budget))[tno])
        cmd = [SYMEX, bc, "--entry", "sxe_" + e["name"], "--out", out, "--time", "%.1f" % tl, "--slots", slots, "--tier", str(tno), "--sample", "6",
               "--steps", str(e.get("steps", 3000000)), "--maxviol", "6", "--mem", "3000", "--solver-ms", str(e.get("solver_ms", (8000, 60000))[tno])]
        for k in ("preempt", "timeouts"):
            if k in e: cmd += ["--" + k, str(e[k][tno] if isinstance(e[k], (list, tuple)) else e[k])]
        if e.get("race"): cmd.append("--race")
        if e.get("leak"): cmd.append("--leak")
        if verbose: cmd.append("-v")
        err = open(os.path.join(rdir, "out-" + e["name"] + "-stderr"), "wb")
        procs[e["name"]] = (subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=os.setsid), e, time.time(), tl, out)
    while queue or procs:
        while queue and len(procs) < NCPU: launch(queue.pop(0))
        time.sleep(0.03)
        for n, (p, e, ts, tl, out) in list(procs.items()):
            rc = p.poll()
            if rc is None and time.time() - ts > tl + 60 + budget * 0.2:
                os.killpg(p.pid, signal.SIGKILL); rc = p.wait(); rc = "killed"
            if rc is not None:
                del procs[n]; results[n] = (e, out, rc, time.time() - ts)
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                if not queue or True:
                    if len(queue) == 0: slot_add(1)
    viols, samples, tot, funcs, per = [], [], {}, set(), {}; races = []; ent = {e["name"]: e for e in entries}
    reach = set(); unresolved = set(); data = set()
    for n, (e, out, rc, wall) in results.items():
        st = {}
        stats_seen = 0
        for fn in [out] + glob.glob(out + ".*"):
            try: lines = open(fn, errors="replace").read().splitlines()
            except OSError: continue
            for ln in lines:
                try: j = json.loads(ln)
                except ValueError: continue
                j["entry"] = n
                if j["type"] == "violation": viols.append(j)
                elif j["type"] == "race": races.append(j)
                elif j["type"] == "path": samples.append(j)
                elif j["type"] == "stats":
                    stats_seen += 1
                    for k, v in j.items():
                        if isinstance(v, int): st[k] = max(st.get(k, 0), v) if k in ("max_query_ms", "rss_mb") else st.get(k, 0) + v
                    reach |= set(n + ":" + r for r in j["reach"]); st.setdefault("reach", set()); st["reach"] |= set(j["reach"])
                    unresolved |= set(j["unresolved"]); data |= set(j.get("data", [])); funcs |= set(j["functions"])
        st["wall_s"] = round(wall, 2)
        complete = rc == 0 and st.get("time_drops", 1) == 0 and st.get("unknown", 1) == 0 and st.get("limit", 1) == 0
        st["complete"] = complete
        err = open(out + "-stderr", errors="replace").read() if os.path.exists(out + "-stderr") else ""
        if rc not in (0,): errors.append("%s: engine ended with %s: %s" % (n, rc, err[-600:]))
        elif st.get("paths", 0) == 0 and not any(v["entry"] == n for v in viols) and st.get("known_drops", 0) == 0:
            errors.append("%s: no path reached its end (%s)" % (n, err[-300:]))
        per[n] = st
        for k, v in st.items():
            if isinstance(v, int) and not isinstance(v, bool): tot[k] = max(tot.get(k, 0), v) if k in ("max_query_ms", "rss_mb") else tot.get(k, 0) + v
    if (unresolved or data) and depth < 12:
        more = [t for t in providers(ex, lambda s: compile_cached(BCF, s, ".bc"), unresolved | data) if t not in prop.get("tus", [])]
        if more:
            if os.environ.get("SX_HINTS"): print("hint: tus +=", more, file=sys.stderr)
            nat.exception()
            return run_check(dict(prop, tus=prop.get("tus", []) + more), tier, seed, only, verbose, depth + 1, keys)
    newkeys = {k for r in races for k in (r["a"], r["b"]) if k != "?"} - set(keys)
    if verbose:
        for r in races: print("race: %s [%s] / %s [%s]" % (r["a"], r["la"], r["b"], r["lb"]))
    if newkeys and prop.get("conc") and depth < 16 and not any(v["kind"] != "race" for v in viols):
        # unsynchronised accesses: explored again with a scheduling point before each of them
        nat.exception()
        return run_check(prop, tier, seed, only, verbose, depth + 1, frozenset(keys) | newkeys)
    if unresolved: errors.append("external functions without a model: " + ", ".join(sorted(unresolved)[:12]))
    try: exe = nat.result()
    except BuildError as b: exe = None; errors.append(str(b))
    # cross-validate sampled paths against the real build
    validated, mism = 0, []
    repdir = os.path.join(BUILD, "replay", pid); os.makedirs(repdir, exist_ok=True)
    if exe:
        bye = {}
        for s in samples: bye.setdefault(s["entry"], []).append(s)
        todo = []
        for n, ss in bye.items():
            if next(e for e in entries if e["name"] == n).get("no_native"): continue
            todo += ss[:: max(1, len(ss) // 8)][:8]
        def val(ix):
            i, s = ix
            inp = os.path.join(rdir, "out-s%d.in" % i); ob = os.path.join(rdir, "out-s%d.obs" % i)
            write_inputs(inp, [s["entry"]], s["inputs"].items() if isinstance(s["inputs"], dict) else s["inputs"])
            rc, err = native_run(exe, ent[s["entry"]], inp, ob, tno, 60)
            try: got = [int(x) for x in open(ob).read().split()]
            except OSError: got = []
            want = [int(x) for x in s.get("obs", [])]
            return (rc == 0 and got == want), s, rc, err, got, want
        for ok, s, rc, err, got, want in ex.map(val, list(enumerate(todo))):
            if ok: validated += 1
            else: mism.append((s, rc, err[-1500:], got, want))
    confirmed, unconfirmed, seen = [], [], set()
    for i, v in enumerate(viols):
        key = (v["entry"], v["kind"], v["msg"], v["loc"])
        if sum(1 for k in seen if k[:4] == key) >= 2: continue
        seen.add(key + (i,))
        path = os.path.join(repdir, "%s-%d.in" % (v["entry"], i))
        write_inputs(path, ["property %s entry %s tier %s" % (pid, v["entry"], tier), "%s: %s at %s" % (v["kind"], v["msg"], v["loc"]), "replay: SX_TIER=%d %s/replay %s %s" % (tno, rdir, v["entry"], path)],
                     v["inputs"].items() if isinstance(v["inputs"], dict) else v["inputs"])
        if not exe: unconfirmed.append((v, "no native build", "")); continue
        rc, err = native_run(exe, ent[v["entry"]], path, path + ".obs", tno, 20)
        if confirms(v["kind"], v["msg"], rc, err): confirmed.append((v, path, rc, err))
        else: unconfirmed.append((v, rc, err))
    complete = all(s["complete"] for s in per.values()) and not errors
    # a known finding whose condition was met and failed again
    hit = sorted({r.split("known:")[1] for r in reach if "known:" in r})
    for k in hit:
        if k not in known or known[k]["property"] != pid: errors.append("harness marks unknown finding " + k); continue
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    for v, path, rc, err in confirmed[:5]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s/%s: %s at %s (native replay: %s)" % (v["entry"], v["kind"], v["msg"], v["loc"], rc))
        m = re.search(r"(SX-FAIL.*|ERROR: AddressSanitizer.*|terminate called.*)", err)
        if m: print("  " + m.group(1)[:300])
    for v, rc, err in unconfirmed[:5]:
        print("UNCONFIRMED %s %s: %s at %s (native: %s) %s" % (v["entry"], v["kind"], v["msg"], v["loc"], rc, err[-500:]))
        if verbose: print(v["stack"])
    for s, rc, err, got, want in mism[:4]:
        print("MISMATCH between engine and real build: %s rc=%s got=%s want=%s inputs=%s %s" % (s["entry"], rc, got[:20], want[:20], str(s["inputs"])[:400], err[-700:]))
    for e in errors: print("ERROR " + e)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"), "wall_s": round(wall, 2), "violations": len(confirmed),
          "coverage": {"states": tot.get("paths", 0) + tot.get("known_drops", 0) + tot.get("viol_paths", 0), "transitions": tot.get("branches", 0) + tot.get("mem_resolutions", 0) + tot.get("sched_points", 0) + tot.get("forks", 0),
              "traces_validated_against_impl": validated, "exhaustive": complete,
              "samples": [{"entry": s["entry"], "inputs": dict(list(s["inputs"].items())[:24]) if isinstance(s["inputs"], dict) else s["inputs"][:24], "observed": s.get("obs", [])[:12]} for s in samples[:: max(1, len(samples) // 10)][:10]],
              "explanation": "states = symbolic paths decided; transitions = branch/memory/schedule decisions taken on them; every path stands for all inputs satisfying its path condition. exhaustive means every path within the stated bounds was finished with no solver timeout.",
              "bounds": prop.get("bounds", ""), "assertions_discharged": tot.get("asserts", 0), "solver_queries": tot.get("queries", 0), "z3_calls": tot.get("z3_calls", 0), "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("solver_unknown", 0), "solver_s": round(tot.get("solver_ms", 0) / 1000.0, 2), "longest_query_ms": tot.get("max_query_ms", 0),
              "instructions": tot.get("insts", 0), "functions_encoded": len(funcs), "functions": sorted(funcs)[:400], "known_findings_met": hit,
              "entries": {n: {k: (sorted(v) if isinstance(v, set) else v) for k, v in s.items() if k in ("paths", "assumed_away", "asserts", "queries", "solver_ms", "time_drops", "unknown", "complete", "wall_s", "reach", "sched_points", "limit", "known_drops")} for n, s in per.items()}},
          "assumptions": prop.get("assumptions", [])}
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%d solver calls, %.1f s), %d validated natively, %s, %.1f s" % (pid, tier, tot.get("paths", 0), tot.get("asserts", 0), tot.get("queries", 0), tot.get("z3_calls", 0), tot.get("solver_ms", 0) / 1000.0, validated, "exhaustive within bounds" if complete else "budget-bounded", wall))
    if verbose or os.environ.get("SX_ENTRIES"):
        for n, s in per.items(): print("   %-28s paths=%-7d asserts=%-7d z3=%-6d solver=%.1fs maxq=%dms unk=%d tdrop=%d wall=%.1f %s %s" % (n, s.get("paths", 0), s.get("asserts", 0), s.get("z3_calls", 0), s.get("solver_ms", 0) / 1000.0, s.get("max_query_ms", 0), s.get("unknown", 0), s.get("time_drops", 0), s["wall_s"], "complete" if s["complete"] else "PARTIAL", ",".join(sorted(s.get("reach", [])))))
    if confirmed: return 1
    if errors or unconfirmed or mism: return 2
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--entry", action="append")
    ap.add_argument("--setup", action="store_true"); ap.add_argument("--list", action="store_true"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from props import PROPS
    if a.list:
        for p in PROPS.values(): print(p["id"], p["harness"], [e["name"] for e in p["entries"]])
        return 0
    try:
        if a.setup:
            build_engine()
            ex = ThreadPoolExecutor(NCPU)
            fs = [ex.submit(compile_cached, BCF, t, ".bc") for t in lib_tus()]
            for f in fs: f.result()
            r = sh([SYMEX, "--selftest", "40", "1"]); print(r.stdout.decode().strip()); return r.returncode
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        return run_check(PROPS[a.id], a.tier, seed, a.entry, a.v)
    except BuildError as b:
        print("ERROR " + str(b)); return 3
if __name__ == "__main__": sys.exit(main())
