#!/usr/bin/env python3
"""Runs the deterministic simulation check of one property.

  run.py P01            quick or thorough by VERIF_TIER, seed from VERIF_SEED
  run.py --build        only build
  run.py --replay FILE  replay a violation exactly (exit 1 when it is reproduced)
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
KNOWN = os.path.join(HERE, "known_findings.txt")
NCPU = os.cpu_count() or 8

INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/electionguard", "-I" + REPO + "/src/karamel"]
DEF = ["-DEXPORT_INTERNALS", "-DHACL_CAN_COMPILE_VEC128", "-DHACL_CAN_COMPILE_VEC256", "-DUSE_STANDARD_PRIMES", "-DNDEBUG"]
COMMON = ["-U_FORTIFY_SOURCE", "-fno-pie", "-w", "-g0"]
LIBCXX = ["g++", "-std=c++17", "-O1", "-fsanitize=thread"] + COMMON + DEF + INC
LIBC = ["gcc", "-O2"] + COMMON + DEF + INC
HARN = ["g++", "-std=c++17", "-O1"] + COMMON + DEF + INC
INST = ["g++", "-std=c++17", "-O1", "-fsanitize=thread"] + COMMON + DEF + INC
RT = ["g++", "-std=c++17", "-O2", "-fcf-protection=none"] + COMMON
ORC = ["g++", "-std=c++17", "-O2"] + COMMON


SHIM = os.path.join(BUILD, "shim")
for c in (LIBCXX, HARN, INST):
    c.append("-I" + SHIM)


def shim():
    """GCC 13's std::variant assumes that a variant of strings and vectors always holds a value, although a copy whose
    allocation failed does not, and destroying that one jumps through a random table entry. The builds of the simulation use a
    corrected copy of that header, so that failing allocations judge the library and not its compiler."""
    for d in sorted(os.listdir("/usr/include/c++"), reverse=True) if os.path.isdir("/usr/include/c++") else []:
        p = os.path.join("/usr/include/c++", d, "variant")
        if d == os.popen("g++ -dumpversion").read().strip() and os.path.exists(p):
            t = read(p).decode()
            n = t.replace("return _Traits<_Types...>::_S_move_assign\n", "return _Traits<_Types...>::_S_trivial_copy_ctor && _Traits<_Types...>::_S_move_assign\n", 1)
            os.makedirs(SHIM, exist_ok=True)
            q = os.path.join(SHIM, "variant")
            if not os.path.exists(q) or read(q).decode() != n:
                open(q + ".tmp%d" % os.getpid(), "w").write(n)
                os.replace(q + ".tmp%d" % os.getpid(), q)


def shim_json():
    """The destructor of nlohmann::json allocates a work list and so ends the process when that allocation fails: also not the library's
    doing. Allocations inside that destructor never fail in the simulation."""
    p = "/usr/include/nlohmann/json.hpp"
    if not os.path.exists(p):
        return
    t = read(p).decode()
    n = t.replace("        void destroy(value_t t)\n        {\n", "        void destroy(value_t t)\n        {\n            struct Nofail { Nofail() { sim_nofail(1); } ~Nofail() { sim_nofail(-1); } } nofail_;\n", 1)
    n = 'extern "C" void sim_nofail(int);\n' + n
    q = os.path.join(SHIM, "nlohmann", "json.hpp")
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if not os.path.exists(q) or read(q).decode() != n:
        open(q + ".tmp%d" % os.getpid(), "w").write(n)
        os.replace(q + ".tmp%d" % os.getpid(), q)


def die(msg):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    t = read(REPO + "/src/CMakeLists.txt").decode()
    m = re.search(r"set\(PROJECT_SOURCE_FILES(.*?)\)\s*\n\s*\n", t, re.S) or re.search(r"set\(PROJECT_SOURCE_FILES(.*?)\n\)", t, re.S)
    if not m:
        die("no source list in src/CMakeLists.txt")
    s = []
    for f in re.findall(r"\$\{PROJECT_SOURCE_DIR\}/(\S+\.(?:c|cpp|cc|cxx))\b", m.group(1)):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            s.append(p)
    return s


def headers():
    h = hashlib.sha256()
    for base in (REPO + "/include", REPO + "/src"):
        for d, dirs, fs in os.walk(base):
            dirs.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp")):
                    h.update(os.path.relpath(os.path.join(d, f), REPO).encode() + b"\0" + read(os.path.join(d, f)) + b"\0")
    return h.hexdigest()


def build():
    os.makedirs(BUILD, exist_ok=True)
    shim()
    shim_json()
    hh = headers()
    sh = hashlib.sha256(b"".join(read(os.path.join(SIM, f)) for f in sorted(os.listdir(SIM)) if f.endswith(".h"))).hexdigest()
    jobs = []
    for s in lib_sources():
        jobs.append((s, LIBC if s.endswith(".c") else LIBCXX, hh, "lib"))
    for f in sorted(os.listdir(SIM)):
        if f.endswith(".cpp"):
            cmd = RT if f == "rt.cpp" else ORC if f == "oracle.cpp" else INST if f.startswith("inst_") else HARN
            jobs.append((os.path.join(SIM, f), cmd, sh if cmd in (RT, ORC) else sh + hh, "sim"))
    objs = []
    todo = []
    for src, cmd, dep, kind in jobs:
        k = hashlib.sha256((" ".join(cmd) + dep + src + "m1").encode() + read(src)).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(src) + "." + k + ".o")
        objs.append((kind, o))
        if not os.path.exists(o):
            todo.append((os.path.getsize(src) if kind == "lib" else 10**7, src, cmd, o))
    todo.sort(reverse=True)

    def comp(t):
        _, src, cmd, o = t
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            return "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
        if src.startswith(REPO + "/src/electionguard/"):  # the library's own C allocations can fail (see sim_malloc in rt.cpp); HACL's do not
            r = subprocess.run(["objcopy", "--redefine-sym", "malloc=sim_malloc", "--redefine-sym", "calloc=sim_calloc", "--redefine-sym", "strdup=sim_strdup", tmp], capture_output=True, text=True)
            if r.returncode:
                return "objcopy on %s failed:\n%s" % (src, r.stderr[-4000:])
        os.replace(tmp, o)
        return None

    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(comp, todo):
            if e:
                die(e)
    allo = [o for k, o in objs if k == "lib"] + [o for k, o in objs if k == "sim"]
    k = hashlib.sha256(" ".join(allo).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-" + k)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-Wl,--wrap=Hacl_Bignum4096_mod_exp_consttime_precomp", "-Wl,--wrap=Hacl_Bignum4096_mod_exp_vartime_precomp"] + allo + ["-o", tmp, "-lfmt", "-lgmpxx", "-lgmp", "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode:
            die("linking failed:\n" + r.stderr[-4000:])
        os.replace(tmp, exe)
        # keep the cache small: forget objects no recent build used
        now = time.time()
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if os.path.isfile(p) and p not in allo and p != exe and now - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
    for o in allo + [exe]:
        os.utime(o)
    return exe


INFO = json.loads(read(os.path.join(HERE, "checks.json")))
STUBS = ["OS random device, clock, thread scheduler, mutexes, condition variables, sleeping, heap allocator, disk, message delivery and log output: simulated",
         "all C++ and C sources of the library: real code, except that in 7 of 8 runs (never for P08) its 4096-bit modular exponentiation is computed by GMP",
         "the std::variant header of GCC 13 is corrected (see DESIGN.md)", "reference implementation of hashes, arithmetic and proofs: independent (GMP, own SHA-256)"]


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--build":
        t = time.time()
        print(build(), "%.1f s" % (time.time() - t))
        return 0
    if sys.argv[1] == "--replay":
        return subprocess.run([build(), "--replay", sys.argv[2]] + sys.argv[3:]).returncode
    prop = sys.argv[1]
    info = INFO[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET") or (info.get("thorough_s", 600) if tier == "thorough" else info.get("quick_s", 40)))
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    out = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    procs = []
    errs = []
    for i in range(NCPU):
        ef = open(os.path.join(out, "err%d" % i), "w")
        errs.append(ef)
        procs.append(subprocess.Popen([exe, "--prop", prop, "--seed", str(seed), "--worker", str(i), "--workers", str(NCPU), "--budget", str(budget), "--out", out,
                                       "--replays", rep, "--known", KNOWN, "--minbudget", "90"], stdout=subprocess.DEVNULL, stderr=ef))
    for p in procs:
        p.wait()
    ws = []
    for i in range(NCPU):
        f = os.path.join(out, "w%d.json" % i)
        if os.path.exists(f):
            ws.append(json.loads(read(f).decode("utf-8", "replace")))
    stderr = "".join(read(os.path.join(out, "err%d" % i)).decode("utf-8", "replace") for i in range(NCPU))
    shutil.rmtree(out, ignore_errors=True)
    if stderr.strip():
        print(stderr[-4000:], file=sys.stderr)
    if len(ws) < NCPU:
        die("a worker died (%d of %d reported)" % (len(ws), NCPU))

    def tot(k):
        return sum(w[k] for w in ws)

    ilv = set()
    for w in ws:
        ilv |= set(w["ilv"])
    faults = {k: sum(w["faults"][k] for w in ws) for k in ws[0]["faults"]}
    probes = {k: sum(w["probes"][k] for w in ws) for k in ws[0]["probes"]}
    samples = [s for w in ws for s in w["samples"]][:16]
    viol = [w for w in ws if w["vfile"]]
    wall = time.time() - t0
    simwall = max(w["wall"] for w in ws) or 1
    hits = {}
    for w in ws:
        for i, n in w["known"]:
            hits[i] = hits.get(i, 0) + n
    kl = [l for l in (read(KNOWN).decode().splitlines() if os.path.exists(KNOWN) else []) if l.startswith("finding:")]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct"),
            "rule": "one evaluation is one simulated execution, a pure function of its seed; " + info["rule"] + "; non-trivial: at least one property evaluation was made in it; distinct: digest of its events and results",
            "samples": samples,
            "property_evaluations": tot("evals"),
            "seeds": tot("runs"),
            "runs_per_hour": int(tot("runs") / simwall * 3600),
            "simulated_seconds": round(tot("simns") / 1e9, 1),
            "scheduler_steps": tot("steps"),
            "context_switches": tot("switches"),
            "distinct_interleavings": len(ilv),
            "distinct_interleavings_measure": "hash of the sequence of (thread, operation, step, next thread) of all context switches of a run",
            "simulated_threads": tot("threads"),
            "process_incarnations": tot("incs"),
            "cut_off_runs": tot("cut"),
            "faults_injected": {k: v for k, v in faults.items() if v},
            "reached": {k: v for k, v in probes.items() if v},
            "repeatability_checks": tot("detchecks"),
            "repeatability_failures": tot("detbad"),
            "components": STUBS,
            "build_s": round(tb, 1),
        },
        "assumptions": info["assumptions"],
        "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs, %d property evaluations, %d interleavings, %.0f s (build %.0f s)" % (prop, tier, seed, tot("runs"), tot("evals"), len(ilv), wall, tb))
    for i in range(len(kl)):
        if ("property=%s " % prop) in kl[i]:
            print("KNOWN-FINDING: property=%s %s (%d runs hit it)" % (prop, kl[i].split("| ", 1)[-1], hits.get(i, 0)))
    if viol:
        for w in viol:
            print("violation class %s: %s" % (w["vclass"], w["violation"]))
            print("VIOLATION property=%s replay=%s" % (prop, w["vfile"]))
        return 1
    if tot("runs") == 0 or tot("evals") == 0:
        die("nothing was explored")
    if tot("detbad") * 20 > tot("detchecks") + 20:
        die("the simulator was not repeatable: %d of %d checks" % (tot("detbad"), tot("detchecks")))
    return 0


if __name__ == "__main__":
    sys.exit(main())
