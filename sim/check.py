#!/usr/bin/env python3
"""Runs one property check: builds the simulator from /repo's working tree,
searches seeded runs, minimises and gates violations, writes evidence."""
import sys, os, json, time, subprocess, hashlib, shutil, array, tempfile, math, re
from concurrent.futures import ThreadPoolExecutor

SIM = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(SIM)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, SIM)
from props import PROPS, FLAVOURS, GROUPS  # noqa

NPROC = int(os.environ.get("VERIF_WORKERS", "0")) or min(16, os.cpu_count() or 4)
BUILD = os.path.join(ROOT, "build")

SEAMS = """syscall getrandom getentropy open open64 openat openat64 fstat fstat64 __fxstat __fxstat64
poll __poll_chk ppoll select read __read_chk close fcntl fcntl64 ioctl getpid getppid gettid time
gettimeofday clock_gettime clock nanosleep usleep sleep getauxval socket connect write send recv
shutdown malloc calloc realloc free abort __assert_fail pthread_mutex_lock pthread_mutex_unlock
pthread_mutex_trylock pthread_once pthread_spin_lock pthread_spin_unlock pthread_rwlock_wrlock pthread_rwlock_rdlock
pthread_rwlock_unlock""".split()
# symbols that carry no nondeterminism
PURE = set("""memcpy memset memmove memcmp memchr strlen strcmp strncmp strchr strcpy strncpy strcat strspn
__stack_chk_fail __memcpy_chk __memset_chk __memmove_chk _GLOBAL_OFFSET_TABLE_ __errno_location qsort
__tls_get_addr _Unwind_Resume __gcc_personality_v0 tolower toupper __ctype_b_loc __ctype_tolower_loc
__ctype_toupper_loc sprintf snprintf __sprintf_chk __snprintf_chk strtol strtoul puts printf""".split())


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-2500:]))
    return r.stdout


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for base in ("src", "include"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in fs:
                out.append(os.path.join(d, f))
    return out


def sim_files():
    return [os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith((".h", ".cc", ".c", ".py"))]


def lib_sources(flv):
    """Library sources of a flavour; 'all' follows the directory listing so that added files are picked up."""
    src = flv["sources"]
    if src != "all":
        out = []
        for s in src:
            p = os.path.join(REPO, "src", s)
            if os.path.exists(p):
                out.append(s)
        # sources added next to the known ones by a refactoring
        known = set(KNOWN_SOURCES)
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in sorted(fs):
                if f.endswith(".c"):
                    rel = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src"))
                    if rel not in known and rel not in out and cmake_lists(rel):
                        out.append(rel)
        return out
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if f.endswith(".c"):
                rel = os.path.relpath(os.path.join(d, f), os.path.join(REPO, "src"))
                if rel in KNOWN_SOURCES or cmake_lists(rel):
                    out.append(rel)
    return sorted(out)


KNOWN_SOURCES = ["aead.c", "asn1.c", "cipher.c", "drbg.c", "dsa.c", "ecc.c", "encoding.c", "entropy/hw.c",
                 "entropy/sys.c", "hash.c", "ies.c", "internal.c", "kdf.c", "mac.c", "mpi.c", "rand.c",
                 "rsa.c", "stream.c", "util.c"]
_cm = None


def cmake_lists(rel):
    global _cm
    if _cm is None:
        _cm = ""
        for n in ("CMakeLists.txt", "src/CMakeLists.txt"):
            p = os.path.join(REPO, n)
            if os.path.exists(p):
                _cm += open(p).read()
    return ("src/" + rel) in _cm


def build_replica(rname, r, srcs, work, redef):
    """One build configuration of the library plus the operation catalogue, as a single relocatable object."""
    cc, cxx = r.get("cc", "gcc"), r.get("cxx", "g++")
    if not shutil.which(cc) or not shutil.which(cxx):
        cc, cxx = "gcc", "g++"
    d = os.path.join(work, "r_" + rname)
    os.makedirs(d)
    pre = []
    if r.get("prefix"):
        h = os.path.join(d, "prefix.h")
        open(h, "w").write(r["prefix"])
        pre = ["-include", h]
    common = pre + ["-w", "-fexceptions", "-U_FORTIFY_SOURCE", "-fPIC", "-I" + os.path.join(REPO, "include")]
    defs = ["-DTORSION_HAVE_CONFIG", "-DTORSION_HAVE_RNG", "-DTORSION_SIM"] + ["-D" + x for x in r["defs"]]

    def lib(rel):
        o = os.path.join(d, rel.replace("/", "_") + ".o")
        sh([cc] + r["cflags"] + ["-std=gnu99"] + common + defs + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/entropy"), "-c", os.path.join(REPO, "src", rel), "-o", o])
        und = set(x.split()[-1] for x in sh(["nm", "-u", o]).splitlines() if x.strip())
        sh(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=libdata", "--rename-section", ".bss=libbss", o])
        return o, und

    def cat(_):
        o = os.path.join(d, "catalog.o")
        sh([cxx] + ["-O1"] + ["-std=c++17", "-DCAT_SIM_HEAP", "-I" + SIM] + common + ["-c", os.path.join(SIM, "catalog.cc"), "-o", o])
        return o, set()
    jobs = [(lib, s) for s in sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, "src", s)))] + [(cat, None)]

    def finish(res):
        out = os.path.join(work, "replica_%s.o" % rname)
        sh(["ld", "-r", "--force-group-allocation", "-o", out] + [o for o, _ in res])
        args = ["objcopy"]
        for f in ("cat_start", "cat_eval"):
            args += ["--redefine-sym", "%s=%s_%s" % (f, f, rname), "--keep-global-symbol", "%s_%s" % (f, rname)]
        sh(args + [out])
        return out
    return jobs, finish


def compile_flavour(prop, name, tmp):
    """Builds one simulator executable; returns its path and a build report."""
    flv = dict(FLAVOURS[name])
    flv.update(PROPS[prop].get("override", {}).get(name, {}))
    flv["sources"] = PROPS[prop].get("sources", flv.get("sources", "all"))
    srcs = lib_sources(flv)
    scen = PROPS[prop].get("scenario_for", {}).get(name, PROPS[prop]["scenario"])
    harness = ["engine.cc"] + scen
    key = tree_hash(repo_files() + sim_files(), json.dumps([prop, name, flv, srcs, harness], sort_keys=True))
    out = os.path.join(BUILD, "%s-%s-%s" % (prop, name, key))
    exe = os.path.join(out, "sim")
    rep = os.path.join(out, "build.json")
    if os.path.exists(exe) and os.path.exists(rep) and not os.environ.get("VERIF_REBUILD"):
        return exe, json.load(open(rep))
    os.makedirs(out, exist_ok=True)
    work = tempfile.mkdtemp(dir=tmp)
    cc = flv.get("cc", "gcc")
    lflags = (flv["cflags"] + ["-std=gnu99", "-w", "-fexceptions", "-fno-strict-aliasing" if flv.get("nsa") else "-w",
              "-U_FORTIFY_SOURCE", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
              "-I" + os.path.join(REPO, "src/entropy"), "-DTORSION_HAVE_CONFIG", "-DTORSION_HAVE_RNG", "-DTORSION_SIM"] + ["-D" + d for d in flv["defs"]])
    hflags = flv["hflags"] + ["-std=c++17", "-w", "-I" + SIM, "-I" + os.path.join(REPO, "include")] + ["-D" + d for d in flv.get("hdefs", []) + PROPS[prop].get("hdefs", [])]
    redef = os.path.join(work, "redef.txt")
    with open(redef, "w") as f:
        for s in SEAMS:
            if s in flv.get("noseam", []):
                continue
            f.write("%s %s\n" % (s, flv.get("redefine", {}).get(s, "sim_" + s)))
        for s, to in flv.get("redefine", {}).items():
            if s not in SEAMS:
                f.write("%s %s\n" % (s, to))
    jobs, objs = [], []

    def lib_job(rel):
        src = os.path.join(REPO, "src", rel)
        for pat, rep_, only in flv.get("patch", []):
            if only == rel:
                t = open(src).read()
                t2 = t.replace(pat, rep_, 1)
                src = os.path.join(work, "patched_" + rel.replace("/", "_"))
                lf = ["-I" + os.path.dirname(os.path.join(REPO, "src", rel))]
                open(src, "w").write(t2)
        o = os.path.join(work, rel.replace("/", "_") + ".o")
        sh([cc] + lflags + ["-I" + os.path.dirname(os.path.join(REPO, "src", rel)), "-c", src, "-o", o])
        und = sh(["nm", "-u", o])
        und = set(x.split()[-1] for x in und.splitlines() if x.strip())
        args = ["objcopy", "--redefine-syms=" + redef]
        if flv.get("sections", True):
            args += ["--rename-section", ".data=libdata", "--rename-section", ".bss=libbss"]
        sh(args + [o])
        return o, und

    def har_job(rel):
        src = os.path.join(SIM, rel)
        o = os.path.join(work, "h_" + rel.replace("/", "_") + ".o")
        extra = flv.get("per_file", {}).get(rel, [])
        sh([flv.get("cxx", "g++")] + hflags + extra + ["-c", src, "-o", o])
        return o

    t0 = time.time()
    with ThreadPoolExecutor(NPROC) as ex:
        # biggest first
        order = sorted(srcs, key=lambda s: -os.path.getsize(os.path.join(REPO, "src", s)))
        reps = []
        for rn in flv.get("replicas", {}):
            jobs_, fin = build_replica(rn, flv["replicas"][rn], lib_sources({"sources": "all"}), work, redef)
            reps.append((fin, [ex.submit(f, a) for f, a in jobs_]))
        if reps:
            order = []
            with open(os.path.join(work, "replicas.inc"), "w") as f:
                f.write("".join("REPLICA(%s)\n" % rn for rn in flv["replicas"]))
            hflags.append("-I" + work)
        fl = [ex.submit(lib_job, s) for s in order]
        fh = [ex.submit(har_job, s) for s in harness]
        res = [f.result() for f in fl]
        hobj = [f.result() for f in fh]
        rund = set()
        for fin, js in reps:
            rr = [j.result() for j in js]
            hobj.append(fin(rr))
            for _, u in rr:
                rund |= u
    und = set(rund)
    for o, u in res:
        objs.append(o)
        und |= u
    tmp_exe = os.path.join(work, "sim")
    link = [flv.get("cxx", "g++")] + flv.get("ldflags", []) + ["-o", tmp_exe] + hobj + objs + PROPS[prop].get("libs", []) + flv.get("libs", []) + ["-lpthread", "-ldl"]
    # a refactoring may move functions between files: on unresolved symbols link the whole library
    try:
        sh(link)
    except BuildError as e:
        if "undefined reference" not in str(e) or len(srcs) >= len(KNOWN_SOURCES):
            raise
        extra = [s for s in lib_sources({"sources": "all"}) if s not in srcs]
        with ThreadPoolExecutor(NPROC) as ex:
            res2 = list(ex.map(lib_job, extra))
        lib = os.path.join(work, "librest.a")
        sh(["ar", "rcs", lib] + [o for o, _ in res2])
        link = link[:-2] + [lib] + link[-2:]
        sh(link)
    defined = set()
    for o in objs:
        for l in sh(["nm", "--defined-only", o]).splitlines():
            if l.strip():
                defined.add(l.split()[-1])
    seamed = sorted(s for s in und if s in SEAMS and s not in flv.get("noseam", []))
    unseamed = sorted(s for s in und if s not in SEAMS and s not in PURE and s not in defined
                      and not s.startswith(("torsion_", "__asan", "__ubsan", "__tsan", "__sanitizer", "__odr_asan")))
    if flv.get("replicas"):
        unseamed = []
    info = {"flavour": name, "replicas": {k: {"cc": v.get("cc", "gcc"), "cflags": v["cflags"], "defs": v["defs"], "prefix": v.get("prefix", "")} for k, v in flv.get("replicas", {}).items()}, "defs": flv["defs"], "cflags": flv["cflags"], "sources": srcs, "seamed_symbols": seamed,
            "unseamed_symbols": unseamed, "build_s": round(time.time() - t0, 1)}
    shutil.move(tmp_exe, exe)
    with open(rep, "w") as f:
        json.dump(info, f)
    return exe, info


def known_findings(prop):
    """Lines 'property=<id> class=<class> <text>' of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def hll_estimate(regs):
    m = len(regs)
    a = 0.7213 / (1 + 1.079 / m)
    e = a * m * m / sum(2.0 ** -r for r in regs)
    z = regs.count(0)
    if e <= 2.5 * m and z:
        e = m * math.log(m / z)
    return int(e)


def run_workers(exe, flavour, seed, tier, count, deadline, known, tmp, nproc=NPROC, hashes=False):
    procs = []
    for w in range(nproc):
        out = os.path.join(tmp, "%s-w%d.json" % (flavour, w))
        cmd = [exe, "run", "--seed", str(seed), "--from", str(w), "--to", str(count), "--stride", str(nproc),
               "--deadline", str(deadline), "--out", out, "--flavour", flavour]
        if tier == "thorough":
            cmd.append("--thorough")
        if known:
            cmd += ["--known", ",".join(known)]
        if hashes:
            cmd.append("--hashes")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, VERIF_SCRATCH=tmp)), out))
    res = []
    for p, out in procs:
        _, err = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            raise BuildError("worker failed rc=%s: %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
        r = json.load(open(out))
        sp = out + ".shapes"
        a = array.array("Q")
        if os.path.exists(sp):
            with open(sp, "rb") as f:
                a.frombytes(f.read())
        r["shapes"] = a
        res.append(r)
    return res


def replay(exe, path, known, tmp, verbose=False):
    cmd = [exe, "replay", "--in", path, "--flavour", replay_header(path).get("flavour", "")]
    if replay_header(path).get("tier") == "thorough":
        cmd.append("--thorough")
    if verbose:
        cmd.append("--verbose")
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_SCRATCH=tmp))
    if r.returncode != 0:
        raise BuildError("replay failed: " + r.stderr)
    first, _, rest = r.stdout.partition("\n")
    d = json.loads(first)
    d["note"] = rest
    return d


def replay_header(path):
    h = {}
    for l in open(path):
        if l.strip() == "steps":
            break
        k, _, v = l.strip().partition(" ")
        h[k] = v
    return h


def main():
    t_start = time.time()
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        path = os.path.abspath(args[1])
        h = replay_header(path)
        tmp = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
        try:
            exe, _ = compile_flavour(h["property"], h["flavour"], tmp)
            d = replay(exe, path, [], tmp, verbose=True)
            print(json.dumps({k: d[k] for k in ("ok", "class", "hash", "msg")}))
            print(d["note"])
            if not d["ok"]:
                same = d["class"] == h["class"] and d["hash"] == h["hash"]
                print("reproduced exactly" if same else "fails, but differently from the recorded run")
                print("VIOLATION property=%s replay=%s" % (h["property"], path))
                return 1
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--quick" in args:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t = spec[tier]
    tmp = tempfile.mkdtemp(prefix="verif-", dir=scratch_root())
    known = known_findings(prop)
    try:
        return run_check(prop, tier, seed, spec, t, tmp, known, t_start)
    except BuildError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scratch_root():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


def run_check(prop, tier, seed, spec, t, tmp, known, t_start):
    print("check %s tier=%s seed=%d workers=%d" % (prop, tier, seed, NPROC), flush=True)
    flavours = t["flavours"]
    builds, agg, infos = {}, [], []
    with ThreadPoolExecutor(len(flavours)) as ex:
        futs = {fl: ex.submit(compile_flavour, prop, fl, tmp) for fl in flavours}
        for fl, f in futs.items():
            builds[fl], info = f.result()
            infos.append(info)
    t_built = time.time()
    print("built %s in %.1fs" % (", ".join(flavours), t_built - t_start), flush=True)
    violation = None
    for fl, cfg in flavours.items():
        deadline = cfg.get("wall", 120)
        res = run_workers(builds[fl], fl, seed, tier, cfg["runs"], deadline, known, tmp)
        agg += res
        bad = [r["violation"] for r in res if "violation" in r]
        if bad:
            v = min(bad, key=lambda v: v["index"])
            violation = (fl, v)
            break
    t_ran = time.time()
    # ---- determinism self-check on a sample: other worker count, fresh processes
    det = None
    if violation is None:
        fl = next(iter(flavours))
        n = min(flavours[fl]["runs"], t.get("det", 64))
        ok = True
        hs = []
        for w in (1, 3):
            d = os.path.join(tmp, "det%d" % w)
            os.makedirs(d)
            run_workers(builds[fl], fl, seed, tier, n, 40, known, d, nproc=w, hashes=True)
            m = {}
            for k in range(w):
                for l in open(os.path.join(d, "%s-w%d.json.hashes" % (fl, k))):
                    a, b = l.split()
                    m[int(a)] = b
            hs.append(m)
        common = set(hs[0]) & set(hs[1])
        diff = [i for i in common if hs[0][i] != hs[1][i]]
        det = {"runs_compared": len(common), "differing": len(diff), "worker_counts": [1, 3]}
        if diff:
            print("ERROR: simulation not deterministic: runs %s differ" % diff[:5])
            return 4
    # ---- aggregate
    faults, probes, kn, samples = {}, {}, {}, []
    shapes = set()
    hll = [0] * (1 << 14)
    tot = dict(runs=0, steps=0, evals=0, sim_us=0, nontrivial=0)
    cpu = 0.0
    rule = ""
    for r in agg:
        for k in tot:
            tot[k] += r[k]
        cpu += r["wall"]
        rule = r["rule"]
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in r["known"].items():
            kn.setdefault(k, [0, v["msg"]])[0] += v["n"]
        samples += [s for s in r["samples"] if len(samples) < 6]
        shapes.update(r["shapes"])
        for i, ch in enumerate(r["hll"]):
            q = ord(ch) - 48
            if q > hll[i]:
                hll[i] = q
    rc = 0
    vinfo = []
    if violation:
        fl, v = violation
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-seed%d-run%d.replay" % (prop, seed, v["index"]))
        cmd = [builds[fl], "minimize", "--seed", str(seed), "--index", str(v["index"]), "--out", rp, "--flavour", fl, "--budget", str(t.get("minimise_s", 40))]
        if tier == "thorough":
            cmd.append("--thorough")
        if known:
            cmd += ["--known", ",".join(known)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SCRATCH=tmp))
        if r.returncode != 0:
            print("ERROR: violation %s did not survive gating: %s (run %d: %s)" % (v["class"], r.stdout, v["index"], v["msg"]))
            return 5
        h = replay_header(rp)
        for _ in range(2):
            d = replay(builds[fl], rp, known, tmp)
            if d["ok"] or d["class"] != h["class"] or d["hash"] != h["hash"]:
                print("ERROR: replay did not reproduce exactly: %s vs %s" % (d, h))
                return 5
        print("violated: %s: %s" % (h["class"], h["message"]))
        print("seed=%d run=%d flavour=%s, minimised %s" % (seed, v["index"], fl, h["minimised"]))
        sys.stdout.write("".join("  " + l for l in open(rp).read().split("steps\n", 1)[-1].splitlines(True)[:40]))
        vinfo.append({"class": h["class"], "message": h["message"], "replay": rp, "seed": seed, "index": v["index"], "flavour": fl, "minimised": h["minimised"]})
        rc = 1
    for k, (n, msg) in kn.items():
        print("KNOWN-FINDING: property=%s %s (%s, seen in %d runs)" % (prop, known[k], k, n))
    wall = time.time() - t_start
    search = max(t_ran - t_built, 1e-9)
    dn = min(len(shapes), tot["nontrivial"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": dn, "rule": rule, "samples": samples or ["none"],
            "oracle_checks": tot["evals"], "nontrivial_runs": tot["nontrivial"], "simulated_steps": tot["steps"],
            "runs_per_hour": int(tot["runs"] / search * 3600), "run_seeds": "one derived seed per run",
            "simulated_time_s": round(tot["sim_us"] / 1e6, 6), "faults_injected": faults, "fault_total": sum(faults.values()),
            "probes": probes, "distinct_states_estimate": hll_estimate(hll),
            "distinct_states_measure": spec.get("measure", "hash of the control state after each step (HyperLogLog, about 1% error)"),
            "real_code": spec.get("real", "all library sources listed under builds"), "stubbed": spec.get("stub", "operating system calls listed as seamed symbols"),
            "builds": infos, "determinism_selfcheck": det, "search_wall_s": round(search, 2),
            "known_findings_seen": {k: v[0] for k, v in kn.items()},
        },
        "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": vinfo,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("runs=%d steps=%d evals=%d distinct=%d faults=%d wall=%.1fs" % (tot["runs"], tot["steps"], tot["evals"], dn, sum(faults.values()), wall))
    if rc == 1:
        print("VIOLATION property=%s replay=%s" % (prop, vinfo[0]["replay"]))
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an internal error is never a verdict
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
