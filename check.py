#!/usr/bin/env python3
"""Driver of the model checks:  check.py PROPERTY quick|thorough   |   check.py --replay FILE   |   check.py --setup

Builds the explorer (mc/*.cc) and, from the current working tree of /repo, one shared object per library variant and scenario
file, runs the jobs that plan.py lists for the property, writes evidence/<property>.json and reports violations."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(HERE, "mc")
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
import plan

WRAP = ("malloc calloc free realloc strdup strndup posix_memalign aligned_alloc getenv abort exit _exit __assert_fail usleep sleep "
        "nanosleep sched_yield pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast "
        "pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock").split()
VARIANTS = {
    "GEN": [], "OMPI4": ["-DOPEN_MPI=1", "-DOMPI_MAJOR_VERSION=4"], "OMPI5": ["-DOPEN_MPI=1", "-DOMPI_MAJOR_VERSION=5"],
    "MPICH": ["-DMPICH=1", '-DMPICH_VERSION="4.1"', "-DMPICH_NUMVERSION=40100000"], "TSAN": ["-fsanitize=thread", "-DMC_TSAN=1"],
    "TSAN5": ["-fsanitize=thread", "-DMC_TSAN=1", "-DOPEN_MPI=1", "-DOMPI_MAJOR_VERSION=5"],
}
CFLAGS = ["-O2", "-g", "-std=gnu11", "-fPIC", "-w", "-fno-strict-aliasing", "-fno-builtin-memcpy", "-fno-stack-protector", "-fcf-protection=none"] + ["-Dpthread_%s=mc_pthread_%s" % (x, x) for x in ("create", "join", "exit", "self")]   # (libgcc has a __wrap_pthread_create of its own)
_lock = threading.Lock()
_locks = {}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        with open(p, "rb") as f:
            h.update(os.path.basename(p).encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:20]

def once(key, path, fn):
    """build path with fn(tmp) unless it exists"""
    with _lock:
        lk = _locks.setdefault(key, threading.Lock())
    with lk:
        if not os.path.exists(path):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            tmp = path + ".tmp%d" % os.getpid()
            fn(tmp)
            os.rename(tmp, path)
    return path

def files(d, exts):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]

def engine():
    src = files(MC, (".cc", ".h", ".inc", ".py")) + files(os.path.join(MC, "inc"), ".h")
    path = os.path.join(BUILD, "mcx-" + digest(src), "mcx")
    def mk(tmp):
        d = os.path.dirname(path)
        with open(os.path.join(d, "stubs_gen.inc"), "w") as f:
            f.write(sh([sys.executable, os.path.join(MC, "gen_stubs.py")]))
        objs = []
        def cc(n):
            o = os.path.join(d, n + ".o")
            sh(["g++", "-std=c++17", "-O2", "-g1", "-w", "-fPIE", "-I" + os.path.join(MC, "inc"), "-I" + d, "-c", os.path.join(MC, n + ".cc"), "-o", o])
            return o
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(cc, ["main", "sim", "stubs", "race"]))
        sh(["g++", "-pie", "-rdynamic", "-o", tmp] + objs + ["-ldl"])
    return once("engine", path, mk)

def repo_sources():
    s = os.path.join(REPO, "src")
    try:
        mk = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
        m = re.search(r"libarmci_la_SOURCES\s*=\s*(.*)", mk)
        l = [os.path.join(REPO, f) for f in m.group(1).split() if f.endswith(".c")]
        if l and all(os.path.exists(f) for f in l):
            return l
    except Exception:
        pass
    return [f for f in files(s, ".c") if not f.endswith("mutex_hdl_spin.c")]

def incs():
    return ["-I" + os.path.join(MC, "inc"), "-I" + os.path.join(MC, "conf"), "-I" + os.path.join(REPO, "src")]

def library(variant):
    """objects of the library for one variant"""
    srcs = repo_sources()
    hdr = files(os.path.join(REPO, "src"), (".h", ".c")) + files(os.path.join(MC, "inc"), ".h") + files(os.path.join(MC, "conf"), ".h")
    flags = CFLAGS + VARIANTS[variant]
    path = os.path.join(BUILD, "lib-%s-%s" % (variant, digest(hdr, " ".join(flags + srcs))), "libarmci.o")
    def mk(tmp):
        d = os.path.dirname(path)
        def cc(f):
            o = os.path.join(d, os.path.basename(f)[:-2] + ".o")
            sh(["gcc"] + flags + incs() + ["-c", f, "-o", o])
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, srcs))
        sh(["ld", "-r", "-o", tmp] + objs)
    return once(("lib", variant), path, mk)

def scenario(variant, scen):
    lib = library(variant)
    src = os.path.join(MC, "scen", scen + ".c")
    hdr = files(os.path.join(MC, "scen"), ".h") + files(os.path.join(MC, "inc"), ".h")
    path = os.path.join(os.path.dirname(lib), "%s-%s.so" % (scen, digest([src] + hdr, " ".join(CFLAGS))))
    def mk(tmp):
        o = tmp + ".o"
        fl = [f for f in VARIANTS[variant] if not f.startswith("-fsanitize")]
        sh(["gcc"] + CFLAGS + ["-O3"] + fl + incs() + ["-I" + os.path.join(MC, "scen"), "-c", src, "-o", o])
        sh(["gcc", "-shared", "-o", tmp, o, lib, "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,norelro"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lm"])
        os.unlink(o)
    return once(("scen", variant, scen), path, mk)

def command(job):
    c = [engine(), "--lib", scenario(job["variant"], job["file"]), "--scen", job["scen"], "-n", str(job["n"])]
    for k, v in sorted(job.get("opt", {}).items()): c += ["-o", "%s=%d" % (k, v)]
    for k, v in sorted(job.get("param", {}).items()): c += ["-p", "%s=%d" % (k, v)]
    for k, v in sorted(job.get("env", {}).items()): c += ["-e", "%s=%s" % (k, v)]
    c += ["--vbits", str(job.get("vbits", 20))]
    if "max_steps" in job: c += ["--max-steps", str(job["max_steps"])]
    return c

def run_job(job, known):
    c = command(job) + ["-j", str(job.get("j", 1)), "--max-s", str(job.get("max_s", 60))]
    if job.get("dev") is not None: c += ["--dev", str(job["dev"])]
    if job.get("nostate"): c.append("--nostate")
    for k in known: c += ["--known", k]
    r = None
    for _ in range(2):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode == 0: break
    if r.returncode != 0:
        return {"error": "exit %d: %s" % (r.returncode, (r.stderr or r.stdout)[-800:]), "cmd": " ".join(c)}
    return json.loads(r.stdout)

def replay(job, choices, quiet=True):
    env = dict(os.environ)
    if quiet: env["MCX_QUIET"] = "1"
    r = subprocess.run(command(job) + ["--replay", choices], stdout=subprocess.PIPE, stderr=None if not quiet else subprocess.PIPE, text=True, env=env)
    out = r.stdout.strip().splitlines()
    if r.returncode < 0: return "crash:signal %d" % -r.returncode
    return out[-1] if out else "exit %d" % r.returncode

def load_known():
    """known-findings.txt:  'finding: property=<id> job=<regex> key=<cat:key> <what>'"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) job=(\S+) key=(\S+) (.*)", l)
            if m: res.append(dict(prop=m.group(1), job=m.group(2), key=m.group(3), what=m.group(4).strip()))
    return res

def job_name(j):
    s = "%s/%s n=%d %s" % (j["file"], j["scen"], j["n"], j["variant"])
    for k in ("param", "opt", "env"):
        if j.get(k): s += " " + ",".join("%s=%s" % kv for kv in sorted(j[k].items()))
    return s

def check(prop, tier):
    t0 = time.time()
    jobs = plan.jobs(prop, tier)
    budget = float(os.environ.get("MC_BUDGET", 100 if tier == "quick" else 840))
    only = os.environ.get("MC_ONLY")
    if only: jobs = [j for j in jobs if only in job_name(j)]
    known = [k for k in load_known() if k["prop"] == prop]
    engine()
    keys = sorted({(j["variant"], j["file"]) for j in jobs})
    for v in sorted({k[0] for k in keys}): library(v)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(lambda k: scenario(*k), keys))
    slots = [8]; cond = threading.Condition(); stop = threading.Event(); results = [None] * len(jobs); queue = list(range(len(jobs)))
    def one(i):
        j = jobs[i]; w = min(8, j.get("j", 1))
        with cond:
            while slots[0] < w or queue[0] != i: cond.wait()
            slots[0] -= w; queue.pop(0); cond.notify_all()
        try:
            left = budget - (time.time() - t0)
            if stop.is_set() or left < 1:
                results[i] = {"not_run": True}; return
            j = dict(j); j["max_s"] = max(1, min(j.get("max_s", 60), left))
            kk = [k["key"] for k in known if re.search(k["job"], job_name(j).replace(" ", "_"))]
            results[i] = run_job(j, kk)
            if any(not v["known"] for v in results[i].get("violations", [])): stop.set()
        except Exception as e:
            results[i] = {"error": "%s: %s" % (type(e).__name__, e)}
        finally:
            with cond:
                slots[0] += w; cond.notify_all()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("w", jobs[i].get("max_s", 60)) if tier == "x" else i)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(one, order))
    viols, findings, errors = [], [], []
    tot = dict(cases=0, states=0, transitions=0, executions=0, complete=0, pruned=0, choices=0)
    samples = []; exhaustive = True; jl = []; maxdepth = 0
    for j, r in zip(jobs, results):
        if r is None: continue
        name = job_name(j)
        if "error" in r: errors.append((name, r)); exhaustive = False; continue
        if r.get("not_run"): exhaustive = False; jl.append({"job": name, "not_run": "time budget"}); continue
        tot["states"] += r["states"]; tot["cases"] += r["cases"]; tot["transitions"] += r["new_steps"]; tot["executions"] += r["executions"]
        tot["complete"] += r["complete"]; tot["pruned"] += r["pruned"]; tot["choices"] += r["choices"]; maxdepth = max(maxdepth, r["max_depth"])
        if not r["exhaustive"] or (j.get("dev") is None and r["limited"]): exhaustive = False
        jl.append({"job": name, "executions": r["executions"], "cases": r["cases"], "complete": r["complete"], "states": r["states"], "transitions": r["new_steps"],
                   "exhausted": r["exhaustive"], "deviation_bound": j.get("dev"), "wall_s": r["wall_s"]})
        for s in r["samples"][:1]:
            if len(samples) < 12: samples.append(name + ": " + s[:400])
        for v in r["violations"]:
            (findings if v["known"] else viols).append((j, v))
    reported = []
    os.makedirs(OUT, exist_ok=True); os.makedirs(EVID, exist_ok=True)
    for j, v in viols:
        want = "%s:%s" % (v["cat"], v["key"])
        jr = dict(j); jr["opt"] = dict(j.get("opt", {}))
        if v["cat"] == "hang": jr["opt"]["cpu_s"] = 20
        rs = [replay(jr, v["choices"]) for _ in range(2)]
        ok = all(("VIOLATION " + want) in x for x in rs) or (v["cat"] == "crash" and all("crash" in x or "VIOLATION" in x for x in rs))
        if not ok:
            errors.append((job_name(j), {"error": "not reproduced on replay: %s -> %s" % (want, rs)})); continue
        path = os.path.join(OUT, "%s-%s.json" % (prop, hashlib.sha256((job_name(j) + want + v["choices"]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "job": jr, "choices": v["choices"], "violation": want, "message": v["msg"], "input": v["label"]}, f, indent=1)
        reported.append((path, j, v))
    for f in known:
        if any(re.search(f["job"], job_name(j).replace(" ", "_")) and f["key"] == "%s:%s" % (v["cat"], v["key"]) for j, v in findings):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    cov = dict(states=tot["states"] + tot["complete"], transitions=tot["transitions"], traces_validated_against_impl=tot["complete"],
               samples=samples, exhaustive=exhaustive and not errors and not reported, executions=tot["executions"], operation_cases=tot["cases"], distinct_scheduling_states=tot["states"],
               choices=tot["choices"], max_depth=maxdepth, jobs=jl,
               note="the library code itself is executed on every path: states counts distinct decision states plus distinct terminal executions; "
                    "transitions counts scheduler steps executed beyond the replayed prefixes")
    if errors: cov["errors"] = ["%s: %s" % (n, r["error"][:300]) for n, r in errors]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", wall_s=round(time.time() - t0, 2),
              violations=len(reported), found=[{"job": job_name(j), "kind": "%s:%s" % (v["cat"], v["key"]), "message": v["msg"], "input": v["label"], "replay": p} for p, j, v in reported],
              coverage=cov)
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for n, r in errors: print("check error in %s: %s" % (n, r["error"]), file=sys.stderr)
    for p, j, v in reported:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  %s:%s %s [%s] in %s" % (v["cat"], v["key"], v["msg"], v["label"], job_name(j)))
    print("%s %s: %d jobs, %d executions, %d cases, %d states, %d transitions, exhaustive=%s, %.1f s" %
          (prop, tier, len(jobs), tot["executions"], tot["cases"], tot["states"] + tot["complete"], tot["transitions"], cov["exhaustive"], time.time() - t0))
    if reported: return 1
    return 2 if errors else 0

def main(a):
    if a[:1] == ["--setup"]:
        engine(); return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1])); r = replay(d["job"], d["choices"], quiet=False); print(r)
        return 0 if "REPLAY OK" in r else 1
    return check(a[0], a[1] if len(a) > 1 else "quick")

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
