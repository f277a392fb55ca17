#!/usr/bin/env python3
"""conform.py [NAME...]: run scenarios of mc/scen on real Open MPI with the built library of /repo/_build and report whether their oracles hold
there, too. Not a check of the properties (one schedule each): it validates the simulated MPI layer and the oracles against a real MPI."""
import os, re, subprocess, sys, tempfile, concurrent.futures as cf, json
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); REPO = os.environ.get("MC_REPO", "/repo")
#  file, scenario, processes, number of settings taken, parameters, extra environment
W = dict(OMPI_MCA_osc="pt2pt", ARMCI_USE_WIN_ALLOCATE="0")
RUNS = [("contig", "contig", 3, 24, "every=31", {}), ("contig", "contig", 2, 12, "every=97 origin=1", W), ("contig", "contig_long", 2, 8, "", {}), ("strided", "strided", 2, 24, "every=101", {}), ("strided", "strided", 3, 12, "every=401", W),
        ("vector", "vector", 2, 24, "every=101", {}), ("vector", "vector", 3, 12, "every=401", W), ("acc", "acc", 2, 24, "every=401", {}), ("acc", "acc", 3, 12, "every=1001", W), ("value", "value", 2, 12, "every=7", {}), ("pack", "pack", 1, 1, "maxlv=3 cmax=3", {}),
        ("hdl", "hdl", 2, 24, "every=20011 wc=0", {}), ("rmw", "rmw", 3, 24, "", {}), ("cacc", "cacc", 3, 24, "", {}), ("fence", "fence", 3, 24, "every=1009", {}), ("order", "order", 2, 24, "k=3 set=0", {}), ("gop", "gop", 3, 20, "every=53", {}), ("gop", "gop", 4, 12, "every=211", {}),
        ("msg", "bcast", 4, 8, "every=3", {}), ("msg", "p2p", 3, 24, "", {}), ("msg", "sel", 3, 8, "", {}), ("group", "group", 3, 8, "every=17", {}), ("group", "group", 4, 4, "every=499", {}), ("topo", "topo", 4, 1, "", {}),
        ("mutex", "mutex", 3, 1, "rounds=20", W), ("mutex", "mutex", 4, 1, "rounds=20 data=1", W), ("mutex", "mutex", 2, 1, "rounds=10 two=1 nm=2", W), ("flag", "flag", 2, 24, "", {}), ("ctree", "ctree_iov", 2, 4, "", {}), ("env", "mix", 2, 24, "every=3", {}), ("fence", "bar", 3, 12, "", {}), ("msg", "sel", 4, 8, "", {})]
KEEP = os.environ.get("KEEP")
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    want = sys.argv[1:]; bad = 0; tot = 0; out = []
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(d + "/inc"); os.symlink(V + "/mc/inc/mc.h", d + "/inc/mc.h")
        lib = sh(["bash", "-c", "ls %s/_build/.libs/libarmci.a %s/_build/src/.libs/libarmci.a %s/_build/libarmci.la 2>/dev/null | head -1" % (REPO, REPO, REPO)]).stdout.strip()
        if KEEP: d = KEEP; os.makedirs(d + "/inc", exist_ok=True); (os.path.exists(d + "/inc/mc.h") or os.symlink(V + "/mc/inc/mc.h", d + "/inc/mc.h"))
        for f, s, n, k, par, env in RUNS:
            if want and s not in want and f not in want: continue
            exe = "%s/%s-%s" % (d, f, s)
            if not os.path.exists(exe):
                r = sh(["mpicc", "-O1", "-w", "-std=gnu11", "-fno-strict-aliasing", "-DSCEN=" + s, "-DTESTS=1000000", "-I", d + "/inc", "-I", V + "/mc/scen", "-I", REPO + "/src", "-I", REPO + "/_build/src", "-I", REPO + "/_build", HERE + "/rt.c", V + "/mc/scen/%s.c" % f, "-o", exe, lib, "-lm", "-lpthread"])
                if r.returncode: print("BUILD", f, s, r.stdout[-1500:]); bad += 1; continue
            p = par.split()
            combos = [l for l in sh([exe, "dry", str(n)] + p).stdout.split("\n") if l.endswith(".")]
            # the settings are taken evenly from the enumeration
            sel = combos if len(combos) <= k else [combos[(i*len(combos))//k + (i*7) % max(1, len(combos)//k)] for i in range(k)]
            def one(c):
                with tempfile.NamedTemporaryFile(dir=d) as t:
                    t.write(b"\0"*200000); t.flush()
                    e = dict(dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_osc="sm,pt2pt", OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_pml="ob1", OMPI_MCA_btl="self,vader", HWLOC_COMPONENTS="no_os"), **env)
                    try: return c, sh(["timeout", "-k", "2", "200", "mpirun", "--oversubscribe", "-n", str(n), exe, t.name, c] + p, env=e)
                    except Exception as x: return c, x
            ok = skip = cases = 0
            with cf.ThreadPoolExecutor(1) as ex:
                for c, r in ex.map(one, sel):
                    m = re.search(r"OK (\d+) cases", r.stdout)
                    if "SKIP" in r.stdout: skip += 1
                    elif r.returncode == 0 and m: ok += 1; cases += int(m.group(1))
                    else: bad += 1; print("  FAILED", s, n, c, par, r.returncode, (re.findall(r"(?:FAIL|UNSUPP).*|.*rror.*", r.stdout) or [r.stdout[-300:]])[:2], flush=True)
            tot += ok; print("%-12s n=%d %-22s %s: %d of %d setting combinations agree, %d not applicable, %d cases" % (s, n, par, "pt2pt" if env else "default", ok, len(sel), skip, cases), flush=True)
    print("runs in agreement: %d, failures: %d" % (tot, bad)); return 1 if bad else 0
sys.exit(main())
