"""Jobs of every property: see check.py and DESIGN.md. Quick jobs are sized to take about 15 s on 8 cores, thorough ones several minutes."""
def J(file, scen, n=2, variant="GEN", j=1, max_s=90, dev=None, opt=None, env=None, nostate=False, vbits=20, **param):
    return dict(file=file, scen=scen, n=n, variant=variant, j=j, max_s=max_s, dev=dev, opt=opt or {}, env=env or {}, nostate=nostate, vbits=vbits, param=param)

def D(Q, quick, thorough):
    return quick if Q else thorough

def BIG(Q, fam, e, v="GEN", n=2, **k):
    b = dict(layout=0, e2e=0, wc=0, shr=0) if Q else dict(layout=0, wc=0)
    return J("big", "big", n, v, j=8, fam=fam, every=e, max_s=300, **{**b, **k})

def HUGE(Q, fam, e, v="GEN", **k):
    b = dict(layout=0, e2e=0, wc=0, shr=0, lim=0) if Q else dict(layout=0, wc=0, lim=0)
    return J("huge", "huge", 2, v, j=8, fam=fam, every=e, max_s=300, **{**b, **k})

def C01(Q):
    l = [J("contig", "contig", 2, j=4, origin=o, every=1, max_s=700) for o in (0, 1)]
    l += [J("contig", "contig", 3, j=4, origin=o, every=D(Q, 5, 1), max_s=700) for o in D(Q, (1,), (0, 1, 2))]
    l += [J("contig", "contig", 2, v, j=4, origin=1, every=D(Q, 5, 1), max_s=700) for v in ("OMPI4", "MPICH")]
    l += [J("contig", "contig_long", 2, variant=v, layout=0) for v in ("GEN", "OMPI4")]
    l += [BIG(Q, 0, D(Q, 7, 1), v) for v in ("GEN", "OMPI4")] + [BIG(Q, 0, D(Q, 11, 3), shr=1)]
    l += [HUGE(Q, 0, D(Q, 3, 1), v, op1=2, im=1, checks=0, chunk=0) for v in ("GEN", "OMPI4")]
    return l

def C02(Q):
    q = dict(nc0=3, cmax=2, sz=400)
    l = [J("strided", "strided", 2, j=4, sm=1, every=D(Q, 1, 1), max_s=700, **q), J("strided", "strided", 2, j=8, sm=0, layout=0, every=D(Q, 2, 1), max_s=700, **q),
         J("strided", "strided", 2, "MPICH", j=4, layout=1, sm=1, shr=0, **q)]
    if not Q:
        l += [J("strided", "strided", 2, v, j=8, sm=s, layout=0, **{"del": 0}, nc0=4, cmax=3, sz=600, every=e, max_s=400) for v, s, e in (("GEN", 1, 1), ("OMPI5", 1, 2), ("GEN", 0, 9))]
        l += [J("strided", "strided", 3, j=8, sm=s, layout=1, max_s=300, every=e, **q) for s, e in ((1, 1), (0, 7))]
    l += [HUGE(Q, 1, D(Q, 3, 1), op1=2, chunk=0), HUGE(Q, 1, D(Q, 3, 1), "MPICH", op1=2, im=2, chunk=0)]
    l += [BIG(Q, 2, D(Q, 401, 97), acc=0), BIG(Q, 2, D(Q, 11, 3), acc=0, sm=1, shr=1), BIG(Q, 2, D(Q, 17, 3), "MPICH", acc=0, sm=0, checks=0, im=2, chunk=0)]
    return l

def C03(Q):
    l = [J("vector", "vector", 2, j=8, layout=2, e2e=0, wc=0, every=D(Q, 2, 1), max_s=700)]
    l += [J("vector", "vector", 2, v, j=8, layout=1, every=D(Q, 11, 7), max_s=700) for v in D(Q, ("MPICH",), ("MPICH", "OMPI4", "OMPI5"))]
    if not Q: l += [J("vector", "vector", 3, j=8, layout=0, e2e=1, wc=1, every=3, max_s=400)]
    l += [HUGE(Q, 2, D(Q, 3, 1), op1=2, sm=0, chunk=0), HUGE(Q, 2, D(Q, 3, 1), "MPICH", op1=2, sm=0, im=2, chunk=0), J("big", "many", 2, D(Q, "MPICH", "GEN"), j=8, max_s=200, wc=0, e2e=0, layout=0, **D(Q, {"del": 1, "im": 0, "chunk": 0, "atom": 0, "shr": 0, "checks": 0}, {}))]
    l += [BIG(Q, 3, D(Q, 1009, 251), acc=0), BIG(Q, 3, D(Q, 101, 23), "MPICH", acc=0, checks=0, im=2, chunk=0)]
    return l

def C04(Q):
    l = [J("acc", "acc", 2, j=8, layout=2, e2e=0, wc=0, every=D(Q, 71, 7), max_s=600)]
    l += [J("acc", "acc", 2, v, j=8, layout=1, every=D(Q, 1201, 91), max_s=500) for v in D(Q, ("OMPI5",), ("MPICH", "OMPI4", "OMPI5"))]
    if not Q: l += [J("acc", "acc", 3, j=8, layout=0, e2e=1, wc=1, every=7, max_s=400)]
    l += [BIG(Q, 1, D(Q, 61, 7)), BIG(Q, 1, D(Q, 61, 7), "OMPI4", shr=1), BIG(Q, 2, D(Q, 997, 61), op0=4), BIG(Q, 3, D(Q, 3001, 251), op0=4)]
    l += [HUGE(Q, f, D(Q, 7, 1), op0=2, chunk=0, **k) for f, k in ((0, dict(im=1, checks=0)), (1, {}), (2, dict(sm=0)))]
    return l

def C05(Q):
    b = dict(layout=0, wc=0, chunk=0, checks=0, same=0, e2e=0, vbits=24, j=8); b["del"] = 0
    c = lambda n, v="GEN", max_s=200, **k: J("cacc", "cacc", n, v, max_s=max_s, **{**b, **k})
    l = [c(2, k=1, set=0, sm=1, im=2, shr=0, lim=0, sc=1, **D(Q, dict(atom=1), {})), c(2, k=1, set=D(Q, 4, 0), sm=0, lim=D(Q, 0, -1), sc=0, t=0, **D(Q, dict(shr=1, own=0), {})),
         c(2, k=2, set=2, sm=0, sc=1, lim=0, shr=0, **D(Q, dict(im=1, t=0, atom=0), {})),
         c(3, k=1, set=1, sm=1, sc=1, im=2, lim=0, shr=0, own=1, **D(Q, dict(t=5, atom=1), {})),
         c(2, "TSAN", opt=dict(access_points=2), k=1, set=0, sm=1, sc=1, lim=0, shr=0, atom=1, **D(Q, dict(im=2, t=3), {}))]
    if not Q:
        l += [c(2, k=1, set=0, sm=1, im=2, shr=0, lim=0, sc=1, same=1, layout=2, e2e=1), c(2, k=2, set=1, sm=0, im=1, shr=0, lim=0, sc=1, t=0, own=0), c(2, k=2, set=3, sm=1, im=2, shr=0, lim=0, sc=1, t=3, own=1), c(3, k=1, set=0, sm=1, sc=1, im=1, lim=0, shr=0, own=1, t=1, atom=1)]
        l += [c(2, v, k=1, set=0, lim=0, sc=1) for v in ("OMPI4", "MPICH")]
    return l

def C06(Q):
    l = [J("rmw", "rmw", 2, j=8, k=2, max_s=400, **D(Q, dict(layout=1, read=1), {})), J("rmw", "rmw", 3, j=8, k=1, max_s=400, **D(Q, dict(layout=1, lk=0), {}))]
    l += [J("rmw", "rmw", 2, v, j=8, k=2, max_s=400, layout=0, lk=0, **D(Q, dict(ur=0, read=0), {})) for v in ("OMPI4", "OMPI5", "MPICH")]
    l += [J("rmw", "spin", n, v, j=4, rounds=r, tries=t) for n, v, r, t in ((2, "GEN", 2, 3), (2, "OMPI4", 2, 3), (3, "GEN", 1, 2))]
    return l

def C07(Q):
    l = [J("fence", "fence", 2, j=8, origin=1, shr=0, lim=0, chunk=0, checks=0, every=D(Q, 11, 3), max_s=300), J("fence", "fence", 3, j=8, origin=2, shr=0, lim=0, chunk=0, checks=0, layout=0, wc=0, every=D(Q, 41, 23), max_s=300),
         J("fence", "fence", 3, j=8, origin=0, shr=0, lim=0, chunk=0, checks=0, layout=0, wc=0, every=D(Q, 41, 23), max_s=300)]
    l += [J("fence", "bar", 2, v, j=8, rounds=D(Q, 1, 2), max_s=300) for v in D(Q, ("GEN",), ("GEN", "OMPI4"))] + [J("fence", "bar", 3, j=8, rounds=1, max_s=300, **D(Q, dict(layout=0, e2e=0, mbs=0), {}))]
    return l

def C08(Q):
    l = []
    for r in (1, 2):
        l += [J("contig", "contig", 2, j=2, reuse=r, nlen=5, layout=0, nops=4, every=D(Q, 3, 1), max_s=400), 
              J("strided", "strided", 2, j=2, reuse=r, layout=0, sm=1, nc0=3, cmax=2, sz=400, every=D(Q, 2, 1), max_s=400),
              J("strided", "strided", 2, j=2, reuse=r, layout=0, sm=0, nc0=3, cmax=2, sz=400, every=D(Q, 37, 3), max_s=400),
              J("vector", "vector", 2, j=4, reuse=r, layout=0, e2e=0, wc=0, every=D(Q, 53, 5), max_s=400),
              J("acc", "acc", 2, j=4, reuse=r, layout=0, e2e=0, wc=0, every=D(Q, 211, 23), max_s=400)]
    l += [BIG(Q, f, e, reuse=1, **{"del": 0}) for f, e in ((0, D(Q, 31, 5)), (1, D(Q, 61, 11)), (2, D(Q, 997, 101)), (3, D(Q, 4001, 401)))]
    return l

def C09(Q):
    return [J("hdl", "hdl", 2, j=8, shr=0, lim=0, chunk=0, checks=0, layout=0, every=D(Q, 2503, 61), max_s=300), J("hdl", "hdl", 2, j=8, origin=1, shr=1, checks=1, layout=2, wc=0, every=D(Q, 7001, 211), max_s=300),
            J("hdl", "hdl", 3, j=8, origin=1, shr=0, lim=0, chunk=0, checks=0, layout=0, wc=0, every=D(Q, 10007, 1009), max_s=300)] + \
           [J("limit", "limit", 2, v, j=4, every=D(Q, 6007, 601), max_s=300) for v in ("GEN", "OMPI4", "MPICH")]      # up to 300 operations outstanding

def C10(Q):
    m = lambda n, **k: J("mutex", "mutex", n, **k)
    p = lambda n, **k: J("mutex", "mprog", n, j=8, **{**dict(vbits=24, max_s=300), **k})
    l = [m(2, rounds=5), m(3, rounds=4, j=4), m(4, rounds=1, j=4), m(2, rounds=2, data=1), m(2, rounds=2, two=1, nm=2), m(2, rounds=2, two=2), m(2, rounds=1, two=3), m(3, rounds=1, two=3), 
         m(3, rounds=2, first=1, act=2, host=0), m(3, rounds=1, group=1, hdl=1, host=2), m(3, rounds=2, group=2, hdl=1, host=1), m(2, rounds=2, hdl=2, allhosts=1)]
    x = dict(variant="TSAN", opt=dict(access_points=2))      # plain accesses to the mutexes' memory are scheduling points, too
    l += [m(2, rounds=3, **x), m(3, rounds=D(Q, 2, 3), j=4, **x), p(2, K=1, nest=1, **x)]
    l += [p(2, K=1, nest=1), p(2, K=2), p(3, K=1), p(2, K=1, data=1), p(3, K=1, nest=1, kind=0, life=0)]
    l += [J("mutex", "mmany", n, v, j=4, nm=k) for n, v, k in D(Q, ((2, "GEN", 300), (3, "GEN", 70), (4, "GEN", 40), (2, "MPICH", 40), (7, "GEN", 20)), ((2, "GEN", 600), (3, "GEN", 300), (4, "OMPI4", 140), (2, "MPICH", 140), (8, "GEN", 70)))]
    if not Q: l += [m(4, rounds=2, j=8, vbits=23), m(3, rounds=6, j=8), m(5, rounds=1, j=8), p(2, K=2, nest=1, kind=0, life=0), p(2, K=3, kind=0, life=0), p(3, K=1, nest=1, kind=1, life=0), p(3, K=2, kind=0, life=0), p(3, K=1, data=1), p(4, K=1, kind=1, life=0), m(3, rounds=2, hdl=2, allhosts=1, two=1, nm=2)]
    return l

def C11(Q):
    d = dict(winalloc=0, shr=0, zero=0, cache=0, debug=0)
    l = [J("alloc", "alloc", 2, j=4, K=3, every=D(Q, 41, 11)), J("alloc", "alloc", 3, j=8, K=3, every=D(Q, 97, 29)), J("alloc", "alloc", 3, j=8, K=4, pats=4, groups=3, styles=3, layout=1, **d, every=D(Q, 5, 1)), J("alloc", "alloc", 2, j=4, K=5, pats=2, groups=2, styles=2, **d, every=D(Q, 5, 1)),
         J("alloc", "alloc", 2, j=2, memdev=1, K=4, styles=3, pats=5, **d, every=D(Q, 7, 1)), J("alloc", "alloc", 4, j=4, K=3, groups=4, **d, every=D(Q, 23, 1)), J("alloc", "alloc", 1, j=2, K=4, pats=3, **d)] + [J("alloc", "alloc", 3, v, j=4, K=3, **d, every=D(Q, 11, 1)) for v in ("OMPI4", "MPICH")]
    l += [J("alloc", "amany", n, v, j=4, cnt=c, **(d if Q else {})) for n, v, c in ((2, "GEN", 60), (3, "GEN", 40), (5, "GEN", 30), (3, "OMPI4", 20), (1, "GEN", 20))] + [J("alloc", "amany", 2, j=4, cnt=20, max_s=200, **D(Q, dict(cache=0, debug=0), {}))]
    return l

def C12(Q):
    return [J("group", "group", n, j=4, every=D(Q, e, 1), max_s=300) for n, e in D(Q, ((1, 1), (2, 1), (3, 1), (4, 1), (5, 11)), ((1, 1), (2, 1), (3, 1), (4, 1), (5, 11)))] + [J("group", "group", 3, v, j=2, layout=0) for v in ("OMPI4", "MPICH")] + \
           [J("group", "group_nc", n, np=n, progs=k, j=4, max_s=200) for n, k in D(Q, ((3, 2), (4, 1), (5, 1)), ((3, 2), (3, 3), (4, 2), (5, 1), (6, 1)))] + \
           [J("group", "group", n, j=4, layout=0, nest=0, split=0, max_s=200, **k) for n, k in ((6, {}), (7, D(Q, dict(noncoll=1), {})), (8, dict(noncoll=1)))] + [J("group", "gmany", n, j=4, cnt=c, layout=0) for n, c in ((1, 20), (2, 24), (3, 40), (4, 30), (5, 24), (7, 24), (8, 24))]

def C13(Q):
    return [J("gop", "gop", n, v, j=j, every=D(Q, e, 1), max_s=300, **k) for n, v, j, e, k in ((1, "GEN", 1, 1, dict(order=0, seg=0)), (2, "GEN", 4, 7, {}), (3, "GEN", 4, 7, {}), (4, "GEN", 4, 19, {}), (3, "OMPI4", 2, 19, {}), (5, "GEN", 4, 97, {}), (6, "GEN", 4, 97, {}), (7, "GEN", 4, 211, {}), (8, "GEN", 4, 211, {}))] + [J("big", "bigmsg", n, j=4, max_s=200) for n in D(Q, (2, 4), (1, 2, 3, 4, 5))]

def C14(Q):
    return [J("msg", "sel", n, j=4, every=D(Q, e, 1), max_s=300) for n, e in D(Q, ((1, 1), (2, 1), (3, 1), (4, 29), (5, 301)), ((1, 1), (2, 1), (3, 1), (4, 1), (5, 3)))] + [J("msg", "bcast", n, j=2, max_s=200) for n in (1, 2, 3, 4, 5, 6, 7, 8)] + \
           [J("msg", "p2p", n, rounds=r, j=4, max_s=300) for n, r in D(Q, ((2, 2), (2, 3), (3, 2), (3, 3)), ((2, 3), (3, 2), (3, 3), (4, 2), (4, 3)))] + [J("big", "bigmsg", n, j=4, max_s=200) for n in D(Q, (3,), (1, 2, 3, 5))]

def C15(Q):
    return [J("ctree", "ctree_seq", 1, j=4, U=6, depth=D(Q, 4, 5), max_s=600), J("ctree", "ctree_perm", 1, j=4, N=D(Q, 9, 10), max_s=600), J("ctree", "ctree_big", 1), J("ctree", "ctree_iov", 2), J("ctree", "ctree_iov", 3)] + \
           [J("overlap", "overlap", 2, v, j=8, layout=l, checks=1, every=D(Q, e, 1 + e//9), max_s=300) for v, l, e in (("GEN", 0, 7), ("OMPI4", 1, 29), ("MPICH", 2, 29))]

def C16(Q):
    l = [J("init", "init", n, j=4, K=k, every=D(Q, e, 1), max_s=300) for n, k, e in D(Q, ((1, 5, 1), (2, 4, 1), (3, 4, 1), (2, 6, 97)), ((1, 6, 7), (2, 5, 1), (3, 5, 3), (4, 4, 1), (2, 7, 199)))] + [J("init", "init", 2, v, j=2, K=4, every=D(Q, 11, 1)) for v in ("OMPI4", "MPICH")]
    return l

def C17(Q):
    b = dict(layout=0, wc=0, checks=0, lim=0, chunk=0, e2e=0, j=8, max_s=300); b["del"] = 0
    l = [J("flag", "flag", 2, ord=0, **b, **D(Q, dict(atom=0), {})), J("flag", "flag", 3, shr=0, **b, **D(Q, dict(im=1, atom=0, ord=1), {})), J("flag", "flag", 2, "TSAN", opt=dict(access_points=2), **b, **D(Q, dict(im=2, atom=0, shr=1, ord=0), {}))]
    if not Q: l += [J("flag", "flag", 2, v, **{**b, **k}) for v, k in (("OMPI4", dict(layout=2)), ("MPICH", dict(wc=1)), ("GEN", dict(e2e=1)), ("GEN", dict(chunk=1)), ("GEN", dict(lim=1)), ("GEN", dict(checks=1)))]
    return l

def C18(Q):
    return [J("env", "progress", 1, j=4, rounds=D(Q, 2, 3)), J("env", "progress", 2, j=4)] + [J("env", "parse", n, v, j=2) for n, v in ((1, "GEN"), (2, "GEN"), (2, "OMPI4"), (2, "OMPI5"), (2, "MPICH"))] + [J("env", "mix", 2, v, j=8, w=D(Q, 3, 4), max_s=300) for v in D(Q, ("GEN", "MPICH"), ("GEN", "MPICH", "OMPI4", "OMPI5"))] + \
           [J("env", "mix", n, v, j=4, w=D(Q, 2, 3), max_s=300) for n, v in ((1, "GEN"), (3, "GEN"), (2, "OMPI4"), (2, "OMPI5"), (4, "GEN"))]

def C19(Q):
    b = dict(layout=0, shr=0, sm=0, j=8, opt=dict(races=1), act=1, max_s=300, vbits=22)
    l = [J("thread", "thread", 2, "TSAN", mode=0, light=1, **b), J("thread", "thread", 2, "TSAN", mode=0, head=1, **b), J("thread", "thread", 1, "TSAN", mode=0, head=1, **b), J("thread", "thread", 2, "TSAN", mode=1, **b), J("thread", "thread", 1, "TSAN", mode=2, **b), J("thread", "thread", 2, "TSAN", mode=2, light=1, dev=3, **b),
         J("thread", "thread", 2, "TSAN5", mode=1, **b), J("thread", "thread", 1, "TSAN5", mode=0, **b)]
    m = dict(j=8, max_s=300, vbits=22); r = dict(m, opt=dict(races=1))
    l += [J("thread", "tmutex", 1, "TSAN", threads=3, rounds=1, nest=1, nl=3, **r), J("thread", "tmutex", 1, threads=3, rounds=2, nest=1, nl=2, **m), J("thread", "tmutex", 2, threads=7, nl=3, rounds=1, nest=1, **m), J("thread", "tmutex", 2, threads=15, nl=2, rounds=1, **m),
          J("thread", "tmutex", 2, "TSAN", threads=7, nl=2, rounds=1, dev=3, **r)]
    if not Q:
        x = {**b, "shr": -1, "sm": -1}; x["layout"] = -1
        l += [J("thread", "thread", 2, "TSAN", mode=0, **b), J("thread", "thread", 2, "TSAN", mode=0, light=1, dev=3, **x), J("thread", "thread", 2, "TSAN", mode=1, **x), J("thread", "thread", 3, "TSAN", mode=1, dev=3, **b), J("thread", "thread", 2, "TSAN5", mode=1, **x),
              J("thread", "thread", 2, "TSAN", mode=2, light=1, dev=5, **b), J("thread", "tmutex", 1, "TSAN", threads=3, rounds=2, nest=1, nl=2, **r), J("thread", "tmutex", 2, "TSAN", threads=7, nl=2, rounds=1, dev=6, **r),
              J("thread", "tmutex", 2, threads=15, nl=4, rounds=1, **m), J("thread", "tmutex", 2, threads=7, nl=2, nest=1, rounds=2, **m), J("thread", "tmutex", 3, threads=23, nl=2, rounds=1, **m)]
    return l

def C20(Q):
    st = dict(strict=1)
    l = [J("limit", "limit", 2, "OMPI5", j=8, opt=dict(req_limit=254), every=D(Q, 401, 23), max_s=300), J("limit", "limit", 1, "OMPI5", j=2, opt=dict(req_limit=254), every=D(Q, 4001, 401), max_s=300), J("limit", "limit", 2, j=4, every=D(Q, 4001, 401), opt=st, max_s=300)]
    for v in ("GEN", "OMPI4", "OMPI5", "MPICH"):
        a = dict(j=4, opt=st, max_s=200); r = dict(OMPI5=dict(j=4, opt=dict(strict=1, req_limit=254), max_s=200)).get(v, a)
        l += [J("contig", "contig", 2, v, origin=1, every=D(Q, 29, 3), **r), J("strided", "strided", 2, v, layout=0, sm=0, nc0=3, cmax=2, sz=400, every=D(Q, 71, 7), **r), J("strided", "strided", 2, v, layout=1, sm=1, nc0=3, cmax=2, sz=400, every=D(Q, 11, 1), **r),
              J("vector", "vector", 2, v, layout=0, e2e=0, wc=0, every=D(Q, 211, 17), **r)] + ([J("acc", "acc", 2, v, layout=1, e2e=0, wc=0, every=D(Q, 1511, 101), **r), J("hdl", "hdl", 2, v, origin=1, shr=0, lim=0, chunk=0, checks=0, layout=0, every=D(Q, 28001, 2003), **r)] if not Q or v == "OMPI4" else []) + [
              J("gop", "gop", 3, v, every=D(Q, 151, 11), order=0, **a), J("msg", "bcast", 3, v, layout=0, **a), J("group", "group", 3, v, layout=0, **a), J("alloc", "alloc", 3, v, K=3, debug=0, every=D(Q, 997, 97), **a), J("init", "init", 2, v, K=4, every=D(Q, 29, 3), **a)]
    return l

def C21(Q):
    return [J("oor", "oor", 2, j=8, layout=1, e2e=0, wc=0, every=D(Q, 2, 1), max_s=400), J("oor", "oor", 3, origin=1, j=8, layout=0, e2e=1, every=D(Q, 5, 3), max_s=400)] + D(Q, [], [J("oor", "oor", 2, v, j=8, layout=2, every=7, max_s=400) for v in ("OMPI4", "OMPI5", "MPICH")])

def C22(Q):
    return [J("value", "value", n, j=2, origin=o, every=D(Q, e, 1)) for n, o, e in ((2, 0, 1), (2, 1, 1), (3, 1, 3))] + [J("value", "value", 2, v, j=2, every=D(Q, 5, 1)) for v in ("OMPI4", "MPICH")]

def C23(Q):
    b = dict(layout=0, checks=0, lim=0, chunk=0, j=8, max_s=300, vbits=22)
    l = [J("order", "order", 2, k=2, set=0, **b), J("order", "order", 2, k=3, set=1, **b), J("order", "order", 2, "OMPI4", k=2, set=2, **{**b, "layout": 2}), J("order", "order", 2, "MPICH", k=2, set=0, **{**b, "chunk": -1})]
    if not Q:
        l += [J("order", "order", 2, k=3, set=0, **b), J("order", "order", 2, k=4, set=3, **b), J("order", "order", 2, k=3, set=2, lk=0, **{**b, "layout": 2, "lim": -1, "chunk": -1}), J("order", "order", 2, k=4, set=1, **b), J("order", "order", 3, k=2, set=0, **b)]
        l += [J("order", "order", 2, v, k=3, set=2, **b) for v in ("OMPI4", "OMPI5", "MPICH")]
    return l

def C24(Q):
    return [J("contig", "contig", 2, j=2, origin=o, lk0=1, nlen=D(Q, 5, 13), layout=0, nops=4, every=D(Q, 2, 1), max_s=400) for o in (0, 1)] + \
           [J("strided", "strided", 2, j=4, layout=1, sm=1, gl=1, nc0=3, cmax=2, sz=400, every=D(Q, 2, 1), max_s=400), J("strided", "strided", 2, j=4, layout=1, sm=0, gl=1, nc0=3, cmax=2, sz=400, every=D(Q, 19, 2), max_s=400),
            J("vector", "vector", 2, j=4, lk0=1, layout=0, e2e=0, wc=0, every=D(Q, 13, 2), max_s=400), J("acc", "acc", 2, j=4, lk0=1, layout=1, e2e=0, wc=0, every=D(Q, 61, 13), max_s=400)] + \
           [J("rmw", "rmw", 2, j=8, k=2, lk=1, max_s=300, **D(Q, dict(layout=0, read=0), {})), J("rmw", "rmw", 3, j=8, k=1, lk=1, max_s=300, **D(Q, dict(layout=1, read=0), {})),
            J("msg", "bcast", 3, j=2, shr=1, max_s=200), J("msg", "p2p", 2, rounds=2, shr=1, buf=1, j=2), J("msg", "p2p", 3, rounds=2, shr=1, buf=1, j=2), J("msg", "sel", 2, j=2, shr=1), J("msg", "sel", 3, j=4, shr=1, every=D(Q, 5, 1)),
            J("gop", "gop", 3, j=4, shr=1, every=D(Q, 29, 3), max_s=200)]

def C25(Q):
    return [J("topo", "topo", n) for n in (1, 2, 3, 4, 5, 6, 7, 8)]

def C26(Q):
    return [J("pack", "pack", 1, maxlv=3, cmax=D(Q, 3, 4)), J("pack", "pack", 1, maxlv=D(Q, 4, 5), cmax=2)] + [J("pack", "pack", 1, maxlv=4, cmax=3)]

def C27(Q):
    e = D(Q, 31, 3)
    l = [J("refuse", "refuse", n, v, j=8, layout=D(Q, 0, -1), every=e, max_s=300) for n, v in ((2, "GEN"), (2, "OMPI4"), (3, "MPICH"))]
    l += [J("refuse", "refuse", 2, j=8, origin=1, layout=1, every=e), J("refuse", "refuse", 1, j=4, layout=0, every=e), J("refuse", "phase", 1), J("refuse", "phase", 2)]
    return l

def W(dflt, job):
    """The same job with the library on a communicator the application made (ranks of MPI_COMM_WORLD reversed, one of its processes outside ARMCI) and with a default group set by the application."""
    return {**job, "opt": {**job["opt"], "world_rev": 1, "extra": 1}, "param": {**job["param"], "world": 1, "dflt": dflt}}

def WORLD(Q):
    z = dict(layout=0, wc=0, checks=0, lim=0, chunk=0, e2e=0, j=4, max_s=300); z["del"] = 0; s = dict(nc0=3, cmax=2, sz=400)
    x = dict(layout=0, e2e=0, wc=0)
    return dict(
      C01=[W(1, J("contig", "contig", 3, j=4, origin=1, every=D(Q, 31, 5))), W(2, BIG(Q, 0, D(Q, 61, 11)))],
      C02=[W(1, J("strided", "strided", 3, j=4, sm=1, layout=1, every=D(Q, 7, 1), **s)), W(2, J("strided", "strided", 2, j=4, sm=0, layout=0, every=D(Q, 61, 5), **s))],
      C03=[W(1, J("vector", "vector", 3, j=4, every=D(Q, 53, 7), **x)), W(2, J("vector", "vector", 2, "MPICH", j=4, every=D(Q, 53, 7), **x))],
      C04=[W(1, J("acc", "acc", 3, j=4, every=D(Q, 2003, 101), **x))],
      C05=[W(1, J("cacc", "cacc", 2, k=1, set=0, sm=1, im=2, shr=0, sc=1, same=0, atom=1, vbits=24, **D(Q, {"own": 0}, {}), **z))],
      C06=[W(1, J("rmw", "rmw", 2, j=8, k=2, layout=0, lk=0, read=1, max_s=300)), W(2, J("rmw", "rmw", 3, j=8, k=1, layout=2, lk=0, read=0, max_s=300))],
      C07=[W(1, J("fence", "fence", 3, j=4, origin=1, shr=0, lim=0, chunk=0, checks=0, layout=0, wc=0, every=D(Q, 211, 23))), W(2, J("fence", "bar", 2, j=4, rounds=1, max_s=300)), W(1, J("fence", "bar", 3, j=8, rounds=1, layout=0, e2e=0, **D(Q, dict(mbs=1), {}), max_s=300))],
      C09=[W(1, J("hdl", "hdl", 2, j=4, shr=0, lim=0, chunk=0, checks=0, layout=0, every=D(Q, 28001, 997)))],
      C10=[W(1, J("mutex", "mutex", 3, rounds=2, j=4)), W(2, J("mutex", "mutex", 2, rounds=3)), W(1, J("mutex", "mutex", 3, rounds=1, group=1, hdl=1, host=2)), W(1, J("mutex", "mprog", 2, K=1, nest=1, j=4, max_s=300))],
      C11=[W(1, J("alloc", "alloc", 3, j=4, K=3, every=D(Q, 211, 29))), W(2, J("alloc", "alloc", 2, j=4, K=3, every=D(Q, 101, 11)))],
      C12=[W(0, J("group", "group", n, j=2, layout=0)) for n in (2, 3)] + [W(0, J("group", "group_nc", 3, np=3, progs=1, j=4, max_s=200))],
      C13=[W(1, J("gop", "gop", 3, j=4, every=D(Q, 29, 3))), W(2, J("gop", "gop", 2, j=4, every=D(Q, 29, 3)))],
      C14=[W(1, J("msg", "sel", 3, j=4, every=D(Q, 3, 1))), W(1, J("msg", "bcast", 3, j=2)), W(2, J("msg", "bcast", 2)), W(2, J("msg", "p2p", 2, rounds=2)), W(1, J("msg", "p2p", 3, rounds=2, j=4))],
      C17=[W(1, J("flag", "flag", 2, shr=0, ord=1, atom=0, im=2, **z))],
      C21=[W(1, J("oor", "oor", 2, j=4, layout=1, e2e=0, wc=0, every=D(Q, 31, 5)))],
      C22=[W(1, J("value", "value", 3, j=2, origin=1, every=D(Q, 5, 1)))],
      C23=[W(1, J("order", "order", 2, k=2, set=0, layout=0, checks=0, lim=0, chunk=0, j=8, max_s=300, vbits=22))],
      C24=[W(1, J("contig", "contig", 2, j=2, origin=1, lk0=1, nlen=5, layout=0, nops=4, every=D(Q, 7, 1)))],
      C25=[W(d, J("topo", "topo", n)) for n in (1, 2, 3, 4, 5, 6, 7) for d in (0, 1, 2)],
      C27=[W(1, J("refuse", "refuse", 2, j=4, layout=0, every=D(Q, 97, 11)))],
    )

def jobs(prop, tier):
    q = tier == "quick"
    return globals()[prop](q) + WORLD(q).get(prop, [])
NOT_YET = {}
