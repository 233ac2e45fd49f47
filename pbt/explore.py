from gen import *
def basic(D, kinds=KINDS, maxn=8, **kw):
    c = Case(layout(D, maxn))
    simcfg(D, c)
    kind = D.pick(kinds)
    ty = D.pick(REDTYPES if kind in RED else ANYTYPES)
    kv = dict(slot=1, kind=kind, comm=0, type=ty, counts=counts_for(D, kind, c.n), align=D.pick((0,1,2)), root=D.i(0, c.n-1) if kind in ROOTED else None)
    kv.update(kw)
    c.op("init", **kv)
    for s in range(D.i(1,3)):
        c.op("start", slots=1, seed=D.i(1,1000)); c.op("complete", method="wait", slots=1)
    c.op("free", slots=1)
    return c
def nodebug(D):
    c = basic(D); c.env["EXT_MPI_DEBUG"]="0"; return c
for k in KINDS:
    globals()["k_"+k] = (lambda k: lambda D: basic(D, (k,)))(k)
import gen as _g
def nz(k):
    def f(D):
        _g.ZERO = 1
        c = basic(D, (k,)); c.env["EXT_MPI_DEBUG"] = "0"; c.env["EXT_MPI_COPYIN"]="0;1" if 0 else None
        c.env = {a:b for a,b in c.env.items() if b}
        return c
    return f
for k in KINDS:
    globals()["nz_"+k] = nz(k)
def z0(k):
    def f(D):
        _g.ZERO = 0
        c = basic(D, (k,)); c.env["EXT_MPI_DEBUG"] = "0"
        n, kv = c.ops[0]
        kv["counts"] = [0]
        return c
    return f
for k in KINDS:
    globals()["z0_"+k] = z0(k)
def kd(k, dbg):
    def f(D):
        c = basic(D, (k,), keep=1); c.env["EXT_MPI_DEBUG"] = str(dbg); return c
    return f
for k in KINDS:
    globals()["keep1_"+k] = kd(k,1)
    globals()["keep0_"+k] = kd(k,0)
def par(k, what, how="env"):
    def f(D):
        _g.ZERO = 1
        sizes = layout(D, 10)
        c = Case(sizes); simcfg(D, c)
        c.env["EXT_MPI_DEBUG"] = "0"
        P = {}
        if "sock" in what:
            import math
            g = mdivisors(sizes)
            ns = [x for x in (1,2,4) if any(d % x == 0 for d in g) and max(g) % x == 0]
            P["num_sockets_per_node"] = D.pick(ns)
        if "tps" in what:
            P["num_tasks_per_socket"] = D.pick(mdivisors(sizes))
        if "alt" in what: P["alternating"] = D.pick((0,1))
        if "nrec" in what: P["not_recursive"] = 1
        if "ports" in what:
            t = P.get("num_tasks_per_socket", mdivisors(sizes)[-1])
            P["num_ports"], _ = ports_for(D, c.n // t, k)
        if "minc" in what: P["minimum_computation"] = 1
        if "ident" in what: P["bit_identical"] = 1
        if "repro" in what: P["bit_reproducible"] = 0
        if "copyin" in what:
            t = mdivisors(sizes)[-1]
            two = [1]
            while 2 ** (len(two) - 1) < t: two.append(2)
            opts = [(0, [t]), (0, two)] + [(0, [d, t//d]) for d in divisors(t)]
            if t & (t-1): opts.append((1, two))
            if "two" not in what: opts = [o for o in opts if o != (0, two)]
            m, fs = D.pick(opts)
            P["copyin"] = "%d;%s" % (m, " ".join(str(x) for x in fs))
        ty = D.pick(REDTYPES if k in RED else ANYTYPES)
        info = None
        if how == "env":
            for a,b in P.items(): c.env["EXT_MPI_"+a.upper()] = str(b)
        else:
            info = "|".join("ext_mpi_%s:%s" % (a, str(b).replace(" ","_")) for a,b in P.items())
        c.op("init", slot=1, kind=k, comm=0, type=ty, counts=counts_for(D, k, c.n), root=D.i(0,c.n-1) if k in ROOTED else None, info=info)
        for s in range(D.i(1,3)):
            c.op("start", slots=1, seed=D.i(1,1000)); c.op("complete", method="wait", slots=1)
        c.op("free", slots=1)
        c.meta["label"] = str(P)
        return c
    return f
for k in KINDS:
    for w in ("sock","tps","alt","nrec","ports","minc","ident","repro","copyin","copyintwo"):
        for h in ("env","info"):
            globals()["par_%s_%s_%s" % (k,w,h)] = par(k,(w,),h)
def tst(k, method):
    def f(D):
        c = Case(layout(D, 9)); simcfg(D, c)
        c.env["EXT_MPI_DEBUG"] = "0"
        c.op("init", slot=1, kind=k, comm=0, type=D.pick(REDTYPES if k in RED else ANYTYPES), counts=counts_for(D, k, c.n), root=D.i(0,c.n-1) if k in ROOTED else None)
        for s in range(D.i(1,3)):
            c.op("start", slots=1, seed=D.i(1,1000)); c.op("complete", method=method, slots=1, seed=D.i(1,1000))
        c.op("free", slots=1)
        return c
    return f
for k in KINDS:
    for m in ("test","testall","testany","testsome","waitany","waitsome","waitall"):
        globals()["tst_%s_%s" % (k,m)] = tst(k,m)
import props as _p, hist as _h
def hist1(D):
    c = _p.base(D, 6, debug=0)
    _h.Hist(D, c, _p.add_init).run(D.i(3, 12), 4)
    return c
def hist1w(D):
    c = _p.base(D, 6, debug=0)
    _h.Hist(D, c, _p.add_init, methods=("wait","waitall")).run(D.i(3, 12), 4)
    return c
def hist2(D):
    c = _p.base(D, 6, debug=0)
    _h.Hist(D, c, _p.add_init, ring=True).run(D.i(3, 12), 5)
    return c
def race(f):
    def g(D):
        c = f(D); c.sim["race"] = 1; return c
    return g
for k in KINDS: globals()["race_"+k] = race(globals()["k_"+k])
race_hist = race(hist2)
def big(k, null=None):
    def f(D):
        c = Case(layout(D, 8)); simcfg(D, c)
        c.env["EXT_MPI_DEBUG"] = "0"
        n = c.n
        if k in ("allgatherv","gatherv","scatterv","reduce_scatter"):
            tot = D.pick((3000, 20000, 60000))
            cs = [D.i(0, 2*tot//n) for _ in range(n)]
        else:
            cs = [D.i(1000, 40000)]
        c.op("init", slot=1, kind=k, comm=0, type=D.pick(REDTYPES if k in RED else ANYTYPES), counts=cs, root=D.i(0,n-1) if k in ROOTED else None, null=null)
        for s in range(2):
            c.op("start", slots=1, seed=D.i(1,1000)); c.op("complete", method="wait", slots=1)
        c.op("free", slots=1)
        return c
    return f
for k in KINDS: globals()["big_"+k] = big(k); globals()["bign_"+k] = big(k, 1)

for k in KINDS:
    globals()["lg_"+k] = _p.large((k,)); globals()["st_"+k] = _p.staged((k,))

rc_cyc = _p.with_race(_p.racing)
re_1 = _p.repeated
def ident(kind, info, staged=False, ncopy=2):
    def f(D):
        if staged:
            p = D.i(2, 10)
            c = Case([D.pick((1, 2, 2, 3))] * p)
            c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, p, kind)
        else:
            c = Case(layout(D, 10))
        c.env["EXT_MPI_DEBUG"] = "0"
        simcfg(D, c)
        c.op("init", slot=1, kind=kind, comm=0, type=D.pick(("float","double")), counts=counts_for(D, kind, c.n), real=1, identical=1, info=info)
        for s in range(2):
            c.op("start", slots=1, seed=D.i(1,1000)); c.op("complete", method="wait", slots=1)
        c.op("free", slots=1)
        return c
    return f
id_def = ident("allreduce", None)
id_on = ident("allreduce", "ext_mpi_bit_identical:1")
id_st = ident("allreduce", "ext_mpi_bit_identical:1", True)
def nul(k):
    def f(D):
        c = basic(D, (k,), null=2); c.env["EXT_MPI_DEBUG"] = D.pick(("0","1")); return c
    return f
for k in KINDS: globals()["nul_"+k] = nul(k)
pm_1 = _p.parameters
ph_1 = _p.par_history
def sk(kinds, minc):
    def f(D):
        ns = D.pick((2,2,4)); tps = D.pick((1,1,2)); nn = D.i(1, 7 if ns*tps==2 else 4)
        c = Case([ns*tps]*nn); simcfg(D, c); c.env["EXT_MPI_DEBUG"]="0"; c.env["EXT_MPI_NUM_SOCKETS_PER_NODE"]=str(ns)
        kind = D.pick(kinds)
        info=None
        if minc: info="ext_mpi_minimum_computation:1"
        elif nn>1: c.env["EXT_MPI_NUM_PORTS"]=ports_for(D, ns*nn, kind)[0]
        _p.add_init(D,c,1,kind,info=info,big=False); _p.cycles(D,c,1,3); c.op("free",slots=1); return c
    return f
sk_red = sk(("allreduce","reduce","bcast"),0)
sk_ga = sk(("allgatherv","gatherv","scatterv","reduce_scatter"),0)
sk_m = sk(("allreduce","reduce","bcast"),1)
def id_one(D):
    c = Case([D.i(1, 12)]); c.env["EXT_MPI_DEBUG"] = "0"; simcfg(D, c)
    if D.flag(1,2): c.env["EXT_MPI_COPYIN"]=_p.copyin_for(D,c.sizes)
    _p.add_init(D,c,1,"allreduce",type=D.pick(("float","double")),real=1,identical=1,info=D.pick((None,"ext_mpi_bit_identical:1")))
    _p.cycles(D,c,1,2); c.op("free",slots=1); return c
def id_p2(D):
    t=D.i(1,3); c = Case([t]*D.pick((2,4,8))); c.env["EXT_MPI_DEBUG"] = "0"; simcfg(D, c)
    if D.flag(1,2): c.env["EXT_MPI_COPYIN"]=_p.copyin_for(D,c.sizes)
    _p.add_init(D,c,1,"allreduce",type=D.pick(("float","double")),real=1,identical=1,info=D.pick((None,"ext_mpi_bit_identical:1")))
    _p.cycles(D,c,1,2); c.op("free",slots=1); return c
def id_rs(D):
    p=D.i(2,9);t=D.i(1,3); c = Case([t]*p); c.env["EXT_MPI_DEBUG"] = "0"; simcfg(D, c)
    f=factor_list(D,p); c.env["EXT_MPI_NUM_PORTS"]="%d(%s)"%(p," ".join(str(x) for x in [-(x-1) for x in reversed(f)]+[x-1 for x in f]))
    _p.add_init(D,c,1,"allreduce",type=D.pick(("float","double")),real=1,identical=1,info=D.pick((None,"ext_mpi_bit_identical:1")))
    _p.cycles(D,c,1,2); c.op("free",slots=1); return c
def blkx(kinds, **kw):
    return lambda D: _p.blocking(D, kinds, **kw)
blk_ar = blkx(("allreduce",), comms=False, persistent=False, zero=False)
blk_ag = blkx(("allgather",), comms=False, persistent=False, zero=False)
blk_rs = blkx(("reduce_scatter_block",), comms=False, persistent=False, zero=False)
blk_all = _p.blocking

def blk_sock(D):
    c = _p.blocking(D)
    c.sizes[:] = D.pick(([2],[4],[2,2],[2,2],[4,4],[6],[3,3])); 
    return c
def blk_env(D):
    c = _p.blocking(D, comms=False)
    w = D.pick(("NOT_RECURSIVE","ALTERNATING","MINIMUM","COPYIN"))
    if w=="COPYIN":
        c.env["EXT_MPI_COPYIN"]=D.pick(("0;1","0;1 2","1;1 2","2;1","3;1","4;1","5;1")) if max(c.sizes)<=2 else "0;1"
    elif w=="MINIMUM": c.env["EXT_MPI_MINIMUM_COMPUTATION"]="1"
    else: c.env["EXT_MPI_"+w]="1"
    return c

rel1=_p.repeated_body
rel2=_p.many_rounds
rel3=_p.with_final(lambda D: _p.parameters(D, most=8))

dmg=_p.damaged
acc=_p.accepted
iso=_p.isolated
aro=_p.around
wid_all=_p.wide(KINDS)
for k in KINDS: globals()["wid_"+k] = _p.wide((k,))
han=_p.handles
frt=_p.fortran
rp_ar = par("allreduce", ("repro","ports"), "info")
rp_re = par("reduce", ("repro","ports"), "info")
rp_an = par("allreduce", ("repro","ports","nrec"), "info")
