"""The checks: one entry per property."""
import os
from engine import Check, SEP, Text
from gen import *
import gen
import simlib
from simlib import Driver

TIER = os.environ.get("VERIF_TIER", "quick")
DEEP = TIER == "thorough"
CHECKS = {}


def add(c):
    CHECKS[c.pid] = c


def base(D, maxn=10, fine=False, debug=None, **kw):
    c = Case(layout(D, maxn + (4 if DEEP else 0), **kw))
    d = D.pick((0, 0, 0, 1)) if debug is None else debug
    if d == 0:
        c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c, fine)
    return c


def ctype(D, kind):
    return D.pick(REDTYPES if kind in RED else ANYTYPES)


def add_init(D, c, slot, kind, comm=0, n=None, big=True, **kw):
    n = n or c.n
    kv = dict(slot=slot, kind=kind, comm=comm, type=ctype(D, kind), counts=counts_for(D, kind, n, big),
              align=D.pick((0, 1, 2)), root=D.i(0, n - 1) if kind in ROOTED else None,
              inplace=1 if kind in ("allreduce", "reduce") and D.flag(1, 3) else None)
    kv.update(kw)
    c.op("init", **kv)
    return kv


def cycles(D, c, slot, most=3, method="wait"):
    for _ in range(D.i(1, most)):
        c.op("start", slots=slot, seed=D.i(1, 1000))
        if D.flag(1, 4):
            c.op("work", seed=D.i(1, 1000), max=D.pick((50, 500)))
        c.op("complete", method=method, slots=slot)


def single(kinds, maxn=10):
    def g(D):
        c = base(D, maxn)
        kind = D.pick(kinds)
        kv = add_init(D, c, 1, kind)
        cycles(D, c, 1)
        c.op("free", slots=1)
        c.meta["label"] = "%s n%d nodes%d" % (kind, c.n, len(c.sizes))
        return c
    return g


def large(kinds):
    """Long messages: the library itself picks its multi-stage schedules."""
    def g(D):
        c = Case(layout(D, 10 + (6 if DEEP else 0), maxnodes=10 + (6 if DEEP else 0)))
        c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "0", "1"))
        simcfg(D, c)
        kind = D.pick(kinds)
        add_init(D, c, 1, kind, counts=large_counts(D, kind, c.n))
        cycles(D, c, 1, 2)
        c.op("free", slots=1)
        c.meta["label"] = "large %s n%d nodes%d" % (kind, c.n, len(c.sizes))
        return c
    return g


def staged(kinds):
    """Multi-stage schedules as the heuristics choose them for long messages, prescribed through
    EXT_MPI_NUM_PORTS so that they run with short ones, on up to 16 nodes."""
    def g(D):
        kind = D.pick(kinds)
        p = D.i(2, 16)
        t = D.pick((1, 1, 2, 3)) if p <= 8 else D.pick((1, 1, 2))
        c = Case([t] * p)
        c.env["EXT_MPI_DEBUG"] = "0"
        c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, p, kind)
        simcfg(D, c)
        add_init(D, c, 1, kind)
        cycles(D, c, 1, 2)
        c.op("free", slots=1)
        c.meta["label"] = "staged %s nodes%d tasks%d" % (kind, p, t)
        return c
    return g


WIDE = [[1] * 17, [11], [12], [13], [1] * 18, [16], [17], [2] * 9, [5, 5, 5], [6, 6], [7, 7], [2] * 10, [1] * 20, [3] * 7, [4] * 5, [10, 10], [8, 8, 8], [3, 6, 9], [12, 4], [20], [1] * 24,
        [24], [2] * 13, [5] * 5, [1] * 29, [1] * 32, [4] * 8, [16, 16], [32], [33], [2] * 17]


def wide(kinds):
    """More tasks and nodes than the other generators use."""
    def g(D):
        kind = D.pick(kinds)
        c = Case(list(WIDE[D.i(0, len(WIDE) - 1)]))
        c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "0", "1"))
        how = D.pick(("plain", "plain", "staged", "large"))
        if how == "staged" and len(set(c.sizes)) == 1 and len(c.sizes) > 1:
            c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, len(c.sizes), kind)
        simcfg(D, c)
        c.sim["limit"] = 1000000000
        add_init(D, c, 1, kind, **({"counts": large_counts(D, kind, c.n)} if how == "large" and c.n <= 20 else {}))
        cycles(D, c, 1, 2)
        c.op("free", slots=1)
        c.meta["label"] = "wide %s n%d nodes%d" % (kind, c.n, len(c.sizes))
        return c
    return g


def huge(kinds):
    """Beyond the size (ten million bytes or elements) from which the library stops alternating between two segments."""
    def g(D):
        kind = D.pick(kinds)
        c = Case(list(D.pick(([2], [3], [2, 2], [4], [1, 1], [1, 2]))))
        c.env["EXT_MPI_DEBUG"] = "0"
        simcfg(D, c)
        c.sim["slice"] = D.pick((300, 2000, 20000))
        c.sim["limit"] = 4000000000
        more = D.i(0, 5000)
        if kind in ("allreduce", "reduce", "bcast"):
            t, cnt = D.pick((("double", [1250000 + more]), ("long", [1250000 + more]), ("int", [2500000 + more])))
        elif kind in PERRANK:
            t, k = "int" if kind in RED else "char", D.i(0, c.n - 1)
            cnt = [10000000 // c.n + more + 1] * c.n if D.flag(1, 3) else [10000000 + more if i == k else D.pick((0, 1, more)) for i in range(c.n)]
        else:
            t, cnt = "int" if kind in RED else "char", [10000000 // (1 if kind == "scatter" else c.n) + 1 + more]
        add_init(D, c, 1, kind, type=t, counts=cnt, align=0)
        cycles(D, c, 1, 1 if kind in RED else 3)
        c.op("free", slots=1)
        c.meta["label"] = "huge %s n%d" % (kind, c.n)
        return c
    return g


def often(kinds):
    """Started many times."""
    def g(D):
        c = base(D, 6, debug=0)
        kind = D.pick(kinds)
        add_init(D, c, 1, kind, big=False)
        for _ in range(D.i(4, 24)):
            cycles(D, c, 1, 1)
        c.op("free", slots=1)
        c.meta["label"] = "often %s n%d" % (kind, c.n)
        return c
    return g


def collective(*kinds):
    out = [("single", single(kinds), 48), ("large", large(kinds), 32), ("staged", staged(kinds), 48), ("wide", wide(kinds), 8), ("often", often(kinds), 8)]
    if DEEP or kinds[0] != "reduce_scatter":   # seconds per case
        out.append(("huge", huge(kinds), 1 if set(kinds) & set(RED) else 4))
    return out


NT_SINGLE = ("a case is one machine layout, one collective with generated count(s), type, root and placement, 1-3 starts "
             "under a generated schedule; it is non-trivial when at least two ranks exchanged data (messages or node-shared "
             "memory) and the simulator compared at least one non-empty result against the reference; distinct by case text")


def nt_comm(text, meta, v):
    return v.stats.get("checked", 0) > 0 and not text.startswith("n 1\n")


ASSUME = ["MPI, shared memory and processes are the deterministic stand-ins of /verif/sim; ranks are placed in blocks of consecutive "
          "ranks per node, as on a real batch system",
          "limits stated in the README hold: contiguous types, intra-communicators, MPI_SUM on float/double/int/long"]

add(Check("P01", collective("allreduce"), NT_SINGLE, quick=300, nontrivial=nt_comm, assumptions=ASSUME))
add(Check("P02", collective("allgatherv", "allgather"), NT_SINGLE, quick=300, nontrivial=nt_comm, assumptions=ASSUME))
add(Check("P03", collective("reduce_scatter", "reduce_scatter_block"), NT_SINGLE, quick=300, nontrivial=nt_comm, assumptions=ASSUME))
add(Check("P04", collective("reduce", "bcast"), NT_SINGLE, quick=300, nontrivial=nt_comm, assumptions=ASSUME))
add(Check("P05", collective("gatherv", "scatterv", "gather", "scatter"), NT_SINGLE, quick=300, nontrivial=nt_comm, assumptions=ASSUME))

import hist


def history(methods, ring=False, maxn=6, slots=4, steps=12):
    def g(D):
        c = base(D, maxn, debug=D.pick((0, 0, 0, 0, 0, 1)))
        h = hist.Hist(D, c, add_init, methods=methods, ring=ring)
        h.run(D.i(3, steps + (8 if DEEP else 0)), slots)
        c.meta["label"] = "n%d inits%d" % (c.n, h.next - 1)
        return c
    return g


def many(D):
    """More simultaneous requests than the handle table and the request table start with."""
    c = Case(D.pick(([2], [1, 1], [1], [3], [2, 2])))
    c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c)
    n0 = D.i(1, 3)
    for s in range(1, n0 + 1):
        add_init(D, c, s, D.pick(KINDS), big=False)
    early = [s for s in range(1, n0 + 1) if D.flag(2, 3)]
    if early:
        c.op("start", slots=early, seed=D.i(1, 1000))
    m = D.pick((48, 49, 50, 51, 60, 101, 127, 128, 140))
    for s in range(100, 100 + m):
        c.op("init", slot=s, kind="bcast" if s % 7 else "allreduce", comm=0, type="int", counts=[1], root=0 if s % 7 else None)
    late = [s for s in range(100, 100 + m) if D.flag(1, 9)]
    for s in late:
        c.op("start", slots=[s], seed=D.i(1, 1000))
    meth = D.pick(hist.METHODS)
    if early + late:
        c.op("complete", method=meth, slots=early + late)
    gone = [s for s in range(100, 100 + m) if D.flag(1, 3)]
    if gone:
        c.op("free", slots=gone)
    keep = [s for s in list(range(1, n0 + 1)) + list(range(100, 100 + m)) if s not in gone]
    for s in range(400, 400 + D.i(0, 5)):
        add_init(D, c, s, D.pick(KINDS), big=False)
        keep.append(s)
    use = keep[:3] + keep[-6:]
    use = sorted(set(use))
    c.op("start", slots=use, seed=D.i(1, 1000))
    c.op("complete", method=D.pick(("wait", "waitall", "testall")), slots=use)
    c.op("free", slots=keep)
    c.meta["label"] = "%d requests" % (m + n0)
    return c


def nt_starts(k):
    return lambda text, meta, v: v.stats.get("checked", 0) >= k and not text.startswith("n 1\n")


add(Check("P06", [("reuse", history(("wait", "waitall")), 12), ("many", many, 1)],
          "a case is a generated history of creating, starting (one by one or together), completing and freeing persistent collectives on the world "
          "and derived communicators, or one that holds 48 to 140 requests at once; non-trivial when at least two ranks took part and at least three "
          "completions were compared with the reference", nontrivial=nt_starts(3), assumptions=ASSUME))
add(Check("P07", [("mix", history(hist.METHODS, ring=True, slots=5), 4), ("tests", history(("test", "testall", "testany", "testsome", "waitany", "waitsome"), ring=True, slots=4, steps=6), 2)],
          "a case is a generated history mixing persistent collectives with ordinary and ordinary persistent point-to-point requests, completed by every "
          "MPI completion call with inactive and null entries, permuted arrays and statuses; non-trivial when at least two ranks took part and at least two "
          "completions were compared with the reference", nontrivial=nt_starts(2), assumptions=ASSUME))


def racing(D):
    """One collective, restarted several times without anything in between, under fine-grained schedules."""
    kind = D.pick(KINDS)
    how = D.pick(("plain", "staged", "large", "plain"))
    if how == "staged":
        p = D.i(2, 7)
        c = Case([D.pick((1, 2, 2, 3))] * p)
        c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, p, kind)
    else:
        c = Case(layout(D, 9))
    c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "0", "1"))
    alt = D.pick((None, None, 0, 1))
    if alt is not None:
        c.env["EXT_MPI_ALTERNATING"] = str(alt)
    if how == "plain" and D.flag(1, 4):
        c.env["EXT_MPI_NUM_TASKS_PER_SOCKET"] = str(D.pick(mdivisors(c.sizes)))
    simcfg(D, c, fine=True)
    if how == "large":
        kv = add_init(D, c, 1, kind, counts=large_counts(D, kind, c.n))
    else:
        kv = add_init(D, c, 1, kind)
    for _ in range(D.i(2, 3 if how == "large" else 6)):
        c.op("start", slots=1, seed=D.i(1, 1000))
        if D.flag(1, 5):
            c.op("work", seed=D.i(1, 1000), max=D.pick((50, 500)))
        m = D.pick(("wait", "wait", "test"))
        c.op("complete", method=m, slots=1, seed=D.i(1, 1000), **({"yield": D.pick((1, 5))} if m == "test" else {}))
    c.op("free", slots=1)
    c.meta["label"] = "%s %s" % (how, kind)
    return c


def with_race(f):
    def g(D):
        c = f(D)
        c.sim["race"] = 1
        return c
    return g




def copyin_for(D, sizes):
    """A valid EXT_MPI_COPYIN value as the library's own measurement would build one: method 0 with
    factors whose product is the number of tasks, or method 1 with powers of two."""
    t = mdivisors(sizes)[-1]
    two = [1]
    while 2 ** (len(two) - 1) < t:
        two.append(2)
    opts = [(0, [t])] + [(0, [d, t // d]) for d in divisors(t)]
    pr = primes(t)
    for i in range(len(pr)):
        d = 1
        for x in pr[:i]:
            d *= x
        opts.append((0, [d] + pr[i:]))
    if t & (t - 1):
        opts.append((1, two))
    m, fs = D.pick(opts)
    return "%d;%s" % (m, " ".join(map(str, fs)))


def primes(t):
    out, p = [], 2
    while t > 1:
        while t % p == 0:
            out.append(p)
            t //= p
        p += 1
    return out


def repeated(D, fixed=None, slots=2):
    """The same real-valued data reduced again and again, by one or two collectives made with the same arguments."""
    kind = D.pick(RED)
    if D.flag(1, 2):
        p = D.i(2, 9)
        c = Case([D.pick((1, 2, 2, 3, 4))] * p)
        c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, p, kind)
    else:
        c = Case(layout(D, 12))
    c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "1"))
    alt = D.pick((None, 0, 1))
    if alt is not None:
        c.env["EXT_MPI_ALTERNATING"] = str(alt)
    if fixed is None:
        fixed = D.flag(1, 2)
    if fixed:
        c.env["EXT_MPI_COPYIN"] = copyin_for(D, c.sizes)
    simcfg(D, c)
    kv = add_init(D, c, 1, kind, type=D.pick(("float", "double")), real=1, repro=1)
    seeds = [D.i(1, 1000) for _ in range(2)]
    second = fixed and slots > 1 and D.flag(1, 2)
    if second:
        add_init(D, c, 2, kind, **{k: v for k, v in {**kv, "align": D.pick((0, 1, 2))}.items() if k not in ("slot", "kind")})
    for i in range(D.i(2, 5)):
        sl = D.pick((1, 2)) if second else 1
        c.op("start", slots=sl, seed=seeds[0] if D.flag(2, 3) else seeds[1])
        if D.flag(1, 2):
            c.op("work", seed=D.i(1, 1000), max=D.pick((50, 500, 5000)))
        m = D.pick(("wait", "test", "testall"))
        c.op("complete", method=m, slots=sl, seed=D.i(1, 1000), **({} if m == "wait" else {"yield": D.pick((1, 5))}))
    c.op("free", slots=[1, 2] if second else 1)
    c.meta["label"] = "%s %s" % (kind, "prescribed" if fixed else "measured")
    return c


def two_runs(D):
    """The same program under two schedules; the in-node method is prescribed, so nothing may depend on time."""
    c = repeated(D, fixed=True)
    c.sim["digest"] = 1
    a = c.text()
    simcfg(D, c)
    c.sim["digest"] = 1
    c.meta["label"] = "two runs " + c.meta["label"]
    return Text("relation same_digests\n" + a + SEP + c.text(), c.meta)


add(Check("P12", [("again", repeated, 3), ("runs", two_runs, 1)],
          "a case is a machine layout, a reduction of real-valued (not exactly summable) float or double data started two to five times on one of two data sets "
          "under generated timing, or one such program run under two schedules; non-trivial when at least one result was compared bit by bit with an earlier one "
          "on the same data",
          quick=400, thorough=6000, assumptions=ASSUME,
          nontrivial=lambda text, meta, v: (v.stats.get("repeated", 0) > 0 or text.startswith("relation")) and "\nn 1\n" not in "\n" + text))


def parameters(D, how=None, most=14):
    """Every documented parameter, set to valid values through the environment or an info object."""
    kind = D.pick(KINDS)
    if D.flag(1, 3):
        t = D.pick((1, 1, 2, 2, 4))
        c = Case([t] * D.i(2, 9 if t < 3 else 5))
    else:
        c = Case(layout(D, most))
    simcfg(D, c)
    dv = mdivisors(c.sizes)
    P = {}
    ns = 1
    if D.flag(1, 3):
        ns = D.pick([x for x in (1, 2, 4) if dv[-1] % x == 0])
        P["num_sockets_per_node"] = ns
    tps = dv[-1] // ns
    if D.flag(1, 3):
        tps = D.pick([d for d in dv if dv[-1] % (d * ns) == 0])
        P["num_tasks_per_socket"] = tps
    if D.flag(1, 3):
        P["alternating"] = D.pick((0, 1))
    if D.flag(1, 4):
        P["not_recursive"] = 1
    nodes = c.n // tps
    if D.flag(1, 2) and nodes > 1 and (ns == 1 or c.n > tps * ns):
        P["num_ports"] = ports_for(D, nodes, kind)[0]
    if D.flag(1, 4):
        P["copyin"] = copyin_for(D, [tps])
    env, info = {}, {}
    for k, v in P.items():
        w = how or D.pick(("env", "info"))
        (env if w == "env" else info)[k] = v
    if D.flag(1, 6):
        info["minimum_computation"] = D.pick((0, 1))
    if kind == "allreduce" and D.flag(1, 6):
        info["bit_identical"] = 1
    for k, v in env.items():
        c.env["EXT_MPI_" + k.upper()] = str(v)
    if D.flag(1, 8):
        c.env["EXT_MPI_VERBOSE"] = "1"
    c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "0", "1"))
    add_init(D, c, 1, kind, info="|".join("ext_mpi_%s:%s" % (k, str(v).replace(" ", "_")) for k, v in sorted(info.items())) or None)
    cycles(D, c, 1, 3)
    c.op("free", slots=1)
    c.meta["label"] = "+".join(sorted(list(env) + ["i_" + k for k in info])) or "defaults"
    return c


def nt_params(text, meta, v):
    return v.stats.get("checked", 0) > 0 and not text.startswith("n 1\n") and ("EXT_MPI_" in text.replace("EXT_MPI_DEBUG", "") or "info=" in text)


def par_history(D):
    """Parameters that differ from collective to collective (info) on several communicators."""
    c = Case(layout(D, 8))
    c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c)
    n = D.i(2, 4)
    if D.flag(1, 2):
        c.op("comm", id=1, parent=0, how="dup")
    dv = mdivisors(c.sizes)
    for s in range(1, n + 1):
        info = {}
        tps = dv[-1]
        if D.flag(1, 2):
            tps = info["num_tasks_per_socket"] = D.pick(dv)
        kind = D.pick(KINDS)
        if D.flag(1, 2):
            info["alternating"] = D.pick((0, 1))
        if D.flag(1, 2) and c.n > tps:
            info["num_ports"] = ports_for(D, c.n // tps, kind)[0]
        if D.flag(1, 3):
            info["copyin"] = copyin_for(D, [tps])
        if D.flag(1, 4):
            info["not_recursive"] = 1
        add_init(D, c, s, kind, comm=1 if "comm id=1" in c.text() and D.flag(1, 2) else 0, big=False,
                 info="|".join("ext_mpi_%s:%s" % (k, str(v).replace(" ", "_")) for k, v in sorted(info.items())) or None)
    for _ in range(D.i(1, 3)):
        sl = [s for s in range(1, n + 1) if D.flag(2, 3)] or [1]
        c.op("start", slots=sl, seed=D.i(1, 1000))
        c.op("complete", method=D.pick(("wait", "waitall", "testall")), slots=sl, seed=D.i(1, 1000))
    c.op("free", slots=list(range(1, n + 1)))
    c.meta["label"] = "%d collectives" % n
    return c


add(Check("P11", [("one", parameters, 5), ("several", par_history, 1)],
          "a case sets a generated, valid combination of the documented parameters through the environment and info objects and runs one or several collectives of any "
          "kind with them; non-trivial when at least two ranks took part, at least one parameter was set and a result was compared with the reference",
          quick=350, thorough=5000, nontrivial=nt_params, assumptions=ASSUME + [
              "parameter values are valid: task and socket numbers divide the node, port lists are ones the library's heuristics can produce for the number of sockets, copy-in "
              "factors are ones its measurement can produce"]))


add(Check("P10", [("cycles", with_race(racing), 4), ("histories", with_race(history(hist.METHODS, ring=True, maxn=6, slots=4, steps=8)), 1),
                  ("parameters", with_race(lambda D: parameters(D, most=9)), 1)],
          "a case is a machine layout, a collective (or a history of several) and a schedule that switches ranks at chosen instructions, with message delay and "
          "buffering; every access of every rank to node-shared memory is checked for a happens-before order; non-trivial when at least two ranks took part, "
          "shared memory or messages were used and at least two completions were compared with the reference",
          quick=150, thorough=3000, nontrivial=nt_starts(2), assumptions=ASSUME + [
              "the schedules are sequentially consistent interleavings; what a weaker memory order of the processor could add is covered only as far as a missing "
              "happens-before edge (atomic operation, barrier instruction or message) shows it"]))
CHECKS["P10"].driver = lambda: Driver(lib=os.path.join(simlib.OUT, "librace.so"))


def identical(D):
    """ext_mpi_bit_identical on one node and on schedules that reduce every element at one place. (Other schedules do not keep it: known finding.)"""
    t = D.i(1, 10)
    if D.flag(1, 2):
        c = Case([t])
    else:
        p = D.i(2, 9)
        t = D.pick((1, 1, 2, 3))
        c = Case([t] * p)
        f = factor_list(D, p)
        c.env["EXT_MPI_NUM_PORTS"] = "%d(%s)" % (p, " ".join(str(x) for x in [-(x - 1) for x in reversed(f)] + [x - 1 for x in f]))
    c.env["EXT_MPI_DEBUG"] = D.pick(("0", "0", "1"))
    if D.flag(1, 2):
        c.env["EXT_MPI_COPYIN"] = copyin_for(D, c.sizes)
    simcfg(D, c)
    add_init(D, c, 1, "allreduce", type=D.pick(("float", "double")), real=1, identical=1, repro=1, info="ext_mpi_bit_identical:1")
    s = D.i(1, 1000)
    for _ in range(2):
        c.op("start", slots=1, seed=s)
        c.op("complete", method="wait", slots=1)
    c.op("free", slots=1)
    c.meta["label"] = "nodes%d tasks%d" % (len(c.sizes), t)
    return c


CHECKS["P12"].gens.append(("identical", identical, 1))
CHECKS["P12"].quick = 300


def confined(D):
    """Guarded and canaried buffers that the caller filled before the initialisation, null and garbage arguments where
    MPI says they are not significant."""
    kind = D.pick(KINDS)
    how = D.pick(("plain", "plain", "large", "staged"))
    if how == "staged":
        p = D.i(2, 12)
        c = Case([D.pick((1, 1, 2))] * p)
        c.env["EXT_MPI_NUM_PORTS"], _ = ports_for(D, p, kind)
    else:
        c = Case(layout(D, 10))
    c.env["EXT_MPI_DEBUG"] = D.pick(("1", "0"))
    simcfg(D, c)
    n = 1 if how == "staged" else D.pick((1, 1, 2))
    for s in range(1, n + 1):
        k = kind if s == 1 else D.pick(KINDS)
        kw = dict(keep=1, align=D.pick((1, 1, 2, 0)), null=D.pick((None, 1, 2, 3)) if k in ROOTED else None)
        if how == "large" and s == 1:
            kw["counts"] = large_counts(D, k, c.n)
        add_init(D, c, s, k, **kw)
        if s == 1 and D.flag(1, 2):
            cycles(D, c, 1, 2)
    sl = list(range(1, n + 1))
    for _ in range(D.i(1, 3)):
        c.op("start", slots=sl, seed=D.i(1, 1000))
        if D.flag(1, 3):
            c.op("work", seed=D.i(1, 1000), max=D.pick((50, 500)))
        m = D.pick(("wait", "waitall", "test", "testall"))
        c.op("complete", method=m, slots=sl, seed=D.i(1, 1000), **({"yield": D.pick((1, 5))} if m[0] == "t" else {}))
    c.op("free", slots=sl)
    c.meta["label"] = "%s %s" % (how, kind)
    return c


add(Check("P09", [("buffers", confined, 1)],
          "a case creates one or two collectives on buffers that end at an unmapped page, start there, or are surrounded by canaries, passes null or garbage for arguments that are "
          "significant at the root only, and checks every byte of every buffer before and after creation, each completion, each idle phase and the release; non-trivial when at "
          "least two ranks took part and a result was compared", quick=260, thorough=4000, nontrivial=nt_comm, assumptions=ASSUME))


# ---------------------------------------------------------------- P08
def blocking(D, kinds=("allreduce", "allgather", "reduce_scatter_block"), comms=True, persistent=True, zero=True):
    c = Case(list(D.pick(([1], [2], [1, 1], [2], [1, 1], [3], [1, 1, 1], [1, 2], [2, 1], [2, 2], [1] * 4, [4], [2, 2, 2]) if not DEEP else
                        ([2], [1, 1], [3], [1, 1, 1], [1, 2], [2, 2], [1] * 4, [4], [5], [6], [1] * 5, [3, 3], [2, 2, 2], [4, 4], [2, 4]))))
    c.env["EXT_MPI_BLOCKING"] = "1"
    c.env["EXT_MPI_DEBUG"] = "0"
    extra = D.pick((None, None, None, "sockets", "NOT_RECURSIVE", "ALTERNATING", "MINIMUM_COMPUTATION", "COPYIN"))
    if extra == "sockets" and all(x % 2 == 0 for x in c.sizes):
        c.env["EXT_MPI_NUM_SOCKETS_PER_NODE"] = "2"
        persistent = False
    elif extra == "COPYIN":
        c.env["EXT_MPI_COPYIN"] = "0;1"
        persistent = False
    elif extra and extra != "sockets":
        c.env["EXT_MPI_" + extra] = "1"
    simcfg(D, c)
    c.sim["slice"] = D.pick((2000, 20000, 300))
    c.sim["limit"] = 4000000000   # choosing parameters runs long reductions before the first call
    c.sim["wtstep"] = 2000
    live, nxt, ncomm = {0: c.n}, 1, 0
    slots = []
    for _ in range(D.i(3, 16)):
        a = D.pick(("blk", "blk", "blk", "blk", "comm", "commfree", "init", "cycle"))
        cm = D.pick(sorted(live))
        if a == "comm" and comms and ncomm < 2:
            ncomm += 1
            how = D.pick(("dup", "dup", "split", "create", "undef"))
            if how == "dup":
                c.op("comm", id=ncomm, parent=0, how="dup")
                live[ncomm] = c.n
            else:
                k = D.i(1, len(c.sizes)) if len(c.sizes) > 1 else 1
                col = []
                for i, s in enumerate(c.sizes):
                    col += [0 if i < k else 1] * s
                if D.flag(1, 3):
                    col = [1 - x for x in col] if 1 in col else col
                if how == "undef":
                    col = [x if x == 0 else -1 for x in col]
                if how == "create":
                    c.op("comm", id=ncomm, parent=0, how="create", keys=[i for i in range(c.n) if col[i] == 0])
                else:
                    c.op("comm", id=ncomm, parent=0, how="split", colors=col, use=0)
                live[ncomm] = col.count(0)
        elif a == "commfree" and cm and cm not in [s[1] for s in slots]:
            c.op("commfree", id=cm)
            del live[cm]
        elif a == "init" and persistent and len(slots) < 2:
            add_init(D, c, 100 + len(slots), D.pick(KINDS), comm=cm, n=live[cm], big=False)
            slots.append((100 + len(slots), cm))
        elif a == "cycle" and slots:
            cycles(D, c, slots[0][0], 2)
        else:
            kind = D.pick(kinds)
            n = D.pick((D.i(1, 8), D.i(1, 8), D.i(1, 70), D.i(1, 3000), D.i(3000, 40000), 0 if zero else 5))
            c.op("blk", id=nxt, kind=kind, comm=cm, type=ctype(D, kind), count=n, align=D.pick((0, 1, 2)), seed=D.i(1, 1000),
                 inplace=(1 if kind == "allreduce" else 2) if D.flag(1, 5) else None)
            nxt += 1
    for s, _ in slots:
        c.op("free", slots=s)
    for k in sorted(live):
        if k and D.flag(1, 2):
            c.op("commfree", id=k)
    return c


def reused(D):
    """Communicators come and go: a later communicator with other members gets the handle of a released one."""
    sizes = list(D.pick(([1, 1, 1], [1, 2], [2, 1], [3], [2, 2], [1] * 4)))
    c = Case(sizes)
    c.env["EXT_MPI_BLOCKING"] = "1"
    c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c)
    c.sim["reqreuse"] = D.pick((0, 0, 0, 2))
    c.sim["slice"] = D.pick((2000, 20000))
    c.sim["limit"] = 4000000000
    c.sim["wtstep"] = 2000
    nxt = 1
    def calls(cm, k):
        nonlocal nxt
        for _ in range(k):
            kind = D.pick(("allreduce", "allreduce", "allgather", "reduce_scatter_block"))
            c.op("blk", id=nxt, kind=kind, comm=cm, type=ctype(D, kind), count=D.pick((D.i(1, 8), D.i(1, 70), D.i(1, 3000))),
                 align=D.pick((0, 1, 2)), seed=D.i(1, 1000))
            nxt += 1
    # members in increasing number or decreasing number, the order of the members follows the keys
    groups = []
    for _ in range(D.i(2, 3)):
        k = D.i(1, c.n)
        if groups and k == len(groups[-1]):
            k = c.n if k < c.n else D.i(1, c.n - 1)
        first = D.i(0, c.n - k)
        groups.append(list(range(first, first + k)))
    for i, g in enumerate(groups):
        how = D.pick(("create", "split"))
        if how == "create":
            c.op("comm", id=i + 1, parent=0, how="create", keys=g)
        else:
            c.op("comm", id=i + 1, parent=0, how="split", colors=[0 if r in g else -1 for r in range(c.n)], use=0)
        calls(i + 1, D.i(1, 2))
        if D.flag(1, 4):
            calls(0, 1)
        c.op("commfree", id=i + 1)
    return c


add(Check("P08", [("calls", blocking, 3), ("reused", reused, 2)],
          "a case runs a program with EXT_MPI_BLOCKING set: blocking allreduce, allgather and reduce_scatter_block calls of generated types and counts (zero and in-place included) on "
          "the world and on duplicated, split and created communicators, mixed with persistent collectives and communicator releases; non-trivial when at least two ranks took "
          "part and at least two blocking results were compared with the reference",
          quick=15, thorough=250, nontrivial=lambda text, meta, v: v.stats.get("blocking", 0) >= 4 and "\nn 1\n" not in "\n" + text, assumptions=ASSUME + [
              "at most three further communicators and, in the quick run, eight ranks"]))


# ---------------------------------------------------------------- P13
def repeated_body(D):
    """The same history twice (thorough: up to four times): the second round must leave no more than the first."""
    blocking_ = D.flag(1, 25)
    c = base(D, 3 if blocking_ else 6, debug=D.pick((0, 0, 0, 1)))
    if blocking_:
        c.env["EXT_MPI_BLOCKING"] = "1"
        c.sim["limit"], c.sim["wtstep"] = 4000000000, 20000
    held = D.flag(1, 2)
    if held:
        add_init(D, c, 900, D.pick(KINDS), big=False)
    t = Case(c.sizes)
    h = hist.Hist(D, t, add_init, methods=hist.METHODS if D.flag(1, 2) else ("wait", "waitall"), ring=D.flag(1, 3))
    h.run(D.i(1, 5), 4)
    if blocking_ and D.flag(1, 2):
        t.op("blk", id=1, kind=D.pick(("allreduce", "allgather", "reduce_scatter_block")), comm=0, type="int", count=D.i(1, 9))
    for k in sorted(h.comms):
        if k:
            t.op("commfree", id=k)
    rounds = D.i(2, 4) if DEEP else 2
    for i in range(rounds):
        c.ops += t.ops
        if i in (0, rounds - 1):
            c.op("mark", id=min(i, 1))
    c.op("cmpmark", a=0, b=1)
    if held:
        cycles(D, c, 900, 1)
        c.op("free", slots=900)
    c.sim["final"] = 2 if blocking_ else 1
    c.meta["label"] = "n%d inits%d" % (c.n, h.next - 1)
    return c


def many_rounds(D):
    """One collective created, run and freed over and over beside one that stays."""
    c = Case(D.pick(([1, 1], [2], [2, 2], [1, 2], [3], [1, 1, 1])))
    c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c)
    kind = D.pick(KINDS)
    if D.flag(2, 3):
        add_init(D, c, 900, D.pick(KINDS), big=False)
    t = Case(c.sizes)
    info = D.pick((None, None, "ext_mpi_alternating:1", "ext_mpi_bit_identical:1", "ext_mpi_not_recursive:1", "ext_mpi_verbose:1"))
    kv = add_init(D, t, 1, kind, big=False, info=info)
    if D.flag(2, 3):
        cycles(D, t, 1, 3)
    t.op("free", slots=1)
    rounds = D.i(4, 30 if DEEP else 10)
    for i in range(rounds):
        c.ops += t.ops
        if i in (1, rounds - 1):
            c.op("mark", id=min(i // 2, 1))
    c.op("cmpmark", a=0, b=1)
    if any(o[0] == "init" and o[1]["slot"] == 900 for o in c.ops):
        cycles(D, c, 900, 2)
        c.op("free", slots=900)
    c.sim["final"] = 1
    c.meta["label"] = "%s n%d rounds%d" % (kind, c.n, rounds)
    return c


def with_final(g):
    def f(D):
        c = g(D)
        c.sim["final"] = 1
        return c
    return f


add(Check("P13", [("histories", repeated_body, 3), ("rounds", many_rounds, 2), ("parameters", with_final(lambda D: parameters(D, most=8)), 1)],
          "a case is a history of creating, running and freeing collectives and communicators that is run two or more times, or one collective created and freed up to 30 times, "
          "usually beside one that stays alive; heap blocks, communicators, requests and shared memory segments held by each rank are counted after the first and the last round and "
          "after MPI_Finalize; non-trivial when at least one collective was freed",
          quick=250, thorough=4000, nontrivial=lambda text, meta, v: v.stats.get("frees", 0) >= 2, assumptions=ASSUME + [
              "memory of the library's own tables, which grow in steps and are kept, may be held after the first round"]))


# ---------------------------------------------------------------- P18
def damaged(D):
    """Between nodes everything travels in messages: damage one while the built-in check runs."""
    t = D.pick((1, 1, 2, 2, 3))
    c = Case([t] * D.i(2, 6 if t < 3 else 4))
    c.env["EXT_MPI_DEBUG"] = D.pick(("1", None))
    if c.env["EXT_MPI_DEBUG"] is None:
        del c.env["EXT_MPI_DEBUG"]
    simcfg(D, c)
    kind = D.pick(KINDS)
    add_init(D, c, 1, kind, big=D.flag(1, 3), corrupt=D.pick((1, 1, 2, 3, 5, 9, D.i(1, 40))), cseed=D.i(1, 100000),
             info=D.pick((None, None, None, "ext_mpi_not_recursive:1", "ext_mpi_alternating:1")))
    cycles(D, c, 1, 1)
    c.op("free", slots=1)
    c.meta["label"] = "damaged %s n%d" % (kind, c.n)
    return c


def accepted(D):
    """Right schedules of every kind, type and shape pass the check, in any number and with any parameters."""
    c = parameters(D, most=9)
    c.env["EXT_MPI_DEBUG"] = D.pick(("1", "1", "2"))
    return c


add(Check("P18", [("accepted", accepted, 2), ("damaged", damaged, 3)],
          "a case creates one collective of a generated kind, type, shape and parameter set with the built-in check on; in half of the cases one bit of one message of at least eight bytes "
          "that the ranks exchange while it is created is flipped; non-trivial when the creation reached the check with at least two ranks and, for damaged runs, the damage was applied and either "
          "stopped or had no effect on what the program sees",
          quick=300, thorough=4000, nontrivial=lambda text, meta, v: (v.stats.get("detected", 0) > 0 or v.stats.get("checked", 0) > 0) and not text.startswith("n 1\n"),
          assumptions=ASSUME + ["damage is a single flipped bit in one message between nodes"]))


# ---------------------------------------------------------------- P19
def isolated(D):
    """The program's own messages, with wildcard receives posted long before they are sent, around everything the library does."""
    blk = D.flag(1, 30)
    c = base(D, 3 if blk else 7, debug=D.pick((0, 0, 1)))
    if blk:
        c.env["EXT_MPI_BLOCKING"] = "1"
        c.env["EXT_MPI_DEBUG"] = "0"
        c.sim["limit"], c.sim["wtstep"] = 4000000000, 20000
    h = hist.Hist(D, c, add_init, methods=hist.METHODS if D.flag(1, 2) else ("wait", "waitall"))
    h.cross = False   # the program's messages go in between; collectives do not advance inside calls for those (known finding of P10)
    shifts, open_, nid = {}, [], [0]

    def user():
        a = D.pick(("open", "open", "send", "finish"))
        if a == "open" and len(open_) < 3:
            cm = D.pick(sorted(h.comms))
            n = len(h.comms[cm])
            if cm not in shifts:
                shifts[cm] = D.i(0, n - 1)
            for o in open_:   # one order of sends and receives
                if o[0]["comm"] == cm and not o[0]["_posted"]:
                    o[0]["_posted"] = True
                    c.op("user", how="post", **{k: v for k, v in o[0].items() if k[0] != "_"})
            nid[0] += 1
            m = dict(id=nid[0], comm=cm, shift=shifts[cm], tag=D.pick((0, 0, 1, 2, D.i(0, 40), 32767)), count=D.pick((0, 1, 1, 2, D.i(0, 300))), any=D.pick((1, 1, 0)))
            # several open messages of one communicator stay in one order
            first = D.pick(("post", "post", "send")) if not [o for o in open_ if o[0]["comm"] == cm] else "post"
            m["_posted"] = first == "post"
            open_.append([m, first == "send"])
            c.op("user", how=first, **{k: v for k, v in m.items() if k[0] != "_"})
        elif a == "send":
            for o in open_:
                if not o[1]:
                    o[1] = True
                    c.op("user", how="send", **{k: v for k, v in o[0].items() if k[0] != "_"})
                    break
        elif a == "finish" and open_:
            finish(open_[0])

    def finish(o):
        kv = {k: v for k, v in o[0].items() if k[0] != "_"}
        if not o[0]["_posted"]:
            c.op("user", how="post", **kv)
        if not o[1]:
            c.op("user", how="send", **kv)
        c.op("user", how="finish", **kv)
        open_.remove(o)

    plain = h.c.op

    def op(name, **kv):
        if name in ("init", "start", "complete", "free", "comm") and not busy[0]:
            busy[0] = True
            for _ in range(D.i(0, 2)):
                user()
            busy[0] = False
        plain(name, **kv)
    busy = [False]
    c.op = op
    h.run(D.i(1, 6), 3)
    if blk:
        for i in range(D.i(1, 2)):
            c.op("blk", id=i + 1, kind=D.pick(("allreduce", "allgather", "reduce_scatter_block")), comm=0, type="int", count=D.i(1, 9))
            busy[0] = True
            user()
            busy[0] = False
    busy[0] = True
    while open_:
        finish(open_[0])
    c.meta["label"] = "n%d messages%d" % (c.n, nid[0])
    return c


def around(D):
    """Own messages around one collective made with any parameters."""
    c = parameters(D, most=9)
    out = []
    kv = dict(id=1, comm=0, shift=D.i(0, c.n - 1), tag=D.pick((0, 0, 1, 2, 3)), count=D.i(0, 9), any=D.pick((1, 1, 0)))
    todo = ["post", "send"] if D.flag(3, 4) else ["send", "post"]
    at = sorted(D.i(0, len(c.ops)) for _ in todo) if D.flag(1, 2) else [0, D.i(1, len(c.ops))]
    for i, o in enumerate(c.ops):
        while todo and at[0] <= i:
            at.pop(0)
            out.append(("user", dict(how=todo.pop(0), **kv)))
        out.append(o)
    for t in todo:
        out.append(("user", dict(how=t, **kv)))
    out.append(("user", dict(how="finish", **kv)))
    c.ops = out
    return c


add(Check("P19", [("messages", isolated, 3), ("parameters", around, 1)],
          "a case is a history of creating, starting, completing and freeing collectives (and blocking calls) on the world and derived communicators, with the program's own messages between "
          "the members posted (mostly with wildcard source and tag) before and finished after any of these steps; non-trivial when at least two ranks took part, a collective was compared with the "
          "reference and at least one own message was received", quick=250, thorough=4000,
          nontrivial=lambda text, meta, v: v.stats.get("messages", 0) > 0 and v.stats.get("checked", 0) + v.stats.get("blocking", 0) > 0 and not text.startswith("n 1\n"), assumptions=ASSUME))


# ---------------------------------------------------------------- P14
API_KINDS = tuple(k for k in KINDS if k not in ("gather", "scatter"))


def handles(D):
    """The library's own interface with integer handles, beside MPI requests, with calls of EXT_MPI_Progress."""
    c = base(D, 6, debug=D.pick((0, 0, 0, 1)))
    comms = [(0, c.n)]
    if D.flag(1, 3):
        c.op("comm", id=1, parent=0, how="dup")
        comms.append((1, c.n))
    if D.flag(1, 8):
        c.op("progress", n=D.i(1, 3))
    state, api, nxt = {}, {}, 1
    for _ in range(D.i(4, 14)):
        a = D.pick(("init", "start", "complete", "progress", "start", "complete", "free", "work"))
        if a == "init" or not state:
            if len(state) < 4:
                isapi = D.flag(3, 4)
                cm, n = D.pick(comms)
                info = None
                if D.flag(1, 6):
                    info = "ext_mpi_alternating:%d" % D.i(0, 1)
                add_init(D, c, nxt, D.pick(API_KINDS), comm=cm, n=n, big=False, api=1 if isapi else None, info=info)
                state[nxt], api[nxt] = "idle", isapi
                nxt += 1
        elif a == "start":
            l = [s for s in state if state[s] == "idle" and D.flag(2, 3)]
            if l:
                c.op("start", slots=l, seed=D.i(1, 1000))
                for s in l:
                    state[s] = "active"
        elif a == "complete":
            finish_handles(D, c, state, api, False)
        elif a == "progress":
            c.op("progress", n=D.i(1, 4))
        elif a == "free":
            l = [s for s in state if state[s] == "idle" and D.flag(1, 3)]
            if l:
                c.op("free", slots=l)
                for s in l:
                    del state[s]
        else:
            c.op("work", seed=D.i(1, 1000), max=D.pick((20, 300)))
    l = [s for s in state if state[s] == "idle"]
    if l:
        c.op("start", slots=l, seed=D.i(1, 1000))
        for s in l:
            state[s] = "active"
    finish_handles(D, c, state, api, True)
    if state:
        c.op("free", slots=sorted(state))
    c.meta["label"] = "n%d handles%d" % (c.n, sum(api.values()))
    return c


def finish_handles(D, c, state, api, every):
    for isapi in D.pick(((True, False), (False, True))):
        l = [s for s in state if api[s] == isapi and state[s] == "active" and (every or D.flag(2, 3))]
        if not l:
            continue
        if D.flag(1, 2):
            l.reverse()
        m = D.pick(("wait", "test", "progress", "progress_wait", "drive")) if isapi else D.pick(("wait", "test", "waitall", "testall"))
        c.op("complete", method=m, slots=l, seed=D.i(1, 1000), **({"yield": D.pick((1, 5))} if m[0] in "tpd" else {}))
        for s in l:
            state[s] = "idle"


def many_handles(D):
    """More handles than the table starts with, advanced and completed together."""
    c = Case(D.pick(([2], [1, 1], [3], [1, 2])))
    c.env["EXT_MPI_DEBUG"] = "0"
    simcfg(D, c)
    m = D.pick((24, 26, 30, 49, 51, 60, 101))
    first = D.i(0, m)
    sl = list(range(1, m + 1))
    for s in sl:
        c.op("init", slot=s, kind="bcast" if s % 5 else "allreduce", comm=0, type="int", counts=[1], root=0 if s % 5 else None, api=1)
        if s == first:
            c.op("start", slots=sl[:first], seed=D.i(1, 1000))
    for _ in range(D.i(1, 2)):
        l = [s for s in sl if s > first or not first]
        if l:
            c.op("start", slots=l, seed=D.i(1, 1000))
        first = 0
        c.op("complete", method=D.pick(("drive", "progress", "progress_wait", "test", "wait")), slots=sl, seed=D.i(1, 1000))
    keep = [s for s in sl if D.flag(1, 3)]
    gone = [s for s in sl if s not in keep]
    if gone:
        c.op("free", slots=gone)
    if keep:
        c.op("start", slots=keep, seed=D.i(1, 1000))
        c.op("complete", method=D.pick(("drive", "progress", "wait")), slots=keep, seed=D.i(1, 1000))
        c.op("free", slots=keep)
    c.meta["label"] = "%d handles" % m
    return c


add(Check("P14", [("handles", handles, 9), ("many", many_handles, 1)],
          "a case is a history of creating, starting, polling, completing and releasing collectives through the library's own functions with integer handles, beside collectives held as MPI requests, "
          "with calls of the progress function at any time; non-trivial when at least two ranks took part and at least two completions were compared with the reference",
          quick=300, thorough=5000, nontrivial=lambda text, meta, v: nt_starts(2)(text, meta, v) and "api=1" in text, assumptions=ASSUME))


# ---------------------------------------------------------------- P15
FTYPES = ("freal", "fdouble", "freal4", "freal8", "fint", "fint4", "fint8")


def fortran(D):
    """The Fortran entry points (Fortran 2008 bindings and the older allreduce_init), mixed with the C ones."""
    blk = D.flag(1, 24)
    c = base(D, 3 if blk else 8, debug=D.pick((0, 0, 1)))
    if blk:
        c.env["EXT_MPI_BLOCKING"] = "1"
        c.env["EXT_MPI_DEBUG"] = "0"
        c.sim["limit"], c.sim["wtstep"] = 4000000000, 20000
    if D.flag(1, 2):
        c.sim["fortran"] = 1
    comms, k = {0: list(range(c.n))}, 0
    state, nxt = {}, 1
    for _ in range(D.i(3, 12)):
        a = D.pick(("init", "cycle", "cycle", "blk", "comm", "commfree", "free"))
        cm = D.pick(sorted(comms))
        if a == "init" and len(state) < 3:
            f = D.pick((1, 1, 2, None))
            kind = "allreduce" if f else D.pick(KINDS)
            add_init(D, c, nxt, kind, comm=cm, n=len(comms[cm]), big=False, fortran=f, inplace=1 if kind == "allreduce" and D.flag(1, 3) else None,
                     **({"type": D.pick(FTYPES + ("double", "long"))} if f else {}))
            state[nxt] = cm
            nxt += 1
        elif a == "cycle" and state:
            sl = [s for s in sorted(state) if D.flag(2, 3)] or [sorted(state)[0]]
            c.op("start", slots=sl, seed=D.i(1, 1000))
            c.op("complete", method="wait", slots=sl)
        elif a == "blk":
            c.op("blk", id=nxt, kind="allreduce", comm=cm, type=D.pick(FTYPES + ("double", "int")), count=D.pick((0, D.i(1, 20), D.i(1, 3000))), seed=D.i(1, 1000), fortran=1,
                 align=D.pick((0, 1, 2)), inplace=1 if D.flag(1, 3) else None)
            nxt += 1
        elif a == "comm" and k < 2:
            k += 1
            how = D.pick(("dup", "split", "create", "splittype"))
            b = D.i(1, c.n)
            if how == "dup":
                c.op("comm", id=k, parent=0, how="dup", fortran=1)
                comms[k] = list(range(c.n))
            elif how == "split":
                c.op("comm", id=k, parent=0, how="split", colors=[0 if i < b else 1 for i in range(c.n)], use=0, fortran=1)
                comms[k] = list(range(b))
            elif how == "create":
                c.op("comm", id=k, parent=0, how="create", keys=list(range(b)), fortran=1)
                comms[k] = list(range(b))
            else:
                c.op("comm", id=k, parent=0, how="splittype", fortran=1)
                comms[k] = list(range(c.sizes[0]))
        elif a == "commfree" and cm and cm not in state.values():
            c.op("commfree", id=cm, fortran=1)
            del comms[cm]
        elif a == "free" and state and D.flag(1, 2):
            s = D.pick(sorted(state))
            c.op("free", slots=s)
            del state[s]
    if state:
        c.op("start", slots=sorted(state), seed=D.i(1, 1000))
        c.op("complete", method="wait", slots=sorted(state))
        c.op("free", slots=sorted(state))
    c.meta["label"] = "n%d" % c.n
    return c


add(Check("P15", [("fortran", fortran, 1)],
          "a case is a history of persistent and blocking allreduces through the Fortran entry points with Fortran and C types, in-place or not, on communicators made and freed through Fortran entry points, "
          "mixed with collectives created in C; non-trivial when at least two ranks took part and at least one result obtained through a Fortran entry point was compared with the reference",
          quick=300, thorough=4000, assumptions=ASSUME + ["the Fortran 2008 bindings pass the addresses of C handles, as with the MPI libraries the wrappers are written for"],
          nontrivial=lambda text, meta, v: v.stats.get("checked", 0) + v.stats.get("blocking", 0) > 0 and "fortran=1" in text and not text.startswith("n 1\n")))
