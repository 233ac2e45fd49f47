"""Generators. Every function draws through an object D with
   D.i(lo, hi)    integer
   D.pick(seq)    one element, simplest first
   D.flag(num, den) boolean, True with probability about num/den
so the same generator runs under Hypothesis (shrinking) and under random.Random
(surveys)."""
import random
ZERO = 0   # smallest count drawn for uniform-count collectives
from simlib import Case

RED = ("allreduce", "reduce", "reduce_scatter", "reduce_scatter_block")
ROOTED = ("reduce", "bcast", "gather", "gatherv", "scatter", "scatterv")
PERRANK = ("allgatherv", "gatherv", "scatterv", "reduce_scatter")
KINDS = ("allreduce", "allgatherv", "allgather", "reduce_scatter", "reduce_scatter_block",
         "reduce", "bcast", "gatherv", "gather", "scatterv", "scatter")
REDTYPES = ("long", "int", "double", "float")
ANYTYPES = ("long", "int", "double", "float", "char", "short")


class RandD:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def i(self, lo, hi):
        return self.r.randint(lo, hi)

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def flag(self, num, den):
        return self.r.randrange(den) < num


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


_LAYOUTS = {}


def layouts(maxn, maxnodes):
    """Three lists of node-size lists, each simplest first: one node or one task per node,
    several equal nodes, unequal nodes."""
    key = (maxn, maxnodes)
    if key not in _LAYOUTS:
        flat = [[k] for k in range(1, maxn + 1)] + [[1] * k for k in range(2, min(maxn, maxnodes) + 1)]
        even = [[t] * k for k in range(2, maxnodes + 1) for t in range(2, maxn // k + 1)]
        uneven = set()
        r = random.Random(7)
        for _ in range(4000):
            g = r.randint(1, 3)
            l = [g * r.randint(1, 3) for _ in range(r.randint(2, 5))]
            if sum(l) <= maxn and len(l) <= maxnodes and len(set(l)) > 1:
                uneven.add(tuple(l))
        size = lambda l: (sum(l), len(l), list(l))
        _LAYOUTS[key] = (sorted(flat, key=size), sorted(even, key=size) or [[1]],
                         [list(l) for l in sorted(uneven, key=size)][:200] or [[1]])
    return _LAYOUTS[key]


def layout(D, maxn=12, uneven=True, maxnodes=None):
    """Node sizes (block mapping)."""
    flat, even, un = layouts(maxn, maxnodes or maxn)
    pool = D.pick((flat, even, even, un) if uneven else (flat, even, even))
    return list(pool[D.i(0, len(pool) - 1)])


def simcfg(D, c, fine=False):
    s = c.sim
    s["sched"] = D.pick((0, 1, 1, 2, 3, 5, 4) if fine else (0, 1, 1, 2, 3, 5))
    s["slice"] = D.pick((300, 2000, 40, 10, 3)) if s["sched"] != 4 else 2
    s["seed"] = D.i(1, 1 << 20)
    s["mseed"] = D.i(1, 1 << 20)
    s["eager"] = D.pick((1, 0, 2))
    s["delay"] = D.pick((0, 0, 5, 200))
    s["collsync"] = D.pick((0, 1))
    s["reqreuse"] = D.pick((0, 1, 2))
    s["wtseed"] = D.i(1, 1 << 20)
    s["wtstep"] = 150
    s["fill"] = D.pick((165, 0, 255, -1))


def counts_for(D, kind, p, big=False):
    if kind in PERRANK:
        style = D.pick(("equal", "rand", "sparse", "one"))
        m = D.pick((1, 3, 7, 20, 100) + ((700,) if big else ()))
        if style == "equal":
            return [D.i(0, m)] * p
        if style == "rand":
            return [D.i(0, m) for _ in range(p)]
        if style == "sparse":
            return [D.pick((0, 0, 1, m)) for _ in range(p)]
        k = D.i(0, p - 1)
        return [m if i == k else 0 for i in range(p)]
    m = D.pick((1, 2, 7, 20, 100, 300) + ((3000,) if big else ()))
    return [D.i(ZERO, m)]


def large_counts(D, kind, p):
    """Message sizes for which the library's heuristics choose schedules of several stages."""
    if kind in PERRANK:
        tot = D.pick((3000, 20000, 60000))
        style = D.pick(("rand", "equal", "sparse"))
        if style == "equal":
            return [D.i(1, 2 * tot // p)] * p
        m = 2 * tot // p
        return [D.i(0, m) if style == "rand" else D.pick((0, 1, m)) for _ in range(p)]
    lo, hi = D.pick(((1000, 8000), (8000, 40000), (40000, 160000)))
    c = D.i(lo, hi)
    if kind in ("allgather", "gather", "scatter", "reduce_scatter_block"):
        c = max(1, c // p)
    return [c]


def mdivisors(sizes):
    """Numbers of tasks per socket that divide every node."""
    import math
    g = 0
    for s in sizes:
        g = math.gcd(g, s)
    return divisors(g)


def factor_list(D, p, nonincr=True, maxf=13):
    """Factors f1 >= f2 >= ... whose product reaches p, the last one as small as possible."""
    out, k = [], 1
    cap = maxf
    while k < p:
        need = -(-p // k)
        f = D.i(2, max(2, min(cap, need)))
        out.append(f)
        k *= f
        if nonincr:
            cap = f
    if out:
        k //= out[-1]
        out[-1] = max(2, -(-p // k))
    return out


def ports_for(D, p, kind):
    """A port list in the format of EXT_MPI_NUM_PORTS for p sockets, as the library's own
    heuristic would build one: reduction stages negative, gathering stages positive."""
    f = factor_list(D, p)
    if not f:
        return "1(-1)", []
    l = D.i(0, len(f)) if kind in ("allreduce", "reduce", "bcast") else 0
    ports = [-(x - 1) for x in reversed(f)][:l] + [x - 1 for x in f]
    return "%d(%s)" % (p, D.pick((" ", " ", " ", ",", ", ")).join(str(x) for x in ports)), f
