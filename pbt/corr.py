import sys, collections, multiprocessing as mp, importlib, math, functools
import gen, simlib
def feat(c):
    g = functools.reduce(math.gcd, c.sizes)
    nn = c.n // g
    o = dict(c.ops[0][1])
    f = ["nodes=1" if nn == 1 else ("nodes>1"), "cores=1" if g == 1 else "cores>1"]
    if o.get("root") is not None: f.append("root0" if o["root"] == 0 else "root!=0")
    cs = o["counts"]
    f.append("zero" if (len(cs) == 1 and cs[0] == 0) or (len(cs)>1 and sum(cs)==0) else "somezero" if 0 in cs else "pos")
    return tuple(f)
def work(a):
    m, fn, lo, hi = a
    f = getattr(importlib.import_module(m), fn); d = simlib.Driver(); out = []
    for s in range(lo, hi):
        c = f(gen.RandD(s)); r = d.run(c.text()); out.append((feat(c), r.status + r.cls))
    d.stop(); return out
if __name__ == "__main__":
    m, fn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    t = collections.defaultdict(collections.Counter)
    with mp.Pool(8) as p:
        for o in p.imap_unordered(work, [(m, fn, i, i + 25) for i in range(0, n, 25)]):
            for f, s in o: t[f][s] += 1
    for f in sorted(t): print("  ", " ".join(f), dict(t[f]))
