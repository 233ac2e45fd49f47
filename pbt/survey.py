"""Exploration: run random cases of a generator and tabulate outcomes."""
import sys, collections, multiprocessing as mp, time, importlib, re
import gen, simlib

def work(a):
    modname, fn, lo, hi = a
    f = getattr(importlib.import_module(modname), fn)
    d = simlib.Driver()
    out = []
    for s in range(lo, hi):
        c = f(gen.RandD(s))
        t = c.text()
        r = d.run(t)
        out.append((s, r.status, r.cls, r.msg, t, r.wall, c.meta, r.final))
    d.stop()
    return out

if __name__ == "__main__":
    modname, fn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    base = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    ch = max(1, min(50, n // 32))
    jobs = [(modname, fn, base + i, base + min(n, i + ch)) for i in range(0, n, ch)]
    t0 = time.time()
    tab = collections.Counter(); ex = {}
    with mp.Pool(8) as p:
        for o in p.imap_unordered(work, jobs):
            for s, st, cl, msg, t, w, meta, fin in o:
                msg2 = re.sub(r" in init slot=[^\]]*| in complete method=[^\]]*|slot=.*$|rank\d+", "", msg)
                m = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "#", msg2)[:110]
                leak = any(v for k, v in fin.items())
                key = (st, cl, m, "LEAK" if leak else "")
                tab[key] += 1
                if key not in ex or len(t) < len(ex[key][1]): ex[key] = (s, t, msg)
    print("%d cases %.1fs" % (n, time.time() - t0))
    for k, v in tab.most_common(14):
        print(v, k)
        if k[0] != "PASS" or k[3]:
            s, t, msg = ex[k]
            print("    seed", s, msg[:300]); print("    " + t.replace("\n", "\n    "))
