"""Generators of operation histories: several persistent collectives, ordinary requests,
communicators and completion calls mixed."""
from gen import *

METHODS = ("wait", "waitall", "test", "testall", "testany", "testsome", "waitany", "waitsome")


def colours(D, n):
    k = D.pick((2, 2, 3))
    style = D.pick(("block", "mod", "rand"))
    if style == "block":
        return [min(k - 1, i * k // n) for i in range(n)]
    if style == "mod":
        return [i % k for i in range(n)]
    return [D.i(0, k - 1) for _ in range(n)]


class Hist:
    """Keeps track of what is allowed next. Every rank executes the same list; ranks outside
    a communicator skip its operations."""

    cross = True

    def __init__(self, D, c, add_init, kinds=KINDS, methods=METHODS, ring=False, big=False, splits=False):
        self.D, self.c, self.add_init, self.kinds, self.methods, self.ring, self.big = D, c, add_init, kinds, methods, ring, big
        self.slots = {}     # id -> state (idle, active), ring persistent or not
        self.next = 1
        self.comms = {0: list(range(c.n))}
        self.ncomm = 0
        self.splits = splits

    def comm(self):
        D, c = self.D, self.c
        self.ncomm += 1
        k = self.ncomm
        how = D.pick(("dup", "split"))
        if how == "dup":
            c.op("comm", id=k, parent=0, how="dup")
            self.comms[k] = list(range(c.n))
        else:
            # only sub-communicators made of whole nodes keep the block placement of the README
            if len(c.sizes) > 1 and D.flag(1, 2):
                kk = D.i(1, len(c.sizes) - 1)
                col, node = [], 0
                for i, s in enumerate(c.sizes):
                    col += [0 if i < kk else 1] * s
            else:
                b = D.i(1, max(1, c.n - 1))
                col = [0 if i < b else 1 for i in range(c.n)]
            c.op("comm", id=k, parent=0, how="split", colors=col, use=0)
            self.comms[k] = [i for i in range(c.n) if col[i] == 0]
            if any(col):
                self.comms[k + 2000] = [i for i in range(c.n) if col[i] == 1]

    def init(self, **kw):
        D = self.D
        s = self.next
        self.next += 1
        ci = D.pick(sorted(self.comms))
        n = len(self.comms[ci])
        if self.ring and D.flag(1, 3):
            self.c.op("init", slot=s, kind="ring", comm=ci, type=D.pick(("char", "long")), counts=[D.i(0, 40)], shift=D.i(0, n - 1) if n > 1 else 0,
                      persistent=D.pick((0, 1)), tag=D.pick((0, 7)) + 16 * s)
        else:
            self.add_init(D, self.c, s, D.pick(self.kinds), comm=ci, n=n, big=self.big, **kw)
        self.slots[s] = "idle"
        return s

    def some(self, state):
        l = [s for s in self.slots if self.slots[s] == state]
        if not l:
            return []
        if self.D.flag(1, 2):
            return l
        return [s for s in l if self.D.flag(1, 2)] or [l[self.D.i(0, len(l) - 1)]]

    def start(self):
        l = self.some("idle")
        if l:
            self.c.op("start", slots=l, seed=self.D.i(1, 1000), all=self.D.pick((0, 0, 1)) or None)
            for s in l:
                self.slots[s] = "active"

    def complete(self, every=False):
        D = self.D
        l = [s for s in self.slots if self.slots[s] == "active"] if every else self.some("active")
        if not l:
            return
        if len(l) > 1 and self.cross and D.flag(1, 4):
            # two groups in different orders on even and odd ranks
            k = D.i(1, len(l) - 1)
            a = [dict(slots=g, method=D.pick(self.methods), stat=D.pick((0, 1)), seed=D.i(1, 1000), perm=D.pick((0, 1, 2)), tail=0) for g in (l[:k], l[k:])]
            for i, par in ((0, 0), (1, 0), (1, 1), (0, 1)):
                kv = dict(a[i])
                kv["yield"] = 5
                kv["only"] = par
                self.c.op("complete", **kv)
            for s in l:
                self.slots[s] = "idle"
            return
        m = D.pick(self.methods)
        extra = [s for s in self.slots if self.slots[s] == "idle" and D.flag(1, 4)]
        kv = dict(method=m, stat=D.pick((0, 1)), seed=D.i(1, 1000))
        order = sorted(l + extra)
        if m in ("wait", "waitall"):
            # the orders of the ranks may differ: whatever is outstanding advances while one of them is waited for
            kv["perm"] = D.pick((0, 0, 1, 2, 2))
            if D.flag(1, 2):
                r = D.i(0, len(order) - 1)
                order = order[r:] + order[:r]
            if D.flag(1, 2):
                order = order[::-1]
        else:
            kv["perm"] = D.pick((0, 1, 2))
            kv["yield"] = D.pick((1, 5, 50))
            kv["tail"] = D.pick((0, 1))
        self.c.op("complete", slots=order, **kv)
        for s in l:
            self.slots[s] = "idle"

    def free(self, every=False):
        l = [s for s in self.slots if self.slots[s] == "idle"] if every else self.some("idle")
        if l:
            if self.D.flag(1, 3):
                l = list(reversed(l))
            self.c.op("free", slots=l)
            for s in l:
                del self.slots[s]

    def run(self, steps, max_slots):
        D, c = self.D, self.c
        if D.flag(1, 3):
            self.comm()
        self.init()
        for _ in range(steps):
            a = D.pick(("start", "complete", "init", "start", "complete", "free", "work", "barrier"))
            if a == "init" and len(self.slots) < max_slots:
                self.init()
            elif a == "start":
                self.start()
            elif a == "complete":
                self.complete()
            elif a == "free" and D.flag(1, 2):
                self.free()
            elif a == "work":
                c.op("work", seed=D.i(1, 1000), max=D.pick((20, 300)))
            elif a == "barrier":
                c.op("barrier")
        self.start()
        self.complete(every=True)
        self.free(every=True)
