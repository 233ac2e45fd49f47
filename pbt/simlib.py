"""Talking to the simulation driver: case text, one server per worker, results."""
import os, subprocess, time, select

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("SIM_OUT", os.path.join(VERIF, "build", "sim"))


def fmt_op(op):
    name, kv = op
    parts = [name]
    for k, v in kv.items():
        if v is None:
            continue
        if isinstance(v, (list, tuple)):
            v = ",".join(str(x) for x in v)
        if v == "":
            continue
        parts.append("%s=%s" % (k, v))
    return " ".join(parts)


class Case:
    """n ranks on nodes (list of node sizes, block mapping), environment, simulator
    settings and a list of operations every rank executes."""

    def __init__(self, sizes):
        self.sizes = list(sizes)
        self.env = {}
        self.sim = {}
        self.ops = []
        self.meta = {}

    @property
    def n(self):
        return sum(self.sizes)

    def op(self, name, **kv):
        self.ops.append((name, kv))

    def text(self):
        out = ["n %d" % self.n]
        nodes = []
        for i, s in enumerate(self.sizes):
            nodes += [str(i)] * s
        out.append("nodes " + " ".join(nodes))
        for k, v in self.env.items():
            out.append("env %s=%s" % (k, v))
        if self.sim:
            out.append("sim " + " ".join("%s=%s" % kv for kv in self.sim.items()))
        for op in self.ops:
            out.append(fmt_op(op))
        return "\n".join(out) + "\n"


class Result:
    def __init__(self):
        self.status = "HARNESS"
        self.cls = ""
        self.msg = ""
        self.stats = {}
        self.final = {}
        self.digest = []
        self.cov_new = 0
        self.cov_total = 0
        self.lines = []
        self.wall = 0.0

    def __repr__(self):
        return "%s %s %s" % (self.status, self.cls, self.msg)

    @property
    def failed(self):
        return self.status == "FAIL"


class Driver:
    def __init__(self, out=None, lib=None):
        self.out = out or OUT
        self.lib = lib or os.path.join(self.out, os.environ.get("SIM_LIB", "libext.so"))
        self.p = None

    def start(self):
        self.p = subprocess.Popen([os.path.join(self.out, "driver"), self.lib], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", bufsize=1 << 16)

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            try:
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def run(self, text):
        if self.p is None or self.p.poll() is not None:
            self.start()
        r = Result()
        t0 = time.time()
        try:
            self.p.stdin.write(text + "END\n")
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline()
                if not l:
                    r.msg = "driver ended (rc %s)" % self.p.poll()
                    self.stop()
                    break
                l = l.rstrip("\n")
                if l == "DONE":
                    break
                r.lines.append(l)
                w = l.split(" ", 3)
                if w[0] == "STATUS":
                    r.status = w[1]
                    if w[1] == "FAIL":
                        r.cls = w[2] if len(w) > 2 else ""
                        r.msg = w[3] if len(w) > 3 else ""
                    else:
                        r.msg = " ".join(w[2:])
                elif w[0] in ("STATS", "FINAL"):
                    d = r.stats if w[0] == "STATS" else r.final
                    for kv in l.split()[1:]:
                        k, v = kv.split("=", 1)
                        try:
                            d[k] = int(v)
                        except ValueError:
                            d[k] = v
                elif w[0] == "DIGEST":
                    r.digest.append(l)
                elif w[0] == "COV":
                    r.cov_total = int(w[1]); r.cov_new = int(w[2]) if w[2].isdigit() else 0
        except BrokenPipeError:
            r.msg = "driver pipe broke"
            self.stop()
        r.wall = time.time() - t0
        return r
