"""Runs one property: Hypothesis generators in eight worker processes, each with its
own driver server, a shrunk failing case as replay file, evidence counters."""
import hashlib, json, multiprocessing as mp, os, queue, re, subprocess, sys, time, traceback
from hypothesis import given, seed as hseed, settings, HealthCheck, Phase, strategies as st
from simlib import Case, Driver, VERIF, OUT

WORKERS = int(os.environ.get("PBT_WORKERS", "8"))
REPLAYS = os.path.join(VERIF, "build", "replays")
# outcomes that say something about the harness or about an exhausted budget, not about the library
NOT_A_VERDICT = ("BUDGET", "HARNESS")


class HypD:
    """Draw interface of gen.py on top of Hypothesis."""

    def __init__(self, data):
        self.data = data

    def i(self, lo, hi):
        return self.data.draw(st.integers(lo, hi)) if hi > lo else lo

    def pick(self, seq):
        return self.data.draw(st.sampled_from(seq)) if len(seq) > 1 else seq[0]

    def flag(self, num, den):
        return self.data.draw(st.integers(0, den - 1)) >= den - num


class Verdict:
    def __init__(self, kind, cls="", msg="", stats=None):
        self.kind, self.cls, self.msg, self.stats = kind, cls, msg, stats or {}

    def __repr__(self):
        return "%s %s %s" % (self.kind, self.cls, self.msg)


def judge(r):
    """Result of one driver run -> pass / fail / none."""
    if r.status == "PASS":
        return Verdict("pass", stats=r.stats)
    if r.status == "FAIL" and r.cls not in NOT_A_VERDICT:
        return Verdict("fail", r.cls, r.msg, r.stats)
    return Verdict("none", r.cls or r.status, r.msg, r.stats)


SEP = "=====\n"


class Text(str):
    """A replay text that is not a single case."""
    def __new__(cls, s, meta=None):
        o = str.__new__(cls, s)
        o.meta = meta or {}
        return o


def run_text(driver, text):
    """A replay file is one case, or several separated by '=====' whose first line names
    the relation between their outcomes."""
    m = re.match(r"relation (\S+)\n", text)
    if not m:
        return judge(driver.run(text))
    import relations
    parts = text[m.end():].split(SEP)
    results = []
    for p in parts:
        r = driver.run(p)
        v = judge(r)
        if v.kind != "pass":
            return v
        results.append(r)
    ok, msg = relations.check(m.group(1), results)
    return Verdict("pass" if ok else "fail", "" if ok else "RELATION", msg, results[0].stats)


class Check:
    def __init__(self, pid, gens, rule, quick=500, thorough=6000, nontrivial=None, assumptions=None,
                 level="exploration", runner=None):
        self.pid, self.gens, self.rule = pid, gens, rule
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda text, meta, v: v.stats.get("checked", 0) > 0)
        self.assumptions = assumptions or []
        self.level = level
        self.runner = runner or run_text
        self.driver = Driver
        self.build = None


class _Stop(Exception):
    pass


def _worker(check, idx, seed, examples, cap, stop, q):
    d = check.driver()
    t_end = time.time() + cap
    st_ = dict(evaluations=0, none=0, labels={}, samples=[], stats={}, cov=0, nontrivial=set(), noneinfo=[])
    found = {}
    try:
        n_gens = sum(w for _, _, w in check.gens)
        for gname, gen, w in check.gens:
            n = max(1, examples * w // n_gens)
            found.clear()
            shrink_end = [None]

            def test(data):
                now = time.time()
                if not found and (stop.is_set() or now > t_end):
                    return
                if found and now > shrink_end[0]:
                    return
                case = gen(HypD(data))
                if case is None:
                    return
                text = case if isinstance(case, str) else case.text()
                meta = getattr(case, "meta", {})
                v = check.runner(d, text)
                if not found:
                    st_["evaluations"] += 1
                    lab = "%s/%s" % (gname, meta.get("label", ""))
                    st_["labels"][lab] = st_["labels"].get(lab, 0) + 1
                    if v.kind == "none":
                        st_["none"] += 1
                        if len(st_["noneinfo"]) < 3:
                            st_["noneinfo"].append(repr(v)[:300] + "\n" + text)
                    elif check.nontrivial(text, meta, v):
                        h = hashlib.sha1(text.encode()).digest()[:8]
                        st_["nontrivial"].add(h)
                        if len(st_["nontrivial"]) % 37 == 1 and len(st_["samples"]) < 3:
                            st_["samples"].append(text)
                    for k, x in v.stats.items():
                        if isinstance(x, int):
                            st_["stats"][k] = st_["stats"].get(k, 0) + x
                if v.kind == "fail":
                    if not found:
                        shrink_end[0] = time.time() + float(os.environ.get("PBT_SHRINK", "40"))
                        stop.set()
                    key = (len(text), text)
                    if not found or key <= found["key"]:
                        found.update(key=key, text=text, cls=v.cls, msg=v.msg, gen=gname)
                    raise AssertionError(v.cls)

            t = given(st.data())(test)
            t = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                         suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                         report_multiple_bugs=False)(t)
            t = hseed(seed * 1000003 + idx * 7919 + int(hashlib.sha1(gname.encode()).hexdigest()[:6], 16))(t)
            try:
                t()
            except BaseException as e:
                if not found:
                    raise
            if found:
                break
            if stop.is_set() or time.time() > t_end:
                break
    except BaseException:
        st_["error"] = traceback.format_exc()
    finally:
        d.stop()
    st_["found"] = {k: found[k] for k in ("text", "cls", "msg", "gen")} if found else None
    q.put(st_)


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def build():
    r = subprocess.run([os.path.join(VERIF, "sim", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-4000:])
        print("the simulation build failed")
        sys.exit(3)


def write_replay(check, text, cls, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.case" % (check.pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(text)
    with open(p + ".txt", "w") as f:
        f.write("%s %s\nreplay: python3-vt /verif/pbt/check.py replay %s %s\n" % (cls, msg, check.pid, p))
    return p


def confirm(check, text, times=3):
    d = check.driver()
    try:
        vs = [check.runner(d, text) for _ in range(times)]
    finally:
        d.stop()
    return vs


def corpus_files(pid):
    dd = os.path.join(VERIF, "corpus", pid)
    return sorted(os.path.join(dd, f) for f in os.listdir(dd) if f.endswith(".case")) if os.path.isdir(dd) else []


def violation(check, text, v, ev, t0, tier, seed):
    p = write_replay(check, text, v.cls, v.msg)
    print("%s %s" % (v.cls, v.msg))
    print(text)
    print("VIOLATION property=%s replay=%s" % (check.pid, p))
    ev["violations"] = 1
    ev["coverage"]["violation"] = {"replay": p, "what": "%s %s" % (v.cls, v.msg)}
    save_evidence(check, ev, t0, tier, seed)
    sys.exit(1)


def save_evidence(check, ev, t0, tier, seed):
    ev.update(property=check.pid, tier=tier, seed=seed, level=check.level, wall_s=round(time.time() - t0, 2))
    if check.assumptions:
        ev["assumptions"] = check.assumptions
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(os.environ.get("PBT_EVIDENCE", os.path.join(VERIF, "evidence")), check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def main(check, tier, seed, extra_build=None):
    t0 = time.time()
    (extra_build or build)()
    ev = {"coverage": {}}
    # 1. known findings: the exact failing inputs, reported and never counted as violations
    known_hit = []
    probes = 0
    for k in load_known():
        if k["property"] != check.pid or k["status"] != "known":
            continue
        with open(os.path.join(VERIF, k["case"])) as f:
            text = f.read()
        v = confirm(check, text, 1)[0]
        probes += 1
        if v.kind == "fail":
            print("KNOWN-FINDING: property=%s %s" % (check.pid, k["what"]))
            known_hit.append(k["what"])
    # 2. saved inputs (regressions of repaired defects and hand-picked shapes)
    replayed = 0
    for f in corpus_files(check.pid):
        with open(f) as fh:
            text = fh.read()
        v = confirm(check, text, 1)[0]
        replayed += 1
        if v.kind == "fail":
            vs = confirm(check, text)
            if all(x.kind == "fail" for x in vs):
                ev["coverage"] = dict(evaluations=replayed, distinct_nontrivial=replayed, rule="saved inputs", samples=[text])
                violation(check, text, v, ev, t0, tier, seed)
    # 3. generated search
    examples = check.quick if tier == "quick" else check.thorough
    cap = float(os.environ.get("PBT_CAP", "420" if tier == "quick" else "780"))
    stop = mp.Event()
    q = mp.Queue()
    ps = [mp.Process(target=_worker, args=(check, i, seed, examples, cap, stop, q)) for i in range(WORKERS)]
    for p in ps:
        p.start()
    res = []
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    agg = dict(evaluations=0, none=0, labels={}, stats={})
    samples, nt, nones = [], set(), []
    for r in res:
        agg["evaluations"] += r["evaluations"]
        agg["none"] += r["none"]
        for d in ("labels", "stats"):
            for k, x in r[d].items():
                agg[d][k] = agg[d].get(k, 0) + x
        samples += r["samples"]
        nt |= r["nontrivial"]
        nones += r["noneinfo"]
    ev["coverage"] = dict(evaluations=agg["evaluations"], distinct_nontrivial=len(nt), rule=check.rule,
                          samples=sorted(samples, key=len)[-6:] or ["(none)"], inconclusive=agg["none"], classes=agg["labels"],
                          simulator_totals=agg["stats"], saved_inputs_replayed=replayed, known_finding_probes=probes,
                          known_findings_reproduced=known_hit)
    if nones:
        ev["coverage"]["inconclusive_samples"] = nones[:3]
    # 4. failures: replay three times before believing them
    for r in sorted([r["found"] for r in res if r["found"]], key=lambda f: (len(f["text"]), f["text"])):
        vs = confirm(check, r["text"])
        if all(v.kind == "fail" for v in vs):
            violation(check, r["text"], vs[0], ev, t0, tier, seed)
        print("not reproduced: %r\n%s" % (vs, r["text"]))
        ev["coverage"].setdefault("not_reproduced", []).append(r["text"])
    errors = [r["error"] for r in res if r.get("error")]
    save_evidence(check, ev, t0, tier, seed)
    if errors or len(res) < len(ps):
        print("\n".join(errors) or "a worker died")
        sys.exit(3)
    if agg["evaluations"] and agg["none"] * 2 > agg["evaluations"]:
        print("most cases were inconclusive:\n" + "\n".join(nones[:3]))
        sys.exit(3)
    print("%s: held on %d cases (%d distinct non-trivial, %d inconclusive), %.1f s" %
          (check.pid, agg["evaluations"], len(nt), agg["none"], time.time() - t0))
