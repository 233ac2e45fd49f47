#!/usr/bin/env python3
"""Development aid, not used by any check.
seed.py new ID PROP FILE 'needs' 'breaks' <<< "old\n====\nnew\n====\ndemo lines"   plants a bug and validates it in a scratch copy
seed.py try ID          build, demo before/after
seed.py test ID         stable tests with the bug
seed.py check ID [PROP] runs the quick check of the property against a scratch copy with the bug"""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def copy(sid, patched=True):
    d = "/tmp/sd_%s_%d" % (sid, os.getpid())
    sh("rm -rf %s; cp -a /repo %s" % (d, d))
    if patched:
        r = sh("git -C %s apply %s/seeded/%s/patch.diff" % (d, V, sid))
        if r.returncode: print("APPLY", r.stdout); sys.exit(1)
    return d
def build(d):
    r = sh("cd %s && make -j8 lib/libext_mpi_collectives.a 2>&1 | grep -iE 'error' | head; ls lib/libext_mpi_collectives.a" % d)
    return r.stdout
def main():
    cmd, sid = sys.argv[1:3]
    sd = "%s/seeded/%s" % (V, sid)
    if cmd == "new":
        prop, f, needs, breaks = sys.argv[3:7]
        old, new, demo = sys.stdin.read().split("\n====\n")
        d = copy(sid, False)
        p = d + "/" + f
        s = open(p).read()
        if s.count(old) != 1: print("OLD occurs %d times" % s.count(old)); sh("rm -rf " + d); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
        os.makedirs(sd, exist_ok=True)
        open(sd + "/patch.diff", "w").write(sh("git -C %s diff -- src include" % d).stdout)
        bl = sh("git -C /repo blame -s %s" % f).stdout.split("\n")
        for hl in open(sd + "/patch.diff"):
            if hl.startswith("-") and not hl.startswith("---"):
                if not any(b.startswith("^0a1bb10") and b.endswith(") " + hl[1:].rstrip("\n")) for b in bl): print("WARNING not original line:", hl)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(sd + "/meta.json", "w"), indent=1)
        for x in ("d.c", "b.c", "run.sh"): shutil.copy(V + "/tools/demo/" + x, sd)
        open(sd + "/demo.sh", "w").write('#!/bin/sh\n. "$(dirname "$0")/run.sh"\n' + demo.strip() + "\nexit 0\n")
        sh("rm -rf " + d)
        cmd = "try"
    if cmd in ("try", "all"):
        r = sh("cd /repo && timeout 300 sh %s/demo.sh" % sd)
        print(sid, "unchanged: rc", r.returncode, r.stdout[-300:] if r.returncode else "")
        d = copy(sid); b = build(d)
        if "error" in b: print(b)
        r = sh("cd %s && timeout 300 sh %s/demo.sh" % (d, sd))
        print(sid, "patched:   rc", r.returncode, r.stdout[-300:])
        sh("rm -rf " + d)
    if cmd in ("test", "all"):
        d = copy(sid)
        # the tests refer to /repo: run them there is not possible in parallel; use make-based copy
        rt = open("/opt/vp/run_tests.py").read().replace("/repo", d)
        open("/tmp/r_%s.py" % sid, "w").write(rt)
        t = open("/opt/vp/test.sh").read().replace("/repo", d).replace("/opt/vp/run_tests.py", "/tmp/r_%s.py" % sid).replace("/opt/vp/build.sh", "/tmp/b_%s.sh" % sid)
        open("/tmp/t_%s.sh" % sid, "w").write(t)
        build(d)
        r = sh("cd %s && cp /opt/vp/build.sh /tmp/b_%s.sh && sed -i s#/repo#%s#g /tmp/b_%s.sh && bash /tmp/b_%s.sh && bash /tmp/t_%s.sh /tmp/o_%s.json" % (d, sid, d, sid, sid, sid, sid))
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = set(json.load(open("/tmp/o_%s.json" % sid))["passed"])
        print(sid, "tests lost:", sorted(b - o)[:10], len(b - o))
        sh("rm -rf %s /tmp/t_%s.sh /tmp/b_%s.sh /tmp/r_%s.py /tmp/o_%s.json" % (d, sid, sid, sid, sid))
    if cmd in ("check", "all"):
        props = sys.argv[3:] or [json.load(open(sd + "/meta.json"))["property"]]
        d = copy(sid)
        for p in props:
            e = dict(os.environ, SIM_REPO=d, SIM_OUT=d + "/simout", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick", PBT_EVIDENCE=d)
            r = sh("timeout 900 python3-vt %s/pbt/check.py %s quick" % (V, p), env=e)
            print(sid, p, "check rc", r.returncode, "\n".join(r.stdout.strip().split("\n")[-14:])[-1500:])
        sh("rm -rf " + d)
main()
