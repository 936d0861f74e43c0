#!/usr/bin/env python3
"""seedtool.py verify ID... : confirm planted bugs in a scratch copy (builds, stable tests pass, demo 0 before and non-zero after).
   seedtool.py catch ID...  : run this property's quick check with the patch applied to /repo (and undo it)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def verify(ids):
    d = "/tmp/seedcopy-%d" % os.getpid()
    w, sd = d + "/repo", d + "/seed"
    os.makedirs(d)
    try:
        sh("cp -a /repo %s" % w)
        for n in ("build", "test"):
            t = open("/opt/vp/%s.sh" % n).read().replace("/repo", w)
            open(d + "/%s.sh" % n, "w").write(t)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        # the copied build directory refers to /repo: start afresh
        base = sh("cd %s && git status --short --ignored | sed -n 's/^!! //p'" % w).stdout.split()
        for b in base:
            if "build" in b:
                shutil.rmtree(os.path.join(w, b), ignore_errors=True)
        for i in ids:
            p = os.path.join(S, i)
            shutil.rmtree(sd, ignore_errors=True)
            shutil.copytree(p, sd)
            sh("git -C %s checkout -- ." % w)
            r0 = sh("bash %s/demo.sh" % sd, cwd=w)
            a = sh("git -C %s apply %s/patch.diff" % (w, p))
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stdout)
                continue
            r1 = sh("bash %s/demo.sh" % sd, cwd=w)
            b = sh("bash %s/build.sh" % d)
            t = sh("bash %s/test.sh %s/t.json" % (d, d))
            try:
                ok = stable <= set(json.load(open(d + "/t.json"))["passed"])
                os.unlink(d + "/t.json")
            except Exception as e:
                ok = False
            print("%-24s demo clean %d, patched %d; build %d; stable tests %s  => %s" % (
                i, r0.returncode, r1.returncode, b.returncode, ok, "OK" if r0.returncode == 0 and r1.returncode and b.returncode == 0 and ok else "BAD"), flush=True)
            if r0.returncode:
                print(r0.stdout[-1500:])
            if b.returncode:
                print(b.stdout[-1500:])
            if not ok:
                print(t.stdout[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def catch(ids):
    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        a = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY", a.stdout)
            continue
        try:
            r = sh("timeout 890 python3 %s/run.py %s quick" % (V, m["property"]))
        finally:
            sh("git -C /repo checkout -- .")
        hit = "VIOLATION property=%s " % m["property"] in r.stdout and r.returncode == 1
        print("%-24s %s %s rc=%d" % (i, m["property"], "CAUGHT" if hit else "MISSED", r.returncode), r.stdout.strip().splitlines()[-1][:150] if r.stdout else "", flush=True)


ids = sys.argv[2:] or sorted(os.listdir(S))
{"verify": verify, "catch": catch}[sys.argv[1]](ids)
