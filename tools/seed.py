#!/usr/bin/env python3
"""Confirm planted changes in a scratch copy of /repo, and run checks against them.

seed.py confirm ID...   apply in a scratch copy, build, stable tests, demo with and without
seed.py catch ID...     apply to /repo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def confirm(i):
    # the scratch copy takes the place of /repo for build.sh and test.sh
    d = S + "/" + i
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    bad = []
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    if r.returncode != 0:
        bad.append("demo fails on the unchanged tree: " + r.stdout[-800:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            return ["patch does not apply: " + r.stdout]
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            bad.append("does not build: " + r.stdout[-800:])
        sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        miss = [t for t in b["stable"] if t not in set(o["passed"])]
        if miss:
            bad.append("tests fail: %s" % miss[:5])
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r.returncode == 0:
            bad.append("demo passes with the patch")
        else:
            print("   demo says:", r.stdout.strip().splitlines()[-1:] )
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    return bad


def catch(i, props=None):
    d = S + "/" + i
    m = json.load(open(d + "/meta.json"))
    out = {}
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    try:
        sh("git -C /repo apply %s/patch.diff" % d)
        for p in props or [m["property"]]:
            r = sh("python3 tools/check.py %s quick" % p, cwd=V)
            ok = r.returncode == 1 and ("VIOLATION property=%s" % p) in r.stdout
            out[p] = "caught" if ok else ("MISSED" if r.returncode == 0 else "ERROR rc=%d %s" % (r.returncode, r.stdout[-600:]))
            if ok:
                l = [x for x in r.stdout.splitlines() if x.startswith(p + ": scenario")]
                out[p] += "  (" + (l[0][:160] if l else "") + ")"
    finally:
        sh("git -C /repo checkout -- .")
    return out


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids:
        if sys.argv[1] == "confirm":
            b = confirm(i)
            print(i, "OK" if not b else b, flush=True)
        else:
            print(i, catch(i), flush=True)
