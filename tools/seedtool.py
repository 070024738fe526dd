#!/usr/bin/env python3
"""Development tool (no check uses it): writes and verifies planted bugs.
  make(id, prop, edits, demo, needs, breaks, srcs, libs): writes /verif/seeded/<id>
  seedtool.py verify ID... : applies the patch to /repo, builds, runs the tests,
     the demo (both ways) and the check of its property, and undoes the patch."""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
DEMO = """#!/bin/bash
# Run with cwd /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 -g -w %s -Iinclude -Isrc -I/usr/include/jsoncpp "$here/demo.cpp" %s -lpthread %s -o "$d/demo" || exit 3
timeout %d "$d/demo"
"""


def git(*a, **k):
    return subprocess.run(["git", "-C", "/repo"] + list(a), check=True, stdout=subprocess.PIPE, **k).stdout.decode()


def make(id, prop, edits, demo, needs, breaks, backend="nlohmann", flags="", timeout=100):
    assert not git("status", "--porcelain").strip(), "repo not clean"
    d = "%s/%s" % (S, id)
    os.makedirs(d, exist_ok=True)
    try:
        for f, subs in edits.items():
            p = "/repo/" + f
            s = open(p).read()
            for a, b in subs:
                assert s.count(a) == 1, (id, f, s.count(a), a)
                s = s.replace(a, b)
            open(p, "w").write(s)
        open(d + "/patch.diff", "w").write(git("diff"))
    finally:
        git("checkout", "--", ".")
    open(d + "/demo.cpp", "w").write(demo)
    lib = "_build/%s/libcppdap.a" % backend
    open(d + "/demo.sh", "w").write(DEMO % ("-DCPPDAP_JSON_%s=1 %s" % (backend.upper(), flags), lib, "-ljsoncpp" if backend == "jsoncpp" else "", timeout))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build():
    r = run(["bash", "/opt/vp/build.sh"])
    if r.returncode:
        print(r.stdout.decode()[-2000:])
    return r.returncode == 0


def demo(id):
    try:
        return run(["bash", "%s/%s/demo.sh" % (S, id)], cwd="/repo", timeout=300).returncode
    except subprocess.TimeoutExpired:
        return "timeout"


def verify(ids, checks=True):
    assert not git("status", "--porcelain").strip(), "repo not clean"
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    build()
    clean = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open("%s/%s/meta.json" % (S, i)))
        git("apply", "%s/%s/patch.diff" % (S, i))
        try:
            t0 = time.time()
            b = build()
            miss = "-"
            if b:
                run(["bash", "/opt/vp/test.sh", "/tmp/seed-tests.json"])
                miss = len(base - set(json.load(open("/tmp/seed-tests.json"))["passed"]))
            d = demo(i) if b else "-"
            c, line, w = "-", "", 0
            if checks and b:
                t1 = time.time()
                r = run([sys.executable, V + "/run.py", m["property"], "quick"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                w = time.time() - t1
                c = r.returncode
                line = [l for l in r.stdout.decode().splitlines() if l.startswith(("violation:", "VIOLATION", "check error"))][:1]
                line = line[0][:160] if line else r.stdout.decode()[-200:]
            good = clean[i] == 0 and b and miss == 0 and d not in (0, 3)
            print("%-28s %s demo clean=%s patched=%s build=%s missing=%s check=%s (%.0fs) %s | %s" % (
                i, "VALID" if good else "INVALID", clean[i], d, b, miss, c, w, "CAUGHT" if c == 1 else "MISSED" if c == 0 else "ERR", line), flush=True)
        finally:
            git("checkout", "--", ".")
    build()


if __name__ == "__main__":
    verify(sys.argv[2:] or sorted(os.listdir(S)), checks=sys.argv[1] == "verify")
