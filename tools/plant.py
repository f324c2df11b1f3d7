#!/usr/bin/env python3
"""Development tool (no check uses it): confirms a planted bug and runs checks against it.

plant.py verify ID...        build, stable tests, demo with and without the patch, in scratch copies
plant.py check ID [PROP...]  the quick check of its property (or the named ones) on a patched scratch copy
plant.py mk ID               makes a scratch copy /tmp/plant/ID to edit; plant.py save ID stores its diff; plant.py rm ID
"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "/tmp/plant"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def copy(name, patch=None):
    d = os.path.join(P, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(P, exist_ok=True)
    r = sh(["git", "clone", "-q", "/repo", d])
    assert r.returncode == 0, r.stderr
    if patch:
        r = sh(["git", "-C", d, "apply", patch])
        assert r.returncode == 0, "patch does not apply: " + r.stderr
    return d


def vp(d, what, *a):
    s = open("/opt/vp/%s.sh" % what).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "/.vp_build.sh")
    f = d + "/.vp_%s.sh" % what
    open(f, "w").write(s)
    return f


def private(cmd, cwd, timeout=900):
    """with a /dev/shm of its own"""
    full = "mount -t tmpfs tmpfs /dev/shm && cd %s && %s" % (cwd, cmd)
    try:
        return sh(["unshare", "-Urm", "bash", "-c", full], timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout)[-3000:], "timeout")


def build(d):
    vp(d, "test")
    r = sh(["bash", vp(d, "build")])
    assert r.returncode == 0, "build failed: " + (r.stdout + r.stderr)[-3000:]


def verify(i, tests=True):
    sd = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(sd + "/meta.json"))
    assert set(meta) >= {"property", "needs", "what_it_breaks"}
    base = os.path.join(P, "_base")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(base) or sh("git -C %s rev-parse HEAD" % base).stdout.strip() != head:
        base = copy("_base")
        build(base)
    # touches only original lines
    orig = True
    d = copy("v_" + i, sd + "/patch.diff")
    demo = os.path.join(P, "demo_" + i)
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    for line in sh("git -C %s diff -U0" % d).stdout.splitlines():
        m = re.match(r"^\+\+\+ b/(.*)", line)
        if m:
            f = m.group(1)
        m = re.match(r"^@@ -(\d+)(?:,(\d+))?", line)
        if m:
            a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
            if n:
                bl = sh("git -C /repo blame -s -L %d,%d %s" % (a, a + n - 1, f)).stdout.splitlines()
                if any(not x.startswith("^") for x in bl):
                    orig = False
                    print("  %s: touches added lines: %s" % (i, [x for x in bl if not x.startswith("^")][:3]))
    build(d)
    res = {}
    r = private("bash %s/demo.sh" % demo, base, 300)
    res["demo_base"] = r.returncode
    if r.returncode:
        print(r.stdout[-1500:], r.stderr[-1500:])
    rs = [private("bash %s/demo.sh" % demo, d, 300) for _ in range(3)]
    res["demo_patched"] = [x.returncode for x in rs]
    print("   ", (rs[0].stdout + rs[0].stderr)[-300:].replace("\n", " | "))
    if tests:
        r = private("bash .vp_test.sh %s/out.json" % d, d)
        out = json.load(open(d + "/out.json")) if os.path.exists(d + "/out.json") else {}
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set(out.get("passed", [])) if isinstance(out.get("passed"), list) else {k for k, v in out.items() if v in ("pass", True, "passed")}
        res["tests_missing"] = sorted(stable - passed)
    ok = res["demo_base"] == 0 and all(res["demo_patched"]) and not res.get("tests_missing") and orig
    print(i, "OK" if ok else "BAD", res, flush=True)
    shutil.rmtree(d)
    shutil.rmtree(demo)
    return ok


def check(i, props):
    sd = os.path.join(ROOT, "seeded", i)
    props = props or [json.load(open(sd + "/meta.json"))["property"]]
    d = copy("c_" + i, sd + "/patch.diff")
    for p in props:
        env = dict(os.environ, VERIF_REPO=d)
        r = sh([sys.executable, ROOT + "/check.py", p], env=env)
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ") or "VIOLATION" in l or "ERROR" in l or l.startswith(p)]
        print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc=%d" % r.returncode)
        print("\n".join("   " + l[:260] for l in lines[:5]), r.stderr[-500:], flush=True)
    shutil.rmtree(d)


cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "verify":
    sys.exit(not all([verify(i) for i in ids]))
if cmd == "check":
    check(ids[0], ids[1:])
if cmd == "mk":
    print(copy(ids[0]))
if cmd == "save":
    d = os.path.join(P, ids[0])
    os.makedirs(os.path.join(ROOT, "seeded", ids[0]), exist_ok=True)
    open(os.path.join(ROOT, "seeded", ids[0], "patch.diff"), "w").write(sh("git -C %s diff" % d).stdout)
    shutil.rmtree(d)
if cmd == "rm":
    shutil.rmtree(os.path.join(P, ids[0]))
