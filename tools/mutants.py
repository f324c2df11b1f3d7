#!/usr/bin/env python3
"""Development tool (no check uses it): small mutants of /repo, each run against the quick checks that should see it.

mutants.py run FILE... [-n NAME,NAME]   FILE defines M = [(name, "C01 C02", [(path, old, new), ...]), ...]
A mutant counts as caught when one of its checks exits 1 with a VIOLATION line of that property.
"""
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def substitute(s, old, new):
    """replaces old, whatever white space it is written with"""
    rx = r"\s+".join(re.escape(w) for w in old.split())
    return re.subn(rx, lambda m: new, s)


names = start = None
files = []
a = sys.argv[2:]
while a:
    if a[0] == "-n":
        names = a[1].split(",")
        a = a[2:]
    elif a[0] == "-s":
        start = a[1]
        a = a[2:]
    else:
        files.append(a.pop(0))
for f in files:
    g = {}
    exec(open(f).read(), g)
    for name, props, edits in g["M"]:
        if names and name not in names or start and name != start:
            continue
        start = None
        d = os.environ.get("MUT_BUILD", "/tmp/mut/build") + "_w_" + name
        shutil.rmtree(d, ignore_errors=True)
        assert sh(["git", "clone", "-q", "/repo", d]).returncode == 0
        ok = True
        for p, old, new in edits:
            s = open(d + "/" + p).read()
            n = 1
            if isinstance(old, tuple):
                old, n = old
            s, k = substitute(s, old, new)
            if k != n:
                print(name, "EDIT FAILS", p, k, repr(old[:60]), flush=True)
                ok = False
                break
            open(d + "/" + p, "w").write(s)
        if ok:
            for p in props.split():
                t = time.time()
                env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=os.environ.get("MUT_BUILD", "/tmp/mut/build"))
                env.setdefault("VERIF_SEED", "1")
                r = sh(["timeout", "-k", "5", "1500", sys.executable, ROOT + "/check.py", p], env=env)
                hit = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
                lines = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ") or "ERROR" in l]
                lines = [l for l in lines if l] or r.stdout.splitlines()[-2:]
                print("%-28s %s %s %3ds %s" % (name, p, "caught" if hit else "MISSED rc=%d" % r.returncode, time.time() - t, lines[0][:200] if lines else ""), flush=True)
        shutil.rmtree(d)
