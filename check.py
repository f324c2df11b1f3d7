#!/usr/bin/env python3
"""Runs the check of one property: check.py C05 [--thorough] | check.py --replay FILE | check.py --setup

Builds the harnesses with /repo's current sources, runs their units, collects the records they write, decides.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HDIR = os.path.join(ROOT, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
sys.path.insert(0, ROOT)
import plan  # noqa: E402

WRAP = ["sem_wait", "sem_timedwait", "sem_post", "sem_open", "sem_close", "shm_open", "shm_unlink", "ftruncate", "posix_fallocate",
        "mmap", "munmap", "pthread_create", "pthread_mutex_lock", "pthread_mutex_unlock"]
COMMON = ["-std=c++17", "-g", "-w", "-DVEIGAR_STATIC", "-DNDEBUG", "-fno-omit-frame-pointer", "-pthread"]
FLAVORS = {
    "plain": dict(cxx="g++", cflags=["-O1", "-DVH_PLAIN"], lflags=["-static-libstdc++", "-static-libgcc"]),
    # with the library's assertions
    "debug": dict(cxx="g++", cflags=["-O1", "-DVH_PLAIN", "-UNDEBUG"], lflags=["-static-libstdc++", "-static-libgcc"]),
    "asan": dict(cxx="clang++", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
                 lflags=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", cflags=["-O1", "-fsanitize=thread"], lflags=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", cflags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                        "-fsanitize=fuzzer-no-link", "-DVH_FUZZ"],
                 lflags=["-fsanitize=address,undefined", "-Wl,--whole-archive", "@fuzzer_no_main@", "-Wl,--no-whole-archive"]),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


_tree = None


def headers_hash():
    """Content of every header a translation unit could include."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HDIR):
            for d, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inl", ".hh", ".ipp")):
                        p = os.path.join(d, f)
                        h.update(os.path.relpath(p, base).encode())
                        h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def compile_one(flavor, src, extra):
    fl = FLAVORS[flavor]
    inc = ["-I", os.path.join(REPO, "include"), "-iquote", os.path.join(REPO, "src"), "-I", HDIR]
    key = sha(flavor, fl, COMMON, extra, headers_hash(), src, open(src, "rb").read())
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        cmd = [fl["cxx"]] + COMMON + fl["cflags"] + extra + inc + ["-c", src, "-o", tmp]
        for attempt in (1, 2):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        os.rename(tmp, obj)
    os.utime(obj)
    return obj


def build(bins):
    """bins: set of (harness name, flavor). Returns {(name, flavor): path}."""
    vg = {n for n, f in bins if f == "vg"}
    bins = {(n, "plain" if f == "vg" else f) for n, f in bins}
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    jobs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        # the big harness sources first
        for name, flavor in sorted(bins):
            extra = plan.EXTRA_CFLAGS.get(name, [])
            for s in [os.path.join(HDIR, name + ".cpp")]:
                jobs[(flavor, s, tuple(extra))] = ex.submit(compile_one, flavor, s, extra)
        for name, flavor in sorted(bins):
            for s in [os.path.join(HDIR, "vh.cpp"), os.path.join(HDIR, "perturb.cpp")] + sources():
                if (flavor, s, ()) not in jobs:
                    jobs[(flavor, s, ())] = ex.submit(compile_one, flavor, s, [])
        objs = {k: j.result() for k, j in jobs.items()}
    out = {}
    links = []
    for name, flavor in sorted(bins):
        extra = tuple(plan.EXTRA_CFLAGS.get(name, []))
        oo = [objs[(flavor, os.path.join(HDIR, name + ".cpp"), extra)]]
        oo += [objs[(flavor, s, ())] for s in [os.path.join(HDIR, "vh.cpp"), os.path.join(HDIR, "perturb.cpp")] + sources()]
        fl = FLAVORS[flavor]
        key = sha(*oo, fl, WRAP)
        path = os.path.join(BUILD, "bin", "%s.%s.%s" % (name, flavor, key))
        out[(name, flavor)] = path
        if not os.path.exists(path):
            tmp = path + ".%d.tmp" % os.getpid()
            lf = [fuzzer_lib() if x == "@fuzzer_no_main@" else x for x in fl["lflags"]]
            cmd = [fl["cxx"]] + oo + ["-o", tmp, "-pthread"] + lf + ["-Wl,--wrap=" + w for w in WRAP] + ["-lrt", "-ldl"]
            links.append((cmd, tmp, path))

    def link(x):
        r = subprocess.run(x[0], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(x[0]), r.stderr[-4000:]))
        os.rename(x[1], x[2])
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(link, links))
    prune()
    out.update({(n, "vg"): out[(n, "plain")] for n in vg})
    return out


def fuzzer_lib():
    d = subprocess.run(["clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return (glob.glob(d + "/lib/**/libclang_rt.fuzzer_no_main*x86_64*.a", recursive=True) + glob.glob(d + "/lib/**/libclang_rt.fuzzer_no_main.a", recursive=True))[0]


def prune():
    for d, keep in (("obj", 1500), ("bin", 120)):
        fs = [os.path.join(BUILD, d, f) for f in os.listdir(os.path.join(BUILD, d))]
        fs = [(os.path.getmtime(f), f) for f in fs if os.path.exists(f)]
        fs.sort()
        for _, f in fs[:-keep]:
            try:
                os.remove(f)
            except OSError:
                pass


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:abort_on_error=0:detect_leaks={leaks}:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "handle_abort=1:strict_string_checks=1:log_path={log}:max_allocation_size_mb=6000",
    "LSAN_OPTIONS": "exitcode=99:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:log_path={log}",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=0:second_deadlock_stack=1:history_size=4:log_path={log}:report_signal_unsafe=0:report_thread_leaks=0",
}


def frames(text):
    """Function names of the frames in the library's code, innermost first."""
    res = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+", text):
        fn, path = m.group(1), m.group(2)
        if path.startswith(REPO):
            fn = re.sub(r"\(.*", "", fn)
            fn = re.sub(r"<.*?>", "", fn)
            if fn not in res:
                res.append(fn)
    return res


def san_reports(text):
    """[(key, excerpt)] of the sanitizer reports in a log."""
    out = []
    for blk in re.split(r"(?=WARNING: ThreadSanitizer|==\d+==ERROR: |runtime error: )", text):
        k = None
        m = re.match(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
        if m:
            k = "tsan:" + m.group(1).strip().replace(" ", "-")
            parts = re.split(r"\n  (?=Previous|Location|Thread|Mutex|As if)", blk)
            fs = [frames(p)[:1] for p in parts[:2]]
            k += ":" + "/".join(sorted(f[0] for f in fs if f))
        m = re.match(r"==\d+==ERROR: (\w+): ([\w-]+)", blk)
        if m:
            if "LeakSanitizer has encountered a fatal error" in blk:
                continue
            k = m.group(1).replace("Sanitizer", "").lower() + ":" + m.group(2) + ":" + ("/".join(frames(blk)[:2]))
        m = re.match(r"runtime error: ([^\n]+)", blk)
        if m:
            k = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80] + ":" + "/".join(frames(blk)[:1])
        if k:
            out.append((k, blk[:3000]))
    # valgrind: paragraphs between lines that hold only the process number
    for blk in re.split(r"(?m)^==\d+== *$", text):
        m = re.match(r"\s*==\d+== (?:Thread [^\n]*\n==\d+== )?([A-Z][^\n]*)\n==\d+== +(?:at|by|Address) ", blk)
        if m:
            fs = [re.sub(r"\(.*", "", f) for f, path in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((/\S+?):\d+\)", blk) if path.startswith(REPO)]
            out.append(("memcheck:" + re.sub(r"[\d,]+", "N", m.group(1))[:60].replace(" ", "-") + ":" + "/".join(fs[:2]), blk[:3000]))
    return out


class Unit:
    def __init__(self, bin, scenario, flavor="plain", seed=0, scale=1, rest=(), timeout=240, weight=2, env=None, leaks=0,
                 retries=1):
        self.bin, self.scenario, self.flavor = bin, scenario, flavor
        self.seed, self.scale, self.rest = seed, scale, [str(r) for r in rest]
        self.timeout, self.weight, self.env, self.leaks = timeout, weight, dict(env or {}), leaks
        self.retries = retries

    def name(self):
        return " ".join(["%s.%s" % (self.bin, self.flavor), self.scenario] + self.rest)

    def desc(self):
        return dict(bin=self.bin, scenario=self.scenario, flavor=self.flavor, seed=self.seed, scale=self.scale,
                    rest=self.rest, timeout=self.timeout, weight=self.weight, env=self.env, leaks=self.leaks)


class Result:
    def __init__(self):
        self.viols, self.tviols, self.inconc, self.fatal = [], [], [], []
        self.hang = None
        self.stopped = False    # no verdict of its own beyond what it reported so far
        self.evals = 0
        self.sums, self.maxs, self.samples, self.distinct = {}, {}, [], set()
        self.rc = None
        self.wall = 0


RUN_ID = "%08x" % random.SystemRandom().getrandbits(32)
_n = [0]
_nlock = threading.Lock()


# memcheck on the plain binary: uninitialised values, which the compiler's sanitizers do not see here
VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite",
            "--errors-for-leak-kinds=definite", "--fair-sched=yes", "--num-callers=25", "--fullpath-after=", "--track-origins=no"]


def run_unit(u, path, stop=lambda: False):
    with _nlock:
        _n[0] += 1
        n = _n[0]
    work = os.path.join(BUILD, "run", "%s_%d" % (RUN_ID, n))
    os.makedirs(work)
    prefix = "vh%s%x_" % (RUN_ID, n)
    outf = os.path.join(work, "out")
    env = dict(os.environ)
    env.update(VH_OUT=outf, VH_PREFIX=prefix, VH_WORK=work)
    for k, v in SAN_ENV.items():
        env[k] = v.format(log=os.path.join(work, "san"), leaks=u.leaks)
    env.update(u.env)
    env.setdefault("GLIBCXX_FORCE_NEW", "1")
    t0 = time.time()
    r = Result()
    runner = VALGRIND + ["--log-file=" + os.path.join(work, "san.vg%p")] if u.flavor == "vg" else []
    with open(os.path.join(work, "stderr"), "wb") as ef:
        p = subprocess.Popen(runner + [path, u.scenario, str(u.seed), str(u.scale)] + u.rest, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=work, start_new_session=True)
        end = time.time() + u.timeout
        while True:
            try:
                r.rc = p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            if time.time() > end:
                r.hang = "unit timeout"
                break
            if stop():
                r.stopped = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.wall = time.time() - t0
    for f in os.listdir("/dev/shm"):
        if f.startswith(prefix) or f.startswith("sem." + prefix):
            try:
                os.remove("/dev/shm/" + f)
            except OSError:
                pass
    if os.path.exists(outf):
        for line in open(outf, errors="replace"):
            try:
                e = json.loads(line)
            except ValueError:
                if line.startswith('{"t":"viol"'):
                    r.viols.append(dict(prop="*", key="unreadable-violation", msg=line[:500]))
                continue
            t = e.get("t")
            if t == "viol":
                r.viols.append(e)
            elif t == "tviol":
                r.tviols.append(e)
            elif t == "inconc":
                r.inconc.append(e["msg"])
            elif t == "fatal":
                r.fatal.append(e["msg"])
            elif t == "hang":
                r.hang = "hang in " + e["where"]
            elif t == "cov":
                r.evals += e["evals"]
                for k, v in e["sums"].items():
                    r.sums[k] = r.sums.get(k, 0) + v
                for k, v in e["maxs"].items():
                    r.maxs[k] = max(r.maxs.get(k, v), v)
                r.samples += e["samples"]
                d = e["distinct"]
                r.distinct.update(d[i:i + 12] for i in range(0, len(d), 12))
    err = open(os.path.join(work, "stderr"), errors="replace").read()[-20000:]
    san = ""
    for f in sorted(glob.glob(os.path.join(work, "san.*"))):
        san += open(f, errors="replace").read(400000)
    seen = set()
    for k, blk in san_reports(san + err):
        if k not in seen:
            seen.add(k)
            r.viols.append(dict(prop="*", key=k, msg=blk))
    if r.hang is None and not r.fatal and not r.stopped:
        if r.rc == 97:
            r.hang = r.hang or "hang"
        elif r.rc in (98,):
            r.fatal.append("harness: " + err[-500:])
        elif r.rc == -9:
            r.inconc.append("killed: %s" % u.name())
            r.hang = "killed"
        elif r.rc not in (0, 99) and not seen:
            sig = -r.rc if r.rc < 0 else 0
            r.viols.append(dict(prop="*", key="crash:signal-%d" % sig if sig else "crash:exit-%d" % r.rc,
                                msg="%s ended with %s; stderr: %s" % (u.name(), r.rc, err[-800:])))
        elif r.rc == 99 and not seen:
            if "LeakSanitizer has encountered a fatal error" in san + err:
                r.inconc.append("LeakSanitizer could not run")
            else:
                r.viols.append(dict(prop="*", key="san:unknown", msg=(san + err)[-2000:]))
    shutil.rmtree(work, ignore_errors=True)
    return r


class Pool:
    """Weighted slots over the 8 cores."""

    def __init__(self, slots):
        self.slots, self.cv = slots, threading.Condition()

    def run(self, u, path, skip=lambda: False, stop=lambda: False):
        w = min(u.weight, 8)
        with self.cv:
            while self.slots < w:
                self.cv.wait()
            self.slots -= w
        try:
            return None if skip() else run_unit(u, path, stop)
        finally:
            with self.cv:
                self.slots += w
                self.cv.notify_all()


def known_findings():
    res = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def relevant(e, prop):
    p = e.get("prop", "*")
    return p == "*" or prop in p.split(",")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build(plan.all_bins())
        print("setup done")
        return 0
    replay = None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        prop = replay["property"]
    else:
        prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = plan.PROPS[prop]
    if replay:
        d = replay["unit"]
        units = [Unit(**d)]
    else:
        units = []
        for i, u in enumerate(spec["units"](tier)):
            un = Unit(**u)
            if tier == "quick":
                un.timeout = min(un.timeout, 330)
            un.seed = int(sha(seed, prop, i), 16) % (1 << 48)
            units.append(un)
    for u in units:
        if "--verbose" in args:
            print("unit", u.name(), u.seed)
    paths = build({(u.bin, u.flavor) for u in units})
    tb = time.time()
    pool = Pool(8)
    merged = Result()
    found = {}   # key -> (record, unit)
    errors = []
    notes = []
    lock = threading.Lock()
    known = known_findings()

    def decided():
        """A violation is certain: the remaining units need not run."""
        return any(relevant(e, prop) and not any(x[0] == prop and fnmatch.fnmatchcase(k, x[1]) for x in known)
                   for k, (e, _) in list(found.items()))

    # the quick tier answers within its time: what has not been explored by then is left out
    def late():
        return tier == "quick" and not replay and time.time() - t0 > 820

    since = []

    def stop():
        if late():
            return True
        if decided():
            since.append(time.time())
        return bool(since) and time.time() - since[0] > 5

    def over():
        return decided() or late()

    def one(u):
        if over():
            return
        r = pool.run(u, paths[(u.bin, u.flavor)], over, stop)
        if r is None:
            return
        tkeys = {}
        hangs = []
        attempts = 1
        # a verdict that rests on wall-clock time, and a hang, must show again
        while (r.tviols or r.hang) and not r.viols and not r.fatal:
            for e in {e["key"]: e for e in r.tviols}.values():   # once per run
                tkeys.setdefault(e["key"], []).append(e)
            if r.hang and r.hang != "killed":
                hangs.append(r.hang)
            if any(len(v) > 1 for v in tkeys.values()) or len(hangs) > 1 or attempts > 2 or over():
                break
            attempts += 1
            r = pool.run(u, paths[(u.bin, u.flavor)], stop=stop)
        with lock:
            for e in r.viols:
                found.setdefault(e["key"], (e, u))
            for k, v in tkeys.items():
                if len(v) > 1:
                    found.setdefault(k, (v[-1], u))
                else:
                    notes.append("not repeated: " + k + ": " + v[-1]["msg"][:300])
            if len(hangs) > 1:
                e = dict(prop="*", key="hang:%s" % u.scenario, msg="%s: %s" % (u.name(), hangs[0]))
                found.setdefault(e["key"], (e, u))
            elif hangs:
                notes.append("not repeated: " + hangs[0] + " " + u.name())
            if r.hang == "killed":
                notes.append("killed: " + u.name())
            if r.stopped and late():
                notes.append("not finished in time: " + u.name())
            notes.extend(r.inconc)
            errors.extend(u.name() + ": " + x for x in r.fatal)
            if not r.viols and not r.fatal and not r.hang and not r.stopped and r.evals == 0 and not tkeys:
                errors.append(u.name() + ": observed nothing (exit %s)" % r.rc)
            merged.evals += r.evals
            for k, v in r.sums.items():
                merged.sums[k] = merged.sums.get(k, 0) + v
            for k, v in r.maxs.items():
                merged.maxs[k] = max(merged.maxs.get(k, v), v)
            merged.samples += r.samples[:3]
            merged.distinct.update(u.scenario + h for h in r.distinct)
            if "--verbose" in args:
                print("%-60s rc=%s %.1fs evals=%d distinct=%d viols=%d %s" % (
                    u.name(), r.rc, r.wall, r.evals, len(r.distinct), len(r.viols), dict(r.sums)), flush=True)
                if r.maxs:
                    print("      max", r.maxs)
                for k, v in tkeys.items():
                    print("      timed:", k, v[0]["msg"][:300], flush=True)
    with cf.ThreadPoolExecutor(16) as ex:
        # heavy units first
        list(ex.map(one, sorted(units, key=lambda u: -u.weight)))

    out_viol = []
    kf = {}
    for key, (e, u) in sorted(found.items()):
        if not relevant(e, prop):
            notes.append("other property (%s): %s: %s" % (e.get("prop"), key, e["msg"][:300]))
            continue
        k = [x for x in known if x[0] == prop and fnmatch.fnmatchcase(key, x[1])]
        if k:
            kf.setdefault(k[0][1], k[0][2])
            continue
        out_viol.append((key, e, u))
    # a listed finding is reported on every run, whether or not this run's schedule met it again
    for kp, kk, kd in known:
        if kp == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, kd, "" if kk in kf else " (not met by this run)"))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    samples = list(dict.fromkeys(merged.samples))[:12]
    cov = dict(evaluations=merged.evals, distinct_nontrivial=len(merged.distinct), rule=spec["rule"],
               samples=samples, units=len(units), observed=dict(sorted(merged.sums.items())))
    if merged.maxs:
        cov["maxima"] = dict(sorted(merged.maxs.items()))
    if notes:
        cov["inconclusive"] = notes[:20]
    if kf:
        cov["known_findings_met"] = sorted(kf)
    if not replay:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov,
                           assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2),
                           violations=len(out_viol)), f, indent=1)
            f.write("\n")
    for n in notes[:10]:
        print("note:", n)
    print("%s %s: %d executions, %d distinct, %d units, build %.1fs, run %.1fs" % (
        prop, tier, merged.evals, len(merged.distinct), len(units), tb - t0, time.time() - tb))
    if out_viol:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        for key, e, u in out_viol:
            path = os.path.join(BUILD, "replay", "%s-%s.json" % (prop, sha(key)[:10]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, key=key, witness=e["msg"], unit=u.desc(), verif_seed=seed,
                               rerun="python3 check.py --replay " + path), f, indent=1)
            print("  %s [%s]: %s" % (key, u.name(), e["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR:", e)
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BuildError as e:
        print("ERROR: build failed:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
