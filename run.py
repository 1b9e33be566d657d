#!/usr/bin/env python3
"""Supervisor of the checks: builds the monitors from /repo's current tree, runs them, judges and reports.

    run.py <property> [--replay FILE]      decides one property (VERIF_SEED, VERIF_TIER in the environment)
    run.py --setup                         builds what the checks need

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
T0 = time.time()
TOTAL = 840  # seconds a check may take in all
READERS = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"]
FAULTS = {"C08"}
ENV = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") or k in ("CARGO_HOME",)}
ENV.pop("RUSTFLAGS", None)
ENV["CARGO_TERM_COLOR"] = "never"
ENV["CARGO_NET_OFFLINE"] = "true"

ASSUME = {
    "*": [
        "the published signatures, families and metadata are those of harness/src/spec_gen.rs, taken from the documentation and tables of the pinned commit",
        "held on the executions counted here; nothing is claimed about inputs not generated",
    ],
    "C01": ["sources honour the contract of Seek (positions returned are the positions set)"],
    "C02": ["costs are counted at the boundary: operations and bytes asked of the source, heap through the global allocator"],
    "C05": ["readers start at position 0 and follow the contract of Read"],
    "C08": ["a source that fails once or from some operation on; at most one injected fault sequence per run"],
    "C25": ["access times are left to the operating system"],
    "C26": ["paths without line breaks"],
    "C28": ["the interpreter (Miri) executes big-endian programs as a big-endian machine does", "32-bit x86 stands for targets with 32-bit addresses"],
}


class NoAnswer(Exception):
    pass


class Broken(Exception):
    """The property itself is refuted by a build."""

    def __init__(self, key, what, data):
        self.key, self.what, self.data = key, what, data


def left():
    return TOTAL - (time.time() - T0)


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                              timeout=max(5, min(timeout or 1e9, left())), env=kw.pop("env", ENV), **kw)
    except subprocess.TimeoutExpired as e:
        raise NoAnswer("timed out: %s" % " ".join(cmd)) from e
    except OSError as e:
        raise NoAnswer("cannot run %s: %s" % (cmd[0], e)) from e


def cargo(manifest, target, features="", profile="dev", extra=(), pre=(), env=None):
    cmd = ["cargo", *pre, "build", "--offline", "--quiet", "--manifest-path", manifest, "--target-dir", target, "--profile", profile, *extra]
    if features:
        cmd += ["--features", features]
    return sh(cmd, env=env or ENV)


def must(r, what):
    if r.returncode != 0:
        raise NoAnswer("cannot build %s:\n%s" % (what, r.stderr[-4000:]))


def harness(kind):
    """Builds the monitor against the crate with all reader features (h) or none (n)."""
    t = os.path.join(TARGET, kind)
    must(cargo(os.path.join(VERIF, "harness/Cargo.toml"), t, "all" if kind == "h" else ""), "the monitor")
    return os.path.join(t, "debug/ffmon")


def worker(lane, features, profile="dev"):
    t = os.path.join(TARGET, "w%d" % lane)
    r = cargo(os.path.join(VERIF, "worker/Cargo.toml"), t, ",".join(features), profile)
    return r, os.path.join(t, "debug" if profile == "dev" else profile, "ffworker")


def put(src, dst):
    shutil.copy2(src, dst)
    os.chmod(dst, 0o755)


def worker_all(bins):
    r, f = worker(0, ["reader"])
    must(r, "the worker")
    put(f, os.path.join(bins, "worker-all"))


def lefi(bins):
    t = os.path.join(TARGET, "lefi")
    r = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--example", "lefi",
            "--features", "reader", "--target-dir", t])
    must(r, "lefi")
    put(os.path.join(t, "debug/examples/lefi"), os.path.join(bins, "lefi"))


def cover(items, have, strength, rnd):
    """Sets such that any few items are met in every way of being in or out (greedy covering array)."""
    import itertools
    n = len(items)
    places = list(itertools.combinations(range(n), strength))

    def hits(row):
        return {(c, tuple(row[i] for i in c)) for c in places}

    need = {(c, v) for c in places for v in itertools.product((False, True), repeat=strength)}
    for s in have:
        need -= hits([x in s or "reader" in s for x in items])
    out = []
    while need:
        best = (0, None)
        for _ in range(40):
            row = [rnd.random() < 0.5 for _ in items]
            c, v = rnd.choice(sorted(need))
            for i, x in zip(c, v):
                row[i] = x
            g = len(hits(row) & need)
            best = max(best, (g, row))
        out.append([x for x, y in zip(items, best[1]) if y])
        need -= hits(best[1])
    return out


def feature_sets(seed, thorough):
    f = ["reader-" + r for r in READERS]
    sets = [[], ["reader"], f]
    sets += [[x] for x in f]
    sets += [[x, "reader-txt"] for x in f if x != "reader-txt"]
    sets += [[y for y in f if y != x] for x in f]
    # So far every three readers are met in each of the eight ways of being on or off.
    import random
    rnd = random.Random(seed)
    if thorough:
        sets += cover(f, sets, 4, rnd)
    for _ in range(6):
        sets.append(sorted(rnd.sample(f, rnd.randint(2, 10))))
    out, seen = [], set()
    for s in sets:
        k = tuple(s)
        if k not in seen:
            seen.add(k)
            out.append((s, "dev"))
    out += [([], "unchecked"), (["reader"], "unchecked"), (f[:6], "unchecked"), (f[6:], "unchecked")]
    return out


def configurations(bins, seed, thorough):
    sets = feature_sets(seed, thorough)
    # The two configurations the test suite builds come first: if they fail, no answer.
    lines = [None] * len(sets)
    failed = []

    def one(lane, i):
        s, profile = sets[i]
        r, f = worker(lane, s, profile)
        if r.returncode != 0:
            failed.append((i, r.stderr))
            return
        name = "worker-%d" % i
        put(f, os.path.join(bins, name))
        label = ",".join(s) if len(s) < 11 else ("all" if len(s) == 12 else "all but " + ",".join(x for x in ["reader-" + r for r in READERS] if x not in s))
        lines[i] = "%s\t%s\t%s" % (name, ",".join(s), label + (" unchecked" if profile != "dev" else ""))

    def lane(k):
        for i in range(k, len(sets), 8):
            one(k, i)

    for i in (0, 1):
        one(i, i)
    if failed:
        raise NoAnswer("cannot build the worker:\n" + failed[0][1][-4000:])
    with cf.ThreadPoolExecutor(8) as ex:
        for x in [ex.submit(lane, k) for k in range(8)]:
            x.result()
    for i, err in failed:
        s, profile = sets[i]
        # Confirmed on the crate alone, with the compiler's own errors.
        r = sh(["cargo", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--features", ",".join(s),
                "--target-dir", os.path.join(TARGET, "confirm")])
        if r.returncode != 0 and re.search(r"^error", r.stderr, re.M) and "could not compile" in r.stderr:
            raise Broken("build:" + ",".join(s), "the crate does not build with features [%s]" % ",".join(s), r.stderr[-3000:])
        raise NoAnswer("cannot build the worker with features %s:\n%s" % (s, err[-3000:]))
    if not thorough:
        with open(os.path.join(bins, "configs.txt"), "w") as f:
            f.write("\n".join(x for x in lines if x) + "\n")
        return len(sets)
    # Many more subsets are at least type-checked.
    import random
    rnd = random.Random(seed * 7919 + 1)
    more = [sorted(rnd.sample(READERS, rnd.randint(1, 11))) for _ in range(400)]

    def check(k):
        n = 0
        for s in more[k::8]:
            if left() < 500:
                break
            r = sh(["cargo", "check", "--offline", "--quiet", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--features",
                    ",".join("reader-" + x for x in s), "--target-dir", os.path.join(TARGET, "check%d" % k)])
            if r.returncode != 0 and re.search(r"^error", r.stderr, re.M):
                raise Broken("build:" + ",".join(s), "the crate does not build with features %s" % s, r.stderr[-3000:])
            n += 1
        return n

    with cf.ThreadPoolExecutor(8) as ex:
        extra = sum(x.result() for x in [ex.submit(check, k) for k in range(8)])
    with open(os.path.join(bins, "configs.txt"), "w") as f:
        f.write("\n".join(x for x in lines if x) + "\n")
    return len(sets) + extra


NARROW = "i686-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"


def platform_fails(target, err):
    """The crate alone does not compile for a target: the property itself is refuted."""
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly")
    r = sh(["cargo", "check", "--offline", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--features", "reader",
            "-Zbuild-std=std,panic_unwind", "--target", target, "--target-dir", os.path.join(TARGET, "confirm")], env=env)
    if r.returncode != 0 and re.search(r"could not compile `file-format`", r.stderr):
        raise Broken("build:" + target, "the crate does not build for %s" % target, r.stderr[-3000:])
    raise NoAnswer("cannot build the worker for %s:\n%s" % (target, err[-3000:]))


def interpreted(bins, name, target):
    """A launcher that interprets the worker for a target this machine cannot execute."""
    t = os.path.join(TARGET, "platform-" + target)
    script = os.path.join(bins, name)
    with open(script, "w") as f:
        f.write("#!/bin/sh\ncd /\nexport RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME='%s'\n"
                "export MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows'\n"
                "exec cargo miri run --quiet --offline --manifest-path '%s' --target %s --target-dir '%s' -- \"$@\"\n"
                % (os.path.join(TARGET, "miri-cache"), os.path.join(VERIF, "platform/Cargo.toml"), target, t))
    os.chmod(script, 0o755)
    # The first run builds the program and the interpreter's standard library.
    r = sh([script, "/dev/null"], timeout=500)
    if r.returncode != 0:
        platform_fails(target, r.stderr)
    if "END" not in r.stdout:
        raise NoAnswer("the interpreted worker says: " + r.stdout[-500:] + r.stderr[-500:])


def platforms(bins):
    m = os.path.join(VERIF, "platform/Cargo.toml")
    t = os.path.join(TARGET, "platform")
    must(cargo(m, t), "the worker")
    put(os.path.join(t, "debug/ffplatform"), os.path.join(bins, "native"))
    narrow(bins, m, t)
    interpreted(bins, "big-endian", BIG)


def unchecked(bins):
    """The recorded-source worker with and without run-time checks."""
    m = os.path.join(VERIF, "platform/Cargo.toml")
    t = os.path.join(TARGET, "platform")
    must(cargo(m, t), "the worker")
    put(os.path.join(t, "debug/ffplatform"), os.path.join(bins, "native"))
    must(cargo(m, t, profile="unchecked"), "the worker without run-time checks")
    put(os.path.join(t, "unchecked/ffplatform"), os.path.join(bins, "native-unchecked"))


def narrow(bins, m, t):
    # Only the run-time libraries for 32-bit programs are installed: the linker finds them under the names it looks for here.
    libs = os.path.join(bins, "lib32")
    os.mkdir(libs)
    for name, so in (("c", "libc.so.6"), ("gcc_s", "libgcc_s.so.1"), ("m", "libm.so.6"), ("dl", "libdl.so.2"), ("rt", "librt.so.1"),
                     ("pthread", "libpthread.so.0"), ("util", "libutil.so.1")):
        os.symlink("/usr/lib32/" + so, os.path.join(libs, "lib%s.so" % name))
    env = dict(ENV, RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-C relocation-model=static -C link-arg=-nostartfiles -C link-arg=-L" + libs)
    r = cargo(m, t + "32", extra=("-Zbuild-std=std,panic_unwind", "--target", NARROW), env=env)
    exe = os.path.join(bins, "narrow")
    if r.returncode == 0:
        put(os.path.join(t + "32", NARROW, "debug/ffplatform"), exe)
        try:
            x = sh([exe, "/dev/null"], timeout=20)
            if x.returncode == 0 and x.stdout == "PLATFORM 32 bits, little endian\nEND\n":
                return
        except NoAnswer:
            pass
        os.unlink(exe)
    elif re.search(r"could not compile `file-format`", r.stderr):
        platform_fails(NARROW, r.stderr)
    open(os.path.join(bins, "narrow-interpreted"), "w").close()
    interpreted(bins, "narrow", NARROW)


def limits():
    # Keeps a runaway from taking the sandbox down; far above what the monitors use.
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    most = 24 << 30 if hard == resource.RLIM_INFINITY else min(24 << 30, hard)
    resource.setrlimit(resource.RLIMIT_AS, (most, hard))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    """One execution of the monitor."""

    def __init__(self, exe, prop, tier, seed, scratch, bins, deadline, only=None, limit=True, env=None, timeout=None):
        tag = os.path.join(scratch, "run%d" % (time.time_ns() % 10**12))
        out, crumbs, log = tag + ".json", tag + ".crumbs", tag + ".log"
        work = tag + ".d"
        os.mkdir(work, 0o755)
        os.chmod(work, 0o755)
        cmd = [exe, "--property", prop, "--tier", tier, "--seed", str(seed), "--scratch", work, "--repo", REPO, "--bins", bins,
               "--deadline", str(int(deadline)), "--out", out, "--crumbs", crumbs]
        if only:
            cmd += ["--only", only[0], str(only[1])]
        self.timed_out = False
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env or ENV, preexec_fn=limits if limit else None, start_new_session=True)
            try:
                self.rc = p.wait(timeout=max(5, min(timeout or 1e9, left())))
            except subprocess.TimeoutExpired:
                self.timed_out = True
                self.rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        with open(log, errors="replace") as f:
            self.log = f.read()
        self.names = []
        m = re.search(r"^WORKLOADS (.*)$", self.log, re.M)
        if m:
            # Names may hold blanks: the monitor prints them joined by tabs.
            self.names = m.group(1).split("\t")
        self.at = []
        try:
            with open(crumbs, "rb") as f:
                b = f.read()
            for i in range(0, len(b) - 15, 16):
                w, k = struct.unpack_from("<QQ", b, i)
                if 0 < w <= len(self.names) and (self.names[w - 1], k) not in self.at:
                    self.at.append((self.names[w - 1], k))
        except OSError:
            pass
        self.hang = None
        m = re.search(r"^HANG\t(.*)\t(\d+)$", self.log, re.M)
        if m:
            self.hang = (m.group(1), int(m.group(2)))
        self.data = None
        if self.rc == 0 and re.search(r"^DONE \d+$", self.log, re.M):
            with open(out) as f:
                self.data = json.load(f)
        sys.stderr.write("".join(l + "\n" for l in self.log.splitlines() if re.match(r" *\d+\.\d+s ", l)))
        for x in (out, crumbs, log):
            if os.path.exists(x):
                os.unlink(x)
        shutil.rmtree(work, ignore_errors=True)


def crashed(run, start):
    """Turns an abnormal end of the monitor into a confirmed violation, or no answer."""
    if run.timed_out:
        raise NoAnswer("the monitor ran out of time")
    if run.rc == -signal.SIGKILL:
        raise NoAnswer("the monitor was killed from outside")
    if run.rc == 101 and "panicked" not in run.log:
        raise NoAnswer(run.log[-2000:])
    how = "does not return" if run.hang else "ends the process (%s)" % (signal.Signals(-run.rc).name if run.rc < 0 else "exit %s" % run.rc)
    for wl, k in ([run.hang] if run.hang else run.at):
        if left() < 60:
            break
        again = start(only=(wl, k), timeout=150)
        if again.data is None and again.rc != -signal.SIGKILL and again.rc not in (1, 2, 101):
            return {"workload": wl, "index": k, "key": "crash:" + how.split(" (")[0], "what": "a detection in case %s#%d %s" % (wl, k, how),
                    "input": again.log[-600:]}
    if left() > 300 and not run.hang:
        again = start()
        if again.data is None and again.rc is not None and again.rc != -signal.SIGKILL and again.rc < 0:
            return {"workload": "(whole run)", "index": 0, "key": "crash:ends the process", "what": "the whole run %s, twice" % how, "input": again.log[-600:]}
    raise NoAnswer("the monitor %s and the failure could not be reproduced:\n%s" % (how, run.log[-2000:]))


def known():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=<(.*?)> (.*)", l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def merge(parts):
    c = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "observed": {}, "outcomes": {}, "maxima": {}, "truncated": []}
    found, inc = [], []
    for label, d in parts:
        x = d["coverage"]
        c["evaluations"] += x["evaluations"]
        c["distinct_nontrivial"] += x["distinct_nontrivial"]
        c["rule"] = x["rule"]
        c["samples"] += [(label + " " if label else "") + s for s in x["samples"]]
        for k, v in x["observed"].items():
            c["observed"][k] = c["observed"].get(k, 0) + v
        for k, v in x["outcomes"].items():
            c["outcomes"][k] = c["outcomes"].get(k, 0) + v
        for k, v in x["maxima"].items():
            c["maxima"][k] = max(c["maxima"].get(k, 0), v)
        c["truncated"] += x["truncated"]
        for v in d["found"]:
            v["build"] = label
            found.append(v)
        inc += d["inconclusive"]
    c["samples"] = c["samples"][:30]
    return c, found, inc


def write_evidence(prop, tier, seed, coverage, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "fault_enumeration" if prop in FAULTS else "exploration", "coverage": coverage,
         "assumptions": ASSUME["*"] + ASSUME.get(prop, []), "wall_s": round(time.time() - T0, 3), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)


def decide(prop, tier, seed, replay=None):
    thorough = tier == "thorough"
    scratch = tempfile.mkdtemp(prefix="ffmon-")
    os.chmod(scratch, 0o755)
    bins = os.path.join(scratch, "bins")
    os.mkdir(bins, 0o755)
    os.chmod(bins, 0o755)
    parts, extra_cov = [], {}
    found = []
    try:
        kinds = ["h", "n"] if prop in ("C03", "C04", "C24") else ["h"]
        with cf.ThreadPoolExecutor(4) as ex:
            jobs = {k: ex.submit(harness, k) for k in kinds}
            if prop in ("C07", "C25", "C27"):
                jobs["w"] = ex.submit(worker_all, bins)
            if prop == "C28":
                jobs["p"] = ex.submit(platforms, bins)
            if prop == "C26":
                jobs["l"] = ex.submit(lefi, bins)
            if prop == "C09":
                jobs["c"] = ex.submit(configurations, bins, seed, thorough)
                jobs["u"] = ex.submit(unchecked, bins)
            # Every job ends before any error is raised.
            cf.wait(jobs.values())
            exes = {k: jobs[k].result() for k in kinds}
            for k in jobs:
                r = jobs[k].result()
                if k == "c":
                    extra_cov["feature_sets_built"] = r
        for n, k in enumerate(kinds):
            if replay and replay.get("build", "") not in ("", {"h": "all readers", "n": "no readers"}[k]):
                continue
            budget = max(20, min((300 if prop in ("C01", "C07") else 600) if thorough else 300, left() - 150)) / (len(kinds) - n)

            def start(only=None, timeout=None):
                return Run(exes[k], prop, tier, seed, scratch, bins, budget, only, timeout=timeout)

            r = start(only=(replay["workload"], replay["index"]) if replay and replay["workload"] in replay.get("workloads", [replay["workload"]]) and not replay["workload"].startswith("(") else None)
            label = {"h": "all readers", "n": "no readers"}[k] if len(kinds) > 1 else ""
            if r.data is None:
                v = crashed(r, start)
                v["build"] = label
                found.append(v)
                continue
            parts.append((label, r.data))
        if thorough and not replay and not found:
            import extra
            for label, d in extra.run(prop, seed, sys.modules[__name__], scratch, bins):
                extra_cov.setdefault("sanitizer_runs", {})[label] = d.get("summary", "")
                for v in d.get("found", []):
                    v["build"] = label
                    found.append(v)
    except Broken as b:
        found.append({"workload": "(build)", "index": 0, "key": b.key, "what": b.what, "input": b.data, "build": ""})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov, more, inc = merge(parts)
    found += more
    cov.update(extra_cov)
    cov["inconclusive_cases"] = len(inc)
    cov["inconclusive_examples"] = inc[:10]
    if not parts:
        cov["rule"] = cov["rule"] or "the run ended before anything was counted"
        cov["samples"] = [f["what"] for f in found[:3]] or ["none"]
    return cov, found, inc


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        with cf.ThreadPoolExecutor(2) as ex:
            for x in [ex.submit(harness, k) for k in ("h", "n")]:
                x.result()
        return 0
    prop = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = None
    if "--replay" in a:
        replay = json.load(open(a[a.index("--replay") + 1]))
        seed, tier = replay["seed"], replay["tier"]
    cov, found, inc = decide(prop, tier, seed, replay)
    kn = known()
    bad, seen = [], set()
    for v in found:
        if (prop, v["key"]) in kn:
            if v["key"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, v["key"])]))
        elif v["key"] not in seen:
            bad.append(v)
        seen.add(v["key"])
    write_evidence(prop, tier, seed, cov, len(bad))
    if bad:
        os.makedirs(REPLAYS, exist_ok=True)
        for v in bad[:5]:
            d = dict(v, property=prop, tier=tier, seed=seed, command="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --replay <this file>" % (seed, tier, prop))
            h = hashlib.sha256(json.dumps([v["key"], v["workload"], v["index"], seed, tier]).encode()).hexdigest()[:10]
            p = os.path.join(REPLAYS, "%s-%s.json" % (prop, h))
            with open(p, "w") as f:
                json.dump(d, f, indent=1)
            print("%s [%s#%s] %s" % (v.get("build", ""), v["workload"], v["index"], v["what"][:500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if cov["evaluations"] == 0:
        raise NoAnswer("nothing was observed: %s" % inc[:3])
    empty = [x for x in inc if x.endswith("nothing evaluated")]
    if empty and not replay:
        raise NoAnswer("; ".join(empty))
    if len(inc) * 2 > cov["evaluations"]:
        raise NoAnswer("too many cases without an answer: %s" % inc[:3])
    print("%s: held on %d evaluations (%d distinct non-trivial), seed %d, %s, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], seed, tier, time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.stdout.reconfigure(errors="replace")
        code = main()
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        code = 2
    except Exception:
        import traceback
        print("NO ANSWER: the supervisor failed:\n" + traceback.format_exc())
        code = 2
    sys.stdout.flush()
    sys.exit(code)
