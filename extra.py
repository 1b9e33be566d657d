"""Sanitizer and interpreter runs of the thorough tier: AddressSanitizer and Miri for C01, ThreadSanitizer and Miri for C07.

Each returns (label, {"summary", "found"}). A tool that is missing or fails on its own is recorded as not run: these runs
add to the verdict of the monitor, which has been reached before, and never replace it.
"""
import concurrent.futures as cf
import os
import re
import subprocess

PROPS = ("C01", "C07")
TRIPLE = "x86_64-unknown-linux-gnu"


def instrumented(sup, prop, seed, scratch, bins, which, env_extra, flags, report, budget):
    label = {"address": "AddressSanitizer", "thread": "ThreadSanitizer"}[which]
    env = dict(sup.ENV, RUSTFLAGS="-Zsanitizer=%s" % which, RUSTUP_TOOLCHAIN="nightly", **env_extra)
    t = os.path.join(sup.TARGET, which)
    r = sup.cargo(os.path.join(sup.VERIF, "harness/Cargo.toml"), t, "all", extra=("--target", TRIPLE, *flags), env=env)
    if r.returncode != 0:
        return label, {"summary": "not run: cannot build: " + r.stderr[-300:]}
    if sup.left() < budget + 40:
        return label, {"summary": "not run: no time left"}
    exe = os.path.join(t, TRIPLE, "debug/ffmon")
    x = sup.Run(exe, prop, "quick", seed, scratch, bins, budget, limit=False, env=env, timeout=budget + 60)
    m = re.search(report, x.log)
    if m:
        return label, {"summary": "report", "found": [{"workload": "(%s)" % label, "index": 0, "key": "%s:%s" % (which, m.group(1)),
                                                       "what": "%s reports %s" % (label, m.group(1)), "input": x.log[m.start():m.start() + 3000]}]}
    if x.data is None:
        return label, {"summary": "not finished (exit %s)" % x.rc}
    c = x.data["coverage"]
    return label, {"summary": "no report in %d evaluations (%d distinct non-trivial)" % (c["evaluations"], c["distinct_nontrivial"]),
                   "found": [dict(v, workload="(%s)" % label, what="%s: %s" % (label, v["what"])) for v in x.data["found"]]}


def miri(sup, seed, scratch, threads, count, jobs):
    label = "Miri, %d thread%s" % (threads, "s" if threads > 1 else "")
    env = dict(sup.ENV, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d" % seed, RUSTUP_TOOLCHAIN="nightly")
    mon = os.path.join(sup.TARGET, "h/debug/ffmon")
    cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(sup.VERIF, "miri/Cargo.toml"),
           "--target-dir", os.path.join(sup.TARGET, "miri"), "--"]

    def one(k):
        f = os.path.join(scratch, "corpus-%d-%d" % (threads, k))
        d = sup.sh([mon, "--seed", str(seed * 1000 + k), "--dump", f, str(count if k else 3), "3000"])
        if d.returncode != 0:
            return None
        try:
            return f, subprocess.run(cmd + [f, str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env,
                                     timeout=max(30, min(260, sup.left() - 30)))
        except (subprocess.TimeoutExpired, OSError):
            return None

    # The first, tiny one builds the program (and the interpreter's standard library).
    first = one(0)
    if first is None or "REPLAYED" not in first[1].stdout:
        if first is None or not re.search(r"^error: (Undefined Behavior|abnormal)|panicked at", first[1].stderr, re.M):
            return label, {"summary": "not run: " + (first[1].stderr[-300:] if first else "no result")}
    results = [first]
    with cf.ThreadPoolExecutor(jobs) as ex:
        results += list(ex.map(one, range(1, jobs + 1)))
    n, found, late = 0, [], 0
    for r in results:
        if r is None:
            late += 1
            continue
        r = r[1]
        m = re.search(r"^REPLAYED (\d+) inputs", r.stdout, re.M)
        if m:
            n += int(m.group(1))
        for l in re.findall(r"^BAD .*$", r.stdout, re.M)[:3]:
            w = l.split(" ")
            found.append({"workload": "(Miri)", "index": 0, "key": "miri:%s:%s" % (w[1], w[2]), "what": "%s under the interpreter, %s natively" % (w[2], w[1]), "input": w[3]})
        m2 = re.search(r"^error: (Undefined Behavior: .*|.*[Dd]ata race.*)$|panicked at (.*)$", r.stderr, re.M)
        if m2 and not m:
            found.append({"workload": "(Miri)", "index": 0, "key": "miri:report", "what": "the interpreter reports: " + (m2.group(1) or m2.group(2)), "input": r.stderr[-3000:]})
        elif not m:
            late += 1
    return label, {"summary": "%d detections interpreted, %d of %d processes without result, %d reports" % (n, late, len(results), len(found)), "found": found}


def run(prop, seed, sup, scratch, bins):
    out = []
    if prop == "C01":
        out.append(instrumented(sup, prop, seed, scratch, bins, "address", {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"}, (),
                                r"ERROR: AddressSanitizer: (\S+)", 120))
        if sup.left() > 150:
            out.append(miri(sup, seed, scratch, 1, 450, 8))
    if prop == "C07":
        out.append(instrumented(sup, prop, seed, scratch, bins, "thread", {"TSAN_OPTIONS": "halt_on_error=1:report_signal_unsafe=0"}, ("-Zbuild-std",),
                                r"WARNING: ThreadSanitizer: ([^\n(]+)", 120))
        if sup.left() > 150:
            out.append(miri(sup, seed, scratch, 4, 60, 8))
    return out
