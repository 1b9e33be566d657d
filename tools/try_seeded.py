#!/usr/bin/env python3
"""Tries planted bugs in private copies (mount namespaces): builds, stable tests, demonstration both ways, checks.

    try_seeded.py OUT.json LANES [--checks C01,C02 | --own | --none] [id...]
"""
import concurrent.futures as cf, json, os, queue, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, lanes, mode = sys.argv[1], int(sys.argv[2]), sys.argv[3]
ids = sys.argv[4:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
res = json.load(open(out)) if os.path.exists(out) else {}
free = queue.Queue()


def ns(lane, cmd, timeout=1500, env=None):
    d = "/tmp/sd/%d" % lane
    e = dict(os.environ, **(env or {}))
    pre = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && " % (d, d)
    r = subprocess.run(["unshare", "-m", "bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
    return r.returncode, r.stdout


def prepare(lane):
    d = "/tmp/sd/%d" % lane
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
    free.put(lane)


def one(id):
    lane = free.get()
    try:
        s = os.path.join(VERIF, "seeded", id)
        meta = json.load(open(os.path.join(s, "meta.json")))
        r = res.get(id, {})
        d = "/tmp/sd/%d" % lane
        keep = "/tmp/sd/%d/seed" % lane
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(s, keep)
        if mode == "--valid" or not r.get("valid"):
            c, o = ns(lane, "git checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh" % keep)
            r["demo_clean"] = c
            if c: r["demo_clean_out"] = o[-500:]
            c, o = ns(lane, "git apply %s/patch.diff && bash /opt/vp/build.sh" % keep)
            r["build"] = c
            if c: r["build_out"] = o[-1500:]
            ns(lane, "bash /opt/vp/test.sh /tmp/sd/%d/t.json" % lane)
            t = json.load(open("/tmp/sd/%d/t.json" % lane))
            miss = sorted(base - set(t["passed"]))
            r["tests_lost"] = miss[:5]
            c, o = ns(lane, "bash %s/demo.sh" % keep)
            r["demo_patched"] = c
            r["demo_out"] = o[-300:]
            r["valid"] = r["demo_clean"] == 0 and r["build"] == 0 and not miss and r["demo_patched"] not in (0, 3 if meta["property"] != "C09" else -1, 99)
        else:
            ns(lane, "git checkout -q -- . && git apply %s/patch.diff" % keep)
        if mode != "--none" and mode != "--valid" and r["valid"]:
            props = [meta["property"]] if mode == "--own" else mode.split("=")[1].split(",")
            for p in props:
                t0 = time.time()
                c, o = ns(lane, "cd /verif && python3 run.py %s 2>/dev/null" % p, env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": os.environ.get("VERIF_TIER", "quick")})
                if c == 1 and "VIOLATION property=%s " % p not in o: c = 111
                r.setdefault("checks", {})[p] = [c, round(time.time() - t0), o[-700:] if c else ""]
        ns(lane, "git checkout -q -- .")
        res[id] = r
        json.dump(res, open(out, "w"), indent=1)
        print(id, meta["property"], "valid" if r["valid"] else "INVALID %s" % {k: v for k, v in r.items() if k != "checks"}, {p: v[:2] for p, v in r.get("checks", {}).items()}, flush=True)
    finally:
        free.put(lane)


for l in range(lanes):
    prepare(l)
with cf.ThreadPoolExecutor(lanes) as ex:
    for x in [ex.submit(one, i) for i in ids]:
        x.result()
shutil.rmtree("/tmp/sd")
