#!/usr/bin/env python3
"""Quick edits of the code, without demonstrations, to see what the checks miss.

    probe.py OUT.json LANES FILE [id...]      FILE: lines of the form P(id, property, old, new, file=...)
"""
import concurrent.futures as cf, json, os, queue, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, lanes, defs = sys.argv[1], int(sys.argv[2]), sys.argv[3]
PROBES = {}
res = json.load(open(out)) if os.path.exists(out) else {}
base = json.load(open("/opt/vp/BASELINE.json"))
base = set(base.get("passed") or base["stable"])
free = queue.Queue()


def P(id, prop, *edits, file="src/readers.rs"):
    assert id not in PROBES, id
    PROBES[id] = (prop.split(), [(file, o, n) for o, n in zip(edits[::2], edits[1::2])])


exec(open(defs).read())
ids = sys.argv[4:] or [i for i in PROBES if i not in res]
for i in ids:
    for f, o, n in PROBES[i][1]:
        c = open("/repo/" + f).read().count(o)
        if c != 1:
            print("!!", i, "occurs", c, "times:", o[:60])


def ns(lane, cmd, timeout=1500):
    d = "/tmp/pd/%d" % lane
    pre = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && " % (d, d)
    r = subprocess.run(["unshare", "-m", "bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout,
                       env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    return r.returncode, r.stdout


def one(id):
    lane = free.get()
    try:
        props, edits = PROBES[id]
        d = "/tmp/pd/%d" % lane
        subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        for f, o, n in edits:
            s = open(d + "/repo/" + f).read()
            if s.count(o) != 1:
                return
            open(d + "/repo/" + f, "w").write(s.replace(o, n))
        r = {}
        c, o = ns(lane, "bash /opt/vp/build.sh")
        if c:
            r["build"] = o[-1500:]
        else:
            ns(lane, "bash /opt/vp/test.sh %s/t.json" % d)
            r["tests_lost"] = sorted(base - set(json.load(open(d + "/t.json"))["passed"]))[:4]
            if not r["tests_lost"]:
                for p in props:
                    t0 = time.time()
                    c, o = ns(lane, "cd /verif && python3 run.py %s 2>/dev/null" % p)
                    r[p] = [c, round(time.time() - t0), o[-500:]]
        res[id] = r
        json.dump(res, open(out, "w"), indent=1)
        print(id, {k: v[:2] if k[0] == "C" else str(v)[-300:] for k, v in r.items() if v}, flush=True)
    except Exception as e:
        print(id, "failed", e)
    finally:
        free.put(lane)


for l in range(lanes):
    d = "/tmp/pd/%d" % l
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
    free.put(l)
with cf.ThreadPoolExecutor(lanes) as ex:
    list(ex.map(one, ids))
shutil.rmtree("/tmp/pd")
