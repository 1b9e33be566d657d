#!/usr/bin/env python3
"""Mutation campaign: mutants of /repo's sources that pass its tests, judged by the checks (in mount-namespace copies).

    mutants.py OUT.json LANES SEED COUNT FILE[:FROM-TO]...
Phase 1 (build, stable tests) and phase 2 (checks, most relevant first) run per mutant; results are kept across runs.
"""
import concurrent.futures as cf, hashlib, json, os, queue, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, lanes, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
areas = sys.argv[5:]
ROOT = os.environ.get("LANES_ROOT", "/tmp/mu")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json"))["stable"])
res = json.load(open(out)) if os.path.exists(out) else {}
free = queue.Queue()
BY_FN = [("asf", ["C14", "C10", "C01"]), ("cfb", ["C12", "C10", "C01"]), ("ebml", ["C13", "C10", "C02", "C01"]), ("exe", ["C17", "C10"]), ("id3v2", ["C18", "C10", "C01"]),
         ("mp4", ["C15", "C10", "C02"]), ("pdf", ["C19", "C10", "C02"]), ("rm", ["C16", "C10", "C02"]), ("sqlite3", ["C20", "C10"]), ("txt", ["C22", "C02"]),
         ("xml", ["C21", "C10"]), ("zip", ["C11", "C10", "C02", "C01"])]


def generate():
    ms = []
    for a in areas:
        f, _, rng = a.partition(":")
        lines = open("/repo/" + f).read().split("\n")
        lo, hi = (int(x) for x in rng.split("-")) if rng else (1, len(lines))
        fn = ""
        for i, l in enumerate(lines):
            m = re.search(r"fn (\w+)", l)
            if m and not l.strip().startswith("//"):
                fn = m.group(1)
            if f.endswith("lib.rs") and "#[cfg(test)]" in l:
                break
            if not lo <= i + 1 <= hi:
                continue
            code = l.split("//")[0] if not re.search(r'"[^"]*//', l) else l
            if not code.strip() or code.strip().startswith(("#", "use ", "pub ", "impl", "///")):
                continue
            cands = []

            def sub(pat, rep):
                for m in re.finditer(pat, code):
                    r = rep(m) if callable(rep) else m.expand(rep)
                    for x in (r if isinstance(r, list) else [r]):
                        if x is not None and x != m.group(0):
                            cands.append(code[:m.start()] + x + code[m.end():])

            # string and byte-string interiors are handled apart
            sub(r"(?<![\w\"\\.])(\d[\d_]*)(?![\w\"])", lambda m: [str(int(m.group(1).replace("_", "")) + 1), str(int(m.group(1).replace("_", "")) - 1) if int(m.group(1).replace("_", "")) else None])
            sub(r"\b0x([0-9A-Fa-f]+)\b", lambda m: [hex(int(m.group(1), 16) + 1), hex(int(m.group(1), 16) ^ (1 << (len(m.group(1)) * 4 - 1)))])
            sub(r" < (?!.*>)", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > "); sub(r" == ", " != "); sub(r" != ", " == ")
            sub(r" && ", " || "); sub(r" \|\| ", " && "); sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" << ", " >> "); sub(r" \+= ", " -= "); sub(r" & ", " | ")
            sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true"); sub(r"\bbreak\b", "continue"); sub(r"\bcontinue\b", "break")
            sub(r"SeekFrom::Current", "SeekFrom::Start"); sub(r"_le\(", "_be("); sub(r"_be\(", "_le("); sub(r"\brfind\b", "find"); sub(r"\bmin\(", "max("); sub(r"\bmax\(", "min(")
            sub(r"u64_", "u32_"); sub(r"u32_le", "u16_le"); sub(r"u16_le", "u8"); sub(r"u32_be", "u16_le")
            sub(r"if (?!let)([^{]+) \{", r"if !(\1) {"); sub(r"if (?!let)([^{]+) \{", r"if true || (\1) {"); sub(r"if (?!let)([^{]+) \{", r"if false && (\1) {")
            sub(r" as u64", " as u32 as u64"); sub(r" as usize", " as u16 as usize")
            sub(r"starts_with", "ends_with"); sub(r"ends_with", "starts_with"); sub(r"starts_with\(", "contains("); sub(r"saturating_sub", "wrapping_sub"); sub(r"wrapping_add", "saturating_add")
            if re.match(r"\s*[\w.]+.*;\s*$", code) and not code.strip().startswith(("let ", "const ", "return", "use")):
                cands.append(re.match(r"\s*", code).group(0) + ";")
            # one byte of one literal
            for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
                s = m.group(1)
                toks = re.findall(r"\\x[0-9A-Fa-f]{2}|\\.|[^\\]", s)
                k = (len(toks) * 7 + i) % len(toks)
                t = toks[k]
                toks[k] = "\\x01" if t.startswith("\\") else ("b" if t == "a" else chr(ord(t) ^ 1) if chr(ord(t) ^ 1) not in '"\\' and ord(t) ^ 1 >= 32 else "z")
                cands.append(code[:m.start(1)] + "".join(toks) + code[m.end(1):])
            for m in re.finditer(r"Self::(\w+)\)?", code):
                if "from_" in m.group(0) or m.group(1) == "default":
                    continue
                cands.append(code[:m.start(1)] + ("Zip" if m.group(1) != "Zip" else "ArbitraryBinaryData") + code[m.end(1):])
            for c in dict.fromkeys(cands):
                if "Error::new(" in l or re.search(r"[A-Z_]{4,} as u(16|32) as", c):
                    continue
                ms.append((f, i + 1, fn, l, c))
    return ms


def relevant(f, fn, line, l):
    if f.endswith("formats.rs"):
        return ["C23"]
    if f.endswith("macros.rs"):
        return ["C23"] if line < 160 else ["C03", "C04", "C01"]
    if f.endswith("signatures.rs"):
        return ["C03", "C04"]
    if f.endswith("lib.rs"):
        return ["C06", "C05", "C08", "C03", "C24", "C02", "C01", "C25", "C23"]
    for k, ps in BY_FN:
        if fn == "from_%s_reader" % k:
            return ps + ["C05"]
    if fn in ("from_fmt_reader",):
        return ["C10", "C09", "C08"]
    if fn in ("from_generic_reader",):
        return ["C08", "C09", "C22"]
    return {"find": ["C20", "C19", "C21", "C01"], "rfind": ["C11", "C01"], "holds": ["C21", "C19", "C20"], "read_bytes": ["C05", "C11", "C02"], "read_string": ["C11", "C13", "C16"], "read_guid": ["C12", "C14"],
            "read_up_to": ["C05", "C19", "C08", "C18"]}.get(fn, ["C11", "C14", "C15"]) + ["C10", "C05", "C08", "C01"]


def ns(lane, cmd, timeout=1500, env=None):
    d = "%s/%d" % (ROOT, lane)
    e = dict(os.environ, CARGO_TERM_COLOR="never", **(env or {}))
    pre = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && " % (d, d)
    try:
        r = subprocess.run(["unshare", "-m", "--kill-child", "--fork", "-p", "--mount-proc", "bash", "-c", pre + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def prepare(lane):
    d = "%s/%d" % (ROOT, lane)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", "/verif", d + "/verif"])
    free.put(lane)


def one(m):
    f, line, fn, old, new = m
    key = hashlib.sha256(("%s:%d:%s" % (f, line, new)).encode()).hexdigest()[:10]
    if key in res and res[key].get("done"):
        return
    lane = free.get()
    try:
        r = {"file": f, "line": line, "fn": fn, "old": old.strip(), "new": new.strip()}
        p = "%s/%d/repo/%s" % (ROOT, lane, f)
        src = open("/repo/" + f).read().split("\n")
        src[line - 1] = new
        open(p, "w").write("\n".join(src))
        try:
            c, o = ns(lane, "ulimit -v 12000000; cargo build --offline --features reader 2>&1 && cargo build --offline 2>&1", 120)
            if c:
                r.update(done=True, fate="no build")
            else:
                c, o = ns(lane, "ulimit -v 12000000; timeout 100 cargo test --offline --all-features --quiet 2>&1 && timeout 60 cargo test --offline --quiet 2>&1", 200)
                if c:
                    r.update(done=True, fate="killed by tests")
                else:
                    r["checks"] = {}
                    r["fate"] = "survived"
                    for q in dict.fromkeys(relevant(f, fn, line, old)):
                        t0 = time.time()
                        c, o = ns(lane, "cd /verif && python3 run.py %s 2>/dev/null" % q, 700, {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
                        r["checks"][q] = [c, round(time.time() - t0), o[-400:] if c else ""]
                        if c == 1 and "VIOLATION property=%s " % q in o:
                            r["fate"] = "caught"
                            break
                    r["done"] = True
        finally:
            open(p, "w").write(open("/repo/" + f).read())
        res[key] = r
        json.dump(res, open(out + ".tmp", "w"), indent=1)
        os.replace(out + ".tmp", out)
        if r["fate"] in ("survived", "caught"):
            print(key, r["fate"], "%s:%d %s" % (f, line, fn), "| %s => %s |" % (r["old"], r["new"]), {k: v[:2] for k, v in r["checks"].items()}, flush=True)
    finally:
        free.put(lane)


if __name__ == "__main__":
    ms = generate()
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants,", min(count, len(ms)), "taken", flush=True)
    for l in range(lanes):
        prepare(l)
    with cf.ThreadPoolExecutor(lanes) as ex:
        for x in [ex.submit(one, m) for m in ms[:count]]:
            x.result()
    shutil.rmtree(ROOT)
    fates = {}
    for r in res.values():
        fates[r["fate"]] = fates.get(r["fate"], 0) + 1
    print(fates)
