"""Names the seeded changes that remove lines which commits of ours added to /repo."""
import glob, os, re, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
blame = {}
def owner(f, n):
    if f not in blame:
        blame[f] = [l.split()[0].lstrip("^") for l in subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", f], text=True).splitlines()]
    return blame[f][n - 1]
for p in sorted(glob.glob(os.path.join(VERIF, "seeded/*/patch.diff"))):
    f = n = None
    mine = total = 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif n and l.startswith("-"):
            total += 1
            mine += not base.startswith(owner(f, n)[:30])
            n += 1
        elif n and l.startswith(" "): n += 1
    if mine or not total: print(os.path.basename(os.path.dirname(p)), "%d of %d removed lines are ours" % (mine, total))
