"""Lists planted bugs that change no line of the original repository."""
import glob, re, subprocess, sys
BASE = "17557a9"
blame = {}
def lines(f):
    if f not in blame:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        blame[f] = [l.lstrip("^").startswith(BASE) for l in out]
    return blame[f]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    ok = False
    minus = 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip().split("\t")[0]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            minus += 1
            ok |= lines(f)[n - 1]
            n += 1
        elif l.startswith(" "):
            n += 1
    if not ok:
        print(p.split("/")[3], "removes", minus)
