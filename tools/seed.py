#!/usr/bin/env python3
"""Maintains /verif/seeded from tools/seedspec.py.

    seed.py make [ID..]    write patch.diff, demo.sh, demo.py and meta.json
    seed.py test [ID..]    in scratch copies: demo clean/patched, stable tests, the property's check
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seedspec import SEEDS, PRE
SH = """#!/bin/bash
# Exit 0 when the property holds here, nonzero otherwise.  Run in the repository's root.
export PYTHONPATH="$PWD/fluent.syntax:$PWD/fluent.runtime:$PWD/fluent.pygments:$PWD/fluent.docs" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 200 /opt/venv/bin/python -B "$here/demo.py"
"""


def sh(cmd, cwd, env=None, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(s):
    d = f"{VERIF}/seeded/{s['id']}"
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in s["edits"]:
            p = f"{w}/r/{f}"
            t = open(p, newline="").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/r", capture_output=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(PRE + s["demo"].strip("\n") + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
    finally:
        shutil.rmtree(w)


def test(id):
    d = f"{VERIF}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    os.chmod(w, 0o755)
    out = [id, meta["property"]]
    try:
        r = w + "/r"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        c = sh(["bash", d + "/demo.sh"], r)
        out.append("clean-ok" if c.returncode == 0 else "CLEAN-FAILS " + c.stdout[-300:])
        a = sh(["git", "apply", d + "/patch.diff"], r)
        if a.returncode:
            return out + ["NO-APPLY " + a.stdout]
        c = sh(["bash", d + "/demo.sh"], r)
        out.append("demo-fails" if c.returncode else "DEMO-PASSES")
        env = {**os.environ, "PYTHONPATH": ":".join(f"{r}/fluent.{x}" for x in ("syntax", "runtime", "pygments", "docs")), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
        bad = []
        for p in ("syntax", "runtime", "pygments"):
            t = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120"], f"{r}/fluent.{p}", env)
            if t.returncode:
                bad.append(p + ": " + [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))][0][:150] if any(l.startswith(("FAILED", "ERROR")) for l in t.stdout.splitlines()) else p + t.stdout[-200:])
        out.append("tests-ok" if not bad else "TESTS-FAIL " + " | ".join(bad))
        if not bad or "-f" in sys.argv:
            e = {**os.environ, "VERIF_REPO": r, "VERIF_EVIDENCE_DIR": w + "/ev", "VERIF_REPLAY_DIR": w + "/rp", "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"}
            for prop in [meta["property"]] + [a[1:] for a in sys.argv if a.startswith("+C")]:
                c = sh(["/opt/venv/bin/python", "-B", VERIF + "/run.py", prop], VERIF, e)
                caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
                lines = c.stdout.splitlines()
                out.append((f"{prop}:CAUGHT " + (lines[[i for i, l in enumerate(lines) if l.startswith('VIOLATION')][0] + 1].strip()[:160])) if caught else f"{prop}:MISSED({c.returncode}) " + c.stdout[-300:].replace("\n", " / "))
        return out
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith(("-", "+"))]
    if sys.argv[1] == "make":
        for s in SEEDS:
            if not ids or s["id"] in ids:
                make(s)
    else:
        ids = ids or sorted(os.listdir(VERIF + "/seeded"))
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
            for o in ex.map(test, ids):
                print(" ; ".join(o), flush=True)
