"""C02: entries tile the source; nothing disappears."""
from .common import *

ID = "C02"
RULE = ("arbitrary, corrupted and well-formed texts, plain and CRLF; monitor: source coverage map of the returned entries; "
        "non-trivial: at least two entries or some Junk; distinct by the sequence of entry types and gap lengths")
QUICK, THOROUGH = 24000, 250000
NEED = {"texts": 4000, "junk": 1500, "gaps": 3000, "attached_comments": 100, "chars_accounted": 100000}
MIN_NONTRIVIAL = 1000
PUNCT = set("{}[]()*.,:=$-\"#> \r\n")
LEAF = {"Identifier", "StringLiteral", "NumberLiteral", "TextElement"}


def gen(r, i, tier):
    if i % 8 == 0:
        g = G.Gen(r, size=.6)
        return "".join(T.pieces(r, g, r.randint(2, 14)))
    return T.text(r)


def feedback(s):
    T.fb(s)


def run(s, obs):
    obs.count("texts")
    res = J(FluentParser().parse(s))
    sp = res["span"]
    obs.check(sp is not None and (sp["start"], sp["end"]) == (0, len(s)), "Resource span is not the whole text", got=sp, length=len(s))
    pos = 0
    sig = []
    for e in res["body"]:
        a, b = e["span"]["start"], e["span"]["end"]
        obs.check(pos <= a < b <= len(s), "entries overlap, are empty or out of order", entry=e["type"], span=(a, b), previous_end=pos)
        gap(obs, s, pos, a)
        sig.append((e["type"], a - pos))
        if e["type"] == "Junk":
            obs.count("junk")
            obs.check(e["content"] == s[a:b], "Junk content is not the source text of its span",
                      content=e["content"], source=s[a:b])
        else:
            c = e.get("comment")
            if c:
                obs.count("attached_comments")
                ca, cb = c["span"]["start"], c["span"]["end"]
                obs.check(ca == a and a < cb < b, "attached comment lies outside its entry", comment=(ca, cb), entry=(a, b))
            inside(obs, s, e)
        pos = b
    gap(obs, s, pos, len(s))
    # which entries there are: the grammar's own segmentation
    ref = RP.parse(s)
    got = [(e["type"], e["span"]["start"], e["span"]["end"]) for e in res["body"]]
    want = [(e["type"], e["span"]["start"], e["span"]["end"]) for e in ref["body"]]
    obs.check(got == want, "entries differ from those in the text", got=got, want=want)
    if len(sig) > 1 or any(t == "Junk" for t, _ in sig):
        obs.nontrivial(tuple(sig))
        obs.sample(s)
    obs.state("entry_type_sequences", tuple(t for t, _ in sig))


def gap(obs, s, a, b):
    t = s[a:b]
    obs.count("gaps")
    obs.count("chars_accounted", b - a)
    if t.replace("\r\n", "").strip(" \n"):
        raise Violation("source text belongs to no entry", text=t, at=(a, b))


def inside(obs, s, e):
    """Within an entry, whatever is not a leaf's own text is punctuation."""
    a, b = e["span"]["start"], e["span"]["end"]
    obs.count("chars_accounted", b - a)
    cov = bytearray(b - a)
    for n in walk(e):
        t = n["type"]
        if t in LEAF or t.endswith("Comment"):
            x, y = n["span"]["start"], n["span"]["end"]
            obs.check(a <= x <= y <= b, "a node lies outside its entry", node=t, span=(x, y), entry=(a, b))
            for k in range(x - a, y - a):
                cov[k] = 1
    left = {s[a + k] for k in range(b - a) if not cov[k]}
    if not left <= PUNCT:
        raise Violation("source text inside an entry belongs to no node", chars=sorted(left - PUNCT), entry=s[a:b])
    # what the leaves say is what the source says
    for n in walk(e):
        t = n["type"]
        if t not in LEAF and not t.endswith("Comment"):
            continue
        src = s[n["span"]["start"]:n["span"]["end"]]
        if t == "Identifier":
            ok = n["name"] == src
        elif t == "NumberLiteral":
            ok = n["value"] == src
        elif t == "StringLiteral":
            ok = '"' + n["value"] + '"' == src
        elif t == "TextElement":
            f = lambda x: "".join(c for c in x if c not in " \r\n")
            ok = f(n["value"]) == f(src)
        else:
            h = len(src) - len(src.lstrip("#"))
            ok = 1 <= h <= 3
            lines = src.replace("\r\n", "\n").split("\n")
            k = {"Comment": 1, "GroupComment": 2, "ResourceComment": 3}[t]
            ok = n["content"] == "\n".join(x[k + 1:] for x in lines)
        obs.count("assertions")
        if not ok:
            raise Violation(f"{t} does not hold its source text", node=n, source=src)
