"""C06: spans are exact, and optional."""
from .common import *

ID = "C06"
RULE = ("texts of every kind, half with CRLF and astral characters; every span compared with the source slice of its node and with the "
        "reference parser's; non-trivial: at least five spans; distinct by span tree")
QUICK, THOROUGH = 24000, 250000
NEED = {"spans": 50000, "crlf_texts": 800, "spans_after_cr": 3000, "sliced_leaves": 10000}
MIN_NONTRIVIAL = 2500
ORDER = {"Resource": ["body"], "Message": ["comment", "id", "value", "attributes"], "Term": ["comment", "id", "value", "attributes"],
         "Attribute": ["id", "value"], "Pattern": ["elements"], "Placeable": ["expression"], "SelectExpression": ["selector", "variants"],
         "Variant": ["key", "value"], "CallArguments": ["positional", "named"], "NamedArgument": ["name", "value"],
         "MessageReference": ["id", "attribute"], "TermReference": ["id", "attribute", "arguments"], "FunctionReference": ["id", "arguments"],
         "VariableReference": ["id"]}


def gen(r, i, tier):
    x = r.random()
    if x < .5:
        g = G.Gen(r, size=.7)
        s = G.render(g.model(r.choice([1, 2, 2, 3]), entries=r.randint(1, 4)), r)
        if r.random() < .3:
            s = T.mutate(r, s, 1)
        if r.random() < .5:
            s = G.crlf(s, r, r.choice([1.0, 1.0, .5, .1]))
        return s
    return T.text(r)


def feedback(s):
    T.fb(s)


def run(s, obs):
    obs.count("texts")
    if "\r\n" in s:
        obs.count("crlf_texts")
    res = J(FluentParser().parse(s))
    check(obs, s, res, None)
    ref = RP.parse(s)
    same(obs, noann(res), noann(ref), "positions differ from the grammar's", source=s)
    nos = FluentParser(with_spans=False).parse(s)
    jn = J(nos)
    for n in walk(jn):
        if n.get("span") is not None:
            raise Violation("a position is recorded although turned off", node=n["type"])
    same(obs, noann(jn), RP.strip_spans(noann(res)), "turning positions off changes the tree", source=s)
    sig = tuple((n["type"], n["span"]["start"], n["span"]["end"]) for n in walk(res) if n.get("span"))
    if len(sig) >= 5:
        obs.nontrivial(sig)
        if len(s) < 120:
            obs.sample(s)


def noann(x):
    """Annotations are C05's business."""
    x = dict(x)
    x["body"] = [dict(e, annotations=[]) if e["type"] == "Junk" else e for e in x["body"]]
    return x


def check(obs, s, n, parent):
    if n["type"] in ("Span", "Annotation"):
        return
    sp = n.get("span")
    obs.check(sp is not None, "a node has no position", node=n["type"])
    a, b = sp["start"], sp["end"]
    obs.count("spans")
    t = n["type"]
    if "\r" in s[:a]:
        obs.count("spans_after_cr")
    obs.check(0 <= a <= b <= len(s), "span outside the text", node=t, span=(a, b))
    if parent:
        obs.check(parent[1] <= a and b <= parent[2], "child outside its parent", node=t, span=(a, b), parent=parent, source=s)
    src = s[a:b]
    ok = True
    if t == "Identifier":
        ok = src == n["name"]
    elif t == "NumberLiteral":
        ok = src == n["value"]
    elif t == "StringLiteral":
        ok = src == '"' + n["value"] + '"'
    elif t == "VariableReference":
        ok = src == "$" + n["id"]["name"]
    elif t == "MessageReference":
        ok = src == n["id"]["name"] + ("." + n["attribute"]["name"] if n["attribute"] else "")
    elif t == "Placeable":
        ok = src[:1] == "{" and src[-1:] == "}"
    elif t == "CallArguments":
        ok = src[:1] == "(" and src[-1:] == ")"
    elif t == "Variant":
        ok = src[:1] == ("*" if n["default"] else "[")
    elif t == "Attribute":
        ok = src[:1] == "."
    elif t in ("Message", "Term"):
        c = n["comment"]
        if c:
            ok = a == c["span"]["start"]
        else:
            ok = a == n["id"]["span"]["start"] - (t == "Term")
    elif t.endswith("Comment"):
        h = {"Comment": 1, "GroupComment": 2, "ResourceComment": 3}[t]
        ok = src.startswith("#" * h) and not src.endswith("\n")
    elif t == "Junk":
        ok = src == n["content"]
    if t in ("Identifier", "NumberLiteral", "StringLiteral", "VariableReference", "MessageReference"):
        obs.count("sliced_leaves")
    obs.count("assertions")
    if not ok:
        raise Violation(f"span of {t} does not delimit its text", slice=src, node=n if t in ("Identifier", "StringLiteral") else t, source=s)
    last = a
    for f in ORDER.get(t, []):
        kids = n.get(f)
        kids = kids if isinstance(kids, list) else [kids] if kids else []
        for k in kids:
            check(obs, s, k, (t, a, b))
            obs.check(last <= k["span"]["start"], "siblings out of order or overlapping", parent=t, child=k["type"], source=s)
            last = k["span"]["end"]
