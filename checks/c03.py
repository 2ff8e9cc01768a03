"""C03: well-formed Fluent parses to the prescribed tree, whatever the layout."""
from .common import *

ID = "C03"
RULE = ("random abstract resources rendered in several random layouts each; the tree known by construction is the oracle; "
        "plus a sweep over code points in text, strings and comments; distinct by tree")
QUICK, THOROUGH = 14000, 150000
NEED = {"layouts": 8000, "node:SelectExpression": 500, "node:Placeable": 3000, "node:CallArguments": 500, "sweep": 20}
MIN_NONTRIVIAL = 1500


def gen(r, i, tier):
    if i % 25 == 0:
        k = 400
        lo = r.choice([r.randrange(0, 0x3000), r.randrange(0, 0x110000 - k), r.choice([0, 0x2000, 0xd700, 0xfe00, 0xff00])])
        return ("sweep", [c for c in range(lo, lo + k) if not 0xd800 <= c < 0xe000 or r.random() < .3])
    g = G.Gen(r, cr=r.random() < .1, size=1.0)
    m = g.model(r.choice([0, 1, 1, 2, 2, 3]), entries=r.choice([1, 1, 2, 3, None]))
    srcs = [G.render(m, r, plain=(k == 0 and r.random() < .3)) for k in range(r.choice([2, 2, 3]))]
    return ("model", G.tree(m), srcs)


def run(case, obs):
    if case[0] == "sweep":
        return sweep(case[1], obs)
    _, want, srcs = case
    for s in srcs:
        obs.count("layouts")
        got = J(FluentParser(with_spans=False).parse(s))
        if len(got["body"]) != len(want["body"]) or any(e["type"] == "Junk" for e in got["body"]):
            d = diff(got, want)
            raise Violation(f"well-formed text parsed to other entries, first difference at {d[0] if d else '?'}",
                            source=s, got=[e["type"] for e in got["body"]], want=[e["type"] for e in want["body"]],
                            junk=[e for e in got["body"] if e["type"] == "Junk"][:1])
        same(obs, got, want, "tree differs from the grammar's", source=s)
        obs.count("chars", len(s))
    seen_types(obs, want)
    if want["body"]:
        obs.nontrivial(json.dumps(want).encode())
        obs.state("tree_shapes", shape(want))
        if len(srcs[0]) < 300:
            obs.sample(srcs[0])
    if len(set(srcs)) > 1:
        obs.count("cases_with_distinct_layouts")


def sweep(cps, obs):
    """Each code point in text, in a string literal and in a comment."""
    obs.count("sweep")
    lines = []
    want = []
    for c in cps:
        ch = chr(c)
        if ch in "\r\n":
            continue
        t = ch not in "{}"
        q = ch not in '"\\'
        if t:
            lines.append(f"t{c:x} = a{ch}b\n")
            want.append((f"t{c:x}", f"a{ch}b"))
            lines.append(f"e{c:x} =\n    x\n    a{ch}\n    y{ch}{ch}z\n")
            want.append((f"e{c:x}", f"x\na{ch}\ny{ch}{ch}z"))
        if q:
            lines.append(f"q{c:x} = {{\"{ch}\"}}\n")
            want.append((f"q{c:x}", f"\0{ch}"))
        lines.append(f"# a{ch}b{ch}\n\n")
        want.append((None, f"a{ch}b{ch}"))
    src = "".join(lines)
    body = FluentParser(with_spans=False).parse(src).body
    if len(body) != len(want):
        bad = [e for e in body if isinstance(e, FTL.Junk)]
        raise Violation("a character broke the parse", junk=repr(bad[0].content[:80]) if bad else None, first=hex(cps[0]))
    for e, (id, val) in zip(body, want):
        obs.count("sweep_characters")
        if id is None:
            ok = type(e) is FTL.Comment and e.content == val
        else:
            ok = type(e) is FTL.Message and e.id.name == id and len(e.value.elements) == 1
            if ok:
                x = e.value.elements[0]
                if val[0] == "\0":
                    ok = isinstance(x, FTL.Placeable) and isinstance(x.expression, FTL.StringLiteral) and x.expression.value == val[1:]
                else:
                    # trailing blanks of a line are kept except at the very end
                    ok = isinstance(x, FTL.TextElement) and x.value == val
        obs.count("assertions")
        if not ok:
            raise Violation("a character is not kept as it is", expected=(id, val), got=repr(e.to_json())[:400])
    obs.nontrivial(("sweep", cps[0]))


def feedback(case):
    pass
