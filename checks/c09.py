"""C09: the serialized form is canonical and stable."""
from .common import *
from fluent.syntax.ast import from_json

ID = "C09"
RULE = ("random trees in several layouts, and texts of every kind; output compared with the reference normal form, across layouts, "
        "and with its own re-serialization; non-trivial: at least one entry; distinct by output")
QUICK, THOROUGH = 18000, 220000
NEED = {"fixed_points": 6000, "layout_pairs": 2500, "reference_compared": 6000, "special_start": 50, "multiline": 1000, "standalone_comments": 1000}
MIN_NONTRIVIAL = 3000


def gen(r, i, tier):
    x = r.random()
    if x < .6:
        g = G.Gen(r, size=.8)
        m = g.model(r.choice([0, 1, 2, 3]), entries=r.choice([1, 2, 3, None]))
        return ("model", G.tree(m), [G.render(m, r) for _ in range(2)] + [G.crlf(G.render(m, r), r, 1.0)])
    if x < .7:
        g = G.Gen(r, size=.4)
        return ("text", None, ["".join(T.pieces(r, g, r.randint(2, 8)))])
    return ("text", None, [T.text(r)])


def fixed(tier):
    for s in T.corpus():
        yield ("text", None, [s])
    yield ("text", None, ["key = \r"])
    yield ("text", None, ["key = a\r\r\n  b\n"])


def run(case, obs):
    kind, tree, srcs = case
    outs = []
    for s in srcs:
        res = FluentParser(with_spans=False).parse(s)
        out = FluentSerializer().serialize(res)
        outs.append(out)
        want = RS.serialize(RP.strip_spans(J(res)))
        obs.count("reference_compared")
        obs.eq(out, want, "not the documented normal form", source=s)
        obs.count("fixed_points")
        out2 = FluentSerializer().serialize(FluentParser().parse(out))
        obs.eq(out2, out, "the serialized form is not a fixed point", source=s)
    if kind == "model":
        obs.count("layout_pairs", len(outs) - 1)
        obs.check(len(set(outs)) == 1, "the layout of the source shows in the output", outputs=outs, sources=srcs)
        obs.eq(FluentSerializer().serialize(from_json(tree)), outs[0], "a tree built through the node classes serializes differently")
    # the layout rules that can be read off the text itself
    out = outs[0]
    if "\t" not in out and "\r" not in out:
        for line in out.split("\n"):
            if line.endswith(" ") and not line.startswith("#") and False:
                pass
    if kind == "model":
        for e in tree["body"]:
            if e["type"].endswith("Comment"):
                obs.count("standalone_comments")
            if e.get("value") and e["value"]["elements"]:
                f = e["value"]["elements"][0]
                if f["type"] == "TextElement":
                    obs.count("special_start", f["value"][0] in "[.*")
                obs.count("multiline", any("\n" in x.get("value", "") for x in e["value"]["elements"]))
    if out:
        obs.nontrivial(out.encode("utf-8", "surrogatepass"))
        if len(out) < 200:
            obs.sample(out)


def classify(case, msg, detail):
    from . import c08
    for s in case[2]:
        k = c08.classify(("text", s), msg, detail)
        if k:
            return k
