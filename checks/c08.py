"""C08: serialize then parse gives the same tree."""
from .common import *
import random
from fluent.syntax.ast import from_json

ID = "C08"
RULE = ("trees parsed from texts of every kind, and trees built through the node classes; serialized with and without Junk, parsed "
        "again and compared; non-trivial: at least one entry; distinct by tree")
QUICK, THOROUGH = 24000, 220000
NEED = {"round_trips": 6000, "with_junk": 1500, "built_trees": 1500, "single_entries": 5000, "node:SelectExpression": 400, "refused": 2500, "refused:expression": 600, "refused:key": 60, "refused:argument": 150}
MIN_NONTRIVIAL = 3000


def gen(r, i, tier):
    x = r.random()
    if x < .3:
        g = G.Gen(r, size=.8)
        return ("built", G.tree(g.model(r.choice([0, 1, 2, 3]), entries=r.choice([1, 2, 3, None]))))
    if x < .5:
        g = G.Gen(r, size=.6)
        return ("text", G.render(g.model(r.choice([1, 2]), entries=r.randint(1, 4)), r))
    if x < .6:
        g = G.Gen(r, size=.4)
        return ("text", "".join(T.pieces(r, g, r.randint(2, 8))))
    return ("text", T.text(r))


def fixed(tier):
    for s in T.corpus():
        yield ("text", s)
    # recorded findings
    yield ("text", "key = \r")
    yield ("text", "key = a\r\r\n  b\n")


def feedback(case):
    if case[0] == "text":
        T.fb(case[1])


def nojunk(b):
    return [e for e in b if e["type"] != "Junk"]


def tidy(b):
    """Junk compared up to the blank around it (which belongs to the layout)."""
    return [{"type": "Junk", "content": e["content"].strip(" \r\n")} if e["type"] == "Junk" else e for e in b]


def run(case, obs):
    if case[0] == "built":
        res = from_json(case[1])
        obs.count("built_trees")
        # A Comment above a Message in a built tree stays standalone.
    else:
        res = FluentParser(with_spans=obs.n["round_trips"] % 2 == 0).parse(case[1])
    j = RP.strip_spans(J(res))
    body = j["body"]
    before = json.dumps(J(res))
    out = FluentSerializer().serialize(res)
    obs.check(isinstance(out, str), "serialize returned " + type(out).__name__)
    obs.check(json.dumps(J(res)) == before, "serializing changed the tree")
    obs.count("round_trips")
    again = J(FluentParser(with_spans=False).parse(out))["body"]
    same(obs, again, nojunk(body), "parsing the serialized text gives another tree", output=out, input=case[1])
    obs.eq(serialize(res), out, "fluent.syntax.serialize differs")
    # with Junk
    outj = FluentSerializer(with_junk=True).serialize(res)
    if any(e["type"] == "Junk" for e in body):
        obs.count("with_junk")
        pos = 0
        for e in body:
            if e["type"] == "Junk":
                k = outj.find(e["content"], pos)
                obs.check(k >= 0, "Junk is not reproduced in place", junk=e["content"], output=outj)
                pos = k + len(e["content"])
        a2 = J(FluentParser(with_spans=False).parse(outj))["body"]
        same(obs, tidy(a2), tidy(body), "with Junk, parsing the serialized text gives another tree", output=outj, input=case[1])
        obs.eq(serialize(res, with_junk=True), outj, "fluent.syntax.serialize(with_junk) differs")
    else:
        obs.eq(outj, out, "with_junk matters although there is no Junk")
    # single entries
    for e, k in list(zip(res.body, body))[:6]:
        if k["type"] == "Junk":
            continue
        obs.count("single_entries")
        s1 = FluentSerializer().serialize_entry(e)
        s2 = FluentSerializer().serialize(FTL.Resource([e]))
        obs.eq(s1, s2, "serialize_entry disagrees with serialize", entry=k)
    if len(out) % 3 == 0:
        refused(res.clone(), random.Random(out.encode("utf-8", "surrogatepass") + str(len(out)).encode()), obs)
    seen_types(obs, nojunk(body))
    if body:
        obs.nontrivial(json.dumps(body).encode())
        obs.state("tree_shapes", shape(body))
        if len(out) < 150:
            obs.sample(out)


class Unknown(FTL.SyntaxNode):
    value = id = content = ""


def refused(tree, r, obs):
    """A tree with a part the serializer does not know must not be written without it."""
    slots = [("resource", None, None)] if r.random() < .1 else [("entry", tree.body, k) for k in range(len(tree.body) + 1)]
    inside = [e for e in tree.body if not isinstance(e, FTL.Junk)]
    if inside and r.random() < .8:
        slots = []
    todo = list(inside)
    while todo:
        n = todo.pop()
        for k, v in vars(n).items():
            if isinstance(v, list):
                kind = {"elements": "element", "positional": "argument"}.get(k)
                if kind:
                    slots += [(kind, v, j) for j in range(len(v))]
                todo += [x for x in v if isinstance(x, FTL.BaseNode)]
            elif isinstance(v, FTL.BaseNode):
                kind = {"expression": "expression", "selector": "expression", "key": "key"}.get(k)
                if isinstance(n, FTL.NamedArgument) and k == "value":
                    kind = "argument"
                if kind:
                    slots.append((kind, n, k))
                todo.append(v)
    if not slots:
        return
    kinds = sorted({s[0] for s in slots})
    kind = r.choice(kinds)
    kind, where, k = r.choice([s for s in slots if s[0] == kind])
    ident = FTL.Identifier("x")
    bad = r.choice([Unknown(), FTL.Span(0, 1), FTL.Variant(ident, FTL.Pattern([])), FTL.CallArguments(), FTL.NamedArgument(ident, FTL.NumberLiteral("1")), "text"]
                   + {"entry": [FTL.Pattern([]), FTL.Attribute(ident, FTL.Pattern([])), ident], "key": [FTL.StringLiteral("x"), FTL.VariableReference(ident)],
                      "element": [FTL.StringLiteral("x"), FTL.VariableReference(ident), ident], "resource": [tree.body, inside[0] if inside else []]}.get(kind, [ident, FTL.Pattern([]), FTL.TextElement("x")]))
    if kind == "resource":
        tree = bad
    elif isinstance(where, list):
        where[k:k + 1] = [bad]
    else:
        setattr(where, k, bad)
    obs.count("refused")
    obs.count("refused:" + kind)
    for junk in (False, True):
        try:
            out = FluentSerializer(with_junk=junk).serialize(tree)
        except Exception:
            continue
        raise Violation("a tree with a part the serializer does not know is written without a word", kind=kind, part=type(bad).__name__, output=out[:300])


def classify(case, msg, detail):
    body = J(from_json(case[1]) if case[0] == "built" else FluentParser(with_spans=False).parse(case[1]))["body"]
    for n in walk(body):
        if n["type"] == "Pattern" and not n["elements"]:
            return "empty-pattern"
        if n["type"] == "TextElement" and "\r\n" in n["value"]:
            return "cr-before-newline"
        if n["type"].endswith("Comment") and ("\r\n" in n["content"] or n["content"].endswith("\r")):
            return "cr-before-newline"
    return None
