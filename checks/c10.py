"""C10: clone, equals and JSON conversion are faithful."""
from .common import *
import copy
import pickle
from fluent.syntax.ast import from_json, BaseNode, SyntaxNode, Span, Annotation

ID = "C10"
RULE = ("trees of random well-formed and broken texts (with and without spans); each compared with its clone, its JSON round trip and "
        "with copies differing in exactly one place; distinct by tree")
QUICK, THOROUGH = 1600, 60000
NEED = {"trees": 800, "mutants": 20000, "json_round_trips": 3000, "clones": 1500, "ignored_field_pairs": 2000, "annotations": 150, "copies": 3000, "tuples": 3000}
MIN_NONTRIVIAL = 780


def gen(r, i, tier):
    if r.random() < .6:
        g = G.Gen(r, size=.6)
        s = G.render(g.model(r.choice([0, 1, 2]), entries=r.randint(1, 4)), r)
        if r.random() < .3:
            s = T.mutate(r, s, 1)
    else:
        s = T.text(r)
    return (s, r.random() < .6, r.getrandbits(32))


def feedback(case):
    T.fb(case[0])


def nodes(x):
    if isinstance(x, BaseNode):
        yield x
        for v in vars(x).values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def every(x):
    """The nodes, those in tuples too."""
    if isinstance(x, BaseNode):
        yield x
        for v in vars(x).values():
            yield from every(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from every(v)


def lists(x):
    for n in nodes(x):
        for v in vars(n).values():
            if isinstance(v, list):
                yield v


def deep(x):
    """Our own structural image of a tree, types and spans included."""
    if isinstance(x, BaseNode):
        return (type(x).__name__, tuple((k, deep(v)) for k, v in sorted(vars(x).items())))
    if isinstance(x, list):
        return ("[", tuple(deep(v) for v in x))
    return (type(x).__name__, x)


def run(case, obs):
    import random
    s, spans, seed = case
    r = random.Random(seed)
    t = FluentParser(with_spans=spans).parse(s)
    obs.count("trees")
    img = deep(t)
    targets = [t] + ([r.choice(list(nodes(t)))] if t.body else [])
    for x in targets:
        ximg = deep(x)
        # --- clone
        c = x.clone()
        obs.count("clones")
        obs.check(deep(c) == ximg, "clone differs from the original", node=type(x).__name__, source=s)
        mine = {id(n) for n in nodes(x)} | {id(l) for l in lists(x)}
        for o in list(nodes(c)) + list(lists(c)):
            if id(o) in mine:
                raise Violation("clone shares a node or list with the original", shared=type(o).__name__, source=s)
        obs.check(x.equals(c) is True and c.equals(x) is True and x.equals(x) is True, "a tree does not equal its clone or itself",
                  node=type(x).__name__, source=s)
        obs.check(x.equals(c, ignored_fields=[]) is True, "a tree does not equal its clone, spans included", source=s)
        # --- JSON
        j = x.to_json()
        # --- children given as tuples
        tt = x.clone()
        for n in list(nodes(tt)):
            for k, v in list(vars(n).items()):
                if isinstance(v, list) and v and r.random() < .7:
                    setattr(n, k, tuple(v))
                    obs.count("tuples")
        tc = tt.clone()
        obs.check(tt.to_json() == j and tc.to_json() == j, "a tree with tuples, or its clone, has other JSON", node=type(x).__name__, source=s)
        of_tt = {id(n) for n in every(tt)}
        obs.check(not any(id(n) in of_tt for n in every(tc)), "the clone of a tree with tuples shares nodes with it", node=type(x).__name__, source=s)
        back = from_json(j)
        obs.check(deep(back) == ximg, "from_json(to_json()) differs", node=type(x).__name__, source=s,
                  at=diff(simplify(deep(back)), simplify(ximg)))
        txt = json.dumps(j)
        back2 = from_json(json.loads(txt))
        obs.check(deep(back2) == ximg, "the tree does not survive JSON text", node=type(x).__name__, source=s)
        obs.count("json_round_trips", 2)
        obs.check(deep(x) == ximg, "cloning, comparing or converting changed the tree", source=s)
        for n in nodes(x):
            if isinstance(n, Annotation):
                obs.count("annotations")
        # --- Python's own copies
        for how, o in (("deepcopy", copy.deepcopy(x)), ("pickle", pickle.loads(pickle.dumps(x)))):
            obs.check(deep(o) == ximg and x.equals(o, ignored_fields=[]) is True, "a copy by %s differs" % how, node=type(x).__name__, source=s)
            obs.check(not any(id(y) in mine for y in [*nodes(o), *lists(o)]), "a copy by %s shares nodes" % how, node=type(x).__name__, source=s)
            obs.count("copies")
        # --- a function for to_json gets every node's data once, children first, and its results are used
        seen = []

        def tag(data):
            seen.append(data["type"])
            for v in data.values():
                for y in v if isinstance(v, list) else [v]:
                    if isinstance(y, dict):
                        obs.check(y.get("tag") == "t", "the function given to to_json did not see a child first", source=s)
            return {**data, "tag": "t"}
        tj = x.to_json(tag)
        obs.check(sorted(seen) == sorted(type(n).__name__ for n in nodes(x)), "the function given to to_json is not called once per node", source=s, node=type(x).__name__)

        def untag(d):
            if isinstance(d, list):
                return [untag(v) for v in d]
            return {k: untag(v) for k, v in d.items() if k != "tag"} if isinstance(d, dict) else d
        obs.check(untag(tj) == j and tj["tag"] == "t", "to_json with a function gives other data", source=s, node=type(x).__name__)
        for l in from_json([j, j]):
            obs.check(deep(l) == ximg, "from_json of a list differs", source=s)
        # the JSON data mirrors every field
        mirror(obs, x, j)
        # mutating the JSON or the clone does not reach the original
        for l in lists(c):
            l.append(None)
        obs.check(deep(x) == ximg, "changing a clone changed the original", source=s)
    # --- one-point differences
    c = t.clone()
    cn = list(nodes(c))
    r.shuffle(cn)
    for n in cn[:40]:
        fields = sorted(vars(n))
        for f in fields:
            v = vars(n)[f]
            inspan = isinstance(n, Span)
            if isinstance(v, list) and not v:
                variants = []
            else:
                variants = list(others(r, n, f, v))
            for w in variants:
                setattr(n, f, w)
                obs.count("mutants")
                spanonly = inspan or f == "span"
                d = deep(c) != img
                if d:
                    e1, e2 = t.equals(c), c.equals(t)
                    want = spanonly
                    if e1 is not want or e2 is not want:
                        raise Violation("equals() misjudges a difference" + (" in positions" if spanonly else ""), node=type(n).__name__, field=f,
                                        old=repr(v)[:200], new=repr(w)[:200], got=(e1, e2), want=want, source=s)
                    f1, f2 = t.equals(c, ignored_fields=None), t.equals(c, ignored_fields=[])
                    if f1 is not False or f2 is not False:
                        raise Violation("equals() with nothing ignored misses a difference", node=type(n).__name__, field=f,
                                        old=repr(v)[:200], new=repr(w)[:200], got=(f1, f2), source=s)
                    ign = t.equals(c, ignored_fields=[f]) if not inspan else None
                    if ign is not None:
                        obs.count("ignored_field_pairs")
                        if ign is not True:
                            raise Violation("equals() does not ignore the field it was asked to", node=type(n).__name__, field=f, source=s)
                        other = t.equals(c, ignored_fields=["no_such_field", "span"])
                        obs.check(other is spanonly, "equals() ignores too much", field=f, node=type(n).__name__)
                setattr(n, f, v)
            if isinstance(v, list) and v:
                listdiff(obs, r, t, c, img, n, f, v, s)
    obs.check(deep(c) == img, "internal: mutation not undone")
    if t.body:
        obs.nontrivial(repr(img).encode("utf-8", "surrogatepass"))
        for n in nodes(t):
            obs.count("node:" + type(n).__name__)
        if len(s) < 150:
            obs.sample(s)


def simplify(x):
    return json.loads(json.dumps(x, default=repr))


def mirror(obs, x, j):
    if isinstance(x, BaseNode):
        obs.check(isinstance(j, dict) and j.get("type") == type(x).__name__, "JSON names another type", node=type(x).__name__)
        obs.check(set(j) == set(vars(x)) | {"type"}, "JSON has other fields", node=type(x).__name__, got=sorted(j), want=sorted(vars(x)))
        for k, v in vars(x).items():
            mirror(obs, v, j[k])
    elif isinstance(x, list):
        obs.check(isinstance(j, list) and len(j) == len(x), "JSON list differs")
        for a, b in zip(x, j):
            mirror(obs, a, b)
    else:
        obs.check(x == j and type(x) is type(j), "JSON value differs", got=j, want=x)


def others(r, n, f, v):
    """Values differing from v."""
    if isinstance(v, bool):
        yield not v
    elif isinstance(v, int):
        yield v + 1
    elif isinstance(v, str):
        yield v + "x"
        yield v + " "
        if v:
            yield v[:-1]
            if v.swapcase() != v:
                yield v.swapcase()
        yield None
    elif v is None:
        yield FTL.Identifier("q") if f != "comment" else FTL.Comment("q")
        if f == "span":
            yield Span(0, 1)
    elif isinstance(v, BaseNode):
        yield None
        if isinstance(v, FTL.Identifier):
            yield FTL.Identifier(v.name + "1", **({"span": v.span.clone()} if v.span else {}))
            yield FTL.StringLiteral(v.name)
        elif isinstance(v, FTL.StringLiteral):
            yield FTL.NumberLiteral(v.value)
        elif isinstance(v, FTL.NumberLiteral):
            yield FTL.StringLiteral(v.value)
        elif isinstance(v, FTL.Comment):
            yield FTL.GroupComment(v.content)


def listdiff(obs, r, t, c, img, n, f, v, s):
    for kind in ("drop", "dup", "swap", "last", "empty"):
        w = list(v)
        if kind == "drop":
            del w[r.randrange(len(w))]
        elif kind == "dup":
            w.append(w[-1].clone() if isinstance(w[-1], BaseNode) else w[-1])
        elif kind == "swap" and len(w) > 1:
            i = r.randrange(len(w) - 1)
            w[i], w[i + 1] = w[i + 1], w[i]
        elif kind == "last":
            w[-1] = None if not isinstance(w[-1], BaseNode) else FTL.Junk("zz")
        elif kind == "empty":
            w = []
        setattr(n, f, w)
        if deep(c) != img:
            obs.count("mutants")
            # a swap of nodes equal up to spans is a difference in spans only
            def nosp(x):
                return noimg(deep(x))
            want = nosp(c) == nosp(t)
            e1, e2 = t.equals(c), c.equals(t)
            if e1 is not want or e2 is not want:
                raise Violation(f"equals() misjudges lists ({kind})", node=type(n).__name__, field=f, got=(e1, e2), want=want, source=s)
            if t.equals(c, ignored_fields=[f]) is not True:
                raise Violation("equals() does not ignore a list field", field=f, source=s)
        setattr(n, f, v)


def noimg(x):
    """Image without span fields."""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
        if x[0] == "[":
            return ("[", tuple(noimg(y) for y in x[1]))
        return (x[0], tuple((k, noimg(v)) for k, v in x[1] if k != "span"))
    return x
