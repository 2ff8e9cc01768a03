"""C35: what a bundle formats is determined by the syntax tree alone."""
from .rt import *
import copy, random, re

ID = "C35"
RULE = ("random resources given to a bundle as parsed text, with and without positions, read back from JSON, cloned, copied, built through the node classes, "
        "serialized and parsed again, laid out otherwise, with CRLF, split into several resources, one per entry, with all positions the same or arbitrary, and mixed with comments and broken entries; oracle: each "
        "gives the text and errors of the first for every message, attribute and argument set; distinct by (resource, variant, message)")
QUICK, THOROUGH = 500, 20000
NEED = {"formats": 60000, "nospans": 250, "json": 250, "clone": 250, "deepcopy": 250, "built": 250, "serialized": 250, "layout": 250, "crlf": 250, "split": 250,
        "comments": 250, "junk": 250, "with_errors": 4000, "shuffled": 250, "alone": 250, "samespans": 250, "otherspans": 250}
MIN_NONTRIVIAL = 20000
JUNK = ["err = { $\n", "-noval =\n", "= x\n", "bad\n", "x = {\n", "junk } here\n", "[[ section ]]\n", "// old comment\n"]


def gen(r, i, tier):
    w = RT.World(r, cyclic=r.choice([0, .1]), nodup=True)
    m = w.model(r.choice([1, 2, 2]))
    v = {x: x for x in RT.VARS}
    if r.random() < .4:
        m = json.loads(json.dumps(m))
        v = RT.rename(r, m)
    more = RT.enlarge(r, m) if r.random() < .03 else {}
    out = {"locale": r.choice(RT.PLOCALES), "iso": r.random() < .5, "tree": G.tree(m), "src": G.render(m, r, plain=True), "layout": G.render(m, r),
           "args": [a and {**{v[n]: x for n, x in a.items()}, **more} for a in (w.argset() for _ in range(2))]}
    # entries as texts of their own, for splitting and mixing
    out["parts"] = [G.render([e], r, plain=r.random() < .5) for e in m]
    out["cuts"] = sorted(r.randint(0, len(m)) for _ in range(r.choice([1, 2, 5])))
    out["comments"] = [r.choice(["", "# attached\n", "# a\n# b\n", "# standalone\n\n", "## group\n\n", "### all\n\n", "#\n"]) for _ in m]
    out["junk"] = [r.choice(["", "", r.choice(JUNK)]) for _ in m]
    out["perm"] = r.sample(range(len(m)), len(m))
    return out


def build(x):
    """A JSON tree as nodes made by their constructors, defaults left out."""
    if isinstance(x, list):
        return [build(y) for y in x]
    if not isinstance(x, dict):
        return x
    kw = {k: build(y) for k, y in x.items() if k not in ("type", "span") and y is not None and not (y == [] and k != "elements")}
    return getattr(FTL, x["type"])(**kw)


def lines(s):
    return s if s.endswith("\n") else s + "\n"


def variants(w):
    src = w["src"]
    P = FluentParser
    base = P().parse(src)
    yield "text", [FluentResource(src)]
    yield "nospans", [P(with_spans=False).parse(src)]
    yield "json", [FTL.from_json(json.loads(json.dumps(base.to_json())))]
    yield "clone", [base.clone()]
    yield "deepcopy", [copy.deepcopy(base)]
    yield "built", [build(w["tree"])]
    yield "serialized", [P().parse(serialize(base))]
    yield "layout", [P().parse(w["layout"])]
    yield "crlf", [P().parse(re.sub(r"\r?\n", "\r\n", src))] if "\r" not in src else [P().parse(src)]
    cuts = [0] + w["cuts"] + [len(w["parts"])]
    yield "split", [P().parse("".join(lines(p) for p in w["parts"][a:b])) for a, b in zip(cuts, cuts[1:])]
    yield "comments", [P().parse("\n".join(c + p for c, p in zip(w["comments"], w["parts"])))]
    yield "junk", [P().parse("".join(lines(p) + j for p, j in zip(w["parts"], w["junk"])))]
    # ids are unique, so the order of entries does not matter
    yield "shuffled", [P().parse("".join(lines(w["parts"][k]) for k in w["perm"]))]
    yield "again", [base, base]
    # every entry a resource of its own: positions coincide
    yield "alone", [P().parse(lines(p)) for p in w["parts"]]
    yield "samespans", [respan(base.clone(), lambda: (3, 9))]
    r = random.Random(len(src))
    yield "otherspans", [respan(base.clone(), lambda: (r.randint(0, 5), r.randint(0, 5)))]


def respan(node, f):
    if isinstance(node, list):
        for x in node:
            respan(x, f)
    elif isinstance(node, FTL.BaseNode):
        if isinstance(node, FTL.Span):
            node.start, node.end = f()
        for x in list(vars(node).values()):
            respan(x, f)
    return node


def run(w, obs):
    first = None
    labels = [l for l, _ in RT.patterns(w["tree"])]
    args = [RT.nargs(a) for a in w["args"]]
    for name, resources in variants(w):
        obs.count(name)
        b = FluentBundle([w["locale"]], functions=RT.fn_repo([]), use_isolating=w["iso"])
        for x in resources:
            b.add_resource(x)
        got = {}
        for label in labels:
            obs.check(b.has_message(label[0]), "a message is missing", variant=name, message=label, source=w["src"])
            try:
                pat = RT.get(b, label)
            except KeyError:
                pat = None
            obs.check(pat is not None, "a pattern is missing", variant=name, message=label, source=w["src"])
            for k, a in enumerate(args):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    t, errs = b.format_pattern(pat, a)
                got[label, k] = (t if isinstance(t, str) else "FluentNone", [err_image(e) for e in errs])
                obs.count("formats")
                obs.count("with_errors", bool(errs))
        if first is None:
            first = got
            # a resource without blank lines or with, text is text: the reference confirms the first
            continue
        for q, x in got.items():
            obs.check(x == first[q], "the same tree formats otherwise", variant=name, message=q, got=x, want=first[q], source=w["src"], args=w["args"])
            obs.nontrivial((w["src"], name, q))
    if len(w["src"]) < 400:
        obs.sample({"source": w["src"], "texts": [x[0] for x in list(first.values())[:3]]})
