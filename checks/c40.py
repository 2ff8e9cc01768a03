"""C40: the work done, and the memory used, grow in proportion to the input."""
from .rt import *
from fluent.runtime import FluentLocalization
from fluent.syntax import FluentSerializer, FluentParser, parse
from fluent.syntax.visitor import Visitor, Transformer
from fluent.pygments.lexer import FluentLexer
from lib import ftlgen as G
from lib.engine import Steps, StepLimit
import contextlib, gc, json, random, time, tracemalloc

ID = "C40"
RULE = ("inputs of one shape in growing sizes - fixed shapes, and random entries, elements, attributes, variants, arguments and lines repeated - under each operation of the "
        "library; monitors: a step counter, processor time (measured again, several times, before it counts) and traced memory, each compared between a size and eight times that; "
        "and lookups and formatting in bundles and localizations that hold, or have done, much else; distinct by (shape, operation)")
QUICK, THOROUGH = 325, 12000
HANG_CPU = 300.0
NEED = {"steps_compared": 300, "times_compared": 150, "memory_compared": 120, "nested": 70, "elsewhere": 12, "localizations": 12}
MIN_NONTRIVIAL = 200
K = 8
SIZE = 100_000       # characters


class V(Visitor):
    def __init__(self):
        self.n = 0

    def visit_TextElement(self, node):
        self.n += 1


class X(Transformer):
    def visit_Identifier(self, node):
        node.name = node.name.lower()
        return node

    def visit_Comment(self, node):
        return None


SHAPES = {
    "entries": ("", "e{j} = c { $x } d\n", ""), "terms": ("", "-e{j} = c\n", ""), "same id": ("", "e = c\n", ""), "no value": ("", "e{j} =\n    .a = b\n", ""),
    "attributes": ("a = b", "\n    .a{j} = c", "\n"), "same attribute": ("a = b", "\n    .a = c", "\n"), "placeables": ("a = ", "{ $x }", "\n"), "mixed": ("a = ", "x { $x } y { e } ", "\n"),
    "lines": ("a =\n", "    x\n", ""), "lines apart": ("a =\n", "    x\n\n", ""), "line breaks": ("a =\n    x", "\n", "    y\n"), "blank": ("", "\n", ""), "blank lines": ("a = b\n", "  \n", "c = d\n"),
    "indent": ("a =\n", " ", "x\n    y\n"), "indents": ("a =\n", "        x\n    y\n", ""), "text": ("a = ", "xyz ", "\n"), "identifier": ("", "a", " = b\n"), "string": ('a = { "', "\\u00e9x\\\\", '" }\n'),
    "digits": ("a = { 1.", "1", " }\n"), "comment": ("", "# c\n", "a = b\n"), "comments": ("", "### c\n\n", ""), "group comments": ("", "## c\n\n", ""), "commented": ("", "# c\ne{j} = x\n", ""),
    "junk": ("", "a b\n", ""), "junk lines": ("a = {\n", " x\n", ""), "junk braces": ("", "a = {\n", ""), "junk string": ('a = { "', "x", "\n"), "junk call": ("a = { F(", "a, ", "\n"),
    "variants": ("a = { $x ->\n", "    [k{j}] c\n", "   *[o] d\n    }\n"), "number variants": ("a = { $n ->\n", "    [{j}] c\n", "   *[o] d\n    }\n"),
    "same variants": ("a = { $x ->\n", "    [k] c\n", "   *[o] d\n    }\n"), "selects": ("a = ", "{ $x ->\n    [one] c\n   *[o] d\n    }", "\n"), "term selects": ("-t = x\n    .a = y\na = ", "{ -t.a ->\n    [one] c\n   *[o] d\n    }", "\n"),
    "named": ("a = { NUMBER($n", ", n{j}: {j}", ") }\n"), "positional": ("a = { NUMBER(", "$x, ", "$x) }\n"), "term arguments": ("-t = { $n1 }\na = { -t(n: 1", ", n{j}: {j}", ") }\n"),
    "spaces": ("a = { ", " ", "$x }\n"), "trailing": ("a = x", " ", "\n"), "crlf": ("a =\r\n", "    x\r\n", ""), "cr": ("a = x", "\r", "\n"), "crs": ("a =\n", "    x\r\n    y\r", "\n"),
    "unknown": ("", "e{j} = { x{j} } { $y{j} }\n", ""), "strings": ("a = ", '{ "{j}" }', "\n"), "numbers": ("a = ", "{ {j} }", "\n"), "chained": ("", "e{j} = { e0 }\n", ""),
    "wide": ("", "e{j} = é\U0001f600 \u2028 x\n", ""), "closing": ("a = ", "}", "\n"), "hashes": ("", "#", " x\n"), "brackets": ("", "[[a]]\n", ""), "bullets": ("a =\n", "    { $x }\n    .a\n", ""),
}
# depth instead of length
NESTED = {
    "placeables": lambda n: "a = " + "{" * n + "$x" + "}" * n + "\n",
    "strings": lambda n: "a = x " + "{" * n + '"x"' + "}" * n + " y\n",
    "selects": lambda n: "a = " + "{ $x ->\n [one] y\n *[o] " * n + "z" + "\n}" * n + "\n",
    "selectors": lambda n: "a = { " + "F(" * n + "$x" + ")" * n + " ->\n *[o] y\n }\n",
    "calls": lambda n: "a = " + "{ F(" * n + "$x" + ") }" * n + "\n",
    "both": lambda n: "a = " + "{ { $x ->\n *[o] x " * (n // 2) + "z" + "\n} }" * (n // 2) + "\n",
}


def messages(t):
    return [e for e in t.body if isinstance(e, FTL.Message)]


def adding(s, override=False):
    b = FluentBundle(["en"], functions={"F": lambda *a, **k: a[0] if a else ""}, use_isolating=False)
    b.add_resource(s, allow_overrides=override)
    return b


def format_all(t):
    b = adding(t)
    for e in messages(t):
        m = b.get_message(e.id.name)
        for p in ([m.value] if m.value else []) + list(m.attributes.values()):
            b.format_pattern(p, {"x": 1, "n": 3})
    return b


def look(t):
    b = adding(t)
    for e in t.body:
        if getattr(e, "id", None):
            b.has_message(e.id.name)
        b.has_message("nothing")
        with contextlib.suppress(LookupError):
            b.get_message("nothing")


# what makes the input of an operation from a text, and the operation
OPS = {
    "parse": (str, lambda s: FluentParser().parse(s)), "parse without spans": (str, lambda s: FluentParser(with_spans=False).parse(s)), "parse an entry": (str, lambda s: FluentParser().parse_entry(s)),
    "FluentResource": (str, FluentResource), "serialize": (parse, lambda t: FluentSerializer().serialize(t)), "serialize with junk": (parse, lambda t: FluentSerializer(with_junk=True).serialize(t)),
    "serialize entries": (parse, lambda t: [FluentSerializer().serialize_entry(e) for e in t.body]), "clone": (parse, lambda t: t.clone()), "equals": (lambda s: (parse(s), parse(s)), lambda p: p[0].equals(p[1])),
    "to_json": (parse, lambda t: t.to_json()), "from_json": (lambda s: parse(s).to_json(), FTL.from_json), "visit": (parse, lambda t: V().visit(t)), "transform": (parse, lambda t: X().visit(t)),
    "highlight": (str, lambda s: list(FluentLexer(stripnl=False, ensurenl=False).get_tokens_unprocessed(s))), "tokens": (str, lambda s: list(FluentLexer().get_tokens(s))),
    "add_resource": (FluentResource, adding), "overriding": (FluentResource, lambda t: adding(t, True)), "lookups": (FluentResource, look), "format": (FluentResource, format_all),
    "unequal": (lambda s: (parse(s), parse(s + "z = z\n")), lambda p: p[0].equals(p[1])), "first": (FluentResource, lambda t: [adding(t).get_message(e.id.name) for e in messages(t)[-1:]]),
}
assert len(OPS) == 21


def grown(shape, n):
    a, u, z = shape
    return a + ("".join(u.replace("{j}", str(j)) for j in range(n)) if "{j}" in u else u * n) + z


def random_shape(r):
    """A random piece, to be repeated."""
    x = r.random()
    g = G.Gen(r, size=.3)
    if x < .4:
        u = "\n".join(G.render(g.model(r.choice([0, 1, 1, 2]), entries=r.randint(1, 3)), r).split("\r\n")) + "\n"
        u = u.replace("{j}", "")
        # other ids each time, mostly
        if r.random() < .7:
            u = "\n".join(l + "" if not l[:1].isalpha() or "=" not in l else l.split("=")[0].rstrip(" ") + "-{j} =" + l.split("=", 1)[1] for l in u.split("\n"))
        return "", u, ""
    name = r.choice(list(SHAPES))
    a, u, z = SHAPES[name]
    if x < .8:
        units = [SHAPES[n][1] for n in r.sample(list(SHAPES), 2)]
        return a, u + "".join(units[:r.randint(1, 2)]), z
    w = r.choice(["{", "}", " ", "\n", "a", "=", '"', "\\", "#", "-", "$", "[", "*", ".", "(", ":", ",", "1", "\r", "é"])
    return a, w + u if r.random() < .5 else u + w, z


def gen(r, i, tier):
    x = i % 13
    if x == 10:
        return {"kind": "elsewhere", "n": r.choice([20, 200, 1000]), "history": r.choice([0, 50, 400]), "what": r.choice(["entries", "resources", "lookups", "formats", "errors"]), "seed": r.getrandbits(30)}
    if x == 11:
        return {"kind": "localization", "locales": r.choice([1, 3, 6]), "resources": r.choice([1, 2, 4]), "seed": r.getrandbits(30)}
    if x == 12:
        return {"kind": "nested", "shape": r.choice(list(NESTED)), "ops": r.sample(list(OPS), 6)}
    name = r.choice(list(SHAPES)) if r.random() < .7 else None
    return {"kind": "grow", "name": name, "shape": SHAPES[name] if name else random_shape(r), "ops": r.sample(list(OPS), 2), "time": i % 2, "memory": i % 3 == 0}


def fixed(tier):
    # each operation and each shape, once
    names, ops = list(SHAPES), list(OPS)
    for j in range(max(len(names), len(ops))):
        yield {"kind": "grow", "name": names[j % len(names)], "shape": SHAPES[names[j % len(names)]], "ops": [ops[j % len(ops)], ops[(j * 7 + 3) % len(ops)]], "time": 1, "memory": 1}


def steps(f, x, limit=None):
    with Steps(limit) as st:
        # far beyond what is allowed is enough to know
        with contextlib.suppress(*[StepLimit] if limit else []):
            f(x)
    return st.n


def seconds(prep, f, s, times):
    best = None
    for _ in range(times):
        x = prep(s)
        gc.collect()
        gc.disable()
        try:
            t = time.thread_time()
            f(x)
            t = time.thread_time() - t
        finally:
            gc.enable()
        best = t if best is None else min(best, t)
        del x
    return best


def memory(prep, f, s):
    x = prep(s)
    gc.collect()
    tracemalloc.start()
    try:
        y = f(x)
        now, peak = tracemalloc.get_traced_memory()
    finally:
        tracemalloc.stop()
    del y
    return peak


def grow(case, obs):
    shape = tuple(case["shape"])
    for op in case["ops"]:
        prep, f = OPS[op]
        ctx = dict(shape=shape, operation=op)
        n = 100
        try:
            a = steps(f, prep(grown(shape, n)))
            b = steps(f, prep(grown(shape, n * K)), int(1.4 * K * a) + 2001)
        except RecursionError:
            obs.count("nested_too_deep")        # what is repeated nests
            continue
        obs.check(b <= 1.4 * K * a + 2000, "the steps taken grow faster than the input", sizes=[n, n * K], steps=[a, b], **ctx)
        obs.count("steps_compared")
        obs.nontrivial((shape, op))
        obs.state("growth_of_steps", round(b / max(1, a)))
        if case["memory"]:
            m, k = memory(prep, f, grown(shape, n)), memory(prep, f, grown(shape, n * K))
            obs.check(k <= 2 * K * m + 100_000, "the memory used grows faster than the input", sizes=[n, n * K], bytes=[m, k], **ctx)
            obs.count("memory_compared")
        if not case["time"]:
            continue
        top = max(200, SIZE // (K * max(1, len(shape[1]))))
        n = 200
        while n < top:
            t = seconds(prep, f, grown(shape, n), 1)
            if t > .02:
                break
            n = min(top, int(n * max(2, min(8, .025 / max(t, 1e-4)))))
        small, big = grown(shape, n), grown(shape, n * K)
        seen = []
        # a slow spell of the machine does not last
        for attempt in range(5):
            a, b = seconds(prep, f, small, 2 + attempt), seconds(prep, f, big, 1 if attempt == 0 else 2)
            seen.append([round(a, 4), round(b, 4)])
            if b <= 3 * K * a + .05:
                break
            obs.count("measured_again")
        else:
            obs.check(False, "the time taken grows faster than the input", sizes=[n, n * K], seconds=seen, **ctx)
        obs.count("times_compared")
        obs.state("growth_of_time", round(b / max(1e-4, a)))
        if case["name"] and obs.n["times_compared"] % 20 == 0:
            obs.sample({"shape": case["name"], "operation": op, "sizes": [n, n * K], "steps": None, "seconds": seen[-1]})


def nested(case, obs):
    """Depth may cost its square, as every level is indented, but not its exponential."""
    for op in case["ops"]:
        prep, f = OPS[op]
        a = steps(f, prep(NESTED[case["shape"]](4)))
        # what explodes is seen before it takes for ever
        for d in (8, 10, 12, 16, 24):
            most = (d / 4) ** 2 * 1.4 * a + 2000
            b = steps(f, prep(NESTED[case["shape"]](d)), int(most) + 1)
            obs.check(b <= most, "the steps taken explode with the depth", shape=case["shape"], operation=op, depths=[4, d], steps=[a, b])
        obs.count("nested")
        obs.nontrivial(("nested", case["shape"], op))


OWN = """own = a { $x } { other } { -term(n: 1) } { missing } { NUMBER($n, minimumFractionDigits: 1) }
    .attr = { $n ->
        [one] one
       *[other] many { own }
    }
other = x { $n }
-term = t { $n }
"""


def uses(b):
    """What using one message takes: finding, first and second formatting."""
    out = []
    args = {"x": "x", "n": 2}
    out.append(steps(lambda x: b.has_message("own"), None))
    out.append(steps(lambda x: b.has_message("no-such-message"), None))
    out.append(steps(lambda x: b.get_message("own"), None))
    m = b.get_message("own")
    for _ in range(2):
        out.append(steps(lambda x: b.format_pattern(m.value, args), None))
        out.append(steps(lambda x: b.format_pattern(m.attributes["attr"], args), None))
    return out


def elsewhere(case, obs):
    r = random.Random(case["seed"])
    n = case["n"]
    def bundle():
        return FluentBundle(["en"], use_isolating=False)
    few = bundle()
    few.add_resource(FluentResource(OWN))
    want = uses(few)
    b = bundle()
    more = "".join(f"e{j} = {{ $x }} {{ -t{j} }}\n    .a = b\n-t{j} = x\n" for j in range(n))
    parts = [more, OWN] if r.random() < .5 else [OWN, more]
    if case["what"] == "resources":
        parts = [f"e{j} = x\n" for j in range(n)]
        parts.insert(r.randrange(len(parts)), OWN)
    for p in parts:
        b.add_resource(FluentResource(p))
    for h in range(case["history"]):
        if case["what"] == "lookups":
            b.has_message(f"h{h}")
            with contextlib.suppress(LookupError):
                b.get_message(f"h{h}")
        elif case["what"] in ("formats", "errors"):
            m = b.get_message(f"e{h % n}")
            b.format_pattern(m.value, {"x": h} if case["what"] == "formats" else {})
        elif h < 50:
            # added later, and again
            b.add_resource(FluentResource(f"e{h} = y\nown2 = x\n"), allow_overrides=h % 2 == 0)
    got = uses(b)
    names = ["has_message", "has_message, unknown", "get_message", "format, first", "format attribute, first", "format, again", "format attribute, again"]
    obs.check(all(g <= 2 * w + 60 for g, w in zip(got, want)), "a message costs more for what else the bundle holds or has done", case=case, steps=dict(zip(names, zip(want, got))))
    obs.nontrivial(("elsewhere", case["what"], n, case["history"]))
    obs.count("elsewhere")


class Loader:
    def __init__(self, n):
        self.n = n

    def resources(self, locale, ids):
        for k in range(self.n):
            yield [FluentResource(f"m-{locale}-{k} = x\nall = {{ $x }} { '{' } m-{locale}-{k} { '}' }\n" + "".join(f"e{j} = x\n" for j in range(20)))]


def localization(case, obs):
    locales = ["en", "de", "fr", "pl", "ru", "ja"][:case["locales"]]
    n = case["resources"]
    def cost(ids):
        loc = FluentLocalization(locales, ["a"], Loader(n))
        loc.format_value("no-such-message")         # loads all
        return [[steps(lambda x: loc.format_value(i, {"x": 1}), None) for _ in range(3)] for i in ids]
    ids = ["all"] + [f"m-{l}-{k}" for l in locales for k in range(n)] + ["unknown"]
    got = cost(ids)
    per = max(got[0])
    for i, (name, c) in enumerate(zip(ids, got)):
        # the bundles passed over, in order, and no more
        place = 1 if name == "all" else len(locales) * n if name == "unknown" else i
        obs.check(max(c) <= per * 2 + 60 * place + 100, "formatting by id costs more than the bundles passed over", id=name, steps=c, first=per, bundles=place, case=case)
    obs.check(got[0][2] <= 2 * got[0][1] + 100 and got[0][1] <= 2 * got[0][0] + 100, "formatting the same again costs more", steps=got[0], case=case)
    obs.count("localizations")
    obs.nontrivial(("localization", len(locales), n, case["seed"] % 7))


def run(case, obs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"grow": grow, "nested": nested, "elsewhere": elsewhere, "localization": localization}[case["kind"]](case, obs)
