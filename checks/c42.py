"""C42: application code called by the library may itself use it."""
from .rt import *
from fluent.runtime import FluentLocalization, AbstractResourceLoader
from fluent.runtime.types import FluentType, FluentInt, FluentDate, FluentNone
from fluent.syntax import parse, serialize, FluentParser, FluentSerializer
from fluent.syntax.visitor import Visitor, Transformer
from fluent.pygments.lexer import FluentLexer
from lib import ftlgen as G
import contextlib, datetime, random

ID = "C42"
RULE = ("random bundles, localizations and trees whose custom functions, argument types, bundle classes, loaders, handlers and conversion functions call back "
        "into the library, up to three deep, while it works; every call, outer and inner, is compared with the same call made alone on fresh objects; "
        "distinct by (what calls back, what it calls, depth)")
QUICK, THOROUGH = 1600, 60000
NEED = {"outer": 4800, "inner": 20000, "inner_depth_3": 1000, "same_pattern": 400, "failing": 1500, "by_function": 3000, "by_format": 1500, "by_comparison": 150, "localizations": 150,
        "inner_loaded": 100, "by_lookup": 150, "by_loader": 70, "visitors": 300, "transformers": 300, "conversions": 300, "streams": 70, "added": 300}
MIN_NONTRIVIAL = 2000


def gen(r, i, tier):
    x = i % 10
    if x < 5:
        w = RT.world(r, cyclic=r.choice([0, 0, .1, .3]), dates=True, big=0)
        extra = ("bomb0 = " + "{ $re }" * 12 + "\nbomb1 = " + "{ bomb0 }" * 12 + "\nbomb2 = " + "{ bomb1 }" * 12 + "\n"
                 "re0 = a { $re } { -rt0(n: 1) } { $nothing } { ID($re) } { -rt0 } { $re }\n    .at = { re0 } { $re }\n"
                 "re1 = { $re ->\n    [1] one { $re }\n    [one] cat { $re } { re0 }\n   *[other] other { ID($re) }\n }\n"
                 "re2 = { ID(\"x\") }\nre3 = { $re }\nre4 = { COUNT($n, $re) ->\n    [11] { re3 }\n   *[o] { re3 } { re2 } { unknown-message }\n }\n"
                 "re5 = { $eq ->\n    [one] 1\n    [two] 2 { $re }\n   *[other] 3 { re3 }\n }\n"
                 "ring0 = r { ID(\"r\") } { ring1 }\nring1 = s { ring0 } { ID(\"s\") }\n-rt0 = t { $n } { $re } { ID(\"t\") } { -rt1(re: \"R\") }\n-rt1 = u { $re } { ID($re) } { re3 }\n")
        w["src"] += "\n\n" + extra
        labels = [(e["id"]["name"], None) for e in RP.parse(extra)["body"] if e["type"] == "Message"] * 2 + [l for l, _ in RT.patterns(w["tree"])]
        return {"kind": "format", "w": w, "outer": [(r.choice(labels), r.randrange(2)) for _ in range(6)], "labels": labels, "seed": r.getrandbits(30),
                "value": r.choice(["int", "text", "date", "none"])}
    if x < 7:
        return {"kind": "localization", "seed": r.getrandbits(30), "locales": r.randint(1, 4)}
    if x < 9:
        g = G.Gen(r, size=.5)
        return {"kind": "trees", "srcs": [G.render(g.model(r.choice([1, 2]), entries=r.randint(1, 4)), r) + r.choice(["", "x = {\n", "junk here\n"]) for _ in range(3)], "seed": r.getrandbits(30)}
    g = G.Gen(r, size=.5)
    return {"kind": "streams", "srcs": [G.render(g.model(1, entries=r.randint(1, 4)), r) for _ in range(3)], "seed": r.getrandbits(30)}


# ------------------------------------------------------------- formatting
class Control:
    """Decides when application code calls back, and with what."""
    def __init__(self, seed, most=24):
        self.r = random.Random(seed)
        self.on = False
        self.depth = 0
        self.left = most
        self.act = None
        self.bad = None
        self.stack = []

    def __call__(self, who):
        if not self.on or self.depth >= 3 or self.left <= 0 or self.r.random() < .4:
            return
        self.left -= 1
        self.depth += 1
        self.stack.append(who)
        try:
            self.act(who)
        except Violation as e:
            # the library turns exceptions into errors
            self.bad = self.bad or e
            raise
        finally:
            self.stack.pop()
            self.depth -= 1

    def judge(self):
        self.on = False
        if self.bad:
            raise self.bad


def values(kind, ctl):
    class ReInt(FluentInt):
        def format(self, locale):
            ctl("format")
            out = super().format(locale)
            ctl("format")
            return out + "!"

    class ReDate(FluentDate):
        def format(self, locale):
            ctl("format")
            return super().format(locale)

    class ReText(FluentType):
        def format(self, locale):
            ctl("format")
            return "text"

    class ReNone(FluentNone):
        def format(self, locale):
            ctl("format")
            return "gone"

    class Eq(FluentType):
        def __eq__(self, other):
            ctl("comparison")
            return other == "two"

        __hash__ = None

        def format(self, locale):
            return "eq"
    v = {"int": lambda: ReInt(1, minimumFractionDigits=1), "text": ReText, "date": lambda: ReDate(2024, 2, 3), "none": lambda: ReNone("gone")}[kind]()
    return {"re": v, "eq": Eq()}


def image(out):
    text, errs = out
    return (text if isinstance(text, str) else ("fallback", type(text).__name__, getattr(text, "name", None)), [err_image(e) for e in errs])


def make(w, kind, ctl, res):
    fns = {}
    for n, f in RT.fn_repo([]).items():
        def g(*a, _f=f, **k):
            ctl("function")
            try:
                return _f(*a, **k)
            finally:
                ctl("function")
        fns[n] = g
    b = FluentBundle([w["locale"]], functions=fns, use_isolating=w["iso"])
    b.add_resource(res)
    args = [{**(RT.nargs(a) or {}), **values(kind, ctl)} for a in w["args"]]
    return b, args


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def formatting(case, obs):
    w = case["w"]
    res = FluentResource(w["src"])
    alone = {}

    def expect(label, ai):
        # on a bundle of its own, where nothing calls back
        if (label, ai) not in alone:
            b, args = make(w, case["value"], Control(0), res)
            alone[label, ai] = image(b.format_pattern(RT.get(b, label), args[ai]))
        return alone[label, ai]
    src = w["src"]
    tree = json.dumps(J(parse(src)))
    ctl = Control(case["seed"])
    b, args = make(w, case["value"], ctl, FluentResource(src))
    ctx = dict(source=src, args=w["args"], outer=case["outer"])
    r = ctl.r
    current = []
    added = []
    other = FluentBundle([w["locale"]], use_isolating=False)
    other.add_resource(FluentResource("o = other { $x }\n"))

    def act(who):
        obs.count("by_" + who)
        obs.count("inner")
        obs.count("inner_depth_3", ctl.depth == 3)
        x = r.random()
        if x < .62:
            label, ai = r.choice([r.choice(case["labels"]), (current[-1][0])]), r.randrange(2)
            want = quiet_expect(label, ai)
            current.append((label, ai))
            obs.count("same_pattern", any(c[0] == label for c in current[:-1]))
            got = image(b.format_pattern(RT.get(b, label), args[ai]))
            current.pop()
            obs.eq(got, want, "a formatting made while another is in progress differs from the same made alone", inner=label, by=list(ctl.stack), during=current, **ctx)
            obs.count("failing", bool(want[1]))
            op = "format"
        elif x < .7:
            obs.eq(image(other.format_pattern(other.get_message("o").value, {"x": 5})), ("other 5", []), "another bundle is affected", by=list(ctl.stack), **ctx)
            op = "another bundle"
        elif x < .78:
            name = "added%d" % len(added)
            b.add_resource(FluentResource(f"{name} = new {name}\nre3 = other\n"))
            added.append(name)
            obs.check(b.has_message(name), "what was added during formatting is not there", **ctx)
            obs.eq(image(b.format_pattern(b.get_message(name).value)), (f"new {name}", []), "what was added during formatting does not format", **ctx)
            obs.count("added")
            op = "add"
        elif x < .86:
            label = r.choice(case["labels"])
            obs.check(b.get_message(label[0]) is b.get_message(label[0]) and b.has_message(label[0]) and not b.has_message("no-such"), "wrong lookup", **ctx)
            with contextlib.suppress(LookupError):
                b.get_message("no-such")
                obs.check(False, "an unknown message is found", **ctx)
            op = "lookup"
        elif x < .88:
            t = parse(src)
            obs.eq(json.dumps(J(t)), tree, "parsing while formatting gives another tree", **ctx)
            op = "parse"
        else:
            # an argument's own error is no concern of the call in progress
            got, errs = b.format_pattern(b.get_message("re3").value, {"re": object()})
            obs.eq([type(e).__name__ for e in errs], ["TypeError"], "wrong errors of a call made while another is in progress", **ctx)
            op = "failing"
        obs.nontrivial((who, op, ctl.depth, case["value"], current[0][0][0]))

    def quiet_expect(label, ai):
        on, ctl.on = ctl.on, False
        try:
            return expect(label, ai)
        finally:
            ctl.on = on
    ctl.act = act
    for label, ai in case["outer"]:
        want = expect(label, ai)
        ctl.left, ctl.on = 24, True
        current[:] = [(label, ai)]
        got = image(b.format_pattern(RT.get(b, label), args[ai]))
        ctl.judge()
        obs.eq(got, want, "a formatting during which others were made differs from the same made alone", message=label, **ctx)
        obs.count("outer")
    for name in added:
        obs.eq(image(b.format_pattern(b.get_message(name).value)), (f"new {name}", []), "what was added during formatting is gone", **ctx)
    if case["seed"] % 40 == 0:
        obs.sample({"source": src[:400], "outer": [list(l) for l in case["outer"]], "inner calls": obs.n["inner"]})


# ------------------------------------------------------------ localization
IDS = ["a", "b", "c", "d", "e", "f"]


def localization(case, obs):
    r = random.Random(case["seed"])
    locales = ["en", "de", "fr", "pl"][:case["locales"]]
    layout = {}
    for l in locales:
        layout[l] = [[("".join(f"{n} = {n}@{l}{k} {{ $x }} {{ BACK(\"{n}\") }}{' { ' + r.choice(IDS[i + 1:]) + ' }' if i < 5 and r.random() < .3 else ''}\n"
                               for i, n in enumerate(IDS) if r.random() < .4))] for k in range(r.choice([1, 1, 2]))]
    mode = r.choice(["function", "function", "lookup", "loader"])

    def build(ctl, log):
        class Loader(AbstractResourceLoader):
            def resources(self, locale, ids):
                for k, texts in enumerate(layout[locale]):
                    log.append((locale, k))
                    if mode == "loader":
                        ctl("loader")
                    yield [FluentResource(t) for t in texts]

        class B(FluentBundle):
            def has_message(self, mid):
                if mode == "lookup":
                    ctl("lookup")
                return super().has_message(mid)

        def back(*a):
            ctl("function")
            return "<" + a[0] + ">"
        return FluentLocalization(locales, ["x.ftl"], Loader(), bundle_class=B, functions={"BACK": back})
    alone = {i: build(Control(0), []).format_value(i, {"x": 1}) for i in IDS + ["unknown"]}
    ctl, log = Control(case["seed"], 40), []
    loc = build(ctl, log)
    # what a loader may ask while it loads is another localization
    second = build(Control(0), [])
    ctx = dict(layout=layout, locales=locales, mode=mode)

    def act(who):
        obs.count("by_" + who)
        obs.count("inner")
        obs.count("inner_depth_3", ctl.depth == 3)
        mid = r.choice(IDS + ["unknown"])
        n = len(log)
        target = second if who == "loader" else loc
        got = target.format_value(mid, {"x": 1})
        obs.eq(got, alone[mid], "a request made during another differs from the same made alone", request=mid, by=list(ctl.stack), **ctx)
        obs.count("inner_loaded", len(log) > n)
        obs.nontrivial((who, mid, ctl.depth, len(locales), len(log) > n))
    ctl.act = act
    for mid in r.sample(IDS + ["unknown"], 5):
        ctl.left, ctl.on = 12, True
        got = loc.format_value(mid, {"x": 1})
        ctl.judge()
        obs.eq(got, alone[mid], "a request during which others were made differs from the same made alone", request=mid, **ctx)
        obs.count("outer")
    every = [(l, k) for l in locales for k in range(len(layout[l]))]
    obs.eq(log, every[:len(log)], "not each bundle was loaded once and in order", **ctx)
    obs.count("localizations")


# ------------------------------------------------------------------- trees
def nodes(t):
    return [type(n).__name__ for n in walk(t)]


def walk(n):
    if isinstance(n, FTL.BaseNode):
        yield n
        for v in list(vars(n).values()):
            yield from walk(v)
    elif isinstance(n, list):
        for c in n:
            yield from walk(c)


def trees(case, obs):
    srcs = case["srcs"]
    plain = [json.dumps(J(parse(s))) for s in srcs]
    texts = [serialize(parse(s)) for s in srcs]
    names = [nodes(parse(s)) for s in srcs]
    ctl = Control(case["seed"], 12)
    r = ctl.r
    ctx = dict(sources=srcs)

    class V(Visitor):
        """Counts; a handler may visit other trees, with this object or another."""
        def __init__(self):
            self.seen = []

        def generic_visit(self, node):
            self.seen.append(type(node).__name__)
            ctl("handler")
            super().generic_visit(node)
            ctl("handler")

    class T(Transformer):
        def __init__(self, mark):
            self.mark = mark

        def visit_Identifier(self, node):
            ctl("handler")
            node.name += self.mark
            return node

        def visit_Comment(self, node):
            ctl("handler")
            return None

        def visit_TextElement(self, node):
            ctl("handler")
            return FTL.TextElement(node.value.upper(), span=node.span)

    def transform(k, mark, t=None):
        t = t or T(mark)
        tree = parse(srcs[k])
        out = t.visit(tree)
        return json.dumps(J(tree)), out is tree
    ctl.act = None
    want_t = {}
    for k in range(3):
        want_t[k, "-x"], want_t[k, "-y"] = transform(k, "-x"), transform(k, "-y")
    shared = T("-x")
    visitor = V()

    def act(who):
        obs.count("inner")
        obs.count("inner_depth_3", ctl.depth == 3)
        k = r.randrange(3)
        x = r.randrange(8)
        if x == 0:
            v = V()
            v.visit(parse(srcs[k]))
            obs.eq(v.seen, names[k], "a visit made during another differs", tree=k, **ctx)
        elif x == 1:
            # with the same object
            n = len(visitor.seen)
            visitor.visit(parse(srcs[k]))
            obs.eq(visitor.seen[n:], names[k], "a visit made during another by the same visitor differs", tree=k, **ctx)
            del visitor.seen[n:]
        elif x == 2:
            mark = r.choice(["-x", "-y"])
            obs.eq(transform(k, mark), want_t[k, mark], "a transformation made during another differs", tree=k, **ctx)
        elif x == 3:
            obs.eq(transform(k, "-x", shared), want_t[k, "-x"], "a transformation made during another by the same transformer differs", tree=k, **ctx)
        elif x == 4:
            obs.eq(serialize(parse(srcs[k])), texts[k], "serializing during a visit differs", tree=k, **ctx)
        elif x == 5:
            t = parse(srcs[k])
            obs.eq(json.dumps(J(t.clone())), plain[k], "cloning during a visit differs", tree=k, **ctx)
            obs.check(t.equals(parse(srcs[k]), []), "comparing during a visit differs", tree=k, **ctx)
        elif x == 6:
            mark = r.randrange(3)
            obs.eq(convert(k, mark), want_j[k, mark], "converting during a visit differs", tree=k, **ctx)
        else:
            obs.eq(len(list(FluentLexer().get_tokens_unprocessed(srcs[k]))), tokens[k], "highlighting during a visit differs", tree=k, **ctx)
        obs.nontrivial((who, x, ctl.depth, len(names[0]) % 50))

    def convert(k, mark):
        def fn(d):
            ctl("conversion")
            return {**d, "seen": mark}
        return json.dumps(parse(srcs[k]).to_json(fn if mark else None))
    want_j = {(k, mark): convert(k, mark) for k in range(3) for mark in range(3)}
    tokens = [len(list(FluentLexer().get_tokens_unprocessed(s))) for s in srcs]
    ctl.act, ctl.on = act, True
    for k in range(3):
        ctl.left = 8
        visitor.seen.clear()
        visitor.visit(parse(srcs[k]))
        obs.eq(visitor.seen, names[k], "a visit during which others were made differs", tree=k, **ctx)
        obs.count("visitors")
        ctl.left = 8
        obs.eq(transform(k, "-x", shared), want_t[k, "-x"], "a transformation during which others were made differs", tree=k, **ctx)
        obs.count("transformers")
        ctl.left = 8
        got = convert(k, 1)
        ctl.judge()
        ctl.on = True
        obs.eq(got, want_j[k, 1], "a conversion during which others were made differs", tree=k, **ctx)
        obs.count("conversions")
        obs.count("outer", 3)


# ----------------------------------------------------------------- streams
def streams(case, obs):
    """Several token streams of one lexer, read by turns."""
    r = random.Random(case["seed"])
    lexer = FluentLexer()
    how = r.choice(["get_tokens", "get_tokens_unprocessed"])
    want = [list(getattr(FluentLexer(), how)(s)) for s in case["srcs"]]
    its = [iter(getattr(lexer, how)(s)) for s in case["srcs"]]
    got = [[] for _ in its]
    live = list(range(len(its)))
    while live:
        k = r.choice(live)
        try:
            got[k].append(next(its[k]))
        except StopIteration:
            live.remove(k)
        if r.random() < .1:
            s = r.choice(case["srcs"])
            FluentParser().parse(s)
    obs.eq(got, want, "token streams read by turns differ from those read one after another", sources=case["srcs"], how=how)
    obs.count("streams")
    obs.count("outer", len(its))
    obs.nontrivial(("streams", how, sum(map(len, want))))


def run(case, obs):
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(max(limit, 6000))
    try:
        quiet(lambda: {"format": formatting, "localization": localization, "trees": trees, "streams": streams}[case["kind"]](case, obs))
    finally:
        sys.setrecursionlimit(limit)
