"""C25: custom functions get the right arguments and cannot break formatting."""
from .rt import *
from decimal import Decimal
import datetime, functools

ID = "C25"
RULE = ("random calls (every argument kind, nesting, hyphenated and keyword-like names) to custom functions that record what they receive, raise every "
        "kind of exception or return every Fluent type; oracle: the independent evaluator's list of calls, and direct expectations on overriding per "
        "bundle and on exceptions; distinct by (call expression, arguments)")
QUICK, THOROUGH = 4400, 150000
NEED = {"calls_compared": 9000, "formats": 10000, "direct_calls": 12000, "raised": 3000, "overrides": 1500, "other_bundle": 1500, "invisible": 1500,
        "as_selector": 1100, "result_inserted": 2200, "named_args": 4000, "typed_args": 8000}
MIN_NONTRIVIAL = 3800


class Own(Exception):
    pass


class OwnLookup(LookupError):
    pass


EXC = [ValueError("v"), TypeError("t"), KeyError("k"), LookupError("m1"), IndexError("i"), AttributeError("a"), Own("o"), OwnLookup("-t"), RuntimeError("r"),
       ZeroDivisionError("z"), AssertionError(), StopIteration(3), NotImplementedError("n"), OSError(5, "x"), RecursionError("deep"), OverflowError("o"),
       UnicodeDecodeError("utf-8", b"x", 0, 1, "bad"), Exception(), MemoryError("m"), StopAsyncIteration(), BufferError(), EOFError(), Warning("w"),
       ImportError("i"), NameError("n"), SyntaxError("s"), TimeoutError()]
NAMES = ["a", "style", "class", "from", "self", "args", "min-digits", "x_y", "env", "N1", "kwargs", "function", "name"]


def direct(r):
    """One call of REC with arguments whose values we know. -> source, positional, named"""
    pos, named = [], []
    many = r.random() < .02
    for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if not many else r.choice([1, 9, 17, 33, 70, 140])):
        pos.append(r.choice([('"s"', ("str", "s")), ('""', ("str", "")), ('"\\u0041"', ("str", "A")), ("5", ("number", "int", "5")), ("-1.50", ("number", "float", "-1.5")),
                             ("007", ("number", "int", "7")), ("$s", ("str", "text")), ("$i", ("number", "int", "12")), ("$f", ("number", "float", "2.5")),
                             ("$dec", ("number", "Decimal", "1.50")), ("$d", ("date", "2021-03-04")), ("$dt", ("date", "2021-03-04T05:06:07")),
                             ("$none", ("none", "none")), ("$b", ("number", "int", "1")), ("msg", ("str", "message text")), ("msg.at", ("str", "attribute")),
                             ("-trm", ("str", "term text")), ("-trm(x: 1)", ("str", "term text")), ("$missing", ("none", "missing")),
                             ("nomsg", ("none", "{nomsg}")), ("$list", ("none", "list")), ("$opt", ("number", "int", "3")), ("NUMBER($i)", ("NUMBER",)),
                             ("NOFN()", ("none", "NOFN()")), ('{ "q" }', ("str", "q")), ("{ msg }", ("str", "message text")),
                             ("SELF($i)", ("number", "int", "12")), ("10000000000000000000", ("number", "int", "10000000000000000000"))]))
    names = NAMES + ["n%d" % k for k in range(300)] if many else NAMES
    for n in r.sample(names, r.choice([0, 0, 1, 2, 4]) if not many else r.choice([1, 9, 17, 33, 70, 140, 260])):
        named.append((n,) + r.choice([("1", ("number", "int", "1")), ("0.50", ("number", "float", "0.5")), ('"lit"', ("str", "lit")), ('""', ("str", "")),
                                      ('"\\U01F602"', ("str", "\U0001f602")), ("-3", ("number", "int", "-3")), ('"{"', ("str", "{"))]))
    sep = r.choice([", ", ",", "\n        , "])
    s = sep.join([p[0] for p in pos] + [f"{n}: {t}" for n, t, _ in named])
    return s, [p[1] for p in pos], {n: v for n, _, v in named}


def gen(r, i, tier):
    if i % 2:
        w = RT.world(r, cyclic=r.choice([0, .1]))
        return ("world", w)
    calls = [direct(r) for _ in range(4)]
    exc = [(r.randrange(len(EXC)), r.choice(["alone", "text", "selector", "argument", "term", "variant", "twice"])) for _ in range(4)]
    return ("direct", calls, exc, r.random() < .5, r.choice([("NUMBER", "order1"), ("NUMBER", "order2"), ("DATETIME", "order1"), ("DATETIME", "order2")]),
            r.choice(["str", "int", "float", "decimal", "date", "datetime", "none", "nonename", "substr", "percent"]), r.choice(["lambda", "partial", "method", "callable", "class", "def"]))


def img(v):
    from fluent.runtime.types import FluentNone, FluentNumber, FluentDateType
    if isinstance(v, FluentNone):
        return ("none", v.name)
    if isinstance(v, FluentNumber):
        return ("number", "int", str(int(v))) if isinstance(v, int) else ("number", "Decimal", str(Decimal(v))) if isinstance(v, Decimal) else ("number", "float", repr(float(v)))
    if isinstance(v, FluentDateType):
        return ("date", v.isoformat())
    if isinstance(v, str):
        return ("str", str(v))
    return ("other", type(v).__name__)


CUSTOM = set(RT.FNAMES + ["STRICT", "DESC"])


def run(case, obs):
    if case[0] == "world":
        w = case[1]
        p = Pair(w)
        for args in w["args"]:
            for label, pat in RT.patterns(w["tree"]):
                got, gerr, want, werr, call = p.both(label, pat, args)
                obs.count("formats")
                if call.parts > 900:
                    continue
                wantcalls = [c for c in call.calls if c[0] in CUSTOM]
                obs.check(len(p.log) == len(wantcalls), "wrong number of function calls", got=p.log, want=wantcalls, message=label, args=args, source=w["src"])
                for g, c in zip(p.log, wantcalls):
                    obs.check(norm(g) == norm(c), "a function got other arguments", got=g, want=c, message=label, args=args, source=w["src"])
                    obs.check(list(g[2]) == list(c[2]), "named arguments in another order", got=g, want=c, source=w["src"])
                    obs.count("calls_compared")
                obs.eq(got, want, "wrong text from functions", message=label, args=args, source=w["src"])
        return
    return run_direct(case, obs)


def norm(c):
    """Default-valued options count as not given."""
    def n(i):
        if i[0] == "number":
            return i[:3] + (tuple(sorted((k, v) for k, v in i[3] if (k, v) not in (("style", "decimal"), ("type", "cardinal"), ("currencyDisplay", "symbol"),
                                                                                    ("useGrouping", "True"), ("useGrouping", "1")) and v != "None")),)
        return i
    return (c[0], [n(x) for x in c[1]], {k: n(x) for k, x in c[2].items()})


def run_direct(case, obs):
    from fluent.runtime.types import FluentNone, fluent_number, fluent_date, FluentInt
    _, calls, excs, iso, (builtin, order), rtype, shape = case
    log = []
    P, Q = ("\u2068", "\u2069") if iso else ("", "")

    def rec(*a, **k):
        log.append(([img(x) for x in a], {n: img(x) for n, x in k.items()}))
        return "R"
    from fluent.runtime.types import FluentNone as FN

    class Callable:
        def __call__(self, /, *a, **k):
            return rec(*a, **k)

        def method(self, /, *a, **k):
            return rec(*a, **k)
    shapes = {"lambda": lambda *a, **k: rec(*a, **k), "partial": functools.partial(rec), "method": Callable().method, "callable": Callable(), "def": rec,
              "class": None}
    if shape == "class":
        class Cls(FN):
            def __init__(self, /, *a, **k):
                rec(*a, **k)
                super().__init__("R")
        shapes["class"] = Cls
    args = {"s": "text", "i": 12, "f": 2.5, "dec": Decimal("1.50"), "d": datetime.date(2021, 3, 4), "dt": datetime.datetime(2021, 3, 4, 5, 6, 7),
            "none": None, "b": True, "list": [1], "opt": fluent_number(3, minimumFractionDigits=2)}
    src = ("msg = message text\n    .at = attribute\n-trm = term text\n    .k = v\n")
    for k, (s, _, _) in enumerate(calls):
        src += f"m{k} = {{ REC({s}) }}\nn{k} = a {{ REC({s}) }} b\nl{k} = {{ REC({s}) ->\n    [R] yes\n   *[o] no\n }}\n"
    for k, (x, where) in enumerate(excs):
        e = f"BOOM({x})"
        src += {"alone": f"x{k} = {{ {e} }}\n", "text": f"x{k} = a {{ {e} }} b\n", "selector": f"x{k} = a {{ {e} ->\n    [BOOM] wrong\n   *[o] dflt\n }} b\n",
                "argument": f"x{k} = a {{ SELF({e}) }} b\n", "term": f"-bt{k} = x {{ {e} }}\nx{k} = a {{ -bt{k} }} b\n",
                "variant": f"x{k} = a {{ $i ->\n   *[o] {{ {e} }}\n }} b\n", "twice": f"x{k} = {{ {e} }}{{ {e} }}\n"}[where]
    result, shown = {"str": ("txt", "txt"), "int": (FluentInt(3), "3"), "float": (fluent_number(2.5), "2.5"), "decimal": (fluent_number(Decimal("1.5")), "1.5"),
                     "date": (fluent_date(datetime.date(2021, 3, 4)), "Mar 4, 2021"), "datetime": (fluent_date(datetime.datetime(2021, 3, 4, 5)), "Mar 4, 2021"),
                     "none": (FluentNone(), "???"), "nonename": (FluentNone("nm"), "nm"), "substr": (type("S", (str,), {})("sub"), "sub"),
                     "percent": (fluent_number(0.5, style="percent"), "50%")}[rtype]
    choice = {"str": "name", "int": "three", "float": "other", "decimal": "other", "percent": "other", "substr": "name2"}.get(rtype, "dflt")
    src += "ret = a { RET() } b\nsole = { RET() }\nrsel = { RET() ->\n    [txt] name\n    [sub] name2\n    [3] three\n    [other] other\n   *[zero] dflt\n }\n"
    src += "useb = { NUMBER(5, minimumFractionDigits: 1) } { DATETIME($d) }\nonlya = { ONLYA() }\n"
    raised = []
    SELF = lambda x: x

    def boom(n):
        e = EXC[int(n)]
        raised.append(e)
        raise e

    fn = {"REC": shapes[shape], "BOOM": boom, "RET": lambda: result, "SELF": SELF, "ONLYA": lambda: "only a", builtin: lambda *a, **k: f"my {builtin}"}
    fn_copy = dict(fn)
    fnb = {"REC": rec, "BOOM": boom, "RET": lambda: result, "SELF": SELF}
    res = FluentResource(src)
    if order == "order1":
        a = FluentBundle(["en-US"], functions=fn, use_isolating=iso)
        b = FluentBundle(["en-US"], functions=fnb, use_isolating=iso)
    else:
        b = FluentBundle(["en-US"], functions=fnb, use_isolating=iso)
        a = FluentBundle(["en-US"], functions=fn, use_isolating=iso)
    c = FluentBundle(["en-US"], use_isolating=iso)
    for x in (a, b, c):
        x.add_resource(res)

    def fmt(bundle, mid, arg=None):
        # `errs` of one call
        return bundle.format_pattern(bundle.get_message(mid).value, args if arg is None else arg)

    # which arguments fail on their own
    for k, (s, pos, named) in enumerate(calls):
        pos = [(("str", "my NUMBER") if builtin == "NUMBER" else ("number", "int", "12")) if v == ("NUMBER",) else v for v in pos]
        nbad = sum(v in (("none", "missing"), ("none", "{nomsg}"), ("none", "none"), ("none", "list"), ("none", "NOFN()")) for v in pos)
        # (a placeable as argument is interpolated, with its marks)
        for mid, text in ((f"m{k}", "R"), (f"n{k}", f"a {P}R{Q} b"), (f"l{k}", "no" if shape == "class" else "yes")):
            del log[:]
            got, errs = fmt(a, mid)
            ctx = dict(call=f"REC({s})", message=mid, iso=iso, shape=shape)
            obs.check(len(log) == 1, f"the function was called {len(log)} times", **ctx)
            gp = [(v[0], v[1].strip("\u2068\u2069")) if v[0] == "str" and iso else v for v in log[0][0]]
            obs.check(gp == pos, "wrong positional arguments", got=log[0][0], want=pos, **ctx)
            obs.check(log[0][1] == named and list(log[0][1]) == list(named), "wrong named arguments", got=log[0][1], want=named, **ctx)
            obs.check(len(errs) == nbad, "wrong number of errors", errors=repr(errs), want=nbad, **ctx)
            obs.eq(got, text, "the function's result is not used", errors=repr(errs), **ctx)
            obs.count("direct_calls")
            obs.count("typed_args", len(pos))
            obs.count("named_args", len(named))
        obs.nontrivial((s, shape, iso))
    for k, (x, where) in enumerate(excs):
        del raised[:]
        got, errs = fmt(a, f"x{k}")
        n = 2 if where == "twice" else 1
        ctx = dict(exception=repr(EXC[x]), where=where, iso=iso, errors=repr(errs))
        obs.check(len(raised) == n and len(errs) == n, "an exception is not exactly one entry of the error list", raised=len(raised), **ctx)
        obs.check(all(e is EXC[x] for e in errs), "the error reported is not the exception raised", **ctx)
        want = {"alone": "BOOM()", "text": f"a {P}BOOM(){Q} b", "selector": f"a {P}dflt{Q} b", "argument": f"a {P}BOOM(){Q} b", "term": f"a {P}x {P}BOOM(){Q}{Q} b",
                "variant": f"a {P}BOOM(){Q} b", "twice": f"{P}BOOM(){Q}" * 2}[where]
        obs.eq(got, want, "wrong fallback for a failing function", **ctx)
        obs.count("raised")
        obs.nontrivial((x, where, iso))
    for mid, want in (("ret", f"a {P}{shown}{Q} b"), ("sole", shown), ("rsel", choice)):
        got, errs = fmt(a, mid)
        obs.check(isinstance(got, str) and got == want and not errs, "the result of a function is not used by its type", got=got, want=want, errors=repr(errs), result=rtype)
        obs.count("as_selector" if mid == "rsel" else "result_inserted")
    # overriding stays in its bundle
    mine = f"my {builtin}"
    std = {"NUMBER": "5.0", "DATETIME": "Mar 4, 2021"}
    for bundle, custom in ((a, True), (b, False), (c, False), (a, True)):
        got, errs = fmt(bundle, "useb")
        want = " ".join(f"{P}{mine if custom and n == builtin else std[n]}{Q}" for n in ("NUMBER", "DATETIME"))
        obs.check(got == want and not errs, "an overridden built-in is used in the wrong bundle", got=got, want=want, custom=custom, errors=repr(errs), order=order)
        obs.count("overrides" if custom else "other_bundle")
        got, errs = fmt(bundle, "onlya")
        if custom:
            obs.check(got == "only a" and not errs, "a custom function is not found", got=got)
        else:
            obs.check(got == "ONLYA()" and len(errs) == 1 and type(errs[0]).__name__ == "FluentReferenceError", "a function is visible in a bundle not given it",
                      got=got, errors=repr(errs))
            obs.count("invisible")
    obs.check(fn == fn_copy, "the caller's functions were changed")
    obs.sample({"calls": [c_[0] for c_ in calls], "exceptions": [(repr(EXC[x]), w_) for x, w_ in excs]})
