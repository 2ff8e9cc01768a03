"""C34: application-defined Fluent types format themselves."""
from .rt import *
from fluent.runtime.types import FluentType, FluentInt, FluentFloat, FluentDecimal, FluentDate, FluentDateTime, FluentDateType, FluentNumber, fluent_number
import babel, datetime, random

ID = "C34"
RULE = ("application classes derived from FluentType and from every Fluent number, date and none class, which record each call of their format method; "
        "passed as arguments, returned and passed through by functions, inserted directly and through references, attributes, terms and variants, used as "
        "selectors, and failing; oracle: the text and the list of format calls known by construction; distinct by (class, place, locale, isolation)")
QUICK, THOROUGH = 5000, 150000
NEED = {"formats": 60000, "format_calls": 40000, "as_argument": 5000, "from_function": 5000, "as_selector": 5000, "failing": 2500, "identity_kept": 5000,
        "number_category": 800, "built_in": 1500, "two_locales": 2200}
MIN_NONTRIVIAL = 1500
LOCS = {"en-US": "en_US", "de": "de", "pl": "pl", "ar": "ar", "fr-CH": "fr_CH", "ja": "ja", "zh-Hant-TW": "zh_Hant_TW", "cs": "cs", "he": "he"}
KINDS = ["plain", "deep", "int", "float", "decimal", "date", "datetime", "none", "slots", "attrs", "str", "tuple", "owndate", "ownint"]
CATS = ["zero", "one", "two", "few", "many", "other"]
SRC = """\
sole = { $v }
text = a { $v } b
twice = { $v }-{ $w }-{ $v }
viaref = x { sole } y { text }
viaattr = { holder.at }
holder = h
    .at = at { $v }
id = { ID($v) }
idtext = a { ID($v) } b { LAST("x", $v, 1) ->
   *[o] d
 }
last = { LAST("x", 3, $v) }!
nested = { { $v } }
made = { MAKE("k1") } and { MAKE("k2") }
-t = t { MAKE("k3") } { $n }
interm = { -t(n: 5) }!
variant = { $n ->
    [one] one { $v }
   *[other] other { $v }
 }
kept = { KEEP($v) }{ KEEP(MAKE("k4")) }
sel = { $v ->
    [zero] Z
    [one] 1
    [two] 2
    [few] F
    [many] M
   *[other] O
 }
selnum = { $v ->
    [3] three
    [name] name
   *[dflt] dflt
 }
selfn = { MAKE("k1") ->
    [k1] wrong
   *[dflt] dflt
 }
before = { $missing } { $v }
number = { NUMBER($v) } { NUMBER(NUMBER($v)) }
date = { DATETIME($v) }
"""


class Own(Exception):
    pass


def classes(log):
    def fmt(self, locale):
        log.append((self.tag, str(locale), type(locale) is babel.Locale))
        if self.fails is not None:
            raise self.fails
        return f"<{self.tag}:{locale}>"

    class Plain(FluentType):
        def __init__(self, tag):
            self.tag = tag
        format = fmt
        fails = None

    class Deep(Plain):
        def format(self, locale):
            return "!" + super().format(locale)

    class Int(FluentInt):
        format = fmt
        fails = None

    class Float(FluentFloat):
        format = fmt
        fails = None

    class Dec(FluentDecimal):
        format = fmt
        fails = None

    class Date(FluentDate):
        format = fmt
        fails = None

    class DateTime(FluentDateTime):
        format = fmt
        fails = None

    class Nothing(FluentNone):
        format = fmt
        fails = None

    class Slots(FluentType):
        __slots__ = ("tag", "fails")
        format = fmt

    class OwnDate(FluentDateType, datetime.date):
        format = fmt
        fails = None

    class OwnInt(FluentNumber, int):
        format = fmt
        fails = None

    class Str(FluentType, str):
        format = fmt
        fails = None

    class Tuple(FluentType, tuple):
        format = fmt
        fails = None

    import attr

    @attr.s(frozen=True)
    class Attrs(FluentType):
        tag = attr.ib()
        fails = attr.ib(default=None)
        format = fmt

    def make(kind, tag, num=3):
        if kind in ("plain", "deep"):
            return (Plain if kind == "plain" else Deep)(tag)
        if kind == "attrs":
            return Attrs(tag)
        if kind == "slots":
            x = Slots()
            x.fails = None
        elif kind == "int":
            x = Int(num)
        elif kind == "float":
            x = Float(float(num))
        elif kind == "decimal":
            x = Dec(num)
        elif kind == "date":
            x = Date.from_date(datetime.date(2021, 3, 4))
        elif kind == "datetime":
            x = DateTime.from_date_time(datetime.datetime(2021, 3, 4, 5))
        elif kind == "owndate":
            x = OwnDate(2021, 3, 4)
        elif kind == "ownint":
            x = OwnInt(num)
        elif kind == "str":
            x = Str("text value")
        elif kind == "tuple":
            x = Tuple()
        else:
            x = Nothing(tag)
        x.tag = tag
        return x
    return make


def gen(r, i, tier):
    return {"kind": r.choice(KINDS), "kind2": r.choice(KINDS), "loc": r.choice(list(LOCS)), "loc2": r.choice(list(LOCS)), "iso": r.random() < .5,
            "num": r.choice([0, 1, 2, 3, 5, 11, 21, 100]), "n": r.choice([1, 5]), "fail": r.choice(["value", "lookup", "own", "type", "runtime"]),
            "order": r.sample(range(15), 15)}


def run(case, obs):
    log, kept = [], []
    make = classes(log)
    kind, kind2, iso = case["kind"], case["kind2"], case["iso"]
    v, w = make(kind, "V", case["num"]), make(kind2, "W", case["num"])
    objs = {}

    def MAKE(k):
        objs.setdefault(k, make(kind2, k))
        return objs[k]

    def KEEP(x):
        kept.append(x)
        return "k"
    fns = {"ID": lambda x: x, "LAST": lambda *a: a[-1], "MAKE": MAKE, "KEEP": KEEP}
    res = FluentResource(SRC)
    P, Q = ("\u2068", "\u2069") if iso else ("", "")

    def show(tag, k, L):
        return ("!" if k == "deep" else "") + f"<{tag}:{L}>"
    bundles = []
    for loc in (case["loc"], case["loc2"]):
        b = FluentBundle([loc], functions=fns, use_isolating=iso)
        b.add_resource(res)
        bundles.append((b, LOCS[loc]))
    obs.count("two_locales", case["loc"] != case["loc2"])
    args = {"v": v, "w": w, "n": case["n"]}
    for b, L in bundles:
        V, W = show("V", kind, L), show("W", kind2, L)
        K = {k: show(k, kind2, L) for k in ("k1", "k2", "k3", "k4")}
        one = case["n"] == 1 and L != "ja" and not L.startswith("zh")
        num = babel.numbers.format_decimal(5, locale=L)
        expect = [
            ("sole", V, ["V"]),
            ("text", f"a {P}{V}{Q} b", ["V"]),
            ("twice", f"{P}{V}{Q}-{P}{W}{Q}-{P}{V}{Q}", ["V", "W", "V"]),
            ("viaref", f"x {P}{V}{Q} y {P}a {P}{V}{Q} b{Q}", ["V", "V"]),
            ("viaattr", f"at {P}{V}{Q}", ["V"]),
            ("id", V, ["V"]),
            ("idtext", f"a {P}{V}{Q} b {P}d{Q}", ["V"]),
            ("last", f"{P}{V}{Q}!", ["V"]),
            ("nested", f"{P}{V}{Q}", ["V"]),
            ("made", f"{P}{K['k1']}{Q} and {P}{K['k2']}{Q}", ["k1", "k2"]),
            ("interm", f"{P}t {P}{K['k3']}{Q} {P}{num}{Q}{Q}!", ["k3"]),
            ("variant", f"{'one' if one else 'other'} {P}{V}{Q}", ["V"]),
            ("kept", f"{P}k{Q}{P}k{Q}", []),
            ("selfn", "dflt", []),
            ("before", f"{P}missing{Q} {P}{V}{Q}", ["V"]),
        ]
        for k in case["order"]:
            m, want, calls = expect[k]
            del log[:], kept[:]
            got, errs = b.format_pattern(RT.get(b, ("holder", "at") if m == "viaattr" else (m, None)), args)
            obs.count("formats")
            ctx = dict(message=m, cls=kind, other=kind2, locale=L, iso=iso, errors=repr(errs))
            obs.check(len(errs) == (m == "before"), "unexpected errors", got=got, **ctx)
            obs.eq(got, want, "an application's type is not inserted as it formats itself", **ctx)
            obs.check([c[0] for c in log] == calls, "not formatted exactly once per insertion", calls=log, want=calls, **ctx)
            obs.check(all(c[1] == L and c[2] for c in log), "formatted for another locale than the bundle's", calls=log, **ctx)
            obs.count("format_calls", len(log))
            obs.count("from_function" if m in ("made", "interm", "id", "idtext", "last", "selfn", "kept") else "as_argument")
            if m == "kept":
                obs.check(len(kept) == 2 and kept[0] is v and kept[1] is objs["k4"], "a function received another object", kept=repr(kept), **ctx)
                obs.count("identity_kept")
            obs.nontrivial((m, kind, kind2, L, iso))
        if kind in ("int", "float", "decimal", "date", "datetime", "owndate", "ownint"):
            # given no options, the built-in functions let it pass
            m = "date" if "date" in kind else "number"
            del log[:]
            got, errs = b.format_pattern(RT.get(b, (m, None)), args)
            obs.check(got == (V if m == "date" else f"{P}{V}{Q} {P}{V}{Q}") and not errs and len(log) == (1 if m == "date" else 2),
                      "an application's type passed through a built-in function", got=got, want=V, errors=repr(errs), calls=log, cls=kind)
            obs.count("built_in")
        bare = FluentType() if case["iso"] else type("Bare", (FluentType,), {})()
        for m, text in (("sole", "{???}"), ("text", "{???}")):
            got, errs = b.format_pattern(RT.get(b, (m, None)), {"v": bare})
            obs.check(got == text and len(errs) == 1 and isinstance(errs[0], NotImplementedError), "a type without format method", got=got, errors=repr(errs), message=m)
        # as selectors, and through NUMBER where it is a number
        for m in ("sel", "selnum"):
            del log[:]
            got, errs = b.format_pattern(RT.get(b, (m, None)), args)
            number = kind in ("int", "float", "decimal", "ownint")
            cats = dict(zip(CATS, "Z12FMO"))
            if m == "sel":
                want = cats[babel.Locale.parse(L).plural_form(v)] if number else "O"
                obs.count("number_category", number)
            else:
                want = "three" if number and case["num"] == 3 else "dflt"
            obs.count("as_selector")
            obs.check(got == want and not errs and not log, "an application's type as selector", got=got, want=want, errors=repr(errs), calls=log, cls=kind,
                      value=case["num"], locale=L, message=m)
        # failing: one error, the exception itself, after those before
        exc = {"value": ValueError("v"), "lookup": LookupError("m"), "own": Own("o"), "type": TypeError("t"), "runtime": RuntimeError("r")}[case["fail"]]
        bad = make(kind if kind != "attrs" else "plain", "B", case["num"])
        bad.fails = exc
        for m, n in (("before", 2), ("viaref", 1), ("sole", 1)):
            got, errs = b.format_pattern(RT.get(b, (m, None)), {**args, "v": bad})
            obs.check(len(errs) == n and errs[-1] is exc and got == "{???}", "a failing format method", got=got, errors=repr(errs), message=m, cls=kind)
            obs.count("failing")
        got, errs = b.format_pattern(RT.get(b, ("text", None)), args)
        obs.check(got == f"a {P}{V}{Q} b" and not errs, "formatting after a failure", got=got, errors=repr(errs))
    obs.check(set(args) == {"v", "w", "n"} and args["v"] is v, "the arguments were changed")
    obs.sample({"cls": kind, "locale": L, "iso": iso, "text": got})
