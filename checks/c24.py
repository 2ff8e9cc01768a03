"""C24: wrapped numbers and dates keep value, type and options."""
from .rt import *
from decimal import Decimal
import attr, babel, copy, datetime, enum, pickle, warnings
from fluent.runtime.types import fluent_number, fluent_date
from ref import number as RN

ID = "C24"
RULE = ("random chains of wrapping (fluent_number, fluent_date, NUMBER and DATETIME in messages, passing through arguments, copies, date arithmetic, unsupported options) with random explicit options "
        "over values of every numeric and date type; oracle: dictionary merge of the options, the untouched original, and an independent formatter; "
        "distinct by (value, chain)")
QUICK, THOROUGH = 14000, 500000
NEED = {"chains": 20000, "number_chains": 10000, "date_chains": 4000, "in_message": 8000, "merged_over_existing": 6000, "invalid": 3000, "none_through": 1000,
        "native_as_wrapped": 3000, "formatted": 9000, "reset_to_default": 480, "old_objects": 20000,
        "derived:number": 20000, "derived:date": 20000, "unsupported": 7000, "copies": 30000}
MIN_NONTRIVIAL = 8000
NUM_DEFAULT = dict(style="decimal", type="cardinal", currency=None, currencyDisplay="symbol", useGrouping=True, minimumIntegerDigits=None,
                   minimumFractionDigits=None, maximumFractionDigits=None, minimumSignificantDigits=None, maximumSignificantDigits=None)
DATE_DEFAULT = dict(timeZone=None, dateStyle=None, timeStyle=None)
LIT = {"style": ["percent", "decimal"], "type": ["ordinal", "cardinal"], "minimumIntegerDigits": [1, 2, 4], "minimumFractionDigits": [0, 1, 3],
       "maximumFractionDigits": [0, 1, 3], "useGrouping": [0, 1], "currencyDisplay": ["code", "symbol"], "maximumSignificantDigits": [1, 2, 5]}


class Level(enum.IntEnum):
    LOW = 3


class MyInt(int):
    pass


class MyFloat(float):
    pass


def numopts(r, lit=False):
    out = {}
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.choice(list(LIT) + ["currencyX"])
        if k == "currencyX":
            out["style"], out["currency"] = "currency", r.choice(["EUR", "USD", "JPY"])
        else:
            out[k] = r.choice(LIT[k])
            if k == "useGrouping" and not lit:
                out[k] = bool(out[k])
            if not lit and r.random() < .12:
                out[k] = NUM_DEFAULT[k]
    return out


def dateopts(r, kind, lit=False):
    out = {}
    if r.random() < .5:
        out["dateStyle"] = r.choice(["full", "long", "medium", "short"])
    if r.random() < .4 and kind == "dt":
        out["timeStyle"] = r.choice(["medium", "short"])
    if r.random() < .4:
        out["timeZone"] = r.choice(["Europe/Berlin", "Asia/Tokyo", "America/New_York"])
    if not lit and r.random() < .15 and out:
        out[r.choice(list(out))] = None
    return out


def gen(r, i, tier):
    chains = []
    for _ in range(3):
        x = r.random()
        if x < .7:
            kind = "num"
            v = r.choice([("int", r.choice([0, 1, 2, 5, -3, 1000, 1234567, 10**9, -10**15, 2**53 + 1, 10**18])), ("float", r.choice([0.0, 1.0, 1.5, -2.25, 1234.5, 0.125, -0.0, 1e6, 123456789.0, 1e15, 2.0**60, -3e9])),
                          ("dec", r.choice(["1", "1.0", "1.50", "-2.25", "1E+3", "0.10", "1000000", "12345678901.00", "9007199254740993", "-0"])), ("bool", r.random() < .5), ("enum", 3), ("myint", 7), ("myfloat", 2.5)])
        else:
            kind = r.choice(["date", "dt"])
            v = ("date", (r.randint(1980, 2030), r.randint(1, 12), r.randint(1, 28))) if kind == "date" else \
                ("dt", (r.randint(1980, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 5, 999999])))
        steps = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            how = r.choice(["wrap", "wrap", "call", "arg"])
            o = {} if how == "arg" or r.random() < .15 else numopts(r, how == "call") if kind == "num" else dateopts(r, kind, how == "call")
            steps.append((how, o))
        chains.append((kind, v, steps))
    bad = (r.choice(["num", "date", "dt"]), r.choice(["name", "value", "type", "currency", "timestyle", "none"]), r.randrange(1000), r.random() < .5)
    return {"chains": chains, "bad": bad, "locale": r.choice(["en-US", "de", "fr", "ja", "ru", "sv"])}


def native(v):
    k, x = v
    return {"int": lambda: x, "float": lambda: x, "bool": lambda: x, "dec": lambda: Decimal(x), "enum": lambda: Level(x), "myint": lambda: MyInt(x),
            "myfloat": lambda: MyFloat(x), "date": lambda: datetime.date(*x), "dt": lambda: datetime.datetime(*x)}[k]()


def state(o):
    return attr.asdict(o.options) if hasattr(o, "options") and attr.has(type(o.options)) else repr(getattr(o, "options", None))


def literal(x):
    return f'"{x}"' if isinstance(x, str) else str(x)


ONE = datetime.timedelta(days=1)
COPIES = [("copy", copy.copy), ("deepcopy", copy.deepcopy)] + [(f"pickle{n}", lambda x, n=n: pickle.loads(pickle.dumps(x, n))) for n in range(2, pickle.HIGHEST_PROTOCOL + 1)]


def derived(cur, kind, opts, through, obs, ctx):
    """What Python makes of a wrapped value: copies, and dates moved."""
    if not hasattr(cur, "options"):
        return
    wrap = fluent_number if kind == "num" else fluent_date
    made = [(n, f(cur)) for n, f in COPIES]
    if kind != "num":
        made += [("add", cur + ONE), ("sub", cur - ONE), ("replace", cur.replace(day=2))]
    for n, x in made:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = through("direct", x)[1:]
            kept = [through("direct", cur)[1:]] if n in dict(COPIES) else []
            if kind != "num" and not kept:
                # the options need not be kept, see the statement
                plain = datetime.date(x.year, x.month, x.day) if kind == "date" else datetime.datetime(
                    x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo, fold=x.fold)
                kept += [through("direct", plain)[1:], through("direct", wrap(plain, **opts))[1:]]
        if n in dict(COPIES):
            obs.check(type(x) is type(cur) and state(x) == state(cur), "a copy has other options", how=n, options=state(x), of=state(cur), **ctx)
            if kind == "dt":
                obs.check((x.microsecond, x.fold, x.tzinfo) == (cur.microsecond, cur.fold, cur.tzinfo), "a copy differs", how=n, **ctx)
            obs.count("copies")
        obs.check(not got[1] and got[0] in [k[0] for k in kept], "a value made from a wrapped one by " + n, got=got, options_given=opts, allowed=kept, **ctx)
        obs.check(n not in dict(COPIES) or x == cur, "a copy differs", how=n, **ctx)
        obs.count("derived:" + ("number" if kind == "num" else "date"))


def unsupported(case, obs):
    """Documented as not supported: accepted with a warning, and without effect."""
    kind, what, k, already = case["bad"]
    src = "p = { $x }\nq = { NUMBER($x) }\nr = { DATETIME($x) }\n"
    b = FluentBundle([case["locale"]], use_isolating=False)
    if kind == "num":
        base = fluent_number(1234.5, style="currency", currency="EUR")
        f, o = "NUMBER", {"currencyDisplay": "name"}
    else:
        base = fluent_date(datetime.date(2021, 2, 3) if kind == "date" else datetime.datetime(2021, 2, 3, 4, 5), dateStyle="long")
        f, o = "DATETIME", dict([[("weekday", "long"), ("era", "short"), ("year", "2-digit"), ("month", "narrow"), ("day", "numeric"), ("hour", "numeric"),
                                  ("minute", "2-digit"), ("second", "numeric"), ("timeZoneName", "long"), ("hour12", 1)][k % 10]])
    b.add_resource(FluentResource(f"o = {{ {f}($x, {', '.join(f'{a}: {literal(v)}' for a, v in o.items())}) }}\nn = {{ {f}($x) }}\n"))
    out = {}
    for m in ("n", "o"):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out[m] = b.format_pattern(b.get_message(m).value, {"x": base})
            out[m] += ([x.category for x in w],)
    obs.check(out["n"][1] == [] and out["o"][:2] == out["n"][:2], "an option that is not supported has an effect", options=o, got=out)
    obs.check(out["n"][2] == [] and out["o"][2] and all(issubclass(c, Warning) for c in out["o"][2]), "the warnings for an unsupported option", options=o, got=out)
    obs.count("unsupported")


def run(case, obs):
    unsupported(case, obs)
    from fluent.runtime import types as TY
    caught = []
    def grab(x):
        caught.append(x)
        return x
    L = babel.Locale.parse(case["locale"].replace("-", "_"))
    b = FluentBundle([case["locale"]], functions={"GRAB": grab}, use_isolating=False)
    src, plans = "direct = { $x }\nnumber = { NUMBER($x) }\ndatetime = { DATETIME($x) }\ngrab = { GRAB($x) }\n", []
    for c, (kind, v, steps) in enumerate(case["chains"]):
        for s, (how, o) in enumerate(steps):
            if how == "call":
                f = "NUMBER" if kind == "num" else "DATETIME"
                src += f"c{c}s{s} = {{ GRAB({f}($x{''.join(f', {k}: {literal(x)}' for k, x in o.items())})) }}\n"
    b.add_resource(FluentResource(src))

    def through(mid, x):
        del caught[:]
        out, errs = b.format_pattern(b.get_message(mid).value, {"x": x})
        return (caught[0] if caught else None), out, errs

    for c, (kind, v, steps) in enumerate(case["chains"]):
        nat = native(v)
        cur, opts, kept = nat, {}, []
        ctx = dict(value=v, steps=steps, locale=case["locale"])
        obs.count("chains")
        obs.count("number_chains" if kind == "num" else "date_chains")
        default = NUM_DEFAULT if kind == "num" else DATE_DEFAULT
        cls = {int: TY.FluentInt, float: TY.FluentFloat, Decimal: TY.FluentDecimal}.get(
            int if isinstance(nat, int) else float if isinstance(nat, float) else type(nat)) if kind == "num" else \
            (TY.FluentDateTime if kind == "dt" else TY.FluentDate)
        wrap = TY.fluent_number if kind == "num" else TY.fluent_date
        dead = False
        for s, (how, o) in enumerate(steps):
            merged = {**default, **opts, **o}
            invalid = kind == "num" and merged["style"] == "currency" and merged["currency"] is None
            try:
                if how == "wrap":
                    new = wrap(cur, **o)
                else:
                    new, _, errs = through(f"c{c}s{s}" if how == "call" else "grab", cur)
                    obs.count("in_message")
                    obs.check(not errs or invalid, "errors from wrapping: " + repr(errs), step=s, **ctx)
            except Exception as e:
                obs.check(invalid, f"wrapping raised {type(e).__name__}: {e}", step=s, **ctx)
                dead = True
                break
            if invalid:
                obs.check(how != "wrap", "a currency style without currency was accepted", step=s, **ctx)
                dead = True
                break
            if how == "call":
                # literals of messages arrive as numbers
                merged = {k: (int(x) if isinstance(x, int) and k != "useGrouping" else x) for k, x in merged.items()}
            if opts and o:
                obs.count("merged_over_existing")
            if any(x == default[k] and opts.get(k, x) != x for k, x in o.items()):
                obs.count("reset_to_default")
            obs.check(isinstance(new, cls), f"not a {cls.__name__} but {type(new).__name__}", step=s, **ctx)
            obs.check(new == nat and hash(new) == hash(nat), "the wrapped value is not equal to the original", got=repr(new), step=s, **ctx)
            if kind == "dt":
                obs.check(all(getattr(new, f) == getattr(nat, f) for f in ("microsecond", "fold", "tzinfo", "second")), "a field was lost", step=s, **ctx)
            for k, x in merged.items():
                got = getattr(new.options, k)
                obs.check(got == x, f"option {k} is {got!r}, should be {x!r}", step=s, **ctx)
            if cur is not new:
                kept.append((cur, state(cur), repr(cur) if not hasattr(cur, "options") else None))
            for old, st, rp in kept:
                obs.count("old_objects")
                obs.check(state(old) == st, "re-wrapping altered the object it started from", before=st, after=state(old), step=s, **ctx)
            opts.update(o)
            cur = new
        obs.nontrivial((repr(v), repr(steps)))
        if dead:
            continue
        # The outcome is what counts: only the explicit options take effect.
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, out, errs = through("direct", cur)
        obs.check(not errs, "errors: " + repr(errs), **ctx)
        ref = RR.Bundle(case["locale"], False)
        call = RR.Call(ref, {}, True)
        o = {k: x for k, x in opts.items() if x is not None}
        if kind == "num":
            mf, xf = o.get("minimumFractionDigits"), o.get("maximumFractionDigits")
            if mf is not None and xf is not None and mf > xf or "maximumSignificantDigits" in o:
                want = None
            else:
                want = call.number(RR.Num(int(nat) if isinstance(nat, int) else float(nat) if isinstance(nat, float) else nat, **o))
        else:
            want = call.date(RR.Date(nat, **o))
        if want is not None:
            obs.eq(out, want, "the options given do not take effect, or others do", options=o, **ctx)
            obs.count("formatted")
        derived(cur, kind, opts, through, obs, ctx)
        # a plain value behaves as one wrapped without options
        for mid in ("direct", "number" if kind == "num" else "datetime"):
            g1, o1, e1 = through(mid, nat)
            g2, o2, e2 = through(mid, wrap(nat))
            obs.eq((o1, [str(x) for x in e1]), (o2, [str(x) for x in e2]), "a plain value behaves unlike one wrapped without options", **ctx)
        obs.count("native_as_wrapped")
        if len(steps) > 1:
            obs.sample({"value": v, "steps": steps, "text": out})
    # ---- invalid options and missing values
    kind, what, k, already = case["bad"]
    wrap = TY.fluent_number if kind == "num" else TY.fluent_date
    base = 5 if kind == "num" else datetime.date(2020, 1, 2) if kind == "date" else datetime.datetime(2020, 1, 2, 3)
    if already:
        base = wrap(base, **({"minimumFractionDigits": 1} if kind == "num" else {"dateStyle": "long"}))
    before = state(base)
    if what == "none":
        n = TY.FluentNone("gone")
        got = wrap(n, **([{}, {"style": "percent"}, {"minimumFractionDigits": 2}][k % 3] if kind == "num" else [{}, {"dateStyle": "long"}][k % 2]))
        obs.check(isinstance(got, TY.FluentNone) and got.name == "gone", "a missing value did not pass through", got=repr(got))
        obs.count("none_through")
        return
    if what == "type":
        base = ["5", None, [1], {}, 1j, b"5", object(), (datetime.date(2020, 1, 1) if kind == "num" else 5), datetime.time(1, 2)][k % 9]
        o = {}
    elif what == "name":
        o = {["minimumFractionDigit", "Style", "digits", "foo", "minimum_fraction_digits", "self_", "options", "datestyle"][k % 8]: [1, "percent", None][k % 3]}
    elif kind == "num":
        o = [{"style": "foo"}, {"style": None}, {"type": "Ordinal"}, {"currencyDisplay": "x"}, {"type": 1}, {"style": ""}, {"style": "currency"}][k % 7] \
            if what != "currency" else {"style": "currency", "minimumFractionDigits": 2}
    else:
        o = [{"dateStyle": "foo"}, {"dateStyle": 1}, {"dateStyle": ""}, {"dateStyle": "Long"}][k % 4]
        if what == "timestyle":
            o = {"timeStyle": "short"} if kind == "date" else {"timeStyle": "Short"}
    try:
        got = wrap(base, **o)
        raised = False
    except Exception:
        raised, got = True, None
    obs.count("invalid")
    obs.check(raised, "an invalid option was accepted", base=repr(base), options=o, got=repr(got))
    if what != "type":
        obs.check(state(base) == before, "a failed wrapping altered the object", base=repr(base), options=o)
        # the same through a message: an error, and a fallback
        o2 = {a: x for a, x in o.items() if isinstance(x, (str, int)) and a.replace("_", "a").isalnum()}
        if o2 == o:
            f = "NUMBER" if kind == "num" else "DATETIME"
            bb = FluentBundle(["en"], use_isolating=False)
            bb.add_resource(FluentResource(f"m = {{ {f}($x, {', '.join(f'{a}: {literal(x)}' for a, x in o.items())}) }}\n"))
            out, errs = bb.format_pattern(bb.get_message("m").value, {"x": base})
            obs.check(out == f + "()" and len(errs) == 1, "an invalid option in a message is not reported", options=o, text=out, errors=repr(errs))
