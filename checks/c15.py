"""C15: selection picks the right variant."""
from .rt import *
import babel, decimal, re
from decimal import Decimal

ID = "C15"
RULE = ("select expressions with random key lists (names, plural categories, number notations) and selectors of every kind (arguments of every "
        "numeric type, strings, literals, NUMBER() cardinal and ordinal, term attributes, missing and failing ones) in many locales; oracle: "
        "first matching key by value, name or CLDR plural rule, else the default; distinct by (selector, keys, locale)")
QUICK, THOROUGH = 9000, 300000
NEED = {"selections": 20000, "hit_number": 1200, "hit_category": 1200, "hit_string": 1000, "default_taken": 4000, "unusable_selector": 2000,
        "ordinal": 800, "default_not_last": 4000, "Decimal_selector": 800, "string_vs_number_key": 300, "contexts": 4000, "not_finite": 200, "more_than_28_digits": 350, "beyond_16th": 120, "almost": 200}
MIN_NONTRIVIAL = 8000
LOCALES = RT.PLOCALES
NUMKEYS = ["0", "1", "2", "3", "4", "5", "6", "10", "11", "100", "1000", "-1", "1.0", "1.5", "0.5", "-0.5", "01", "1.50", "2.00", "0.0", "-0", "21",
           "3.25", "1000000", "00", "-1.0", "0.25", "1234567"]
BIG = ["9007199254740992", "9007199254740993", "9007199254740994", "9007199254740992.0", "-9007199254740993", "123456789012345678901", "123456789012345678902",
       "1000000000000000000000", "18446744073709551616", "4294967296", "1000000.000001", "0.30000000000000004"]
NAMES = ["zero", "one", "two", "few", "many", "other", "One", "male", "x1", "a", "a-b", "true", "None", "linux", "NaN", "Infinity", "e1"]


def key(r, j):
    x = r.random()
    if x < .05:
        return ("num", r.choice(BIG))
    if x < .4:
        return ("num", r.choice(NUMKEYS))
    if x < .75:
        return ("name", r.choice(NAMES[:6]))
    return ("name", r.choice(NAMES))


def almost(r, k):
    """Mostly k itself, at times text that is nearly but not k."""
    return r.choice([" " + k, k + " ", k.upper(), k.title(), k[:-1], k + "\u00a0", k + "\u0301", "\u2068" + k + "\u2069", ""]) if r.random() < .2 else k


def near(r, keys):
    """The number of one of the keys, or the one next to it, in a random type."""
    k = r.choice(keys)
    v = Decimal(k) + r.choice([0, 0, 1, -1])
    if v != v.to_integral_value():
        return ("dec", str(v)) if r.random() < .3 and float(v) == v else ("float", float(v))
    x = r.random()
    return ("int", int(v)) if x < .6 else ("dec", str(v)) if x < .8 else ("float", float(v))


def numval(r):
    x = r.random()
    if r.random() < .04:
        # beyond the 28 digits of the default decimal context
        d = str(r.randint(1, 9)) + "".join(r.choice("0123456789") for _ in range(r.randint(27, 60))) + r.choice(["", "0", "1", "2", "4", "5", "11"])
        y = r.random()
        return ("dec", d) if y < .5 else ("int", int(d)) if y < .7 else ("dec", f"{d}.{r.choice(['0', '00', '5', '10'])}") if y < .85 else ("dec", f"{r.randint(1, 9)}E+{r.randint(20, 60)}")
    if r.random() < .03:
        k = r.choice(["inf", "-inf", "nan"])
        return ("float", float(k)) if r.random() < .5 else ("dec", k)
    if x < .5:
        return ("int", r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 19, 20, 21, 22, 23, 25, 42, 71, 72, 100, 101, 102, 103, 111, 112, 1000, 1001,
                                 1000000, 1234567, -1, -2, -11, r.randint(-200, 2000)]))
    if x < .7:
        return ("float", r.choice([0.0, -0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 0.25, 3.25, 1000.0, 10.0, -0.5, -1.0, 21.0, 1e6]))
    if x < .92:
        return ("dec", r.choice(["0", "1", "1.0", "1.00", "2", "2.0", "0.5", "0.50", "1.5", "-1", "-1.0", "10", "1E+1", "1E+3", "100", "21", "3.25", "5", "0.0", "11"]))
    return ("bool", r.random() < .5)


def gen(r, i, tier):
    out = []
    for _ in range(6):
        n = r.choice([1, 2, 3, 4, 6, 9])
        keys = [key(r, j) for j in range(n)]
        if r.random() < .015:
            # a long list of variants
            n = r.choice([17, 33, 65, 101, 130, 260])
            keys = [("num", str(3 * j + 200)) if r.random() < .6 else ("name", "k%d" % j) for j in range(n)]
            keys += [key(r, j) for j in range(5)]
            n += 5
        d = r.randrange(n)
        if r.random() < .1:
            keys = [keys[0]] * n           # duplicates: the first match counts
        x = r.random() if n < 16 else r.choice([0, .4, .7, .8, .9])
        nums = [k[1] for k in keys if k[0] == "num"]
        if nums and (r.random() < .25 or n > 16 and x == 0):
            sel = (r.choice(["arg", "arg", "NUMBER"]), near(r, nums))
            if sel[0] == "NUMBER":
                sel = ("NUMBER", (sel[1], r.choice(["", ", type: \"ordinal\""])))
        elif x < .35:
            v = numval(r)
            sel = ("arg", ("sub", v) if v[0] in RT.SUB and r.random() < .06 else v)
        elif x < .45:
            sel = ("arg", ("str", r.choice([k[1] for k in keys] + NAMES + ["", "ONE", " one", "1", "1.0", "oné", "on", "zero "])))
            if r.random() < .1:
                sel = ("arg", ("sub", sel[1]))
        elif x < .53:
            sel = ("wrapped", (numval(r), r.choice([{"type": "ordinal"}, {"type": "cardinal"}, {"style": "percent"}, {"minimumFractionDigits": 2}, {"type": "ordinal", "useGrouping": False}])))
        elif x < .63:
            sel = ("NUMBER", (numval(r), r.choice(["", ", type: \"ordinal\"", ", type: \"ordinal\"", ", type: \"cardinal\"", ", minimumFractionDigits: 1", ", style: \"percent\""])))
        elif x < .69:
            sel = ("numlit", r.choice(NUMKEYS + BIG))
        elif x < .75:
            sel = ("strlit", almost(r, r.choice([k[1] for k in keys] + NAMES)))
        elif x < .82:
            sel = ("termattr", almost(r, r.choice([k[1] for k in keys if k[0] == "name"] or NAMES)))
        elif x < .86:
            sel = ("func", r.choice(["OS", "COUNT", "ID1", "STR1"]))
        else:
            sel = ("bad", r.choice(["missing", "unsupported", "none", "fnone", "noterm", "noattr", "nofunc", "boom", "baddate", "date", "datetime", "badnumber", "keyerr", "nil"]))
        out.append((keys, d, sel))
    return {"locale": r.choice(LOCALES), "iso": r.random() < .5, "sels": out,
            "context": r.choice([1, 2, 5, 60]) if r.random() < .3 else 28}


def ordinal_or_cardinal(L, v, ordinal):
    if not Decimal(v).is_finite():
        return "other"         # as in CLDR, and there is no other category that all languages have
    with decimal.localcontext(decimal.Context(prec=6000)):
        return (L.ordinal_form if ordinal else L.plural_form)(v)


def nv(a):
    k, v = a
    return Decimal(v) if k == "dec" else int(v) if k == "bool" else v


def run(case, obs):
    from fluent.runtime.types import fluent_number, FluentNone
    L = babel.Locale.parse(case["locale"].replace("-", "_"))
    src = "-t0 = T\n"
    plan = []
    for m, (keys, d, (kind, val)) in enumerate(case["sels"]):
        args, ferr = {}, 0
        selval = None              # ("n", value, ordinal) | ("s", text) | None
        if kind == "arg":
            s = "$v"
            args["v"] = RT.native(val)
            if val[0] == "sub":
                val = val[1]
            selval = ("s", val[1]) if val[0] == "str" else ("n", nv(val), False)
        elif kind == "wrapped":
            s = "$v"
            args["v"] = fluent_number(RT.native(val[0]), **val[1])
            selval = ("n", nv(val[0]), val[1].get("type") == "ordinal")
        elif kind == "NUMBER":
            s = f"NUMBER($v{val[1]})"
            args["v"] = RT.native(val[0])
            selval = ("n", nv(val[0]), "ordinal" in val[1])
        elif kind == "numlit":
            s = val
            selval = ("n", float(val) if "." in val else int(val), False)
        elif kind == "strlit":
            s = f'"{val}"'
            selval = ("s", val)
        elif kind == "termattr":
            s = f"-s{m}.k"
            plain = re.fullmatch("[A-Za-z0-9-]+", val)
            src += f"-s{m} = x\n    .k = {val}\n" if plain else f"-s{m} = x\n    .k = {{ \"{val}\" }}\n"
            obs.count("almost", not plain)
            selval = ("s", val)
        elif kind == "func":
            s, selval = {"OS": ("OS()", ("s", "linux")), "COUNT": ("COUNT(1, a: 2)", ("n", 11, False)), "ID1": ("ID(1)", ("n", 1, False)),
                         "STR1": ('ID("1")', ("s", "1"))}[val]
        else:
            s = {"missing": "$nope", "unsupported": "$v", "none": "$v", "fnone": "$v", "noterm": "-none.a", "noattr": "-t0.none", "nofunc": "NOFUNC(1)",
                 "boom": "BOOM()", "baddate": "DATETIME(1)", "date": "$v", "datetime": "$v", "badnumber": "NUMBER(\"x\")", "keyerr": "KEYERR()", "nil": "NIL()"}[val]
            import datetime
            args["v"] = {"unsupported": [1], "none": None, "fnone": FluentNone("one"), "date": datetime.date(2020, 1, 1),
                         "datetime": datetime.datetime(2020, 1, 1)}.get(val)
            ferr = 0 if val in ("fnone", "date", "datetime", "nil") else 1
            obs.count("unusable_selector")
        body = "".join(f"    {'*' if j == d else ' '}[{k[1]}] V{j}\n" for j, k in enumerate(keys))
        src += f"m{m} = {{ {s} ->\n{body}    }}\nw{m} = a { '{' } {s} ->\n{body}    {'}'} z\n"
        # ---- the oracle
        hit = None
        for j, (kk, kv) in enumerate(keys):
            if selval is None:
                break
            if kk == "num":
                if selval[0] == "n" and selval[1] == (float(kv) if "." in kv else int(kv)):
                    hit = (j, "hit_number")
                elif selval[0] == "s" and selval[1] == kv:
                    obs.count("string_vs_number_key")
            elif selval[0] == "s":
                if selval[1] == kv:
                    hit = (j, "hit_string")
            elif ordinal_or_cardinal(L, selval[1], selval[2]) == kv:
                hit = (j, "hit_category")
            if hit:
                break
        obs.count(hit[1] if hit else "default_taken")
        obs.count("beyond_16th", bool(hit) and hit[0] >= 16)
        if not hit and d != len(keys) - 1:
            obs.count("default_not_last")
        if selval and selval[0] == "n" and selval[2]:
            obs.count("ordinal")
        if selval and selval[0] == "n" and Decimal(selval[1]).is_finite() and abs(selval[1]) >= 10 ** 28:
            obs.count("more_than_28_digits")
        if selval and selval[0] == "n" and not Decimal(selval[1]).is_finite():
            obs.count("not_finite")
        if selval and selval[0] == "n" and isinstance(selval[1], Decimal):
            obs.count("Decimal_selector")
        if selval and selval[0] == "n":
            obs.state("categories", (case["locale"], selval[2], ordinal_or_cardinal(L, selval[1], selval[2])))
        plan.append((m, args, f"V{hit[0] if hit else d}", ferr, s))
        obs.nontrivial((case["locale"], repr(keys), d, kind, repr(val)))
    b = FluentBundle([case["locale"]], functions=RT.fn_repo([]), use_isolating=case["iso"])
    b.add_resource(FluentResource(src))
    a, z = ("\u2068", "\u2069") if case["iso"] else ("", "")
    for m, args, want, ferr, s in plan:
        for name, text in ((f"m{m}", want), (f"w{m}", f"a {a}{want}{z} z")):
            # the application's decimal context is for its own arithmetic
            with decimal.localcontext(decimal.Context(prec=case["context"], rounding=decimal.ROUND_UP if case["context"] != 28 else decimal.ROUND_HALF_EVEN)):
                got, errs = b.format_pattern(b.get_message(name).value, args)
            obs.count("selections")
            obs.count("contexts", case["context"] != 28)
            obs.eq(got, text, "wrong variant chosen", selector=s, args=repr(args), case=case["sels"][m], locale=case["locale"], errors=repr(errs))
            obs.check(len(errs) == ferr, "wrong number of errors from a selector", selector=s, errors=repr(errs), want=ferr)
    if len(src) < 700:
        obs.sample({"source": src, "results": [p[2] for p in plan]})
