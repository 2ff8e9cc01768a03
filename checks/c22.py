"""C22: numbers are formatted by locale and options."""
from .common import *
import decimal, warnings
from decimal import Decimal
import babel, babel.numbers
from fractions import Fraction
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import fluent_number, FluentInt, FluentFloat, FluentDecimal
from ref import number as RN

ID = "C22"
RULE = ("random int, float and Decimal values (ties, carries, signs, magnitudes) with random option sets in many locales, formatted directly, "
        "as plain arguments and through NUMBER(); oracle: exact string arithmetic on the CLDR pattern; distinct by (value, locale, options)")
QUICK, THOROUGH = 16000, 500000
NEED = {"formats": 30000, "option:style": 2000, "option:minimumFractionDigits": 1300, "option:maximumFractionDigits": 1300,
        "option:minimumIntegerDigits": 1000, "option:minimumSignificantDigits": 800, "option:maximumSignificantDigits": 800,
        "option:useGrouping": 1000, "option:currencyDisplay": 500, "ties": 190, "through_ftl": 5000, "Decimal": 2700, "float": 2700, "int": 2400, "more_than_28_digits": 82, "contexts": 2300}
MIN_NONTRIVIAL = 7700
ASSUMPTIONS = ["CLDR data (patterns, symbols, currency symbols and digits) as published by Babel; Latin digits",
               "domain: values up to 4,500 digits; significant-digit requests on zero, or "
               "rounding below one that carries into a new digit, are outside (Babel formats those wrongly)"]
LOCALES = ["en-US", "de", "fr", "hi", "ar", "es", "pl", "ru", "de-CH", "fa", "sv", "he", "bn", "ja", "pt-PT", "en-IN", "nl", "lt", "da", "mr",
           "gsw", "eu", "tr", "fr-CH", "it", "cs", "ko", "zh-Hant", "uk", "sl", "ur", "nb", "es-MX", "de-AT", "en-ZA"]
CURR = ["USD", "EUR", "JPY", "KWD", "CHF", "INR", "CLF", "GBP", "usd", "XXX", "BHD", "ISK"]
ROUNDINGS = [decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_HALF_UP, decimal.ROUND_CEILING, decimal.ROUND_05UP]
_loc = {}


def loc(n):
    if n not in _loc:
        _loc[n] = babel.Locale.parse(n.replace("-", "_"))
    return _loc[n]


def init(rng, tier):
    if tier == "thorough":
        import babel.localedata
        ids = sorted(babel.localedata.locale_identifiers())
        for n in rng.sample(ids, 150):
            try:
                L = loc(n.replace("_", "-"))
            except Exception:
                continue
            if "latn" in L.number_symbols and n.replace("_", "-") not in LOCALES:
                LOCALES.append(n.replace("_", "-"))


def value(r):
    x = r.random()
    sign = r.choice([1, 1, -1])
    if x < .3:
        v = r.choice([0, 1, 2, 5, 9, 10, 11, 99, 100, 999, 1000, 1001, 9999, 10000, 12345, 99999, 100000, 123456, 1234567, 10 ** 9, 10 ** 12 + 1,
                      r.randint(0, 10 ** r.randint(1, 18))])
        return sign * v
    # decimal digits
    if r.random() < .35:
        # ties and carries at every precision
        k = r.randint(0, 6)
        base = r.choice([0, 1, 2, 9, 12, 99, 1234, 999999, r.randint(0, 10 ** 6)])
        frac = "".join(r.choice("0123456789") for _ in range(k)) if r.random() < .5 else "9" * k
        s = f"{base}.{frac}" + r.choice(["5", "5", "50", "500", "49999", "50001", "4", "6"])
    else:
        s = str(r.randint(0, 10 ** r.randint(0, 9))) + "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 8)))
    if r.random() < .04:
        # more digits than the 21 significant ones of the default
        n = r.choice([r.randint(20, 40), r.randint(20, 40), r.randint(20, 400)])
        s = str(r.randint(1, 9)) + "".join(r.choice("0123456789") for _ in range(n - 1))
        k = r.choice([n, r.randint(1, min(n, 300)), r.randint(1, 16)])
        y = r.random()
        if y < .3 and n < 300:
            return int(s) * sign
        if y < .5 and n < 300:
            return float(s + "e" + str(r.choice([0, -n, -n // 2]))) * sign
        return Decimal(s[:k] + ("." + s[k:] if k < n else "")) * sign
    if r.random() < .06:
        s = "0." + "0" * r.randint(1, 8) + str(r.randint(1, 999))
    d = Decimal(s) * sign
    if x < .65:
        return float(d)
    if r.random() < .1:
        d = Decimal(sign * r.randint(1, 999)).scaleb(r.randint(-6, 9))     # exponent notation
    return d


def options(r):
    o = {}
    if r.random() < .12:
        return o
    x = r.random()
    if x < .2:
        o["style"] = "percent"
    elif x < .5:
        o["style"] = "currency"
        o["currency"] = r.choice(CURR)
        if r.random() < .5:
            o["currencyDisplay"] = r.choice(["symbol", "code", "code", "name"])
    elif x < .6:
        o["style"] = "decimal"
    if r.random() < .25:
        o["useGrouping"] = r.choice([True, False, False])
    if r.random() < .2:
        o["minimumIntegerDigits"] = r.choice([1, 2, 3, 4, 5, 7, 8])
    if r.random() < .3:
        a, b = r.choice([0, 1, 2, 3, 4, 5, 7]), r.choice([0, 1, 2, 3, 4, 5, 7])
        o["minimumFractionDigits"] = min(a, b)
        o["maximumFractionDigits"] = max(a, b)
        y = r.random()
        if y < .35:
            del o["minimumFractionDigits"]
        elif y < .7:
            del o["maximumFractionDigits"]
    if r.random() < .2:
        a, b = r.choice([1, 2, 3, 4, 5, 8, 12, 21]), r.choice([1, 2, 3, 4, 5, 8])
        o["minimumSignificantDigits"] = min(a, b)
        o["maximumSignificantDigits"] = max(a, b)
        y = r.random()
        if y < .3:
            del o["minimumSignificantDigits"]
        elif y < .6:
            del o["maximumSignificantDigits"]
    if r.random() < .1:
        o["type"] = r.choice(["ordinal", "cardinal"])
    return o


def gen(r, i, tier):
    return (value(r), r.choice(LOCALES), options(r), r.getrandbits(30))


def outside(v, o):
    """The cases Babel's own digit arithmetic gets wrong (see ASSUMPTIONS)."""
    x, _ = RN.exact(v)
    x = abs(x) * (100 if o.get("style") == "percent" else 1)
    if "minimumSignificantDigits" in o or "maximumSignificantDigits" in o:
        if x == 0:
            return True
        maxs = o.get("maximumSignificantDigits") or max(21, o["minimumSignificantDigits"])
        if x < 1:
            e = 0
            while Fraction(10) ** e > x:
                e -= 1
            f = maxs - 1 - e
            n = RN.half_even(x * Fraction(10) ** f)
            if n >= 10 ** maxs:
                return True
    d = v if isinstance(v, Decimal) else Decimal(repr(v) if isinstance(v, float) else v)
    if len(d.as_tuple().digits) > 4500 or d and d.adjusted() > 4500:
        return True
    return False


def run(case, obs):
    import random
    v, ln, o, seed = case
    if outside(v, o):
        obs.count("outside_domain")
        return
    r = random.Random(seed)
    L = loc(ln)
    symbol = cprec = None
    if o.get("style") == "currency":
        cur = o["currency"]
        symbol = babel.numbers.get_currency_symbol(cur, L)
        cprec = babel.numbers.get_currency_precision(cur)
    want = RN.format_number(v, L, o, symbol, cprec)
    obs.count(type(v).__name__)
    for k in o:
        obs.count("option:" + k)
    x = RN.exact(v)[0]
    if (abs(x) * 1000) % 1 == Fraction(1, 2) or "maximumFractionDigits" in o and (abs(x) * 10 ** o["maximumFractionDigits"]) % 1 == Fraction(1, 2):
        obs.count("ties")
    obs.count("more_than_28_digits", max(len(str(v).strip("-").replace(".", "")), abs(Decimal(repr(v) if isinstance(v, float) else v).adjusted()) + 1) > 28)
    # the application's decimal context is for its own arithmetic
    ctx = decimal.Context(prec=28)
    if r.random() < .3:
        ctx = decimal.Context(prec=r.choice([1, 3, 9, 50]), rounding=r.choice(ROUNDINGS), Emax=r.choice([3, 999999]), Emin=r.choice([-3, -999999]),
                              traps=r.choice([[], [decimal.Inexact], [decimal.FloatOperation, decimal.Rounded], [decimal.InvalidOperation]]))
        obs.count("contexts")
    with warnings.catch_warnings(), decimal.localcontext(ctx) as here:
        warnings.simplefilter("ignore")
        before = (here.prec, here.rounding, here.Emin, here.Emax, here.traps)
        n = fluent_number(v, **o)
        got = n.format(L)
        obs.count("formats")
        obs.eq(got, want, "number formatted wrongly", value=v, locale=ln, options=o)
        obs.eq(n.format(L), want, "formatting the same number again differs", value=v, locale=ln, options=o)
        # another number in between must not matter
        fluent_number(7, style="percent", minimumFractionDigits=3, useGrouping=False).format(L)
        obs.eq(fluent_number(v, **o).format(L), want, "formatting depends on what was formatted before", value=v, locale=ln, options=o)
        obs.count("formats", 2)
        # as a wrapped argument of a bundle, and through NUMBER() with the options split
        b = FluentBundle([ln], use_isolating=False)
        keys = [k for k in o if k != "type"]
        r.shuffle(keys)
        cut = r.randint(0, len(keys))
        dev = {k: o[k] for k in keys[:cut]}
        ftl = {k: o[k] for k in keys[cut:]}
        if "currency" in ftl and dev.get("style") == "currency":
            dev["currency"] = ftl.pop("currency")
        if ftl.get("style") == "currency" and "currency" not in ftl and False:
            pass
        if any(isinstance(x, bool) for x in ftl.values()):
            ftl = {k: int(x) if isinstance(x, bool) else x for k, x in ftl.items()}
        args = "".join(f", {k}: " + (f'"{x}"' if isinstance(x, str) else str(x)) for k, x in ftl.items())
        lit = None
        if isinstance(v, int):
            lit = str(v)
        elif isinstance(v, float) and "e" not in repr(v):
            lit = repr(v)
        src = f"p = {{ $n }}\nq = {{ NUMBER($n{args}) }}\nm = [{{ NUMBER($n{args}) }}]\n"
        if lit:
            src += f"l = {{ NUMBER({lit}{''.join(f', {k}: ' + (chr(34) + x + chr(34) if isinstance(x, str) else str(int(x))) for k, x in o.items() if k != 'type')}) }}\n"
        b.add_resource(FluentResource(src))
        def fmt(m, a):
            t, e = b.format_pattern(b.get_message(m).value, a)
            obs.check(not e, "formatting a number reports errors", errors=repr(e), message=m, value=v, options=o)
            return t
        obs.eq(fmt("p", {"n": fluent_number(v, **o)}), want, "wrapped argument formatted wrongly", value=v, locale=ln, options=o)
        devn = fluent_number(v, **dev) if dev else v
        obs.eq(fmt("q", {"n": devn}), want, "NUMBER() formats wrongly", value=v, locale=ln, developer=dev, message=ftl)
        obs.eq(fmt("m", {"n": devn}), "[" + want + "]", "NUMBER() in text formats wrongly", value=v, locale=ln, developer=dev, message=ftl)
        obs.count("through_ftl", 2)
        obs.count("formats", 3)
        if lit:
            obs.eq(fmt("l", None), want, "a number literal formats wrongly", literal=lit, locale=ln, options=o)
            obs.count("formats")
        plain = RN.format_number(v, L, {}, None, None)
        if not outside(v, {}):
            obs.eq(fmt("p", {"n": v}), plain, "plain number formatted wrongly", value=v, locale=ln)
        now = decimal.getcontext()
        obs.check((now.prec, now.rounding, now.Emin, now.Emax, now.traps) == before, "formatting changed the decimal context", value=v, locale=ln)
    obs.nontrivial((repr(v), ln, tuple(sorted(o.items()))))
    obs.state("option_sets", tuple(sorted(k for k in o)))
    obs.state("locales", ln)
    obs.sample({"value": repr(v), "locale": ln, "options": o, "text": want})
