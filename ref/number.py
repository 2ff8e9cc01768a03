"""Reference number formatting: exact digit arithmetic on strings, CLDR pattern
strings and symbols as published by Babel.  No Babel formatting code is used."""
from decimal import Decimal
from fractions import Fraction

STYLE = {"decimal": lambda L: L.decimal_formats[None].pattern,
         "percent": lambda L: L.percent_formats[None].pattern,
         "currency": lambda L: L.currency_formats["standard"].pattern}


def exact(v):
    """The number shown: for a float, its shortest decimal notation."""
    if isinstance(v, Decimal):
        return Fraction(v), v.is_signed()
    if isinstance(v, float):
        d = Decimal(float.__repr__(float(v)))
        return Fraction(d), d.is_signed()
    return Fraction(int(v)), int(v) < 0


def half_even(x):
    """Round a non-negative Fraction to an integer, ties to even."""
    n, d = x.numerator, x.denominator
    q, r = divmod(n, d)
    if 2 * r > d or 2 * r == d and q % 2:
        q += 1
    return q


def fixed(x, minf, maxf):
    """x >= 0 with between minf and maxf fraction digits."""
    n = half_even(x * 10 ** maxf)
    s = str(n).rjust(maxf + 1, "0")
    ip, fp = (s[:-maxf], s[-maxf:]) if maxf else (s, "")
    while len(fp) > minf and fp.endswith("0"):
        fp = fp[:-1]
    if len(fp) < minf and maxf >= minf:
        fp = fp.ljust(minf, "0")
    return ip, fp


def significant(x, mins, maxs):
    if x == 0:
        return "0", "0" * (mins - 1)
    # decimal exponent of the leading digit
    e = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10) ** e > x:
        e -= 1
    while Fraction(10) ** (e + 1) <= x:
        e += 1
    f = maxs - 1 - e           # fraction digits kept
    n = half_even(x * Fraction(10) ** f)
    digits = str(n)
    if f <= 0:
        return digits + "0" * -f, ""
    digits = digits.rjust(f + 1, "0")
    ip, fp = digits[:-f], digits[-f:]
    # drop trailing zeros beyond the minimum of significant digits
    def sig():
        t = (ip + fp).lstrip("0")
        return len(t)
    while fp.endswith("0") and sig() > mins:
        fp = fp[:-1]
    return ip, fp


def split_pattern(p):
    """-> prefix, number part, suffix of the positive pattern, same of the negative."""
    def parts(q):
        i = 0
        while i < len(q) and q[i] not in "#0,.@":
            if q[i] == "'":
                i = q.index("'", i + 1)
            i += 1
        j = i
        while j < len(q) and q[j] in "#0,.@":
            j += 1
        return q[:i], q[i:j], q[j:]
    if ";" in p:
        a, b = p.split(";", 1)
        pos, neg = parts(a), parts(b)
        return pos, (neg[0], pos[1], neg[2])
    pos = parts(p)
    return pos, ("-" + pos[0], pos[1], pos[2])


def default_digits(num):
    ip, _, fp = num.partition(".")
    return ip.count("0"), fp.count("0"), len(fp)


def groups(num):
    ip = num.partition(".")[0]
    g = ip.split(",")
    if len(g) == 1:
        return None
    first = len(g[-1])
    return first, (len(g[-2]) if len(g) > 2 else first)


def format_number(v, L, o, symbol=None, cprec=None):
    """o: options dict; symbol/cprec: currency symbol and digits (CLDR data)."""
    style = o.get("style") or "decimal"
    pos, neg = split_pattern(STYLE[style](L))
    x, minus = exact(v)
    if style == "percent":
        x *= 100
    x = abs(x)
    prefix, num, suffix = neg if minus else pos
    minint, minf, maxf = default_digits(num)
    mins, maxs = o.get("minimumSignificantDigits"), o.get("maximumSignificantDigits")
    if mins is not None or maxs is not None:
        mins = 1 if mins is None else int(mins)
        maxs = max(21, mins) if maxs is None else int(maxs)
        ip, fp = significant(x, mins, maxs)
    else:
        if style == "currency":
            minf = maxf = cprec
        a, b = o.get("minimumFractionDigits"), o.get("maximumFractionDigits")
        if a is not None and b is not None:
            minf, maxf = int(a), int(b)
        elif a is not None:
            minf, maxf = int(a), max(int(a), maxf)
        elif b is not None:
            minf, maxf = min(minf, int(b)), int(b)
        if o.get("minimumIntegerDigits") is not None:
            minint = int(o["minimumIntegerDigits"])
        ip, fp = fixed(x, minf, maxf)
        ip = ip.rjust(minint, "0")
        if minint == 0 and ip == "0" and fp:
            ip = "0"
    sym = L.number_symbols.get("latn") or {}
    g = groups(num)
    grouping = o.get("useGrouping")
    if g and (grouping is None or grouping):
        out, size = [], g[0]
        while len(ip) > size:
            out.insert(0, ip[-size:])
            ip = ip[:-size]
            size = g[1]
        ip = sym.get("group", ",").join([ip] + out)
    text = ip + (sym.get("decimal", ".") + fp if fp else "")
    def deco(t):
        if style == "currency":
            cur = str(o["currency"]).upper() if o.get("currencyDisplay") == "code" else symbol
            t = t.replace("¤", cur)
        # literals quoted in the pattern
        res, i = "", 0
        while i < len(t):
            if t[i] == "'":
                j = t.index("'", i + 1)
                res += t[i + 1:j] or "'"
                i = j + 1
            else:
                res += t[i]
                i += 1
        return res
    return deco(prefix) + text + deco(suffix)
