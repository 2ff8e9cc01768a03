"""Reference evaluator for the Fluent semantics over the JSON tree.

Values:  str | Num(value, opts) | Date(value, opts) | Nil(name) | Obj(type)
Errors:  (class name, text) tuples, or Raised(token) for a function's own exception.
"""
from decimal import Decimal
import babel, babel.dates, babel.numbers, datetime
from . import number as RN

FSI, PDI = "\u2068", "\u2069"
MAX_PARTS, MAX_LEN = 1000, 2500


class Abort(Exception):
    """Too many parts or characters: the whole format call is given up."""


class Num:
    def __init__(self, v, **o):
        self.v, self.o = v, o


class Date:
    def __init__(self, v, **o):
        self.v, self.o = v, o


class Nil:
    def __init__(self, name=None):
        self.name = name


class Obj:
    """An argument of an unsupported type."""
    def __init__(self, x):
        self.x = x


class Raised(Exception):
    """A reference function fails with this error tuple."""
    def __init__(self, *err):
        self.err = err


def scan_string(v):
    out, i = [], 0
    while i < len(v):
        if v[i] != "\\":
            out.append(v[i])
            i += 1
        elif v[i + 1] in '\\"':
            out.append(v[i + 1])
            i += 2
        else:
            w = 4 if v[i + 1] == "u" else 6
            cp = int(v[i + 2:i + 2 + w], 16)
            out.append("\ufffd" if cp > 0x10ffff or 0xd800 <= cp <= 0xdfff else chr(cp))
            i += 2 + w
    return "".join(out)


def literal(e):
    """Text of an element that needs no evaluation, or None."""
    if e["type"] == "TextElement":
        return e["value"]
    while e["type"] == "Placeable":
        e = e["expression"]
    return scan_string(e["value"]) if e["type"] == "StringLiteral" else None


def NUMBER(pos, named):
    x, = pos
    if isinstance(x, Nil):
        return x
    if not isinstance(x, Num):
        raise Raised("TypeError", None)
    o = dict(x.o)
    for k, v in named.items():
        if k not in NUMOPT:
            raise Raised("TypeError", None)
        o[k] = v.v if isinstance(v, Num) else v
        if k in NUMVAL and o[k] not in NUMVAL[k]:
            raise Raised("ValueError", None)
    if o.get("style") == "currency" and o.get("currency") is None:
        raise Raised("ValueError", None)
    return Num(x.v, **o)


NUMVAL = {"style": ("decimal", "percent", "currency"), "type": ("ordinal", "cardinal"), "currencyDisplay": ("symbol", "code", "name")}
NUMOPT = ("style", "type", "currency", "currencyDisplay", "useGrouping", "minimumIntegerDigits", "minimumFractionDigits",
          "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits")


def DATETIME(pos, named):
    x, = pos
    if isinstance(x, Nil):
        return x
    if not isinstance(x, Date):
        raise Raised("TypeError", None)
    o = dict(x.o)
    if "timeStyle" in named and not isinstance(x.v, datetime.datetime):
        raise Raised("TypeError", None)
    for k, v in named.items():
        v = v.v if isinstance(v, Num) else v
        if k in ("dateStyle", "timeStyle") and v not in ("full", "long", "medium", "short", None):
            raise Raised("ValueError", None)
        o[k] = v
    return Date(x.v, **o)


BUILTIN = {"NUMBER": NUMBER, "DATETIME": DATETIME}


class Bundle:
    def __init__(self, locale, isolating=True, functions=None):
        self.L = babel.Locale.parse(locale.replace("-", "_"))
        self.iso = isolating
        self.fn = dict(BUILTIN, **(functions or {}))
        self.messages, self.terms = {}, {}
        self.plural = self.L.plural_form
        self.ordinal = self.L.ordinal_form

    def add(self, tree, overrides=False):
        for e in tree["body"]:
            if e["type"] in ("Message", "Term"):
                m = self.messages if e["type"] == "Message" else self.terms
                if e["id"]["name"] not in m or overrides:
                    m[e["id"]["name"]] = e

    def format(self, pattern, args=None, limits=True):
        """-> text, errors, stats"""
        c = Call(self, args or {}, limits)
        try:
            text = c.pattern(pattern)
            if isinstance(text, Nil):
                text = c.plain(text)
        except Abort as a:
            c.errors.append(("ValueError", str(a)))
            text = "{???}"
        return text, c.errors, c


class Call:
    def __init__(self, b, args, limits):
        self.b = b
        self.args, self.report = args, True
        self.errors = []
        self.active = []
        self.parts = 0
        self.limits = limits
        self.max_parts = MAX_PARTS if limits is True else limits or 0
        self.calls = []           # function calls made: (name, positional, named)
        self.marks = 0            # isolated interpolations
        self.selected = []        # (selector kind, chosen key, default?)
        self.depth = 0

    def err(self, cls, text):
        self.errors.append((cls, text))

    # ---- values to text
    def text(self, v):
        s = self.plain(v)
        if len(s) > MAX_LEN and self.limits:
            raise Abort("Too many characters in placeable")
        return s

    def plain(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Nil):
            return v.name or "???"
        if isinstance(v, Num):
            return self.number(v)
        if isinstance(v, Date):
            return self.date(v)
        raise AssertionError(v)

    def number(self, n):
        symbol = prec = None
        if n.o.get("style") == "currency":
            symbol = babel.numbers.get_currency_symbol(n.o["currency"], self.b.L)
            prec = babel.numbers.get_currency_precision(n.o["currency"])
        return RN.format_number(n.v, self.b.L, n.o, symbol, prec)

    def date(self, d):
        v, L = d.v, self.b.L
        if isinstance(v, datetime.datetime):
            if v.tzinfo is None:
                v = v.replace(tzinfo=datetime.timezone.utc)
            if d.o.get("timeZone"):
                v = v.astimezone(babel.dates.get_timezone(d.o["timeZone"]))
        ds, ts = d.o.get("dateStyle"), d.o.get("timeStyle")
        if ds is None and ts is None:
            ds = "medium"
        parts = []
        if ts is None:
            return babel.dates.format_date(v, ds, locale=L)
        if ds is None:
            return babel.dates.format_time(v, ts, locale=L)
        return str(babel.dates.get_datetime_format(ds, locale=L)).replace("'", "").replace(
            "{0}", babel.dates.format_time(v, ts, tzinfo=None, locale=L)).replace("{1}", babel.dates.format_date(v, ds, locale=L))

    # ---- patterns
    def pattern(self, p):
        els = p["elements"]
        lits = [literal(e) for e in els]
        if None not in lits:
            return "".join(lits)
        key = id(p)
        if key in self.active:
            self.err("FluentCyclicReferenceError", "Cyclic reference")
            return Nil()
        single = len(els) == 1
        if self.limits and self.parts + (1 if single else len(els)) > self.max_parts:
            raise Abort("Too many parts in message (> 1000), aborting.")
        self.active.append(key)
        self.depth = max(self.depth, len(self.active))
        if single:
            out = self.text(self.expr(els[0]["expression"]))
            self.parts += 1
        else:
            out = ""
            for e, lit in zip(els, lits):
                out += lit if lit is not None else self.placeable(e)
            self.parts += len(els)
        self.active.pop()
        return out

    def placeable(self, e):
        s = self.text(self.expr(e["expression"]))
        if not self.b.iso:
            return s
        self.marks += 1
        return FSI + s + PDI

    # ---- expressions
    def expr(self, e):
        return getattr(self, e["type"])(e)

    def Placeable(self, e):
        lit = literal(e)
        return lit if lit is not None else self.placeable(e)

    def StringLiteral(self, e):
        return scan_string(e["value"])

    def NumberLiteral(self, e):
        return Num(float(e["value"]) if "." in e["value"] else int(e["value"]))

    def VariableReference(self, e):
        n = e["id"]["name"]
        if n not in self.args:
            if self.report:
                self.err("FluentReferenceError", f"Unknown external: {n}")
            return Nil(n)
        v = self.args[n]
        if isinstance(v, Obj):
            self.err("TypeError", f"Unsupported external type: {n}, {type(v.x)}")
            return Nil(n)
        return v

    def MessageReference(self, e):
        return self.entry(e, e["id"]["name"], "", self.b.messages, "message")

    def TermReference(self, e):
        n = "-" + e["id"]["name"]
        full = n + ("." + e["attribute"]["name"] if e["attribute"] else "")
        args = {}
        if e["arguments"]:
            if e["arguments"]["positional"]:
                self.err("FluentFormatError", f"Ignored positional arguments passed to term '{full}'")
            args = {a["name"]["name"]: self.expr(a["value"]) for a in e["arguments"]["named"]}
        saved = self.args, self.report
        self.args, self.report = args, False
        v = self.entry(e, e["id"]["name"], "-", self.b.terms, "term")
        self.args, self.report = saved
        return v

    def entry(self, e, name, sigil, store, kind):
        full = sigil + name
        attr = e["attribute"] and e["attribute"]["name"]
        if attr:
            full += "." + attr
        ent = store.get(name)
        pat = None
        if ent is not None:
            if not attr:
                if ent["value"] is None:
                    self.err("FluentReferenceError", f"No pattern: {full}")
                    return Nil(full)
                pat = ent["value"]
            else:
                for a in ent["attributes"]:
                    if a["id"]["name"] == attr:
                        pat = a["value"]
        if pat is None:
            self.err("FluentReferenceError", f"Unknown {'attribute' if attr else kind}: {full}")
            return Nil("{" + full + "}")
        return self.pattern(pat)

    def FunctionReference(self, e):
        pos = [self.expr(a) for a in e["arguments"]["positional"]]
        named = {a["name"]["name"]: self.expr(a["value"]) for a in e["arguments"]["named"]}
        n = e["id"]["name"]
        f = self.b.fn.get(n)
        if f is None:
            self.err("FluentReferenceError", f"Unknown function: {n}")
            return Nil(n + "()")
        self.calls.append((n, [image(x) for x in pos], {k: image(x) for k, x in named.items()}))
        try:
            if f in (NUMBER, DATETIME) and len(pos) != 1:
                raise Raised("TypeError", None)
            return f(pos, named)
        except Raised as r:
            self.errors.append(r.err)
            return Nil(n + "()")

    def SelectExpression(self, e):
        s = self.expr(e["selector"])
        chosen = None
        for v in e["variants"]:
            if self.matches(s, v["key"]):
                chosen = v
                break
        if chosen is None:
            chosen = [v for v in e["variants"] if v["default"]][0]
            self.selected.append((type(s).__name__, None))
        else:
            self.selected.append((type(s).__name__, chosen["key"]["type"]))
        return self.pattern(chosen["value"])

    def matches(self, s, key):
        if key["type"] == "NumberLiteral":
            if not isinstance(s, Num):
                return False
            k = float(key["value"]) if "." in key["value"] else int(key["value"])
            return s.v == k
        if isinstance(s, str):
            return s == key["name"]
        if isinstance(s, Num):
            form = self.b.ordinal if s.o.get("type") == "ordinal" else self.b.plural
            return form(s.v) == key["name"]
        return False


def image(v):
    """Comparable picture of a value, for logs of function calls."""
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, Num):
        t = "int" if isinstance(v.v, int) else "Decimal" if isinstance(v.v, Decimal) else "float"
        return ("number", t, str(v.v + 0) if t != "Decimal" else str(v.v), tuple(sorted((k, str(x)) for k, x in v.o.items())))
    if isinstance(v, Date):
        return ("date", v.v.isoformat(), tuple(sorted((k, str(x)) for k, x in v.o.items())))
    if isinstance(v, Nil):
        return ("none", v.name)
    return ("other", type(v).__name__)
