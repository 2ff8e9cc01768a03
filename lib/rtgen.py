"""Random worlds for the runtime checks: a locale, functions, resources whose
references mostly resolve, and argument sets, with both the repository's and
the reference's picture of each argument."""
import datetime, json, random
from decimal import Decimal
from . import ftlgen as G
from .ftlgen import N, Id
from ref import resolver as RR

PLOCALES = ["en-US", "de", "fr", "ar", "ru", "pl", "cs", "ja", "lt", "cy", "ga", "sl", "he", "lv", "pt", "mt", "gd", "br", "hi", "sv", "it", "uk"]
VARS = ["n", "name", "x", "y", "count", "d", "missing", "obj", "gone"]
MSGS = ["m0", "m1", "m2", "m3", "m4", "m5", "both", "nova"]
TERMS = ["t0", "t1", "t2", "t3", "both"]
ATTRS = ["a0", "a1", "title"]
CATS = ["zero", "one", "two", "few", "many", "other"]
WORDS = ["one", "other", "few", "foo", "bar", "True", "m0", "masculine"]
UTC = datetime.timezone.utc


# ---- argument descriptions: (kind, payload).  JSON/pickle-able.
class Text(str):
    pass


class Count(int):
    pass


class Ratio(float):
    pass


class Money(Decimal):
    pass


class Day(datetime.date):
    pass


class Moment(datetime.datetime):
    pass


SUB = {"str": Text, "int": Count, "float": Ratio, "dec": Money, "date": Day, "dt": Moment}


def arg(r):
    a = arg1(r)
    # an application's own class of text, numbers or dates
    return ("sub", a) if a[0] in SUB and r.random() < .06 else a


def arg1(r):
    x = r.random()
    if x < .28:
        return ("str", r.choice(WORDS + ["", " ", "1", "1.0", "{ $n }", "\u2068x\u2069", "漢字😀", "a\nb", "-t0", "\\u0041", "None", "???", "<b>"]))
    if x < .46:
        return ("int", r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 21, 22, 25, 71, 100, 101, 111, 1000, 1234567, -1, -5, -1000000]))
    if x < .56:
        return ("float", r.choice([0.0, 0.5, 1.0, 1.5, 2.0, 3.25, 10.0, -1.5, 1234.5, 0.125, 2.5, 100000.0, 1e3]))
    if x < .66:
        return ("dec", r.choice(["0", "1", "1.0", "1.50", "2", "2.00", "0.5", "-1", "3.25", "1000", "1234.50", "1E+3", "0.0"]))
    if x < .70:
        return ("bool", r.random() < .5)
    if x < .78:
        return ("num", (arg_num(r), numopts(r)))
    if x < .84:
        return ("date", (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28)))
    if x < .89:
        return ("dt", (r.randint(1900, 2100), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)))
    if x < .92:
        return ("fnone", r.choice([None, "gone", "x y"]))
    return ("bad", r.choice(["none", "list", "dict", "bytes", "object", "tuple", "complex", "type"]))


def arg_num(r):
    while True:
        a = arg(r)
        if a[0] in ("int", "float", "dec"):
            return a


def numopts(r):
    return r.choice([{}, {"minimumFractionDigits": 2}, {"style": "percent"}, {"type": "ordinal"}, {"type": "ordinal", "minimumIntegerDigits": 2},
                     {"useGrouping": False}, {"style": "currency", "currency": "EUR"}, {"maximumFractionDigits": 0},
                     {"style": "currency", "currency": "JPY", "currencyDisplay": "code"}])


BAD = {"none": None, "list": [1, "a"], "dict": {"a": 1}, "bytes": b"x", "object": object(), "tuple": (1,), "complex": 1j, "type": int}


def native(a):
    """What is passed to the repository."""
    from fluent.runtime.types import fluent_number, FluentNone
    k, v = a
    if k == "sub":
        return SUB[v[0]](*v[1]) if v[0] in ("date", "dt") else SUB[v[0]](v[1])
    if k in ("str", "int", "float", "bool"):
        return v
    if k == "dec":
        return Decimal(v)
    if k == "num":
        return fluent_number(native(v[0]), **v[1])
    if k == "date":
        return datetime.date(*v)
    if k == "dt":
        return datetime.datetime(*v)
    if k == "fnone":
        return FluentNone(v)
    return BAD[v]


def refarg(a):
    k, v = a
    if k == "sub":
        return refarg(v)
    if k == "str":
        return v
    if k in ("int", "float"):
        return RR.Num(v)
    if k == "bool":
        return RR.Num(int(v))
    if k == "dec":
        return RR.Num(Decimal(v))
    if k == "num":
        return RR.Num(refarg(v[0]).v, **v[1])
    if k == "date":
        return RR.Date(datetime.date(*v))
    if k == "dt":
        return RR.Date(datetime.datetime(*v))
    if k == "fnone":
        return RR.Nil(v)
    return RR.Obj(BAD[v])


# ---- custom functions: name -> (repository side maker, reference side)
class Boom(Exception):
    pass


def fn_repo(log):
    from fluent.runtime.types import FluentNumber, FluentDateType, FluentNone, fluent_number, FluentInt

    def img(v):
        if isinstance(v, FluentNone):
            return ("none", v.name)
        if isinstance(v, FluentNumber):
            t = "int" if isinstance(v, int) else "Decimal" if isinstance(v, Decimal) else "float"
            import attr
            o = {k: x for k, x in attr.asdict(v.options).items() if x != getattr(type(v.options)(), k)}
            s = str(int(v)) if t == "int" else repr(float(v)) if t == "float" else str(Decimal(v))
            return ("number", t, s, tuple(sorted((k, str(x)) for k, x in o.items())))
        if isinstance(v, str):
            return ("str", str(v))
        if isinstance(v, FluentDateType):
            import attr
            o = {k: x for k, x in attr.asdict(v.options).items() if x is not None}
            return ("date", v.isoformat(), tuple(sorted((k, str(x)) for k, x in o.items())))
        return ("other", type(v).__name__)

    def wrap(name, f):
        def g(*a, **k):
            log.append((name, [img(x) for x in a], {n: img(x) for n, x in k.items()}))
            return f(*a, **k)
        return g

    def boom(*a, **k):
        raise Boom("boom")

    def keyerr(*a, **k):
        return {}["nope"]

    def lookup(*a, **k):
        raise LookupError("-t0")

    def recur(*a, **k):
        raise RecursionError("deep")

    def strict(a, b="-"):
        return f"{b}"

    def osname():
        return "linux"

    F = {
        "ID": lambda x: x,
        "LAST": lambda *a, **k: a[-1] if a else FluentNone(),
        "COUNT": lambda *a, **k: FluentInt(len(a) + 10 * len(k)),
        "DESC": lambda *a, **k: "|".join(desc(img(x)) for x in a) + "".join(f"<{n}={desc(img(x))}>" for n, x in k.items()),
        "NIL": lambda *a: FluentNone(),
        "NILX": lambda *a: FluentNone("some thing"),
        "PCT": lambda x: fluent_number(x, style="percent"),
        "BOOM": boom, "KEYERR": keyerr, "LOOKUP": lookup, "RECUR": recur, "STRICT": strict, "OS": osname,
    }
    return {n: wrap(n, f) for n, f in F.items()}


def desc(i):
    return i[0] + ":" + (str(i[2]) if i[0] == "number" else str(i[1]))


def fn_ref():
    def boom(p, n):
        raise RR.Raised("Boom", "boom")

    def keyerr(p, n):
        raise RR.Raised("KeyError", "'nope'")

    def lookup(p, n):
        raise RR.Raised("LookupError", "-t0")

    def recur(p, n):
        raise RR.Raised("RecursionError", "deep")

    def strict(p, n):
        if len(p) == 1 and set(n) <= {"b"} or len(p) == 2 and not n:
            b = p[1] if len(p) == 2 else n.get("b", "-")
            if isinstance(b, str):
                return b
            i = RR.image(b)
            return i[2] if i[0] == "number" else i[1]
        raise RR.Raised("TypeError", None)

    def ident(p, n):
        if len(p) != 1 or n:
            raise RR.Raised("TypeError", None)
        return p[0]

    def pct(p, n):
        if len(p) != 1 or n:
            raise RR.Raised("TypeError", None)
        return RR.NUMBER(p, {"style": "percent"})

    def noarg(v):
        def f(p, n):
            if n:
                raise RR.Raised("TypeError", None)
            return v
        return f

    def osname(p, n):
        if p or n:
            raise RR.Raised("TypeError", None)
        return "linux"

    return {
        "ID": ident,
        "LAST": lambda p, n: p[-1] if p else RR.Nil(),
        "COUNT": lambda p, n: RR.Num(len(p) + 10 * len(n)),
        "DESC": lambda p, n: "|".join(desc(RR.image(x)) for x in p) + "".join(f"<{k}={desc(RR.image(x))}>" for k, x in n.items()),
        "NIL": noarg(RR.Nil()), "NILX": noarg(RR.Nil("some thing")),
        "PCT": pct, "BOOM": boom, "KEYERR": keyerr, "LOOKUP": lookup, "RECUR": recur, "STRICT": strict, "OS": osname,
    }


FNAMES = ["ID", "LAST", "COUNT", "DESC", "NIL", "NILX", "PCT", "BOOM", "KEYERR", "LOOKUP", "RECUR", "OS"]


class World:
    """Generates entries that refer to each other."""
    def __init__(self, r, cyclic=.1, functions=True, failing=.5, dates=True, isolate=None, nodup=False):
        self.r = r
        self.g = G.Gen(r, size=.3, odd=r.random() < .3, big=0)
        self.functions = functions
        self.cyclic = cyclic
        self.level = 0
        self.nodup = nodup

    def text(self, first, last):
        r = self.r
        s = r.choice(["hello", "x ", " y", "a b", ", ", "!", "(", ")", "漢", "é", "\u2068", "{", "tail", "-", "1"])
        if r.random() < .25:
            s = self.g.raw(r.randint(1, 6), "{}\n\r")
        s = s.replace("{", "")
        if first:
            s = s.lstrip(" ")
            if s[:1] in ("", ".", "[", "*", "}", "#"):
                s = "w" + s
        if last:
            s = s.rstrip(" ") or "z"
        return s or "q"

    def msgname(self):
        r = self.r
        if r.random() < self.cyclic:
            return r.choice(MSGS)
        # mostly refer to later entries, so that references are acyclic
        c = [m for m in MSGS if MSGS.index(m) > self.level]
        return r.choice(c or ["nova"]) if r.random() < .93 else "nowhere"

    def termname(self):
        r = self.r
        if self.in_term is not None and r.random() >= self.cyclic:
            c = [t for t in TERMS if TERMS.index(t) > self.in_term]
            if not c:
                return "unknown"
            return r.choice(c)
        return r.choice(TERMS) if r.random() < .95 else "unknown"

    in_term = None

    def args(self, depth, names=None, inv=False):
        r = self.r
        pos = [self.inline(depth - 1, arg=True) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        named = []
        for n in r.sample(names or ["a", "b", "n", "name", "style"], r.choice([0, 0, 1, 1, 2])):
            named.append(N("NamedArgument", name=Id(n), value=self.lit()))
        return N("CallArguments", positional=pos, named=named)

    def lit(self):
        r = self.r
        if r.random() < .5:
            return N("StringLiteral", value=r.choice(["foo", "one", "", "x y", "\\u00e9", "\\\"", "{", "}", " ", "percent", "masculine", "\\U01F602"]))
        return N("NumberLiteral", value=r.choice(["0", "1", "2", "5", "1.5", "01", "-1", "1.0", "21", "1000", "1234.5", "2.0", "-0.5"]))

    def number_call(self, depth):
        r = self.r
        named = []
        x = r.random()
        if x < .25:
            named = [("minimumFractionDigits", N("NumberLiteral", value=r.choice(["0", "1", "2"])))]
        elif x < .4:
            named = [("style", N("StringLiteral", value=r.choice(["percent", "decimal", "bogus", "currency"])))]
        elif x < .6:
            named = [("type", N("StringLiteral", value=r.choice(["ordinal", "ordinal", "cardinal", "x"])))]
        elif x < .7:
            named = [("useGrouping", N("NumberLiteral", value=r.choice(["0", "1"])))]
        elif x < .75:
            named = [("bogus", self.lit())]
        pos = [self.inline(0, arg=True)]
        if r.random() < .05:
            pos = pos * r.choice([0, 2])
        return N("FunctionReference", id=Id("NUMBER"),
                 arguments=N("CallArguments", positional=pos, named=[N("NamedArgument", name=Id(n), value=v) for n, v in named]))

    def date_call(self):
        r = self.r
        named = []
        if r.random() < .4:
            named.append(("dateStyle", N("StringLiteral", value=r.choice(["full", "long", "medium", "short", "bogus"]))))
        if r.random() < .2:
            named.append(("timeStyle", N("StringLiteral", value=r.choice(["long", "medium", "short", "bad"]))))
        return N("FunctionReference", id=Id("DATETIME"),
                 arguments=N("CallArguments", positional=[N("VariableReference", id=Id(r.choice(["d", "x", "gone", "n"])))],
                             named=[N("NamedArgument", name=Id(n), value=v) for n, v in named]))

    def call(self, depth):
        r = self.r
        x = r.random()
        if x < .35 or not self.functions:
            return self.number_call(depth)
        if x < .45:
            return self.date_call()
        n = r.choice(FNAMES) if r.random() < .95 else r.choice(["UNKNOWN", "STRICTER"])
        a = self.args(depth)
        if n == "OS":
            a = N("CallArguments", positional=[], named=[])
        if n in ("ID", "PCT") and r.random() < .9:
            a = N("CallArguments", positional=[self.inline(depth - 1, arg=True)], named=[])
        return N("FunctionReference", id=Id(n), arguments=a)

    def var(self):
        return N("VariableReference", id=Id(self.r.choice(VARS)))

    def attr_of(self):
        return Id(self.r.choice(ATTRS) if self.r.random() < .9 else "noattr")

    def term(self, depth, attr=False):
        r = self.r
        return N("TermReference", id=Id(self.termname()), attribute=self.attr_of() if attr else None,
                 arguments=self.args(depth, names=VARS) if r.random() < .6 else None)

    def inline(self, depth, arg=False):
        r = self.r
        x = r.random()
        if depth < 0:
            x *= .5
        if x < .08:
            return self.lit()
        if x < .38:
            return self.var()
        if x < .5:
            return self.lit() if r.random() < .5 else self.var()
        if x < .66:
            return N("MessageReference", id=Id(self.msgname()), attribute=self.attr_of() if r.random() < .35 else None)
        if x < .8:
            return self.term(depth - 1, attr=arg and r.random() < .3)
        if x < .92:
            return self.call(depth - 1)
        return N("Placeable", expression=self.expr(depth - 1))

    def expr(self, depth):
        if depth > 0 and self.r.random() < .3:
            return self.select(depth)
        return self.inline(depth)

    def select(self, depth):
        r = self.r
        x = r.random()
        if x < .55:
            sel = self.var()
        elif x < .68:
            sel = self.lit()
        elif x < .85:
            sel = self.call(depth - 1)
        else:
            sel = self.term(depth - 1, attr=True)
        n = r.choice([1, 2, 2, 3, 4, 6])
        d = r.randrange(n)
        vs = []
        for i in range(n):
            y = r.random()
            if y < .35:
                key = Id(r.choice(CATS))
            elif y < .65:
                key = Id(r.choice(WORDS))
            else:
                key = N("NumberLiteral", value=r.choice(["0", "1", "2", "3", "1.0", "1.5", "0.5", "-1", "01", "1.50", "100", "1000", "3.25", "21", "5"]))
            vs.append(N("Variant", key=key, value=self.pattern(depth - 1, 2), default=i == d))
        return N("SelectExpression", selector=sel, variants=vs)

    def pattern(self, depth, most=4):
        """A pattern in the {lines} model of ftlgen."""
        r = self.r
        lines = []
        nl = 1 if r.random() < .85 else r.randint(2, 3)
        for i in range(nl):
            k = r.choice([1, 1, 2, 2, 3, most])
            segs = []
            for j in range(k):
                if (not segs or not isinstance(segs[-1], str)) and r.random() < .5:
                    segs.append(self.text(j == 0, j == k - 1))
                else:
                    segs.append(self.expr(depth))
            lines.append({"nl": 0, "ind": 0, "segs": segs})
        return {"lines": lines}

    def entry(self, name, term, depth):
        r = self.r
        attrs = [{"id": a, "value": self.pattern(depth - 1)} for a in ATTRS if r.random() < .4]
        if attrs and not self.nodup and r.random() < .1:
            attrs.append({"id": attrs[0]["id"], "value": self.pattern(0)})
        value = self.pattern(depth)
        if name == "nova":
            value = None
            attrs = attrs or [{"id": "a0", "value": self.pattern(0)}]
        return {"term": term, "id": name, "value": value, "attrs": attrs, "comment": None}

    def model(self, depth=2):
        out = []
        for i, m in enumerate(MSGS):
            self.level, self.in_term = i, None
            if self.r.random() < .92:
                out.append(("entry", self.entry(m, False, depth)))
        for i, t in enumerate(TERMS):
            self.level, self.in_term = (len(MSGS) if self.r.random() < .7 else 3), i
            if self.r.random() < .92:
                out.append(("entry", self.entry(t, True, depth)))
        return out

    def argset(self):
        r = self.r
        out = {}
        for v in VARS:
            if v in ("missing",) or r.random() < .1:
                continue
            if v in ("n", "count"):
                out[v] = arg_num(r) if r.random() < .8 else ("num", (arg_num(r), numopts(r)))
            elif v == "name":
                out[v] = ("str", r.choice(WORDS + ["Anna"]))
            elif v == "d":
                out[v] = ("date", (2021, r.randint(1, 12), 5)) if r.random() < .5 else ("dt", (2021, 3, r.randint(1, 28), r.randint(0, 23), 5, 6))
            elif v == "obj":
                out[v] = ("bad", r.choice(sorted(BAD))) if r.random() < .5 else arg(r)
            else:
                out[v] = arg(r)
        if r.random() < .03:
            return None
        return out


# Names that differ only in letter case, hyphens, underscores or digits, and
# names that mean something to Python or to the code.
NAMES = ["title", "Title", "TITLE", "a-0", "a_0", "A0", "a", "A", "a0", "a00", "a--", "a_", "one", "other", "NUMBER", "DATETIME", "ID", "self", "args",
         "env", "value", "id", "context", "errors", "format", "True", "None", "class", "n-1", "n_1", "m0", "t0", "key", "items", "update", "with"]


def rename(r, model):
    """Renames messages, terms, attributes and variables throughout."""
    maps = {}
    # long names that differ only at the end, now and then
    pre = "" if r.random() > .06 else r.choice(["x", "Long-name_"]) * r.choice([5, 9, 33, 65, 130, 260])
    for kind, names in (("m", MSGS + ["nowhere"]), ("t", TERMS + ["unknown"]), ("a", ATTRS + ["noattr"]), ("v", VARS)):
        maps[kind] = dict(zip(names, [pre + n for n in r.sample(NAMES, len(names))]))

    def go(x, kind=None):
        if isinstance(x, list):
            for y in x:
                go(y, kind)
        elif isinstance(x, dict):
            t = x.get("type")
            if t == "MessageReference" or t == "TermReference":
                x["id"] = Id(maps["m" if t[0] == "M" else "t"][x["id"]["name"]])
                if x.get("attribute"):
                    x["attribute"] = Id(maps["a"][x["attribute"]["name"]])
            elif t == "VariableReference":
                x["id"] = Id(maps["v"][x["id"]["name"]])
            elif t == "NamedArgument" and kind == "TermReference":
                x["name"] = Id(maps["v"][x["name"]["name"]])
            for k, y in x.items():
                if k not in ("id", "attribute", "name"):
                    go(y, kind if t == "CallArguments" else t)
        elif isinstance(x, tuple):
            for y in x:
                go(y, kind)
    for _, e in model:
        e["id"] = maps["t" if e["term"] else "m"][e["id"]]
        for a in e["attrs"]:
            a["id"] = maps["a"][a["id"]]
            go(a["value"])
        go(e["value"])
    return maps["v"]


BIG_DIMS = ["numbers", "names", "attrs", "termattrs", "callargs", "termargs", "vars", "elements", "text", "string", "entries", "chain", "cycle", "nested", "same", "locals"]


def enlarge(r, model, dim=None):
    """Adds entries in which one thing is large; returns the arguments they use."""
    dim = dim or r.choice(BIG_DIMS)
    n = r.choice([17, 33, 52, 65, 101, 129, 150, 257, 300]) + r.choice([0, 0, 1, 7])
    k = r.choice([n - 1, n - 1, r.randrange(n)])
    ref = lambda name, attr=None: N("MessageReference", id=Id(name), attribute=Id(attr) if attr else None)
    var = lambda name: N("VariableReference", id=Id(name))
    s = lambda x: N("StringLiteral", value=str(x))
    num = lambda x: N("NumberLiteral", value=str(x))
    one = lambda *segs: {"lines": [{"nl": 0, "ind": 0, "segs": list(segs)}]}
    term = lambda name, attr=None, named=None: N("TermReference", id=Id(name), attribute=Id(attr) if attr else None,
                                                 arguments=named and N("CallArguments", positional=[], named=named))
    arg = lambda name, v: N("NamedArgument", name=Id(name), value=v)
    sel = lambda x, keys, d: N("SelectExpression", selector=x, variants=[N("Variant", key=q, value=one(v), default=j == d) for j, (q, v) in enumerate(keys)])
    E = lambda name, value, attrs=(), term=False: ("entry", {"term": term, "id": name, "value": value, "attrs": list(attrs), "comment": None})
    d = r.choice([0, r.randrange(n), n - 1])
    out, args = [], {}
    if dim == "numbers":
        out = [E("big", one("a ", sel(var("bign"), [(num(j), "v%d" % j) for j in range(n)], d), " z"))]
        args = {"bign": ("int", k)}
    elif dim == "names":
        out = [E("big", one(sel(var("bign"), [(Id("k%d" % j), "v%d" % j) for j in range(n)], d)))]
        args = {"bign": ("str", "k%d" % k)}
    elif dim in ("attrs", "termattrs"):
        t = dim == "termattrs"
        out = [E("big", one("x"), [{"id": "a%d" % j, "value": one("v%d" % j)} for j in range(n)], term=t)]
        out += [E("usebig", one(sel(term("big", "a%d" % k), [(Id("v%d" % j), "w%d" % j) for j in range(n)], d)) if t else one(ref("big", "a%d" % k), " z"))]
    elif dim == "callargs":
        m = r.choice([1, n])
        out = [E("big", one("a ", N("FunctionReference", id=Id("DESC"), arguments=N("CallArguments", positional=[num(j) for j in range(n)] if m == 1 else [num(0)],
                                                                             named=[arg("n%d" % j, s(j)) for j in range(m)]))))]
    elif dim == "termargs":
        out = [E("big", one(*[x for j in range(n) for x in (var("n%d" % j), " ")][:-1]), term=True),
               E("usebig", one(term("big", named=[arg("n%d" % j, s("q%d" % j)) for j in range(n)]), " z"))]
    elif dim == "vars":
        out = [E("big", one(*[x for j in range(n) for x in (var("n%d" % j), ",")]))]
        args = {"n%d" % j: ("str", "q%d" % j) if j % 2 else ("int", j) for j in range(n)}
    elif dim == "elements":
        out = [E("big", {"lines": [{"nl": 0, "ind": 0, "segs": ["t%d " % j, s(j)] * (j % 3) + ["x", var("bign")]} for j in range(min(n, 130))]})]
        args = {"bign": ("str", "B")}
    elif dim == "text":
        t = "".join("word%d " % j for j in range(r.choice([600, 1700, 6000, 10000])))
        out = [E("big", one(t, var("bign"), " end")), E("usebig", one(t + "end")), E("inbig", one(ref("usebig"), " z"))]
        args = {"bign": ("str", "B")}
    elif dim == "string":
        t = "".join("word%d " % j for j in range(r.choice([100, 600, 1700, 6000, 10000])))
        out = [E("big", one("a ", s(t), " z")), E("usebig", one(s(t))), E("varbig", one(var("bign"))), E("inbig", one("a ", var("bign")))]
        args = {"bign": ("str", t[::-1])}
    elif dim == "entries":
        m = r.choice([130, 300, 520, 1050])
        out = [E("big%d" % j, one("v%d" % j), term=j % 4 == 3) for j in range(m)]
        out += [E("usebig", one(ref("big%d" % (m - m % 4 - 2)), term("big%d" % (m - m % 4 - 1))))]
    elif dim == "chain":
        m = r.choice([5, 9, 17, 33])
        out = [E("big%d" % j, one("c%d " % j, ref("big%d" % (j + 1)), " z")) for j in range(m)] + [E("big%d" % m, one("end"))]
    elif dim == "cycle":
        # a ring of messages, after many others
        m = r.choice([9, 17, 33, 66, 80])
        out = [E("few%d" % j, one("f")) for j in range(r.choice([0, 70, 140, 260]))]
        out += [E("big%d" % j, one("c%d " % j, ref("big%d" % ((j + 1) % m)), " z")) for j in range(m)]
    elif dim == "nested":
        x = "deep"
        for j in range(r.choice([5, 9, 17, 21])):
            x = N("SelectExpression", selector=var("bign"), variants=[N("Variant", key=num(1), value=one("l%d " % j, x), default=False),
                                                                    N("Variant", key=Id("other"), value=one("o%d" % j), default=True)])
        out = [E("big", one(x, " z"))]
        args = {"bign": ("int", 1)}
    elif dim == "same":
        # one message used over and over
        out = [E("small", one("s ", var("bign"))), E("big", one(*[x for j in range(n) for x in (ref("small"), " ")][:-1], "z"))]
        args = {"bign": ("str", "B")}
    elif dim == "locals":
        # a variable looked up before, within and after terms of its own
        out = [E("small", one("s ", var("bign")), term=True),
               E("big", one(*[x for j in range(n) for x in (term("small", named=[arg("bign", num(j))]), var("bign"))]))]
        args = {"bign": ("str", "B")}
    i = r.choice([0, len(model)])
    model[i:i] = out
    return args


def world(r, big=.03, **k):
    w = World(r, **k)
    m = w.model(r.choice([1, 2, 2]))
    v = {x: x for x in VARS}
    if r.random() < .4:
        # the model may share nodes
        m = json.loads(json.dumps(m))
        v = rename(r, m)
    more = enlarge(r, m) if r.random() < big else {}
    src = G.render(m, r, plain=r.random() < .8)
    return {"big": bool(more), "locale": r.choice(PLOCALES), "iso": r.random() < .6, "src": src, "tree": G.tree(m), "vars": list(v.values()),
            "args": [a and {**{v[n]: x for n, x in a.items()}, **more} for a in (w.argset() for _ in range(2))]}


def nargs(a):
    return None if a is None else {k: native(v) for k, v in a.items()}


def rargs(a):
    return {} if a is None else {k: refarg(v) for k, v in a.items()}


def patterns(tree):
    """(label, JSON pattern) of every value and attribute of the messages that count."""
    seen = set()
    for e in tree["body"]:
        if e["type"] == "Message" and e["id"]["name"] not in seen:
            seen.add(e["id"]["name"])
            if e["value"]:
                yield (e["id"]["name"], None), e["value"]
            last = {}
            for a in e["attributes"]:
                last[a["id"]["name"]] = a["value"]
            for k, v in last.items():
                yield (e["id"]["name"], k), v


def get(bundle, label):
    m = bundle.get_message(label[0])
    return m.value if label[1] is None else m.attributes[label[1]]
