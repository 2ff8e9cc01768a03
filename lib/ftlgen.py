"""Random Fluent resources: a layout-free model, its tree, and many layouts.

A model is a list of items:
  ("entry", dict)     message or term
  ("comment", level, content)
Patterns are lists of lines {nl, ind, segs}: nl blank lines before the line,
ind relative indentation, segs a list of text strings and expression dicts.
tree(model) gives the JSON tree (span: None), render(model, rng) a source text.
"""
import ast as pyast, glob, os, string
from . import env

LETTERS = string.ascii_letters
IDCH = LETTERS + string.digits + "_-"
SPECIAL = "}.[*"
COMMON_IDS = ["a", "b", "key", "foo", "bar", "msg", "one", "other", "x", "Foo", "KEY", "a-b", "z_9", "F", "NUMBER"]
PLURALS = ["zero", "one", "two", "few", "many", "other"]
ODD = ["\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\t", "\0", "\ufeff", "\u00a0",
       "\u3000", "\u200b", "\u2068", "\u2069", "\u200f", "\x7f", "\x1b", "\ufffd", "\uffff", "\U0010ffff", "\u0301"]
WIDE = ["é", "ß", "Ж", "漢", "字", "😀", "𝒳", "ł", "ı", "ǅ", "א", "ع", "👨‍👩‍👧", "²", "٣", "４"]


def N(t, **k):
    d = {"type": t, "span": None}
    d.update(k)
    return d


def Id(n):
    return N("Identifier", name=n)


_consts = None


def source_constants():
    """Integers and short strings occurring in the code under test; used only
    to steer sizes and tokens towards thresholds the code mentions."""
    global _consts
    if _consts is None:
        ints, strs = set(), set()
        for f in glob.glob(os.path.join(env.REPO, "fluent.*", "fluent", "*", "*.py")):
            try:
                t = pyast.parse(open(f, encoding="utf-8").read())
            except Exception:
                continue
            doc = set()
            for n in pyast.walk(t):
                if isinstance(n, pyast.Expr) and isinstance(n.value, pyast.Constant):
                    doc.add(id(n.value))
            for n in pyast.walk(t):
                if isinstance(n, pyast.Constant) and id(n) not in doc:
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 2 <= v <= 5000:
                        ints.add(v)
                    elif isinstance(v, str) and 1 <= len(v) <= 14:
                        strs.add(v)
        _consts = (sorted(ints), sorted(strs))
    return _consts


# What can be large in a resource, one thing at a time.
BIG_DIMS = ["entries", "attrs", "variants", "lines", "elements", "text", "ident", "string", "number", "comment", "positional", "named", "indent", "blank",
            "total", "attached", "junk"]
BIG_COUNTS = [33, 52, 65, 101, 129, 150, 257, 300, 520]
BIG_LENGTHS = [129, 260, 513, 1030, 4100, 10050, 20000]


class Gen:
    def __init__(self, rng, cr=False, odd=True, hostile_text=True, size=1.0, runtime=False, big=.012):
        self.r = rng
        self.big = big          # how often a model is enlarged in one dimension
        self.cr = cr            # allow lone CR in text
        self.odd = odd
        self.size = size
        self.ints, self.strs = source_constants()

    # -------------------------------------------------------- small things
    def count(self, typical=2, big=24):
        r = self.r
        x = r.random()
        if x < 0.9:
            return r.randint(0, typical)
        if x < 0.97:
            return r.randint(0, max(1, int(2 * typical * self.size)))
        if x < 0.985 and self.size >= 1:
            small = [i for i in self.ints if i <= 40]
            if small:
                return min(big, max(0, r.choice(small) + r.choice([-1, 0, 1])))
        return r.randint(0, max(1, int(big * self.size)))

    def length(self):
        r = self.r
        x = r.random()
        if x < 0.9:
            return r.randint(1, 8)
        if x < 0.98:
            return r.randint(1, 40)
        if x < 0.99:
            return max(1, min(300, r.choice(self.ints or [9]) + r.choice([-1, 0, 1])))
        return r.randint(40, 150)

    def ident(self):
        r = self.r
        if r.random() < 0.45:
            return r.choice(COMMON_IDS)
        if r.random() < 0.08:
            c = [s for s in self.strs if s[0] in LETTERS and all(ch in IDCH for ch in s)]
            if c:
                return r.choice(c)
        n = self.length()
        return r.choice(LETTERS) + "".join(r.choice(IDCH) for _ in range(n - 1))

    def func(self):
        r = self.r
        if r.random() < 0.5:
            return r.choice(["F", "NUMBER", "DATETIME", "FUN-C", "A_1", "X9", "N-"])
        return r.choice(string.ascii_uppercase) + "".join(
            r.choice(string.ascii_uppercase + string.digits + "_-") for _ in range(self.length() - 1))

    def char(self, exclude):
        r = self.r
        while True:
            x = r.random()
            if x < 0.6:
                c = r.choice(LETTERS + string.digits + "   ")
            elif x < 0.85:
                c = r.choice("!\"#$%&'()*+,-./:;<=>?@[\\]^_`|~ {}")
            elif x < 0.93 or not self.odd:
                c = r.choice(WIDE)
            elif x < 0.98:
                c = r.choice(ODD)
            else:
                c = chr(r.choice([r.randint(0x20, 0x2fff), r.randint(0x10000, 0x10ffff)]))
            if len(c) == 1 and 0xd800 <= ord(c) <= 0xdfff:
                continue
            if not any(ch in exclude for ch in c):
                return c

    def raw(self, n, exclude):
        s = "".join(self.char(exclude) for _ in range(n))
        if self.cr and self.r.random() < 0.05:
            i = self.r.randint(0, len(s))
            s = s[:i] + "\r" + s[i:]
        return s

    # -------------------------------------------------------- expressions
    def string(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, self.count(4)])):
            x = r.random()
            if x < 0.6:
                out.append(self.raw(r.randint(1, 4), '"\\\n\r'))
            elif x < 0.7:
                out.append(r.choice(["\\\\", '\\"']))
            elif x < 0.85:
                h = "%04x" % r.choice([r.randint(0, 0xffff), r.randint(0x20, 0x7e), r.randint(0xd7f0, 0xe00f), 0x22, 0x5c, 0x7b])
                out.append("\\u" + self.case(h))
            elif x < 0.97:
                h = "%06x" % r.choice([r.randint(0, 0x10ffff), r.randint(0x20, 0x7e), r.randint(0xd7f0, 0xe00f),
                                       r.randint(0x10fff0, 0x11000f), r.randint(0, 0xffffff)])
                out.append("\\U" + self.case(h))
            else:
                out.append(r.choice(["{", "}", "{\"".replace('"', ""), "#", "\u2068"]))
        if r.random() < 0.05:
            out = [r.choice(["{", "}", "[", "*", ".", " ", "   ", "", "#", "-"])]
        return N("StringLiteral", value="".join(out))

    def case(self, h):
        r = self.r
        return "".join(r.choice([c.upper(), c.lower()]) for c in h)

    def number(self):
        r = self.r
        s = r.choice(["", "", "-"])
        x = r.random()
        if x < 0.5:
            s += str(r.randint(0, 20))
        elif x < 0.9:
            s += "".join(r.choice(string.digits) for _ in range(self.length()))
        else:
            s += "0" * r.randint(1, 5) + str(r.randint(0, 99))
        if r.random() < 0.35:
            s += "." + "".join(r.choice(string.digits) for _ in range(r.choice([1, 1, 2, 3, self.length()])))
        return N("NumberLiteral", value=s)

    def call_args(self, depth):
        r = self.r
        pos = [self.inline(depth - 1, arg=True) for _ in range(self.count(2, 12))]
        named, seen = [], set()
        for _ in range(self.count(2, 12)):
            n = self.ident()
            if n not in seen:
                seen.add(n)
                named.append(N("NamedArgument", name=Id(n), value=self.string() if r.random() < .5 else self.number()))
        return N("CallArguments", positional=pos, named=named)

    def inline(self, depth, arg=False):
        r = self.r
        x = r.random()
        if depth <= 0:
            x *= 0.62
        if x < 0.15:
            return self.string()
        if x < 0.28:
            return self.number()
        if x < 0.45:
            return N("VariableReference", id=Id(self.ident()))
        if x < 0.62:
            return N("MessageReference", id=Id(self.ident()),
                     attribute=Id(self.ident()) if r.random() < .4 else None)
        if x < 0.76:
            return N("TermReference", id=Id(self.ident()),
                     attribute=Id(self.ident()) if arg and r.random() < .3 else None,
                     arguments=self.call_args(depth) if r.random() < .5 else None)
        if x < 0.88:
            return N("FunctionReference", id=Id(self.func()), arguments=self.call_args(depth))
        return N("Placeable", expression=self.expression(depth - 1))

    def expression(self, depth):
        if depth > 0 and self.r.random() < 0.25:
            return self.select(depth)
        return self.inline(depth)

    def select(self, depth):
        r = self.r
        x = r.random()
        if x < 0.45:
            sel = N("VariableReference", id=Id(self.ident()))
        elif x < 0.55:
            sel = self.string()
        elif x < 0.65:
            sel = self.number()
        elif x < 0.85:
            sel = N("FunctionReference", id=Id(self.func()), arguments=self.call_args(depth - 1))
        else:
            sel = N("TermReference", id=Id(self.ident()), attribute=Id(self.ident()),
                    arguments=self.call_args(depth - 1) if r.random() < .5 else None)
        n = 1 + self.count(2, 14)
        d = r.randrange(n)
        vs = []
        for i in range(n):
            key = self.number() if r.random() < .3 else Id(r.choice(PLURALS) if r.random() < .4 else self.ident())
            vs.append(N("Variant", key=key, value=self.pattern(depth - 1), default=i == d))
        return N("SelectExpression", selector=sel, variants=vs)

    # -------------------------------------------------------- patterns
    def text_seg(self, first_of_line, last_of_line, last_of_pattern, allow_special_start):
        while True:
            s = self.raw(self.length() if self.r.random() < .8 else 1, "{}\n\r")
            if self.r.random() < 0.04:
                c = [t for t in self.strs if not any(ch in "{}\n\r" for ch in t)]
                s = self.r.choice(c) if c else s
            if first_of_line:
                s = s.lstrip(" ")
                if not allow_special_start:
                    s = s.lstrip(" ." + "[*")
            if last_of_pattern:
                s = s.rstrip(" \r")
            if last_of_line:
                s = s.rstrip("\r")
            if s:
                return s

    def pattern(self, depth, lines=None):
        """A list of lines."""
        r = self.r
        n = lines or 1 + (self.count(3, 16) if r.random() < .4 else 0)
        out = []
        for i in range(n):
            k = 1 + (self.count(3, 16) if r.random() < .6 else 0)
            segs = []
            for j in range(k):
                text_ok = not segs or not isinstance(segs[-1], str)
                if text_ok and r.random() < .55:
                    segs.append(None)
                else:
                    segs.append(self.expression(depth) if depth > 0 else self.inline(0))
            segs2 = []
            for j, s in enumerate(segs):
                if s is None:
                    s = self.text_seg(j == 0, j == k - 1, j == k - 1 and i == n - 1,
                                      allow_special_start=(i == 0 and r.random() < .5))
                segs2.append(s)
            out.append({"nl": 0 if i == 0 else (0 if r.random() < .75 else self.count(2, 6)),
                        "ind": r.choice([0, 0, 0, 0, 1, 2, 4, self.count(4, 12)]), "segs": segs2})
        first = out[0]["segs"][0]
        if isinstance(first, str) and first[0] in SPECIAL:
            out[0]["ind"] = 0
            inline_only = True
        else:
            inline_only = False
        rest = [l["ind"] for l in out[1:]]
        if inline_only:
            m = min(rest, default=0)
            for l in out[1:]:
                l["ind"] -= m
        elif len(out) == 1:
            out[0]["ind"] = 0
        else:
            m = min(l["ind"] for l in out)
            for l in out:
                l["ind"] -= m
        return {"lines": out}

    # -------------------------------------------------------- entries
    def entry(self, depth, term=None):
        r = self.r
        term = r.random() < .3 if term is None else term
        na = 0 if r.random() < .5 else self.count(2, 12)
        attrs = [{"id": self.ident(), "value": self.pattern(depth)} for _ in range(na)]
        value = self.pattern(depth) if term or not attrs or r.random() < .8 else None
        return {"term": term, "id": self.ident(), "value": value, "attrs": attrs,
                "comment": self.comment_text() if r.random() < .25 else None}

    def comment_text(self):
        r = self.r
        n = 1 + (self.count(2, 8) if r.random() < .5 else 0)
        lines = []
        for _ in range(n):
            lines.append("" if r.random() < .2 else self.raw(self.length(), "\n\r").rstrip("\r"))
        return "\n".join(lines)

    def model(self, depth=2, entries=None):
        r = self.r
        n = entries if entries is not None else 1 + self.count(3, 20)
        out = []
        for _ in range(n):
            if r.random() < .2:
                out.append(("comment", r.choice([1, 1, 2, 3]), self.comment_text()))
            else:
                out.append(("entry", self.entry(depth)))
        if self.big and r.random() < self.big:
            self.enlarge(out)
        return out

    # -------------------------------------------------------- large inputs
    def enlarge(self, model, dim=None):
        """Make one thing in the model large."""
        r = self.r
        dim = dim or r.choice(BIG_DIMS)
        n = r.choice(BIG_COUNTS) + r.choice([0, 0, 1, 7])
        size = r.choice(BIG_LENGTHS) + r.choice([0, 0, 1, 7])
        word = lambda k: "".join(r.choice("abc de.[*é-1#") for _ in range(min(k, 60))).strip(" .[*#").ljust(1, "w")
        long = lambda k: "w" + (word(60) + "\u2009") * (k // 61 + 1)
        line = lambda *segs, **k: {"nl": k.get("nl", 0), "ind": k.get("ind", 0), "segs": list(segs)}
        one = lambda *segs: {"lines": [line(*segs)]}
        name = lambda k: "k%d" % k
        e = {"term": r.random() < .2, "id": self.ident(), "value": one("value"), "attrs": [], "comment": None}
        new = [("entry", e)]
        if dim == "entries":
            for k in range(r.choice([101, 260, 520, 1100, 2100])):
                x = r.random()
                if x < .1:
                    new.append(("comment", r.choice([1, 2, 3]), "c%d" % k))
                else:
                    new.append(("entry", {"term": x < .3, "id": name(k), "value": one("v%d" % k), "attrs": [], "comment": "c" if x > .95 else None}))
        elif dim == "attrs":
            e["attrs"] = [{"id": name(k), "value": one("v%d" % k)} for k in range(n)]
        elif dim == "variants":
            e["value"] = one(N("SelectExpression", selector=N("VariableReference", id=Id("n")), variants=[
                N("Variant", key=N("NumberLiteral", value=str(k)) if k % 3 else Id(name(k)), value=one("v%d" % k), default=k == n // 2) for k in range(n)]))
        elif dim == "lines":
            e["value"] = {"lines": [line("line %d" % k, nl=0 if k % 7 else 1 if k else 0) for k in range(n)]}
        elif dim == "elements":
            segs = []
            for k in range(n):
                segs += ["t%d " % k] * (k % 3 > 0) + [N("VariableReference", id=Id(name(k)))]
            e["value"] = one(*segs)
        elif dim == "text":
            v = N("VariableReference", id=Id("v"))
            e["value"] = r.choice([one(long(size) + "z"), one(long(size), v, long(size) + "z"), one(v, long(size), v, " z"),
                                   {"lines": [line("a"), line(long(size), v), line(long(size) + "z"), line("c")]}])
        elif dim == "ident":
            i = "i" + "".join(r.choice(IDCH) for _ in range(min(size, 5000)))
            e["id"] = i
            e["value"] = one(N("VariableReference", id=Id(i[::-1].lstrip("0123456789-_") + "x")), N("TermReference", id=Id(i), attribute=None, arguments=None),
                             N("FunctionReference", id=Id("F" + i.upper()), arguments=N("CallArguments", positional=[], named=[
                                 N("NamedArgument", name=Id(i), value=N("NumberLiteral", value="1"))])))
            e["attrs"] = [{"id": i, "value": one("v")}]
        elif dim == "string":
            e["value"] = one(N("StringLiteral", value=long(size) + "\\u0041" * (size % 50) + "\\U01F602"))
        elif dim == "number":
            d = "".join(r.choice(string.digits) for _ in range(min(size, 5000)))
            e["value"] = one(N("NumberLiteral", value="-" + d + "." + d[::-1]))
        elif dim == "comment":
            new.append(("comment", r.choice([1, 2, 3]), "\n".join("line %d" % k if k % 5 else "" for k in range(n)) + "\nlast"))
            new.append(("comment", r.choice([1, 2, 3]), long(size) + "z"))
        elif dim == "attached":
            e["comment"] = "\n".join("line %d" % k if k % 5 else "" for k in range(n)) + "\nlast " + long(size) + "z"
        elif dim in ("positional", "named"):
            pos = [N("NumberLiteral", value=str(k)) for k in range(n if dim == "positional" else 1)]
            named = [N("NamedArgument", name=Id(name(k)), value=N("StringLiteral", value="v%d" % k)) for k in range(n if dim == "named" else 0)]
            e["value"] = one(N("FunctionReference", id=Id("F"), arguments=N("CallArguments", positional=pos, named=named)))
        elif dim == "indent":
            e["value"] = {"lines": [line("a"), line("b", ind=min(n, 600)), line("c", ind=n // 2), line("d")]}
        elif dim == "blank":
            e["value"] = {"lines": [line("a"), line("b", nl=n), line("c", nl=n // 3)]}
        elif dim == "total":
            k = r.choice([33000, 70000, 70000, 140000])
            new.append(("comment", r.choice([1, 2, 3]), "\n".join([long(990)] * (k // 1000)) + "z"))
        elif dim == "junk":
            e["value"] = one("x")
        k = r.choice([0, r.randint(0, len(model))])
        model[k:k] = new
        return dim


# ------------------------------------------------------------------ trees
def pattern_tree(p):
    els = []
    def text(s):
        if not s:
            return
        if els and els[-1]["type"] == "TextElement":
            els[-1]["value"] += s
        else:
            els.append(N("TextElement", value=s))
    for i, l in enumerate(p["lines"]):
        if i:
            text("\n" * (1 + l["nl"]))
        text(" " * l["ind"])
        for s in l["segs"]:
            if isinstance(s, str):
                text(s)
            else:
                els.append(N("Placeable", expression=expr_tree(s)))
    return N("Pattern", elements=els)


def expr_tree(e):
    if isinstance(e, list):
        return [expr_tree(x) for x in e]
    if isinstance(e, dict):
        if "lines" in e:
            return pattern_tree(e)
        return {k: expr_tree(v) for k, v in e.items()}
    return e


def entry_tree(e):
    return N("Term" if e["term"] else "Message", id=Id(e["id"]),
             value=pattern_tree(e["value"]) if e["value"] else None,
             attributes=[N("Attribute", id=Id(a["id"]), value=pattern_tree(a["value"])) for a in e["attrs"]],
             comment=N("Comment", content=e["comment"]) if e["comment"] is not None else None)


CT = {1: "Comment", 2: "GroupComment", 3: "ResourceComment"}


def tree(model):
    body = []
    for it in model:
        if it[0] == "comment":
            body.append(N(CT[it[1]], content=it[2]))
        else:
            body.append(entry_tree(it[1]))
    return N("Resource", body=body)


# ------------------------------------------------------------------ layout
class Render:
    """plain=True uses a fixed tidy layout; otherwise everything the syntax
    leaves open is chosen at random."""
    def __init__(self, rng, plain=False, big=.01):
        self.r = rng
        self.plain = plain
        self.big = not plain and rng.random() < big

    def huge(self):
        """Now and then, in a layout so chosen, a long run of blanks."""
        return self.big and self.r.random() < .04 and self.r.choice([52, 65, 101, 129, 260, 520, 1030])

    def p(self, x):
        return not self.plain and self.r.random() < x

    def spaces(self, x=.3):
        h = self.huge()
        if h:
            return " " * h
        return " " * self.r.choice([1, 1, 2, 3, 9]) if self.p(x) else ""

    def blank(self, x=.25):
        """blank: spaces and line breaks."""
        h = self.huge()
        if h:
            return self.r.choice([" ", "\n", " \n"]) * h
        if not self.p(x):
            return ""
        return "".join(self.r.choice([" ", " ", "\n", "  ", "\n  "]) for _ in range(self.r.randint(1, 4)))

    def blank_lines(self, least=0):
        r = self.r
        n = least + (self.huge() or 0)
        if self.p(.3):
            n += r.choice([1, 1, 2, 3])
        return "".join(self.spaces(.2) + "\n" for _ in range(n))

    def expr(self, e):
        t = e["type"]
        if t == "StringLiteral":
            return '"' + e["value"] + '"'
        if t == "NumberLiteral":
            return e["value"]
        if t == "VariableReference":
            return "$" + e["id"]["name"]
        if t == "MessageReference":
            return e["id"]["name"] + ("." + e["attribute"]["name"] if e["attribute"] else "")
        if t == "TermReference":
            return ("-" + e["id"]["name"] + ("." + e["attribute"]["name"] if e["attribute"] else "")
                    + (self.args(e["arguments"]) if e["arguments"] else ""))
        if t == "FunctionReference":
            return e["id"]["name"] + self.args(e["arguments"])
        if t == "Placeable":
            return self.placeable(e["expression"])
        if t == "SelectExpression":
            out = self.expr(e["selector"])
            tight = self.p(.2) and not (out[-1] in IDCH and e["selector"]["type"] not in ("NumberLiteral",))
            out += (self.blank() or ("" if tight else " ")) + "->" + self.spaces() + "\n"
            for v in e["variants"]:
                key = v["key"]
                out += (self.blank_lines() + ("" if self.p(.1) else " " * self.r.randint(0, 12)) if not self.plain
                        else "    ")
                out += ("*" if v["default"] else "") + "[" + self.blank() + (key.get("name") or key.get("value")) + self.blank() + "]"
                out += self.pattern(v["value"]) + self.spaces() + "\n"
            return out + self.blank()
        raise AssertionError(t)

    def args(self, a):
        parts = [self.expr(x) for x in a["positional"]]
        parts += [x["name"]["name"] + self.blank() + ":" + (self.blank() if not self.plain else " ") + self.expr(x["value"])
                  for x in a["named"]]
        s = self.blank(.1) + "(" + self.blank()
        for i, q in enumerate(parts):
            if i:
                s += self.blank() + "," + (self.blank() if not self.plain else " ")
            s += q
        if parts and self.p(.15):
            s += self.blank() + ","
        return s + self.blank() + ")"

    def placeable(self, e):
        # no blank between a reference and what follows is needed
        return "{" + (self.blank(.5) if not self.plain else " ") + self.expr(e) + (self.blank(.5) if not self.plain else " ") + "}"

    def pattern(self, p):
        """Everything after "=" or "]" up to, not including, the final line end."""
        r = self.r
        lines = p["lines"]
        first = lines[0]["segs"][0]
        can_block = not (isinstance(first, str) and first[0] in SPECIAL)
        can_inline = lines[0]["ind"] == 0 and min([l["ind"] for l in lines[1:]], default=0) == 0
        if can_block and min(l["ind"] for l in lines) != 0:
            can_block = False
        assert can_block or can_inline, lines
        block = can_block and (not can_inline or self.p(.35) or (self.plain and len(lines) > 1))
        body = lines if block else lines[1:]
        # The common indentation may be 0 only if no text line would then start in column 1.
        need = any(isinstance(l["segs"][0], str) and l["ind"] == 0 for l in body)
        if self.plain:
            common = 4
        else:
            common = self.huge() or r.choice([1, 2, 3, 4, 4, 4, 7, 11])
            if not need and r.random() < .3:
                common = 0
        out = ""
        if not block:
            out = self.spaces() if not self.plain else " "
            out += self.segs(lines[0]["segs"])
        else:
            out = self.spaces()
        for i, l in enumerate(body):
            if block and i == 0:
                out += "\n" + (self.blank_lines() if not self.plain else "")
            else:
                out += "\n" + "".join((" " * r.choice([0, 0, 1, 5, 30]) if not self.plain else "") + "\n" for _ in range(l["nl"]))
            out += " " * (common + l["ind"])
            out += self.segs(l["segs"])
        return out

    def segs(self, segs):
        return "".join(s if isinstance(s, str) else self.placeable(s) for s in segs)

    def comment(self, level, content):
        out = ""
        for line in content.split("\n"):
            out += "#" * level
            if line or self.p(.3):
                out += " " + line
            out += "\n"
        return out

    def entry(self, e):
        out = ""
        if e["comment"] is not None:
            out += self.comment(1, e["comment"])
        out += ("-" if e["term"] else "") + e["id"] + (self.spaces() if not self.plain else " ") + "="
        if e["value"]:
            out += self.pattern(e["value"])
        out += self.spaces()
        for a in e["attrs"]:
            out += "\n" + self.blank_lines()
            out += " " * (self.r.choice([0, 1, 2, 4, 4, 9]) if not self.plain else 4)
            out += "." + a["id"] + (self.spaces() if not self.plain else " ") + "=" + self.pattern(a["value"]) + self.spaces()
        return out + "\n"

    def resource(self, model):
        r = self.r
        out = self.blank_lines() if model else ""
        prev = None
        for it in model:
            least = 0
            if prev is not None and prev[0] == "comment":
                if it[0] == "comment":
                    least = 1 if prev[1] == it[1] else 0
                elif prev[1] == 1:
                    least = 1
                if it[0] == "entry" and it[1]["comment"] is not None and prev[1] == 1:
                    least = 1
            out += self.blank_lines(least) if prev is not None else ""
            out += self.comment(it[1], it[2]) if it[0] == "comment" else self.entry(it[1])
            prev = it
        out += self.blank_lines() + self.spaces(.1)
        if self.p(.25):
            # drop the final line end
            i = len(out.rstrip(" \n"))
            t = out[:i]
            if prev is not None and not (prev[0] == "comment" and (not prev[2] or prev[2] != prev[2].rstrip(" \n"))):
                out = t
        return out


def render(model, rng, plain=False, eol="\n", big=.01):
    s = Render(rng, plain, big).resource(model)
    return s


def crlf(s, rng, p=1.0):
    """Replace line feeds (not already part of CRLF) by CRLF with probability p."""
    if p >= 1:
        return s.replace("\r\n", "\n").replace("\n", "\r\n")
    out = []
    prev = ""
    for c in s:
        if c == "\n" and prev != "\r" and rng.random() < p:
            out.append("\r\n")
        else:
            out.append(c)
        prev = c
    return "".join(out)
