"""C12: literals decode to exactly the value they denote."""
from .common import *
import decimal
from fluent.runtime import FluentBundle, FluentResource

ID = "C12"
RULE = ("string literal bodies made of raw characters, escapes of all kinds and boundary code points, number literals of many shapes; "
        "decoded by an independent scanner; parsed from text, built as nodes, and formatted through a bundle; distinct by literal")
QUICK, THOROUGH = 40000, 400000
NEED = {"strings": 6000, "escapes": 8000, "non_scalar": 800, "numbers": 2500, "formatted": 3000, "handed_on": 2500, "sweep_escapes": 10000}
MIN_NONTRIVIAL = 5000
HEXD = "0123456789abcdefABCDEF"


def hexcase(r, h):
    return "".join(r.choice([c.upper(), c.lower()]) for c in h)


def escape(r):
    x = r.random()
    if x < .12:
        return r.choice(["\\\\", '\\"'])
    edge = [0, 1, 9, 0xa, 0xd, 0x20, 0x22, 0x5c, 0x7b, 0x7d, 0x7f, 0x80, 0xff, 0x100, 0x2028, 0x2068, 0x2069, 0xd7ff, 0xd800, 0xdbff, 0xdc00,
            0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff]
    if x < .5:
        v = r.choice(edge) if r.random() < .4 else r.randint(0, 0xffff)
        return "\\u" + hexcase(r, "%04x" % v)
    v = r.choice(edge + [0x10000, 0x1f602, 0x10fffe, 0x10ffff, 0x110000, 0x110001, 0xffffff, 0x800000]) if r.random() < .4 else \
        r.choice([r.randint(0, 0x10ffff), r.randint(0, 0xffff), r.randint(0, 0xffffff), r.randint(0xd700, 0xe100)])
    return "\\U" + hexcase(r, "%06x" % v)


def gen(r, i, tier):
    if i % 100 == 0:
        start = r.randrange(0, 0x110000)
        k = 300
        step = r.choice([1, 1, 7, 257])
        if r.random() < .3:
            start = r.choice([0xd700, 0xdf80, 0xff80, 0x10ff80, 0x0])
            step = 1
        return ("sweep", [start + step * j for j in range(k)], r.random() < .5)
    if r.random() < .3:
        n = r.choice([1, 1, 2, 3, 5, 9, 17, 18, 19, 30, 40, 150])
        ip = "".join(r.choice("0123456789") for _ in range(n))
        if r.random() < .15:
            ip = "0" * r.randint(1, 6) + str(r.randint(0, 9))
        s = r.choice(["", "", "-"]) + ip
        if r.random() < .6:
            f = "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 3, 6, 16, 17, 18, 22, 40])))
            if r.random() < .4:
                f = f[:max(0, len(f) - 2)] + "0" * r.randint(1, 4)
            s += "." + f
        return ("number", s)
    g = G.Gen(r)
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9]) if r.random() > .02 else r.choice([17, 33, 65, 101, 130, 260, 520])):
        x = r.random()
        if x < .55:
            out.append(escape(r))
        elif x < .75:
            out.append(g.raw(r.randint(1, 4), '"\\\n\r'))
        elif x < .9:
            # what looks like a continuation of an escape
            out.append(r.choice(["u", "U", "u0041", "0", "a", "F", "n", "t", "x41", "00", "{", "}", " ", "  "]))
        else:
            out.append(r.choice(["\\\\u0041", "\\\\\\\\", "\\\\\\\"", '\\"\\"', "\\\\U01F602", "\\u005cu0041", "\\u005c\\u005c", "\\u0022", "\\u00000", "\\U0000410"]))
    return ("string", "".join(out))


def decode(v):
    """Scan left to right."""
    out, i = [], 0
    n_esc = bad = 0
    while i < len(v):
        c = v[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        n_esc += 1
        d = v[i + 1]
        if d == "\\" or d == '"':
            out.append(d)
            i += 2
            continue
        w = {"u": 4, "U": 6}[d]
        cp = 0
        for h in v[i + 2:i + 2 + w]:
            cp = cp * 16 + "0123456789abcdef".index(h.lower())
        if cp > 0x10ffff or 0xd800 <= cp <= 0xdfff:
            out.append("\ufffd")
            bad += 1
        else:
            out.append(chr(cp))
        i += 2 + w
    return "".join(out), n_esc, bad


def run(case, obs):
    if case[0] == "sweep":
        _, cps, upper = case
        for cp in cps:
            if cp > 0xffffff:
                continue
            h = "%06X" % cp if upper else "%06x" % cp
            want = "\ufffd" if cp > 0x10ffff or 0xd800 <= cp <= 0xdfff else chr(cp)
            forms = ["\\U" + h]
            if cp <= 0xffff:
                forms.append("\\u" + h[2:])
            for f in forms:
                obs.count("sweep_escapes")
                got = FTL.StringLiteral(f).parse()
                obs.eq(got, {"value": want}, "escape decoded wrongly", escape=f)
        obs.nontrivial(tuple(cps[:2]))
        return
    kind, v = case
    src = f"key = {{{v if kind == 'number' else chr(34) + v + chr(34)}}}\n"
    res = FluentParser(with_spans=obs.n["strings"] % 2 == 0).parse(src)
    node = None
    if len(res.body) == 1 and isinstance(res.body[0], FTL.Message):
        els = res.body[0].value.elements
        if len(els) == 1:
            node = els[0].expression
    cls = FTL.StringLiteral if kind == "string" else FTL.NumberLiteral
    obs.check(type(node) is cls and node.value == v, "the literal is not kept verbatim in the tree", source=src)
    before = json.dumps(node.to_json())
    if kind == "string":
        obs.count("strings")
        want, esc, bad = decode(v)
        obs.count("escapes", esc)
        obs.count("non_scalar", bad)
        for n in (node, FTL.StringLiteral(v), node.clone()):
            obs.eq(n.parse(), {"value": want}, "string literal decoded wrongly", literal=v)
        obs.check(want.encode("utf-8") is not None, "lone surrogate in the value")
        # through formatting: literal alone, in text, and as a selector
        obs.count("formatted")
        b = FluentBundle(["en-US"], use_isolating=False)
        b.add_resource(res)
        b.add_resource(FluentResource(f"t = <{{\"{v}\"}}>\ns = {{ \"{v}\" ->\n  [yes] hit\n *[no] miss\n }}\n"))
        if len(want) < 2000:
            for m, w in (("key", want), ("t", "<" + want + ">"), ("s", "hit" if want == "yes" else "miss")):
                text, errs = b.format_pattern(b.get_message(m).value)
                obs.eq(text, w, "formatted string literal has another value", literal=v, message=m)
                obs.check(not errs, "formatting a string literal reports errors", errors=repr(errs))
    else:
        obs.count("numbers")
        frac = len(v.split(".")[1]) if "." in v else 0
        for n in (node, FTL.NumberLiteral(v), node.clone()):
            p = n.parse()
            obs.check(set(p) == {"value", "precision"}, "parsed number has other fields", got=repr(p))
            obs.check(type(p["precision"]) is int and p["precision"] == frac, "wrong number of fraction digits", literal=v, got=p["precision"], want=frac)
            val = p["value"]
            want = float(decimal.Decimal(v))          # nearest float, correctly rounded
            obs.check(type(val) in (int, float) and (val == want or type(val) is int and val == int(v)), "wrong numeric value", literal=v, got=val)
        # what a bundle hands on: the very value, whether given to a function or a term
        got = []
        b = FluentBundle(["en-US"], functions={"F": lambda *a, **k: got.extend(a + tuple(k.values())) or "x"})
        b.add_resource(FluentResource(f"key = {{ F({v}, k: {v}) }}\n"))
        text, errs = b.format_pattern(b.get_message("key").value)
        obs.check(len(got) == 2 and not errs, "a function was not given a number", literal=v, got=repr(got), errors=repr(errs))
        for val in got:
            exact = decimal.Decimal(v)
            obs.check(isinstance(val, (int, float, decimal.Decimal)) and (val == (want if isinstance(val, float) else exact)),
                      "a function got another number", literal=v, got=repr(val))
        obs.count("handed_on")
    obs.check(json.dumps(node.to_json()) == before, "decoding changed the node")
    obs.nontrivial((kind, v))
    if len(v) < 40:
        obs.sample(v)
