"""C05: every Junk carries exactly one accurate diagnostic."""
from .common import *
import collections

ID = "C05"
RULE = ("texts made mostly of broken entries, and entries with one slip of a chosen kind and random names, covering every diagnostic; each annotation compared with the reference grammar's "
        "first error; non-trivial: some Junk; distinct by (codes, arguments, offsets)")
QUICK, THOROUGH = 40000, 280000
NEED = {"junk": 6000}
MIN_NONTRIVIAL = 1500
CODES = ["E0002", "E0003", "E0004", "E0005", "E0006", "E0008", "E0009", "E0010", "E0011", "E0012", "E0013", "E0014", "E0015", "E0016",
         "E0017", "E0018", "E0019", "E0020", "E0021", "E0022", "E0025", "E0026", "E0027", "E0028", "E0029"]
NEED.update({"code:" + c: 5 for c in CODES})


def broken(r):
    """One entry with a slip of a chosen kind, its names and the place of the slip random."""
    g = G.Gen(r, size=.3)
    used = []

    def n():
        x = r.random()
        used.append(r.choice(used) if used and x < .3 else g.ident() if x < .85 else r.choice("aZq") + "".join(r.choice("abcXYZ019_-") for _ in range(r.randint(8, 60))))
        return used[-1]

    def sp():
        return r.choice(["", "", "", " ", "  ", "\n    "])

    def arg():
        return r.choice(["$" + n(), n(), '"' + n() + '"', str(r.randint(0, 99)), "-" + n(), n() + "." + n(), "F()"])

    def var(default=False):
        return "\n" + " " * r.randint(0, 6) + ("*" if default else "") + "[" + r.choice(["", " "]) + r.choice([n(), n(), str(r.randint(-9, 99)) + r.choice(["", ".5"])]) + r.choice(["", " "]) + "] " + n()

    def variants():
        k = [var() for _ in range(r.choice([0, 0, 1, 2]))]
        k.insert(r.randint(0, len(k)), var(True))
        return "".join(k) + "\n" + " " * r.randint(0, 4)

    F = lambda: r.choice(["F", "NUMBER", n().upper()])
    slip = r.choice([
        lambda: n() + " ->" + variants(), lambda: n() + "." + n() + " ->" + variants(), lambda: n() + "." + n() + sp() + "->" + variants(),
        lambda: "-" + n() + r.choice(["", "(" + n() + ": 1)"]) + " ->" + variants(), lambda: "-" + n() + "." + n() + r.choice(["", "(" + n() + ": 1)"]),
        lambda: n() + sp() + "(" + arg() + ")", lambda: F() + "(" + r.choice(["$" + n(), n() + "." + n(), "-" + n(), '"' + n() + '"', "1"]) + sp() + ":" + sp() + "1)",
        lambda: F() + "(" + n() + ":" + sp() + r.choice(["$" + n(), n(), "-" + n(), "{1}", ""]) + ")",
        lambda: F() + "(" + arg() + "," + n() + ": 1," + sp() + arg() + ")",
        lambda: F() + "(" + ", ".join(n() + r.choice([": 1", ': "' + n() + '"']) for _ in range(r.randint(2, 6))) + ")",
        lambda: arg() + " ->" + "".join(var() for _ in range(r.randint(0, 3))) + "\n", lambda: "$" + n() + " -> " + r.choice(["", n()]) + variants(),
        lambda: "$" + n() + " ->" + variants() + var(True) + "\n", lambda: "$" + n() + " ->" + var() + variants() + "\n [" + n() + "]" + r.choice(["", "\n"]),
        lambda: "$" + n() + " ->" + var() + "\n *" + r.choice(["", "["]) + r.choice(["", "$", "]", "[", n() + " " + n()]) + r.choice(["] x", ""]) + "\n",
        lambda: '"' + n() + r.choice(["", "\n", "\\", "\\" + r.choice("xnrtb'aN0"), "\\u" + r.choice(["12", "12G4", "", "d8"]), "\\U" + r.choice(["12345", "0000G1", "1"])]) + r.choice(['"', "", ' x"']),
        lambda: r.choice(["", "!", ".", "$", "-", "$1", "-1.", "1.", "--" + n(), "$" + n() + "." + n(), "$-" + n()]),
        lambda: "{" + arg() + "}" + " ->" + variants(), lambda: arg() + sp() + r.choice(["-", "- >", "=>", "->", arg(), "}", ")"]),
        lambda: F() + sp() + "(" + arg() + r.choice(["", ",,", " ", ", ,", ";"]) + r.choice([")", "", arg()]),
    ])()
    for _ in range(r.choice([0, 0, 1, 2])):
        slip = r.choice([lambda x: "{" + sp() + x + sp() + "}", lambda x: F() + "(" + x + ")", lambda x: F() + "(" + arg() + ", " + x + ")",
                         lambda x: "$" + n() + " ->" + var() + " {" + x + "}" + variants(), lambda x: "$" + n() + " ->" + variants() + var() + " {" + x + "}\n"])(slip)
    value = r.choice(["", "", n() + " ", "{" + arg() + "} "]) + "{" + sp() + slip + sp() + "}" + r.choice(["", "", " " + n()])
    head = r.choice(["", "", "-"]) + n() + r.choice([" ", ""]) + "=" + r.choice([" ", " ", "", "\n  "])
    if r.random() < .3:
        return head + r.choice([n() + "\n", "\n"]) + " ." + n() + " = " + value
    return head + value + r.choice(["", "", "\n ." + n() + " = " + n()])


def gen(r, i, tier):
    if r.random() < .008:
        return T.large(r, dim="junk")
    x = r.random()
    if x < .4:
        k = r.randint(1, 3)
        out = ""
        for _ in range(k):
            s = r.choice(T.ERRORS)
            if r.random() < .3:
                s = T.mutate(r, s, 1)
            if r.random() < .2:
                s = s.replace("key", r.choice(["k", "a-long_name9", "Foo"]))
            out += r.choice(["", "", "ok = x\n", "# c\n", "\n"]) + s + r.choice(["\n", "\n", "\n\n", "\n  ", "  \n"])
        if r.random() < .3:
            out = out.rstrip("\n ")
        if r.random() < .12:
            out = G.crlf(out, r, r.choice([1.0, .5]))
        return out
    if x < .55:
        return "".join(broken(r) + r.choice(["\n", "\n", "", "\n\n", "\nok = x\n"]) for _ in range(r.choice([1, 1, 2])))
    if x < .75:
        g = G.Gen(r, size=.5)
        return T.mutate(r, G.render(g.model(r.choice([1, 2, 2]), entries=r.randint(1, 2)), r, r.random() < .5))
    return T.text(r)


def fixed(tier):
    for e in T.ERRORS:
        yield e
        yield e + "\n"
        yield "a = b\n" + e + "\nc = d\n"
        yield e.replace("\n", "\r\n") + "\r\n"


def feedback(s):
    T.fb(s)


def run(s, obs):
    got = FluentParser().parse(s)
    ref = RP.parse(s)["body"]
    jb = J(got)["body"]
    gj = [e for e in jb if e["type"] == "Junk"]
    rj = [e for e in ref if e["type"] == "Junk"]
    obs.check([(e["span"]["start"], e["span"]["end"]) for e in gj] == [(e["span"]["start"], e["span"]["end"]) for e in rj],
              "other text is Junk than the grammar says", got=[e["content"] for e in gj], want=[e["content"] for e in rj], source=s)
    sig = []
    for g, w in zip(gj, rj):
        obs.count("junk")
        an = g["annotations"]
        obs.check(len(an) == 1, "Junk without exactly one annotation", count=len(an), junk=g["content"], source=s)
        a, b = an[0], w["annotations"][0]
        obs.check(a["type"] == "Annotation" and isinstance(a["code"], str) and isinstance(a["message"], str), "malformed annotation", got=a)
        obs.eq(a["code"], b["code"], "wrong error code", junk=g["content"], source=s)
        obs.count("code:" + a["code"])
        p = a["span"]
        obs.check(p is not None and g["span"]["start"] <= p["start"] <= p["end"] <= g["span"]["end"],
                  "annotation outside its Junk", annotation=p, junk=g["span"], source=s)
        obs.eq((p["start"], p["end"]), (b["span"]["start"], b["span"]["end"]), "wrong error position", code=a["code"], junk=g["content"], source=s)
        wa, wm = b["arguments"], b["message"]
        if a["code"] in ("E0025", "E0026") and p["start"] >= len(s):
            obs.count("escape_at_end_of_file")     # no character to name there
        else:
            obs.eq(list(a["arguments"]), wa, "wrong error arguments", code=a["code"], junk=g["content"], source=s)
            obs.eq(a["message"], wm, "wrong error message", code=a["code"], junk=g["content"], source=s)
        sig.append((a["code"], tuple(map(str, wa)), p["start"] - g["span"]["start"]))
        obs.state("code_args", (a["code"], tuple(map(str, wa))))
    # without spans: same diagnostics
    if obs.n["texts"] % 3 == 0:
        nb = J(FluentParser(with_spans=False).parse(s))["body"]
        nj = [e for e in nb if e["type"] == "Junk"]
        obs.eq([[(a["code"], list(a["arguments"]), a["message"]) for a in e["annotations"]] for e in nj],
               [[(a["code"], list(a["arguments"]), a["message"]) for a in e["annotations"]] for e in gj], "diagnostics differ without spans", source=s)
    obs.count("texts")
    # valid entries carry none
    for e in jb:
        if e["type"] != "Junk":
            obs.check(not e.get("annotations"), "a valid entry carries annotations")
    if sig:
        obs.nontrivial(tuple(sig))
        if len(s) < 120:
            obs.sample(s)
