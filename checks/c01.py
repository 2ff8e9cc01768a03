"""C01: parsing is total and its work is linear."""
from .common import *

ID = "C01"
RULE = ("hostile texts (layouts, mutations, token soup, truncations, long repetitions) parsed under a step counter; "
        "non-trivial: non-empty text; distinct by text")
QUICK, THOROUGH = 9000, 250000
NEED = {"parses": 4000, "junk": 500, "long_texts": 20}
MIN_NONTRIVIAL = 2000
SHARED = FluentParser()
SHARED_NS = FluentParser(with_spans=False)

# Steps are control-flow events (function entries, jumps, branches) inside the
# repository's code.  The unchanged parser stays below 80 per character.
PER_CHAR, BASE = 800, 20000

UNITS = ["{", "}", "[", "]", "\"", "\\", "a", "a = b\n", "a = {\n", "a =\n", "a", "-", "#", "# x\n", "#x\n", "##\n", "###", "\n", " ", "  \n",
         "\r\n", "\r", "a = {$x}\n", "a = {\"\\u\n", " b\n", "\n .a = b", "\n .a =", "\n *[a] b", "[[", "//", "// x\n", "a = { $x ->\n", "*[a] {$x ->\n",
         "F(", "F(1,", ",", "1", "1.", ".", "-1", "a = {F(\n", "}\n", "{\"\n", "$", "a:1,", "é", "é\n", "\u2028", "= ", "a = b\n  c\n", "a = {b}\n\n",
         "a =\n\n\n\n", "    ", "\n    {\"a\"}", "-a\n", "-a = b\n.c", "{ }", "{{", "\\\"", "\\u0041", "a = {-b.c}\n", "# x\n\n", "## x\n# y\n", "a\n ", "\n}", "\n ]"]
NEST = {"{", "F(", "F(1,", "*[a] {$x ->\n", "{{", "a = { $x ->\n", "{\"\n", "a = {F(\n", "a = {\n"}


def nested(r):
    """Deep but legal nesting, within the promised few dozen levels."""
    k = r.randint(2, 30)
    x = r.random()
    if x < .3:
        return "a = " + "{" * k + "$x" + "}" * k + "\n"
    if x < .6:
        k = min(k, 20)
        return "a = " + "{F(" * k + "1" + ")}" * k + "\n"
    k = min(k, 24)
    return "a = " + "{ $x ->\n *[o] " * k + "z" + "\n}" * k + "\n"


def gen(r, i, tier):
    if i % 60 == 0:
        u = UNITS[(i // 60) % len(UNITS)] if r.random() < .5 else r.choice(UNITS)
        n = r.choice([2000, 5000, 20000]) if tier == "quick" else r.choice([5000, 20000, 60000])
        v = r.choice(UNITS) if r.random() < .6 else ""
        w = u + v
        reps = max(1, n // max(1, len(w)))
        s = r.choice(["", "a = ", "a = {", "a =\n", "# ", "-", "a = { $x ->\n *[o] ", "a = \"", "a = {\""]) + w * reps + r.choice(["", "\n", "}", "\nb = c\n", "\n .x = y\n"])
        return s
    if i % 60 == 1:
        return nested(r)
    if i % 60 == 3:
        # one long token with a blemish, at every place a token may stand
        a = "".join(r.choice(["A", "B-", "C_", "9", "A1"]) if r.random() < .8 else r.choice("abZ") for _ in range(r.randint(30, 120)))
        x = r.choice([a, a.lower(), a.upper(), "1" * 60 + "." + "2" * 60, "-" * 80, a + "é", a + "x", "0" * 90])
        if r.random() < .5:
            x = x.replace("9", "").replace("1", "")
        y = r.choice(["", "x", "é", "-", ".", "_", "1", " "])
        return r.choice(["a = { %s%s(1) }\n", "a = { %s%s() }\n", "a = { %s%s }\n", "%s%s = x\n", "a = { -%s%s.x }\n", "a = { $%s%s(\n", "a = { F(%s%s: 1) }\n",
                         "a = { $x ->\n *[%s%s] x\n }\n", "a = { \"\\u%s%s\" }\n", "# %s%s\n", "a = x\n .%s%s = y\n"]) % (x, y)
    if i % 60 == 2:
        g = G.Gen(r)
        return G.render(g.model(2, entries=r.randint(10, 60)), r)
    s = T.text(r)
    return s


def fixed(tier):
    # the recorded deep-nesting finding
    yield "deep = " + "{" * 400 + "$x" + "}" * 400 + "\n"


def feedback(case):
    T.fb(case)


def run(s, obs):
    obs.count("parses")
    # nesting actually reached (the reference parser survives deeper texts)
    limit = PER_CHAR * len(s) + BASE
    try:
        with Steps(limit) as st:
            r1 = FluentParser().parse(s)
    except StepLimit:
        raise Violation(f"parsing {len(s)} characters took more than {limit} steps")
    obs.count("steps", st.n)
    if len(s) >= 1500:
        obs.count("long_texts")
        obs.state("steps_per_char_long", round(st.n / len(s)))
    if s:
        obs.nontrivial(s.encode("utf-8", "surrogatepass"))
    if not isinstance(r1, FTL.Resource):
        raise Violation(f"parse returned {type(r1).__name__}")
    j1 = J(r1)
    obs.count("entries", len(j1["body"]))
    junk = sum(e["type"] == "Junk" for e in j1["body"])
    obs.count("junk", junk)
    if 0 < len(s) < 200:
        obs.sample(s)
    obs.state("junk_count", junk)
    # the same result every time: shared parser object, module function
    same(obs, J(SHARED.parse(s)), j1, "parsing again with a used parser differs")
    same(obs, J(parse(s)), j1, "fluent.syntax.parse differs")
    if obs.n["parses"] % 4 == 0:
        same(obs, J(SHARED_NS.parse(s)), strip(j1), "parsing without spans differs")


classify = deep_nesting
