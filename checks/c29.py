"""C29: highlighting reproduces the source exactly."""
from .common import *
from fluent.pygments.lexer import FluentLexer

ID = "C29"
RULE = ("arbitrary text (valid, broken, mutated, CRLF and lone CR, astral, surrogate, empty) tokenized; every stream position checked against the input "
        "as tokens arrive; non-trivial: more than two tokens; distinct by the sequence of (class, length)")
QUICK, THOROUGH = 20000, 400000
NEED = {"texts": 10000, "tokens": 150000, "with_junk": 4000, "crlf": 1500, "cr": 500, "astral": 500, "empty": 1, "surrogates": 50, "via_get_tokens": 10000,
        "gaps": 60000, "reused": 10000}
MIN_NONTRIVIAL = 5000
LEX = FluentLexer(stripnl=False, ensurenl=False)
FRESH = lambda: FluentLexer(stripnl=False, ensurenl=False)


def gen(r, i, tier):
    x = r.random()
    if x < .35:
        g = G.Gen(r, size=r.choice([.5, 1, 2]))
        s = G.render(g.model(r.choice([1, 2, 3]), entries=r.randint(1, 5)), r, r.random() < .4)
        if r.random() < .4:
            s = T.mutate(r, s, r.choice([1, 1, 2]))
    elif x < .5:
        s = "".join(r.choice(["", "", "ok = x\n", "# c\n", "\n", " \n", "\r\n"]) + r.choice(T.ERRORS) + r.choice(["\n", "\n\n", "\r\n", "", "\n  "]) for _ in range(r.randint(1, 3)))
    else:
        s = T.text(r)
    y = r.random()
    if y < .2:
        s = G.crlf(s, r, r.choice([1.0, .5]))
    elif y < .25:
        s = s.replace("\n", "\r", r.randint(1, 3))
    elif y < .28:
        s = s.rstrip()
    elif y < .31:
        k = r.randint(0, len(s))
        s = s[:k] + r.choice(["\ud800", "\udc00x", "\udfff\n"]) + s[k:]
    elif y < .34:
        s = s.replace("a", r.choice(["😀", "𝒳", "\u2028", "\x0c", "\x85", "\x00", "\ufeff"]), r.randint(1, 3))
    elif y < .36:
        s = "\ufeff" + s
    return s


def fixed(tier):
    yield ""
    yield "deep = " + "{" * 400 + "$x" + "}" * 400 + "\n"     # the recorded deep-nesting finding
    for s in ("\n", " ", "\r", "\r\n", "\t", "#", "# c", "a", "a =", "a = b", "a = b\r\n", "-", "\n\n\n", "a = b\n\n\n", "  \n a = b", "\x00", "\ufeffa = b\n", "\ud800", "{", "}", "key = { \"",
              "# c\n\n# d\na = b\n", "a = { $x ->\n *[one] x\n }\n .b = c\n"):
        yield s
    yield from T.corpus()


def feedback(s):
    T.fb(s)


def run(s, obs):
    obs.count("texts")
    toks, pos = [], 0
    for lex in (FRESH(), LEX):
        toks, pos = [], 0
        for start, cls, t in lex.get_tokens_unprocessed(s):
            obs.check(start == pos, "a token does not start where the one before it ended", token=(start, str(cls), t), expected=pos, source=s)
            obs.check(isinstance(t, str) and s[start:start + len(t)] == t, "a token is not the text at its position", token=(start, str(cls), t), source=s)
            pos += len(t)
            toks.append((str(cls), t))
        obs.check(pos == len(s), "the tokens stop before the end of the text", stopped=pos, length=len(s), source=s)
    obs.count("reused")
    obs.count("tokens", len(toks))
    obs.count("gaps", sum(c == "Token.Punctuation" for c, _ in toks))
    # the public way, where pygments normalizes line ends before it tokenizes
    norm = s.replace("\r\n", "\n").replace("\r", "\n")
    if norm.startswith("\ufeff"):
        norm = norm[1:]
    out = "".join(t for _, t in FRESH().get_tokens(s))
    obs.check(out == norm, "get_tokens does not reproduce the text", got=out, want=norm)
    obs.count("via_get_tokens")
    obs.count("with_junk", any("Generic.Error" in c for c, _ in toks))
    obs.count("crlf", "\r\n" in s)
    obs.count("cr", "\r" in s.replace("\r\n", ""))
    obs.count("astral", any(ord(c) > 0xffff for c in s))
    obs.count("surrogates", any(0xd800 <= ord(c) < 0xe000 for c in s))
    obs.count("empty", s == "")
    if len(toks) > 2:
        obs.nontrivial(tuple((c, len(t)) for c, t in toks))
        if len(s) < 200:
            obs.sample(s)


classify = deep_nesting
