"""C30: highlighting classifies each construct by its syntax."""
from .common import *
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token

ID = "C30"
RULE = ("valid, broken and mutated files with every construct; the classified tokens compared one by one with those an independent parser derives; "
        "non-trivial: at least three classes; distinct by the sequence of classes")
QUICK, THOROUGH = 16000, 400000
CLASSES = ["Comment.Multiline", "Name.Constant", "Literal", "Literal.Number", "Literal.String", "Name.Variable", "Generic.Error", "Name.Attribute"]
NEED = {"texts": 8000, "tokens": 150000, "nested_variants": 1500, "attached_comments": 2500, "named_arguments": 2000, "terms": 2000, "attributes": 2500,
        "multiline_text": 2500, "number_keys": 1000, "punctuation": 80000, "crlf": 1400, "built_by_construction": 4000}
NEED.update({"class:" + c: 1500 for c in CLASSES})
MIN_NONTRIVIAL = 4000
LEX = FluentLexer()


def gen(r, i, tier):
    x = r.random()
    if x < .6:
        g = G.Gen(r, size=r.choice([.5, 1, 2]))
        m = g.model(r.choice([1, 2, 3]), entries=r.randint(1, 4))
        s = G.render(m, r, r.random() < .4)
        if r.random() < .25:
            s = T.mutate(r, s, 1)
    elif x < .75:
        s = "".join(r.choice(["", "", "ok = x\n", "# c\n", "\n"]) + r.choice(T.ERRORS) + r.choice(["\n", "\n\n", "\n  "]) for _ in range(r.randint(1, 3)))
    else:
        s = T.text(r)
    if r.random() < .15:
        s = G.crlf(s, r, r.choice([1.0, .5]))
    return s


def fixed(tier):
    for s in ("a = b", "# c\na = b", "# c\n\na = b", "## g\n### r\n-t = { 1 }\n  .x = { \"s\" }\n", "a = { FOO($x, 1, n: \"v\", m: 2) }\n",
              "a = { $x ->\n  [1.5] x\n *[other] { $y ->\n   *[k] { -t.attr ->\n    *[one] z\n } } }\n", "a = { -t(x: 1) }{ b.c }{ { $v } }\n", "a b\nc = d\n",
              "key =\n    .attr = x\n    .two = { $x }y{ -t }\n"):
        yield s
    yield from T.corpus()


def feedback(s):
    T.fb(s)


def expect(n, out, obs):
    t = n["type"]
    one = {"Comment": "Comment.Multiline", "GroupComment": "Comment.Multiline", "ResourceComment": "Comment.Multiline", "Identifier": "Name.Constant",
           "TextElement": "Literal", "NumberLiteral": "Literal.Number", "StringLiteral": "Literal.String", "VariableReference": "Name.Variable",
           "Junk": "Generic.Error"}.get(t)
    if one:
        out.append((n["span"]["start"], n["span"]["end"], one))
        return
    if t == "Variant":
        obs.count("number_keys", n["key"]["type"] == "NumberLiteral")
        out.append((n["key"]["span"]["start"], n["key"]["span"]["end"], "Name.Attribute"))
        expect(n["value"], out, obs)
        return
    if t == "SelectExpression" and any("SelectExpression" in [m["type"] for m in walk(v)] for v in n["variants"]):
        obs.count("nested_variants")
    obs.count("named_arguments", t == "NamedArgument")
    obs.count("terms", t == "Term")
    obs.count("attributes", t == "Attribute")
    obs.count("attached_comments", t in ("Message", "Term") and bool(n.get("comment")))
    for k, v in n.items():
        for c in v if isinstance(v, list) else [v]:
            if isinstance(c, dict) and c["type"] not in ("Span", "Annotation"):
                expect(c, out, obs)


def run(s, obs):
    obs.count("texts")
    want = []
    ref = RP.parse(s)
    expect(ref, want, obs)
    want.sort()
    full, pos = [], 0
    for a, b, c in want:
        if a > pos:
            full.append((pos, "Token.Punctuation", s[pos:a]))
        if b > a:
            full.append((a, "Token." + c, s[a:b]))
        pos = max(pos, b)
    if pos < len(s):
        full.append((pos, "Token.Punctuation", s[pos:]))
    got = [(p, str(c), t) for p, c, t in LEX.get_tokens_unprocessed(s) if t]
    if got != full:
        for k in range(max(len(got), len(full))):
            g = got[k] if k < len(got) else None
            w = full[k] if k < len(full) else None
            if g != w:
                raise Violation(f"token {k} is {g}, the syntax says {w}", source=s)
    obs.count("assertions", len(full))
    obs.count("tokens", len(full))
    for p, c, t in full:
        if c == "Token.Punctuation":
            obs.count("punctuation")
        else:
            obs.count("class:" + c[6:])
            obs.count("multiline_text", c == "Token.Literal" and "\n" in t)
    obs.count("crlf", "\r\n" in s)
    obs.count("built_by_construction", not any(e["type"] == "Junk" for e in ref["body"]))
    # the same classes when each token is asked for through the class hierarchy
    for p, c, t in LEX.get_tokens_unprocessed(s[:400]) if obs.n["texts"] % 8 == 0 else ():
        obs.check(c in Token, "not a token class", token=repr(c))
    if len({c for _, c, _ in full}) >= 3:
        obs.nontrivial(tuple(c for _, c, _ in full))
        if len(s) < 200:
            obs.sample(s)
