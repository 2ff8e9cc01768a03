"""C07: CRLF and LF parse alike."""
from .common import *

ID = "C07"
RULE = ("LF texts of every kind against the same text with all, or some, line feeds written CR LF; trees compared without positions; "
        "non-trivial: at least one line end inside an entry; distinct by (text, choice of line ends)")
QUICK, THOROUGH = 20000, 250000
NEED = {"all_crlf": 4000, "mixed": 4000, "junk_compared": 1000, "comments": 800, "multiline_text": 1000}
MIN_NONTRIVIAL = 4000


def gen(r, i, tier):
    x = r.random()
    if x < .3:
        g = G.Gen(r, size=.7)
        s = G.render(g.model(r.choice([0, 1, 2]), entries=r.randint(1, 4)), r)
    elif x < .45:
        g = G.Gen(r, size=.5)
        s = "".join(T.pieces(r, g, r.randint(1, 5)))
    else:
        s = T.text(r, cr=False)
    s = s.replace("\r", "")
    nl = s.count("\n")
    masks = []
    for p in (.5, r.choice([.1, .9])):
        masks.append([r.random() < p for _ in range(nl)])
    if nl:
        m = [False] * nl
        m[r.randrange(nl)] = True
        masks.append(m)
    return (s, masks)


def feedback(case):
    T.fb(case[0])


def apply(s, mask):
    parts = s.split("\n")
    out = [parts[0]]
    for m, p in zip(mask, parts[1:]):
        out.append("\r\n" if m else "\n")
        out.append(p)
    return "".join(out)


def norm(e):
    return dict(e, content=e["content"].replace("\r\n", "\n")) if e["type"] == "Junk" else e


def run(case, obs):
    s, masks = case
    a = J(FluentParser(with_spans=False).parse(s))["body"]
    for n in walk(a):
        if n["type"] == "TextElement" and "\n" in n["value"]:
            obs.count("multiline_text")
        if n["type"].endswith("Comment"):
            obs.count("comments")
    for k, mask in enumerate([[True] * s.count("\n")] + masks):
        t = apply(s, mask)
        b = J(FluentParser(with_spans=False).parse(t))["body"]
        obs.count("mixed" if k else "all_crlf")
        for n in walk(b):
            if "\r" in str(n.get("value", "")) or n["type"].endswith("Comment") and "\r" in n["content"]:
                raise Violation("a carriage return of a line end got into the tree", node=n, source=t)
        obs.count("junk_compared", sum(e["type"] == "Junk" for e in b))
        same(obs, [norm(e) for e in b], a, "line ends change the parse", lf=s, mixed=t)
        # spans: the Junk keeps the source's line ends
        if k == 0 or any(e["type"] == "Junk" for e in b):
            c = J(FluentParser().parse(t))["body"]
            same(obs, RP.strip_spans(c), RP.strip_spans(b), "spans change the parse", source=t)
            for e in c:
                if e["type"] == "Junk":
                    obs.check(e["content"] == t[e["span"]["start"]:e["span"]["end"]], "Junk changes the source's line ends",
                              content=e["content"], source=t)
        if any(mask):
            obs.nontrivial((s, tuple(mask)))
    if len(s) < 150:
        obs.sample(repr(s))
