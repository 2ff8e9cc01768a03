"""C13: parse_entry agrees with the full parse."""
from .common import *

ID = "C13"
RULE = ("texts with leading blanks and comments, valid and broken; parse_entry compared with the first entry of the full parse; "
        "non-trivial: text not blank; distinct by text")
QUICK, THOROUGH = 50000, 350000
NEED = {"valid_entry": 2500, "junk": 2000, "comments_skipped": 1500, "invalid_comment": 100}
MIN_NONTRIVIAL = 4000


def gen(r, i, tier):
    g = G.Gen(r, size=.5)
    x = r.random()
    if x < .7:
        s = r.choice(["", "", "\n", "  \n\n", " \n", "\r\n", "\n\r\n"])
        for _ in range(r.choice([0, 0, 1, 1, 2, 4]) if r.random() > .002 else r.choice([18, 40, 70, 130, 300])):
            if r.random() < .85:
                s += G.Render(r).comment(r.choice([1, 1, 2, 3]), g.comment_text())
            else:
                s += r.choice(["#x\n", "##x\n", "###\tx\n", "####\n", "#\n", "##\n", "#"])
            s += r.choice(["", "", "\n", "  \n\n", " \n"])
        y = r.random()
        if y < .55:
            e = g.entry(r.choice([0, 1, 2]))
            s += G.Render(r).entry(e)
        elif y < .85:
            s += r.choice(T.ERRORS) + r.choice(["", "\n"])
        elif y < .92:
            s += T.mutate(r, G.Render(r).entry(g.entry(1)), 1)
        if r.random() < .5:
            s += r.choice(["b = c\n", "# d\n", "\n\n# d\nb = c\n", "}\n", " x\n", "-t = x"])
        if r.random() < .15:
            s = G.crlf(s, r, 1.0)
        return s
    return T.text(r)


def feedback(s):
    T.fb(s)


def run(s, obs):
    pe = FluentParser().parse_entry(s)
    got = J(pe)
    full = J(FluentParser().parse(s))["body"]
    want, skipped = None, 0
    for e in full:
        if e["type"].endswith("Comment"):
            skipped += 1
            continue
        want = e
        break
    blank = not s.replace("\r\n", "\n").strip(" \n")
    if want is None:
        # nothing but comments and blank lines: there is no entry to return
        obs.count("no_entry")
        obs.check(got["type"] == "Junk" and not got["content"].strip(" \r\n"), "no entry in the text, but one was returned", got=got, source=s)
        return
    if want["type"] == "Junk":
        obs.count("junk")
        if want["content"].startswith("#"):
            obs.count("invalid_comment")
        same(obs, got, want, "parse_entry returns other Junk than the full parse", source=s)
    else:
        obs.count("valid_entry")
        if skipped or want["comment"]:
            obs.count("comments_skipped")
        w = dict(want)
        if w["comment"]:
            c = w["comment"]
            w["comment"] = None
            # without its comment the entry starts at its own first character
            a = c["span"]["end"]
            while s[a] in "\r\n":
                a += 1
            w["span"] = dict(w["span"], start=a)
        same(obs, got, w, "parse_entry differs from the full parse", source=s)
    same(obs, got, RP.parse_entry(s) if not known_text(got) else got, "parse_entry differs from the grammar", source=s)
    ns = J(FluentParser(with_spans=False).parse_entry(s))
    same(obs, ns, RP.strip_spans(got), "parse_entry without spans differs", source=s)
    if not blank:
        obs.nontrivial(s.encode("utf-8", "surrogatepass"))
        if len(s) < 150:
            obs.sample(s)


def known_text(g):
    """The escape diagnostics at the very end of a text name no character."""
    return g["type"] == "Junk" and g["annotations"] and g["annotations"][0]["code"] in ("E0025", "E0026")
