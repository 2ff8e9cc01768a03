"""C04: a syntax error stays contained in its own entry."""
from .common import *

ID = "C04"
RULE = ("files assembled from valid entries, comments and broken pieces, each from the start of a line; every valid entry must "
        "come out as it parses alone, in order; non-trivial: at least one valid entry next to at least one broken piece; "
        "distinct by text")
QUICK, THOROUGH = 26000, 200000
NEED = {"valid_entries": 8000, "broken_pieces": 5000, "comments_attached": 500, "comments_standalone": 1500, "valid_after_broken": 2500,
        "comment_pairs": 300}
MIN_NONTRIVIAL = 2000

SEPS = ["", "", "", "\n", "  \n", "\n\n", "   \n \n", "\r\n"]


def broken(r, g):
    x = r.random()
    if x < .55:
        s = r.choice(T.ERRORS)
    elif x < .75:
        s = T.mutate(r, G.Render(r, True).entry(g.entry(r.choice([0, 1, 2]))), r.choice([1, 2, 4]))
    elif x < .85:
        s = T.mutate(r, r.choice(T.ERRORS), 1)
    elif x < .93:
        s = "".join(r.choice(T.TOKENS) for _ in range(r.randint(1, 10)))
    else:
        # cut a valid entry short
        s = G.Render(r).entry(g.entry(r.choice([1, 2])))
        s = s[:r.randint(1, len(s))]
    if not s.endswith("\n"):
        s += "\n"
    if r.random() < .01:
        # a long stretch without the start of an entry
        s += "".join(r.choice(["  line\n", "    x = y\n", "\n", "  .a\n", "}\n", "  [b]\n", "\u00e9" * 70 + "\n"]) for _ in range(r.choice([60, 150, 400, 1200])))
    return s


def gen(r, i, tier):
    g = G.Gen(r, size=.5)
    n = r.randint(1, 7)
    ps = []
    for _ in range(n):
        x = r.random()
        if x < .45:
            e = g.entry(r.choice([0, 1, 2]))
            if r.random() < .6:
                e["comment"] = None
            s = G.Render(r, r.random() < .3).entry(e)
            ps.append(["entry", s, e])
        elif x < .62:
            lv = r.choice([1, 1, 1, 2, 3])
            c = g.comment_text()
            ps.append(["comment", G.Render(r).comment(lv, c), [lv, c]])
        else:
            ps.append(["broken", broken(r, g), None])
        ps[-1].append(r.choice(SEPS))
    if r.random() < .1:
        for p in ps:
            p[1] = G.crlf(p[1], r, 1.0)
            p[3] = G.crlf(p[3], r, 1.0)
    cut = r.random() < .15
    return {"pieces": ps, "cut": cut}


def nocomment(j):
    j = dict(j)
    if "comment" in j:
        j["comment"] = None
    return j


def noann(e):
    if e["type"] == "Junk":
        e = dict(e)
        e["annotations"] = []
    return e


def run(case, obs):
    ps = case["pieces"]
    src = "".join(p[1] + p[3] for p in ps)
    if case["cut"]:
        src = src.rstrip("\r\n ")
        if not src:
            return
    full = FluentParser(with_spans=True).parse(src)
    jf = J(full)
    got = jf["body"]
    # ---- by construction: every valid entry is there, unchanged, in order
    pos = 0
    want = []
    off = 0
    lim = len(src)
    seen_broken = False
    for k, p in enumerate(ps):
        kind, text, info, sep = p
        start = off
        off += len(text) + len(sep)
        rest = src[start + len(text):]
        body = rest.lstrip(" \r\n")
        if body and kind == "entry" and (body[0] in "{." or rest[:len(rest) - len(body)].endswith(" ") or rest[len(rest) - len(body) - 1:][0] == "\r"):
            seen_broken = True
            continue          # what follows reads as a continuation
        if kind == "broken":
            obs.count("broken_pieces")
            seen_broken = True
            continue
        if start >= lim:
            continue
        if kind == "entry":
            # alone, in the same line-end style
            alone = J(FluentParser(with_spans=False).parse(text))["body"]
            if len(alone) != 1 or alone[0]["type"] not in ("Message", "Term"):
                raise Violation("a valid entry does not parse alone", text=text, got=[e["type"] for e in alone])
            want.append((start, nocomment(alone[0]), k))
            obs.count("valid_entries")
            if seen_broken:
                obs.count("valid_after_broken")
        else:
            want.append((start, None, k))
    ents = [(e["span"]["start"], e) for e in got if e["type"] in ("Message", "Term")]
    swallow = risky(ps)
    for start, w, k in want:
        if w is None or k in swallow:
            continue
        found = None
        for a, e in ents:
            b = e["span"]["end"]
            idp = e["id"]["span"]["start"]
            if start <= idp < start + len(ps[k][1]):
                found = e
                break
        if found is None:
            raise Violation("a valid entry was lost", entry=ps[k][1], source=src, got=[(e["type"], e.get("content")) for e in got])
        same(obs, nocomment(RP.strip_spans(found)), w, "a valid entry came out differently next to broken text", entry=ps[k][1], source=src)
    # ---- what becomes Junk and where comments go: the grammar's own answer
    ref = RP.parse(src)["body"]
    same(obs, [noann(RP.strip_spans(e)) for e in got], [noann(RP.strip_spans(e)) for e in ref], "entries differ", source=src)
    # ---- comment attachment, judged on the result itself
    for i, e in enumerate(got):
        if e["type"] in ("Message", "Term") and e["comment"]:
            c = e["comment"]
            obs.count("comments_attached")
            obs.check(c["type"] == "Comment", "a group or resource comment was attached", source=src)
            between = src[c["span"]["end"]:(e["id"]["span"]["start"] - (e["type"] == "Term"))]
            obs.check(between.replace("\r\n", "\n") == "\n", "a comment not directly above was attached", between=between, source=src)
        if e["type"].endswith("Comment"):
            obs.count("comments_standalone")
            if e["type"] == "Comment" and i + 1 < len(got) and got[i + 1]["type"] in ("Message", "Term"):
                n = got[i + 1]
                a = n["span"]["start"]
                gap = src[e["span"]["end"]:a].replace("\r\n", "\n")
                obs.check(gap.count("\n") > 1 or n["comment"] is not None, "a comment directly above an entry was not attached",
                          gap=gap, source=src)
                obs.count("comment_pairs")
    kinds = [p[0] for p in ps]
    if "entry" in kinds and "broken" in kinds:
        obs.nontrivial(src.encode("utf-8", "surrogatepass"))
        if len(src) < 200:
            obs.sample(src)
    obs.state("piece_sequences", tuple(kinds))


def risky(ps):
    """Pieces whose start might be absorbed by a preceding unfinished text that
    is not an error up to there (an identifier directly continuing '= {\\n',
    say: `a = {` followed by `b` reads as the placeable `{ b`)."""
    out = set()
    for k, p in enumerate(ps):
        if p[0] != "broken":
            continue
        # alone, is the piece closed?  Its last entry must end, blank space
        # aside, at the end of the piece without needing more text.
        t = p[1]
        j = RP.parse(t)["body"]
        if j and j[-1]["type"] == "Junk":
            pos = j[-1]["annotations"][0]["span"]["start"]
            # the error is found only at the end of the text or in the last
            # line's trailing blank: what follows could continue it
            if pos >= len(t.rstrip(" \r\n")):
                # everything up to and including the next entry may be eaten
                for m in range(k + 1, len(ps)):
                    out.add(m)
                    if ps[m][0] == "entry":
                        break
                    if ps[m][0] == "broken":
                        continue
        elif j and j[-1]["type"].endswith("Comment"):
            pass
    return out


def feedback(case):
    T.fb("".join(p[1] + p[3] for p in case["pieces"]))
