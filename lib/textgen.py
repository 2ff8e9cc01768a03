"""Hostile Fluent texts: layouts of random models, their mutations, mutated
corpus files, token soup, and snippets that hit every diagnostic."""
import glob, os
from . import env, ftlgen as G

TOKENS = ["key", "-term", "=", " = ", "{", "}", "{ ", " }", "\"", "\\", "\\u00", "\\U0", "\\u0041", "\\U01F602", "[", "]",
          "*", "*[a]", "[one]", "a", "$x", "->", " ->\n", "F(", "FUN (", ")", ",", ":", "a:1", "1", "-1", "-", ".", "..", "1.5", "#",
          "# c", "##", "## g", "###", "### r", "#x", " ", "  ", "    ", "\n", "\n\n", "\r\n", "\r", "\n ", "\n    ",
          "\n.a =", "\n .b = v", "\n *[a] x", "\n [b] y", "//", "[[", "/", "\u2028", "\x85", "\0", "é", "😀", "\ud800", "\ufeff",
          "key = v\n", "\n    .at = x", "\n-t = v", "-t.a", "m.a", "-t(a: \"x\")", "{ $x ->\n *[o] z\n }", "\t", "\x0c", "\n}", "\n ]",
          "{\"", "\"}", "{\"}\"}", "{-", "{$", "{1", "{ F()", "{m", "~", "\n#", "\n# c\n", "\n## c\n"]

# Characters easily taken for one that means something (by Unicode's classes, case rules or looks).
ALIKE = {"s": "\u017f", "k": "\u212a", "K": "\u212a", "i": "\u0131\u0130", "I": "\u0130", "a": "\u0430\uff41\u00aa", "A": "\uff21\u0391", "u": "\uff55", "U": "\uff35",
         " ": "\u00a0\u3000\t\u2003\u200b\x0c\x0b", "\n": "\u2028\x85\r\x0b\x0c\u2029", "-": "\u2010\u2013\u2212\uff0d", "_": "\uff3f\u203f",
         "0": "\uff10\u0660", "1": "\u00b9\uff11\u0661\u00bd", "2": "\u00b2\u0968", "4": "\uff14", "=": "\uff1d\ua78a", "{": "\uff5b", "}": "\uff5d", "[": "\uff3b",
         "]": "\uff3d", "*": "\u2217\uff0a", ".": "\uff0e\u2024", "#": "\uff03\u266f", "\"": "\u201c\uff02", "\\": "\uff3c\u29f5", "$": "\uff04", "(": "\uff08",
         ")": "\uff09", ",": "\u201a\uff0c", ":": "\uff1a\u2236", ">": "\uff1e", "/": "\u2044"}
ALIKES = sorted(set("".join(ALIKE.values())))


def alike(r, c):
    """A look-alike of c; of a letter or digit without one, its wide form."""
    if c in ALIKE:
        return r.choice(ALIKE[c])
    return chr(ord(c) + 0xfee0) if "!" <= c <= "~" else r.choice(ALIKES)


# Text that provokes a given diagnostic, to be put in place of an entry.
ERRORS = [
    "é = x", "= x", "] x", "1a = x", "_a = x", "{ x }", "\"a\" = x", " key = indented",              # E0002
    "key", "key x", "key.a = x", "#x", "##x", "###x", "####", "#\tx", "key = {a", "key = {a b}", "key = {F(a b)}", "key = { $x -> *[a] b\n}",
    "key = {\"abc", "key = {$a b}", "key = { $x ->\n *[a b] c\n }", "key {", "-t: x",                   # E0003
    "-", "-1 = x", "- t = x", "key = x\n .1 = y", "key = x\n . a = y", "key = {$}", "key = {$1}", "key = {-}", "key = {-.a}", "key = {1.}",
    "key = {-1.}", "key = {a.}", "key = {-t.}", "key = { $x ->\n *[] b\n }", "key = { $x ->\n *[\"a\"] b\n }", "key = { $x ->\n *[-] b\n }", # E0004
    "key =", "key = ", "key =\n", "key =\n\n  ", "key =\nx", "key = \n}", "key =\n [a", "key =\n *a",             # E0005
    "-t =", "-t =\n .a = x", "-t =\n\n", "-t =\n}",                                                     # E0006
    "key = {f()}", "key = {Fun()}", "key = {fUN (1)}", "key = {F(g())}", "key = {m.a()}",              # E0008
    "key = {F(\"a\": 1)}", "key = {F($a: 1)}", "key = {F(1: 1)}", "key = {F(m.a: 1)}", "key = {F(-t: 1)}", "key = {F({a}: 1)}",   # E0009
    "key = { $x ->\n [a] b\n }", "key = { $x ->\n [a] b\n [c] d\n}",                                     # E0010
    "key = { $x ->\n }", "key = { $x -> }", "key = { $x ->\n\n\n}", "key = { $x ->\n [[a] b\n}", "key = { $x ->",  # E0011
    "key = x\n .a =", "key = x\n .a =\n .b = c", "key = { $x ->\n *[a]\n }", "key = { $x ->\n *[a]\n\n [b] c\n }",      # E0012
    "key = { $x ->\n *[", "key = { $x ->\n *[  \n\n",                                                  # E0013
    "key = {F(a: $b)}", "key = {F(a: b)}", "key = {F(a: -b)}", "key = {F(a: )}", "key = {F(a:", "key = {F(a: {1})}",  # E0014
    "key = { $x ->\n *[a] b\n *[c] d\n }",                                                           # E0015
    "key = { m ->\n *[a] b\n }", "key = { -t ->\n *[a] b\n }", "key = { -t(a: 1) ->\n *[a] b\n }", "key = { m.a ->\n *[a] b\n }",   # 16 17 18
    "key = {-t.a}", "key = {-t.a(b: 1)}", "key = {{-t.a}}", "key = {-t.a }",                             # E0019
    "key = {\"a\n\"}", "key = {\"\n", "key = {\"a\r\n\"}",                                            # E0020
    "key = {F(a: 1, 2)}", "key = {F(a: 1, $b, c)}", "key = {-t(a: 1, 2)}", "key = {F(a: 1, a: 2)}", "key = {F(b: 1, a: 2, b: 3)}", # 21 22
    "key = {\"\\a\"}", "key = {\"\\\n\"}", "key = {\"\\x41\"}", "key = {\"\\", "key = {\"\\u12\"}", "key = {\"\\u123G\"}", "key = {\"\\U12345\"}",
    "key = {\"\\U00000G\"}", "key = {\"\\u", "key = {\"\\uD8\n\"}",                                     # 25 26
    "key = a}", "key = }", "key = a\n  b}", "key = {a}}", "key = x\n .a = }",                           # E0027
    "key = {}", "key = { }", "key = {.}", "key = {*}", "key = {#}", "key = {F(,)}", "key = {F(1,,2)}", "key = {(1)}", "key = {\n", "key = {é}",  # E0028
    "key = { {$x} ->\n *[a] b\n }", "key = { {\"a\"} ->\n *[a] b\n }",                                # E0029
    "\u017f = x", "\u212aey = x", "-\u017f = x", "ke\u212a = x", "key = {\u017f}", "key = {$\u212a}", "key = {a\u212a}", "key = {\uff26()}", "key = {F(\u017f: 1)}", "key = {F\uff26()}",
    "key = {\uff11}", "key = {1\u0661}", "key = {1.\u00b2}", "key = {\u22121}", "key = {\"\\u\uff10041\"}", "key = {\"\\U01F60\uff12\"}", "key = {\u201ca\u201d}", "key = \uff5d}",
    "key = {\u00a0$x }", "key = { $x\u3000}", "key = { $x \u2212>\n *[a] b\n }", "key = { $x ->\n *[\u017f] b\n }", "key = x\n .\u212a = y", "\uff03 c", "#\u00a0c", "key\u00a0= x",
    "key \uff1d x", "\u00a0key = x", "\u2212t = x", "key = {-\u017f}", "key = {a.\u017f}", "key = {F(a\uff1a 1)}", "key = {F(1\u201a 2)}",
    "// old comment", "[[ section ]]", "[[", "//", "key = {a\n\n\n\nb = c", "key = {\n  a\n# comment\n",
]

_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = []
        for f in sorted(glob.glob(os.path.join(env.VERIF, "corpus", "*.ftl"))):
            with open(f, encoding="utf-8", newline="") as fh:
                _corpus.append(fh.read())
    return _corpus


feedback = []      # texts that reached new lines of the code in this worker


def mutate(r, s, n=None):
    ints, strs = G.source_constants()
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 5])):
        k = r.random()
        i = r.randint(0, len(s))
        if k < .26:
            s = s[:i] + r.choice(TOKENS) + s[i:]
        elif k < .3:
            if i < len(s):
                s = s[:i] + alike(r, s[i]) + s[i + r.choice([0, 1, 1]):]
        elif k < .5:
            j = min(len(s), i + r.choice([1, 1, 1, 2, 5, 20]))
            s = s[:i] + s[j:]
        elif k < .56:
            s = s[:i]
        elif k < .64:
            j = r.randint(0, len(s))
            a, b = min(i, j), max(i, j)
            s = s[:b] + s[a:b][:80] + s[b:]
        elif k < .7:
            s = G.crlf(s, r, r.choice([1.0, .5, .1]))
        elif k < .78:
            s = s[:i] + r.choice(TOKENS) + s[i + 1:]
        elif k < .86:
            lines = s.split("\n")
            a = r.randrange(len(lines))
            m = r.random()
            if m < .3:
                del lines[a]
            elif m < .5:
                lines.insert(a, lines[r.randrange(len(lines))])
            elif m < .75:
                lines[a] = " " * r.choice([0, 1, 3, 4, 8]) + lines[a].lstrip(" ")
            else:
                lines.insert(a, r.choice(ERRORS))
            s = "\n".join(lines)
        elif k < .92:
            j = r.randint(0, len(s))
            if i < len(s) and j < len(s):
                t = list(s)
                t[i], t[j] = t[j], t[i]
                s = "".join(t)
        elif k < .96:
            s = s[:i] + r.choice(G.ODD) + s[i:]
        elif strs:
            s = s[:i] + r.choice(strs) + s[i:]
    return s


def pieces(r, g, n):
    """Entries, valid and broken, each starting at the beginning of a line."""
    out = []
    for _ in range(n):
        x = r.random()
        if x < .45:
            e = g.entry(r.choice([0, 0, 1, 2]))
            if r.random() < .7:
                e["comment"] = None
            s = G.Render(r, r.random() < .3).entry(e)
        elif x < .6:
            s = G.Render(r).comment(r.choice([1, 1, 2, 3]), g.comment_text())
        elif x < .9:
            s = r.choice(ERRORS) + "\n"
        else:
            s = mutate(r, G.Render(r, True).entry(g.entry(1)), 1)
            if not s.endswith("\n"):
                s += "\n"
        s += r.choice(["", "", "", "\n", "  \n", "\n\n", "   \n \n"])
        out.append(s)
    return out


def large(r, cr=True, dim=None):
    """A text with one thing in it large, valid or broken."""
    g = G.Gen(r, size=.5, big=0)
    m = g.model(r.choice([0, 1]), entries=r.randint(0, 3))
    dim = g.enlarge(m, dim)
    s = G.render(m, r, r.random() < .3, big=.2)
    if dim == "junk":
        n = r.choice(G.BIG_COUNTS)
        named = ["k%d: %d" % (k, k) for k in range(r.choice([9, 17, 33, 65, 130, 260]))]
        named.insert(r.randint(1, len(named)), r.choice([named[0], named[-1], r.choice(named), "1", "$x"]))
        late = ["        [k%d] v\n" % k for k in range(n)]
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.randrange(len(late))
            late[k] = r.choice(["       *" + late[k].strip() + "\n", late[k], "        [k%d]\n" % k, "        [k k] v\n"])
        s = r.choice(["", s]) + r.choice(["key = { F(" + ", ".join(named) + ") }\n", "key = { -t(" + ",\n    ".join(named) + ") }\n",
                                          "key = { $x ->\n" + "".join(late) + " }\n", "key = " + "{ $x }" * n + r.choice(["}", "{", "{ a b }"]) + "\n",
                                          "key = x\n" + "".join("    .k%d = v\n" % k for k in range(n)) + "    .k =\n", r.choice(ERRORS) + "\n" + "  more junk\n" * n, "".join(r.choice(ERRORS) + "\n" for _ in range(n)), "x" * (n * 40) + "\n",
                                          "".join("k%d = {\n" % k for k in range(n))]) + s
    if r.random() < .3:
        s = mutate(r, s, 1)
    if cr and r.random() < .25:
        s = G.crlf(s, r, r.choice([1.0, 1.0, .5]))
    return s


def text(r, cr=True, maxlen=6000, big=.01):
    """One arbitrary text; may contain anything."""
    if big and r.random() < big:
        return large(r, cr)
    g = G.Gen(r, cr=cr and r.random() < .3, size=.6, big=0)
    x = r.random()
    if x < .2:
        s = G.render(g.model(r.choice([0, 1, 2])), r)
    elif x < .45:
        s = mutate(r, G.render(g.model(r.choice([0, 1, 2]), entries=r.randint(1, 3)), r, r.random() < .4))
    elif x < .6:
        s = r.choice(corpus())
        if len(s) > 600:
            i = r.randint(0, len(s) - 500)
            s = s[i:i + 500]
        s = mutate(r, s)
    elif x < .75:
        s = "".join(pieces(r, g, r.randint(1, 6)))
        if r.random() < .3:
            s = mutate(r, s, 1)
    elif x < .9:
        s = "".join(r.choice(TOKENS) for _ in range(r.choice([r.randint(0, 4), r.randint(0, 12), r.randint(0, 40)])))
    elif x < .93 and feedback:
        s = mutate(r, r.choice(feedback))
    elif x < .96:
        s = r.choice(ERRORS)
        if r.random() < .5:
            s = s[:r.randint(0, len(s))]
        s = r.choice(["", "ok = x\n", "# c\n", "\n", " "]) + s + r.choice(["", "\n", "\nok = y\n", "\n  more\n", " "])
    else:
        s = "".join(g.char("") for _ in range(r.randint(0, 60)))
    if not cr:
        s = s.replace("\r", "")
    elif r.random() < .12:
        s = G.crlf(s, r, r.choice([1.0, 1.0, .5]))
    return s[:maxlen]


def fb(s):
    if len(feedback) < 400 and isinstance(s, str):
        feedback.append(s)
