"""C37: the parser stream is a faithful cursor over the text."""
from .common import *
from fluent.syntax import FluentParserStream, ParseError
import re

ID = "C37"
RULE = ("random histories of moving, peeking, testing, taking, skipping and expecting on streams over random text with every kind of line end; oracle: a "
        "model that splits the text into characters, CRLF being one, and finds each run by regular expressions; distinct by (text, history)")
QUICK, THOROUGH = 24000, 600000
NEED = {"operations": 260000, "at_crlf": 6500, "at_eof": 15000, "peeked": 51000, "failed_expectation": 8000, "op:next": 15000, "op:peek": 15000,
        "op:skip_to_peek": 8000, "op:skip_blank_block": 8000, "op:predicates": 15000, "op:take": 15000, "op:next_entry": 4000, "runs_found": 8000}
MIN_NONTRIVIAL = 12000
ALPHABET = list("azAZ09_-[]{}.*=#$\"\\/ fFgG@`:;Gé") + [" ", " ", "\n", "\n", "\r\n", "\r\n", "\r", "\t", "\u2028", "\U0001f600", "    ", "\n\n", "\r\n\r\n",
            "# c", "## c", "### c", "#\n", "\n# x", "\n## ", "\n### ", "\n#\r\n", "\n-t", "\nid", "\n//", "\n[[", "*[", "[[", "*[[", "->", "\n  {", "\n  x", "\n  }", "-1", "-x"]
TAKES = {"take_id_start": "[a-zA-Z]", "take_id_char": "[a-zA-Z0-9_-]", "take_digit": "[0-9]", "take_hex_digit": "[0-9a-fA-F]"}
OPS = ["next"] * 5 + ["peek"] * 5 + ["reset", "skip_to_peek", "skip_to_peek", "blank_inline", "peek_blank_inline", "skip_blank_block", "skip_blank_block", "peek_blank_block",
       "skip_blank", "peek_blank", "expect", "line_end", "take", "take", "take_char", "pred", "pred", "pred", "next_entry", "seek"]


def gen(r, i, tier):
    if r.random() < .8:
        s = "".join(r.choice(ALPHABET) if r.random() < .96 else r.choice(T.ALIKES) for _ in range(r.randint(0, 30)))
    else:
        s = T.text(r)[:200]
    return {"s": s, "ops": [(r.choice(OPS), r.random()) for _ in range(r.randint(5, 40))]}


class Model:
    """units[k] = (character, start); a CRLF is one unit"""
    def __init__(self, s):
        self.s = s
        self.raw = [("\n" if m[0] == "\r\n" else m[0], m.start()) for m in re.finditer(r"\r\n|.", s, re.S)]
        self.text = "".join(c for c, _ in self.raw)
        self.starts = [p for _, p in self.raw] + [len(s)]

    def unit(self, index):
        return self.starts.index(index)

    def run(self, pattern, k):
        """units matched from unit k"""
        return len(re.compile(pattern).match(self.text, k)[0])

    def char(self, k):
        return self.text[k] if k < len(self.text) else None


BLOCK = r"(?: *\n)*(?: *\Z)?"


def run(case, obs):
    s = case["s"]
    m = Model(s)
    ps = FluentParserStream(s)
    pos, off = 0, 0          # units
    log = []

    def sync(what):
        obs.check(min(ps.index, len(s)) == m.starts[pos], "the position is wrong after " + what, text=s, history=log, got=ps.index, want=m.starts[pos])
        obs.check(min(ps.index + ps.peek_offset, len(s)) == m.starts[pos + off], "the peek is wrong after " + what, text=s, history=log,
                  got=(ps.index, ps.peek_offset), want=(m.starts[pos], m.starts[pos + off]))
        obs.check(ps.current_char == m.char(pos), "the current character is wrong after " + what, text=s, history=log, got=ps.current_char, want=m.char(pos))
        obs.check(ps.current_peek == m.char(pos + off), "the peeked character is wrong after " + what, text=s, history=log, got=ps.current_peek, want=m.char(pos + off))
        obs.count("at_crlf", s.startswith("\r\n", m.starts[pos]))
        obs.count("at_eof", pos == len(m.text))
        obs.count("peeked", off > 0)

    end = len(m.text)
    sync("the start")
    for op, x in case["ops"]:
        log.append((op, round(x, 2)))
        obs.count("operations")
        ctx = dict(text=s, history=log)
        at = m.starts[pos]
        if op in ("next", "peek"):
            got = getattr(ps, op)()
            if op == "next":
                pos, off = min(pos + 1, end), 0
                k = pos
            else:
                off = min(off + 1, end - pos)
                k = pos + off
            raw = s[m.starts[k]] if k < end else None
            obs.check(got == raw or got == m.char(k), "wrong character returned by " + op, got=got, want=m.char(k), **ctx)
            obs.count("op:" + op)
        elif op == "reset":
            if x < .5 or off == 0:
                ps.reset_peek()
                off = 0
            else:
                # back to a peek seen before
                off = int(x * off)
                ps.reset_peek(m.starts[pos + off] - at)
        elif op == "skip_to_peek":
            ps.skip_to_peek()
            pos, off = pos + off, 0
            obs.count("op:skip_to_peek")
        elif op in ("blank_inline", "peek_blank_inline"):
            n = m.run(" *", pos + off)
            got = ps.skip_blank_inline() if op == "blank_inline" else ps.peek_blank_inline()
            obs.check(got == " " * n, "wrong blank", got=got, want=n, **ctx)
            off += n
            if op == "blank_inline":
                pos, off = pos + off, 0
            obs.count("runs_found", n > 0)
        elif op in ("skip_blank_block", "peek_blank_block"):
            n = m.run(BLOCK, pos + off)
            lines = m.text[pos + off:pos + off + n].count("\n")
            got = getattr(ps, op)()
            obs.check(got == "\n" * lines, "wrong blank block", got=got, want=lines, **ctx)
            off += n
            if op[0] == "s":
                pos, off = pos + off, 0
            obs.count("op:skip_blank_block")
            obs.count("runs_found", n > 0)
        elif op in ("skip_blank", "peek_blank"):
            n = m.run(r"[ \n]*", pos + off)
            getattr(ps, op)()
            off += n
            if op[0] == "s":
                pos, off = pos + off, 0
            obs.count("runs_found", n > 0)
        elif op in ("expect", "line_end"):
            want = m.char(pos) if x < .5 and m.char(pos) else "=}]\n x-"[int(x * 7)]
            ok = m.char(pos) == want if op == "expect" else m.char(pos) in (None, "\n")
            try:
                got = ps.expect_char(want) if op == "expect" else ps.expect_line_end()
                obs.check(ok and got, "an expectation was met that is not", want=want, got=got, **ctx)
            except ParseError as e:
                obs.check(not ok and e.code == "E0003" and list(e.args) == [want if op == "expect" else "\u2424"], "wrong error of a failed expectation",
                          error=repr(e), code=e.code, want=want, **ctx)
                obs.count("failed_expectation")
            if ok and (op == "expect" or pos < end):
                pos, off = pos + 1, 0
        elif op in ("take", "take_char"):
            c = m.char(pos)
            if op == "take":
                name = list(TAKES)[int(x * 4)]
                ok = c is not None and re.fullmatch(TAKES[name], c) is not None
                f = getattr(ps, name)
            else:
                name, ok, f = "take_char", c is not None and c not in " }", lambda: ps.take_char(lambda ch: ch not in " }")
            try:
                got = f()
                if ok:
                    obs.check(got == c, "another character was taken", got=got, want=c, **ctx)
                else:
                    obs.check(name != "take_id_start" and (got is None if c is None else not got), "a character was taken", got=got, name=name, **ctx)
            except ParseError as e:
                obs.check(name == "take_id_start" and not ok and e.code == "E0004", "wrong error", error=repr(e), name=name, **ctx)
            if ok:
                pos, off = pos + 1, 0
            obs.count("op:take")
        elif op == "pred":
            k = pos + off
            c, rest = m.char(k), m.text[k:]
            name, want = [
                ("is_identifier_start", bool(re.match("[a-zA-Z]", rest))),
                ("is_value_start", c not in (None, "\n")),
                ("is_attribute_start", c == "."),
                ("is_variant_start", bool(re.match(r"\*?\[(?!\[)", rest))),
                ("is_value_continuation", bool(re.match(r" *\{| +[^ }.\[*]", rest))),
                ("is_number_start", bool(re.match("-?[0-9]", m.text[pos:]))),
                ("comment0", bool(re.match(r"\n#(?![^ \n])", rest))),
                ("comment1", bool(re.match(r"\n##(?![^ \n])", rest))),
                ("comment2", bool(re.match(r"\n###(?![^ \n])", rest)))][int(x * 9)]
            if name == "is_number_start" and off or name == "is_value_continuation" and not rest.strip(" "):
                continue
            if name.startswith("comment"):
                got = ps.is_next_line_comment(level=int(name[7:]))
            else:
                got = getattr(ps, name)()
            obs.check(bool(got) is want, f"{name} is wrong", got=got, want=want, **ctx)
            obs.check(min(ps.index, len(s)) == at, name + " moved the position", **ctx)
            # where the peek stands afterwards is not promised
            ps.reset_peek()
            off = 0
            obs.count("op:predicates")
        elif op == "next_entry":
            junk = m.starts[int(x * (pos + 1))]
            nl = m.s.rfind("\n", 0, at)
            p = nl if nl > junk else at
            q = [c for c in (t.end() for t in re.finditer("\n", s)) if c > p and re.match(r"[a-zA-Z#-]|//|\[\[", s[c:])]
            ps.skip_to_next_entry_start(junk)
            ps.reset_peek()
            pos, off = m.unit(q[0] if q else len(s)), 0
            obs.count("op:next_entry")
        else:
            # the position may be set, to one it had before
            pos, off = int(x * (pos + 1)), 0
            ps.reset_peek()
            ps.index = m.starts[pos]
        sync(op)
    obs.check(ps.string == s, "the text changed", text=s)
    obs.nontrivial((s, case["ops"]))
    if len(s) < 80:
        obs.sample({"text": s, "history": [o for o, _ in case["ops"]], "index": ps.index})
