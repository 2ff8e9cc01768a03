"""Independent reference parser for Fluent Syntax 1.0 (tooling dialect).

Works on positions with regular expressions and yields the JSON form of the
tree, spans and Junk annotations included.  It shares no code with the
repository; tables such as error messages were written from the documented
error codes.
"""
import re

BLANK_BLOCK = re.compile(r"(?: *\r?\n)*(?: *\Z)?")
BLANK_INLINE = re.compile(r" *")
BLANK = re.compile(r"(?: |\r?\n)*")
EOL = re.compile(r"\r?\n")
IDENT = re.compile(r"[a-zA-Z][a-zA-Z0-9_\-]*")
DIGITS = re.compile(r"[0-9]+")
TEXT = re.compile(r"(?:[^{}\r\n]|\r(?!\n))+")
STRCHARS = re.compile(r'(?:[^"\\\r\n]|\r(?!\n))+')
LINE = re.compile(r"(?:[^\r\n]|\r(?!\n))*")
ENTRY_START = re.compile(r"\r?\n(?=[a-zA-Z#\-]|//|\[\[)")
FUNC = re.compile(r"[A-Z][A-Z0-9_\-]*\Z")
HEX = re.compile(r"[0-9a-fA-F]*")

MESSAGES = {
    "E0002": "Expected an entry start",
    "E0003": 'Expected token: "{}"',
    "E0004": 'Expected a character from range: "{}"',
    "E0005": 'Expected message "{}" to have a value or attributes',
    "E0006": 'Expected term "-{}" to have a value',
    "E0008": "The callee has to be an upper-case identifier or a term",
    "E0009": "The argument name has to be a simple identifier",
    "E0010": "Expected one of the variants to be marked as default (*)",
    "E0011": 'Expected at least one variant after "->"',
    "E0012": "Expected value",
    "E0013": "Expected variant key",
    "E0014": "Expected literal",
    "E0015": "Only one variant can be marked as default (*)",
    "E0016": "Message references cannot be used as selectors",
    "E0017": "Terms cannot be used as selectors",
    "E0018": "Attributes of messages cannot be used as selectors",
    "E0019": "Attributes of terms cannot be used as placeables",
    "E0020": "Unterminated string expression",
    "E0021": "Positional arguments must not follow named arguments",
    "E0022": "Named arguments must be unique",
    "E0025": "Unknown escape sequence: \\{}.",
    "E0026": "Invalid Unicode escape sequence: {}.",
    "E0027": "Unbalanced closing brace in TextElement.",
    "E0028": "Expected an inline expression",
    "E0029": "Expected simple expression as selector",
}


class Err(Exception):
    def __init__(self, pos, code, *args):
        self.pos, self.code, self.a = pos, code, list(args)


def span(a, b):
    return {"type": "Span", "start": a, "end": b}


class P:
    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.depth = 0        # current and deepest nesting of {...} and (...)
        self.maxdepth = 0

    def enter(self):
        self.depth += 1
        self.maxdepth = max(self.depth, self.maxdepth)

    def ch(self, p):
        return self.s[p] if p < self.n else None

    def eol(self, p):
        """Length of the line end at p, 0 if none."""
        s = self.s
        if s.startswith("\n", p):
            return 1
        if s.startswith("\r\n", p):
            return 2
        return 0

    def expect(self, p, c):
        if self.s.startswith(c, p) and p < self.n:
            return p + 1
        raise Err(p, "E0003", c)

    # ------------------------------------------------------------ entries
    def entry(self, p):
        c = self.ch(p)
        if c == "#":
            node, q = self.comment(p)
        elif c == "-":
            node, q = self.msg(p, True)
        elif c is not None and IDENT.match(self.s, p):
            node, q = self.msg(p, False)
        else:
            raise Err(p, "E0002")
        return node, q + self.eol(q)

    def entry_or_junk(self, p):
        self.depth = 0
        try:
            return self.entry(p)
        except Err as e:
            pos = e.pos
            nl = self.s.rfind("\n", 0, pos)
            start = nl if p < nl else pos
            m = ENTRY_START.search(self.s, start)
            end = m.end() if m else self.n
            pos = min(pos, end)
            args = list(e.a)
            return {"type": "Junk", "content": self.s[p:end], "span": span(p, end),
                    "annotations": [{
                        "type": "Annotation", "code": e.code, "arguments": args,
                        "message": MESSAGES[e.code].format(*args),
                        "span": span(pos, pos)}]}, end

    def comment(self, p):
        s = self.s
        hashes = re.compile("#{1,3}").match(s, p).group()
        k = len(hashes)
        q = p + k
        lines = []
        while True:
            if q >= self.n or self.eol(q):
                lines.append("")
            else:
                if s[q] != " ":
                    raise Err(q, "E0003", " ")
                m = LINE.match(s, q + 1)
                lines.append(m.group())
                q = m.end()
            e = self.eol(q)
            if e and s.startswith(hashes, q + e):
                r = q + e + k
                if r >= self.n or s[r] == " " or self.eol(r):
                    q = r
                    continue
            break
        t = {1: "Comment", 2: "GroupComment", 3: "ResourceComment"}[k]
        return {"type": t, "content": "\n".join(lines), "span": span(p, q)}, q

    def ident(self, p):
        m = IDENT.match(self.s, p)
        if not m:
            raise Err(p, "E0004", "a-zA-Z")
        return {"type": "Identifier", "name": m.group(), "span": span(p, m.end())}, m.end()

    def msg(self, p, term):
        start = p
        if term:
            p += 1
        id, p = self.ident(p)
        p = BLANK_INLINE.match(self.s, p).end()
        p = self.expect(p, "=")
        value, p = self.maybe_pattern(p)
        if value is None and term:
            raise Err(p, "E0006", id["name"])
        attrs = []
        while True:
            q = BLANK.match(self.s, p).end()
            if self.ch(q) != ".":
                break
            a, p = self.attribute(q)
            attrs.append(a)
        if value is None and not attrs:
            raise Err(p, "E0005", id["name"])
        return {"type": "Term" if term else "Message", "id": id, "value": value,
                "attributes": attrs, "comment": None, "span": span(start, p)}, p

    def attribute(self, p):
        start = p
        id, p = self.ident(p + 1)
        p = BLANK_INLINE.match(self.s, p).end()
        p = self.expect(p, "=")
        value, p = self.maybe_pattern(p)
        if value is None:
            raise Err(p, "E0012")
        return {"type": "Attribute", "id": id, "value": value, "span": span(start, p)}, p

    # ------------------------------------------------------------ patterns
    def continues(self, p):
        """Does the line starting at p continue a pattern?"""
        q = BLANK_INLINE.match(self.s, p).end()
        c = self.ch(q)
        if c == "{":
            return True
        return q > p and c is not None and c not in "}.[*"

    def maybe_pattern(self, p):
        q = BLANK_INLINE.match(self.s, p).end()
        if q < self.n and not self.eol(q):
            return self.pattern(q, False)
        q = BLANK_BLOCK.match(self.s, p).end()
        if self.continues(q):
            return self.pattern(q, True)
        return None, p

    def pattern(self, p, block):
        s = self.s
        start = p
        # items: ("indent", newlines, spaces, from, to) | ("text", str, from, to) | ("node", node)
        items = []
        if block:
            q = BLANK_INLINE.match(s, p).end()
            items.append(["indent", "", q - p, p, q])
            p = q
        while p < self.n:
            if self.eol(p):
                m = BLANK_BLOCK.match(s, p)
                q = m.end()
                if not self.continues(q):
                    break
                r = BLANK_INLINE.match(s, q).end()
                items.append(["indent", "\n" * m.group().count("\n"), r - q, p, r])
                p = r
                continue
            c = s[p]
            if c == "}":
                raise Err(p, "E0027")
            if c == "{":
                node, p = self.placeable(p)
                items.append(["node", node])
            else:
                m = TEXT.match(s, p)
                items.append(["text", m.group(), p, m.end()])
                p = m.end()
        common = min((i[2] for i in items if i[0] == "indent"), default=0)
        elements = []
        for it in items:
            if it[0] == "node":
                elements.append(it[1])
                continue
            if it[0] == "indent":
                v = it[1] + " " * (it[2] - common)
                if not v:
                    continue
                a, b = it[3], it[4]
            else:
                v, a, b = it[1:]
            if elements and elements[-1]["type"] == "TextElement":
                elements[-1]["value"] += v
                elements[-1]["span"]["end"] = b
            else:
                elements.append({"type": "TextElement", "value": v, "span": span(a, b)})
        if elements and elements[-1]["type"] == "TextElement":
            elements[-1]["value"] = elements[-1]["value"].rstrip(" \n\r")
            if not elements[-1]["value"]:
                elements.pop()
        return {"type": "Pattern", "elements": elements, "span": span(start, p)}, p

    # ------------------------------------------------------------ expressions
    def blank(self, p):
        return BLANK.match(self.s, p).end()

    def placeable(self, p):
        start = p
        self.enter()
        e, p = self.expression(self.blank(p + 1))
        p = self.expect(p, "}")
        self.depth -= 1
        return {"type": "Placeable", "expression": e, "span": span(start, p)}, p

    def expression(self, p):
        start = p
        sel, p = self.inline(p)
        p = self.blank(p)
        t = sel["type"]
        if self.ch(p) == "-":
            if self.ch(p + 1) != ">":
                return sel, p
            if t == "MessageReference":
                raise Err(p, "E0018" if sel["attribute"] else "E0016")
            if t == "TermReference":
                if not sel["attribute"]:
                    raise Err(p, "E0017")
            elif t == "Placeable":
                raise Err(p, "E0029")
            p = BLANK_INLINE.match(self.s, p + 2).end()
            if p < self.n:
                e = self.eol(p)
                if not e:
                    raise Err(p, "E0003", "\u2424")
                p += e
            variants, p = self.variants(p)
            return {"type": "SelectExpression", "selector": sel, "variants": variants,
                    "span": span(start, p)}, p
        if t == "TermReference" and sel["attribute"]:
            raise Err(p, "E0019")
        return sel, p

    def variants(self, p):
        s = self.s
        out = []
        default = False
        p = self.blank(p)
        while True:
            star = s.startswith("*", p)
            q = p + star
            if not s.startswith("[", q) or s.startswith("[[", q):
                break
            if star and default:
                raise Err(p, "E0015")
            default = default or star
            start = p
            p = self.blank(q + 1)
            c = self.ch(p)
            if c is None:
                raise Err(p, "E0013")
            if c in "-0123456789":
                key, p = self.number(p)
            else:
                key, p = self.ident(p)
            p = self.expect(self.blank(p), "]")
            value, p = self.maybe_pattern(p)
            if value is None:
                raise Err(p, "E0012")
            out.append({"type": "Variant", "key": key, "value": value, "default": star,
                        "span": span(start, p)})
            p = self.blank(p)
        if not out:
            raise Err(p, "E0011")
        if not default:
            raise Err(p, "E0010")
        return out, p

    def number(self, p):
        start = p
        if self.s.startswith("-", p):
            p += 1
        p = self.digits(p)
        if self.s.startswith(".", p):
            p = self.digits(p + 1)
        return {"type": "NumberLiteral", "value": self.s[start:p], "span": span(start, p)}, p

    def digits(self, p):
        m = DIGITS.match(self.s, p)
        if not m:
            raise Err(p, "E0004", "0-9")
        return m.end()

    def at_number(self, p):
        return bool(re.compile("-?[0-9]").match(self.s, p))

    def string(self, p):
        s = self.s
        start = p
        p += 1
        while True:
            m = STRCHARS.match(s, p)
            if m:
                p = m.end()
            c = self.ch(p)
            if c is None:
                raise Err(p, "E0003", '"')
            if c == '"':
                break
            if c != "\\":
                raise Err(p, "E0020")
            p += 1
            c = self.ch(p)
            if c in ("\\", '"'):
                p += 1
            elif c in ("u", "U"):
                want = 4 if c == "u" else 6
                p += 1
                h = HEX.match(s, p).group()[:want]
                p += len(h)
                if len(h) < want:
                    raise Err(p, "E0026", f"\\{c}{h}{self.cur(p)}")
            else:
                raise Err(p, "E0025", self.cur(p))
        return {"type": "StringLiteral", "value": s[start + 1:p], "span": span(start, p + 1)}, p + 1

    def cur(self, p):
        return "\n" if self.eol(p) else self.ch(p)

    def inline(self, p):
        s, start = self.s, p
        c = self.ch(p)
        if c == "{":
            return self.placeable(p)
        if self.at_number(p):
            return self.number(p)
        if c == '"':
            return self.string(p)
        if c == "$":
            id, p = self.ident(p + 1)
            return {"type": "VariableReference", "id": id, "span": span(start, p)}, p
        if c == "-":
            id, p = self.ident(p + 1)
            attr = args = None
            if self.ch(p) == ".":
                attr, p = self.ident(p + 1)
            q = self.blank(p)
            if self.ch(q) == "(":
                args, p = self.call(q)
            return {"type": "TermReference", "id": id, "attribute": attr, "arguments": args,
                    "span": span(start, p)}, p
        if c is not None and IDENT.match(s, p):
            id, p = self.ident(p)
            q = self.blank(p)
            if self.ch(q) == "(":
                if not FUNC.match(id["name"]):
                    raise Err(p, "E0008")
                args, p = self.call(q)
                return {"type": "FunctionReference", "id": id, "arguments": args,
                        "span": span(start, p)}, p
            attr = None
            if self.ch(p) == ".":
                attr, p = self.ident(p + 1)
            return {"type": "MessageReference", "id": id, "attribute": attr,
                    "span": span(start, p)}, p
        raise Err(p, "E0028")

    def call(self, p):
        start = p
        self.enter()
        p = self.blank(p + 1)
        pos, named, seen = [], [], set()
        while self.ch(p) != ")":
            astart = p
            e, p = self.inline(p)
            p = self.blank(p)
            if self.ch(p) == ":":
                if e["type"] != "MessageReference" or e["attribute"]:
                    raise Err(p, "E0009")
                p = self.blank(p + 1)
                if self.at_number(p):
                    v, p = self.number(p)
                elif self.ch(p) == '"':
                    v, p = self.string(p)
                else:
                    raise Err(p, "E0014")
                name = e["id"]["name"]
                if name in seen:
                    raise Err(p, "E0022")
                seen.add(name)
                named.append({"type": "NamedArgument", "name": e["id"], "value": v,
                              "span": span(astart, p)})
            else:
                if named:
                    raise Err(p, "E0021")
                pos.append(e)
            p = self.blank(p)
            if self.ch(p) != ",":
                break
            p = self.blank(p + 1)
        p = self.expect(p, ")")
        self.depth -= 1
        return {"type": "CallArguments", "positional": pos, "named": named,
                "span": span(start, p)}, p

    # ------------------------------------------------------------ resource
    def resource(self):
        p = BLANK_BLOCK.match(self.s, 0).end()
        raw = []       # (node, blank lines after, at end)
        while p < self.n:
            node, p = self.entry_or_junk(p)
            m = BLANK_BLOCK.match(self.s, p)
            p = m.end()
            raw.append((node, m.group().count("\n") == 0 and p < self.n))
        body = []
        i = 0
        while i < len(raw):
            node, adjacent = raw[i]
            if node["type"] == "Comment" and adjacent:
                nxt = raw[i + 1][0]
                if nxt["type"] in ("Message", "Term"):
                    nxt["comment"] = node
                    nxt["span"]["start"] = node["span"]["start"]
                    i += 1
                    continue
            body.append(node)
            i += 1
        return {"type": "Resource", "body": body, "span": span(0, self.n)}

    def first(self):
        """The entry parse_entry returns."""
        p = BLANK_BLOCK.match(self.s, 0).end()
        while self.ch(p) == "#":
            node, p = self.entry_or_junk(p)
            if node["type"] == "Junk":
                return node
            p = BLANK_BLOCK.match(self.s, p).end()
        return self.entry_or_junk(p)[0]


def parse(s):
    return P(s).resource()


def parse_entry(s):
    return P(s).first()


def strip_spans(x):
    if isinstance(x, dict):
        return {k: (None if k == "span" else strip_spans(v)) for k, v in x.items()}
    if isinstance(x, list):
        return [strip_spans(v) for v in x]
    return x
