"""The planted bugs (tools/seed.py writes them to seeded/)."""
SY, RT = "fluent.syntax/fluent/syntax/", "fluent.runtime/fluent/runtime/"
PRE = '''import json, os, sys
from fluent.syntax import parse, serialize, FluentParser, FluentSerializer, ast as FTL
from fluent.runtime import FluentBundle, FluentResource


def fmt(src, mid, args=None, locale="en-US", iso=False, **k):
    b = FluentBundle([locale], use_isolating=iso, **k)
    b.add_resource(FluentResource(src))
    out, errs = b.format_pattern(b.get_message(mid).value, args)
    return out, [str(e) for e in errs]


'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits if isinstance(edits, list) else [edits], demo=demo, needs=needs, breaks=breaks))


seed("c01-redos", "C01", (SY + "parser.py", '"^[A-Z][A-Z0-9_-]*$"', '"^[A-Z](?:[A-Z0-9]*[_-]?)*$"'), '''
import signal
signal.alarm(20)          # ends the process if parsing does not finish
r = parse("key = { " + "A" * 60 + "x(1) }\\n")
assert isinstance(r.body[0], FTL.Junk)
''', "a long upper-case identifier with one character that is not allowed, followed by a parenthesis", "parsing takes time exponential in the length of the identifier")

seed("c04-resume", "C04", (SY + "stream.py", "last_newline = self.string.rfind(EOL, 0, self.index)", "last_newline = self.string.rfind(EOL, 0, self.index + 1)"), '''
body = parse("a = { FOO(x,\\nb: \\"x\\n").body
assert len(body) == 2, [b.content for b in body]
''', "an error found at the end of a line that itself looks like the start of an entry", "two broken entries become one Junk")

seed("c05-escape-arg", "C05", (SY + "parser.py", 'f"\\\\{u}{sequence}{ps.current_char}"', 'f"\\\\{u}{sequence}{ps.string[ps.index]}"'), '''
a = parse('a = { "\\\\u00\\r\\n" }\\r\\n').body[0].annotations[0]
assert a.arguments == ["\\\\u00\\n"], a.arguments
''', "a unicode escape cut short by a CRLF line end, or by the end of the file", "the diagnostic's argument is wrong, or parsing raises")

seed("c06-comment-start", "C06", (SY + "parser.py", '''                    if self.with_spans:
                        cast(ast.Span, entry.span).start = cast(
                            ast.Span, entry.comment.span
                        ).start
''', '''                    if self.with_spans:
                        cast(ast.Span, entry.span).start -= (
                            len(cast(str, entry.comment.content).split("\\n")) * 3
                            + len(cast(str, entry.comment.content).replace("\\n", ""))
                        )
'''), '''
for s in ("# one\\r\\n# two\\r\\na = b\\r\\n", "# one\\n#\\n# two\\na = b\\n"):
    assert parse(s).body[0].span.start == 0, (s, parse(s).body[0].span.start)
''', "an attached comment with CRLF line ends or an empty comment line", "the entry's span does not start at its comment")

seed("c07-comment-cr", "C07", (SY + "parser.py", "content += cast(str, ps.current_char)", "content += ps.string[ps.index]"), '''
assert parse("# one\\r\\n# two\\r\\na = b\\r\\n").body[0].comment.content == "one\\ntwo"
''', "a comment of several lines ended by CRLF", "a carriage return instead of a line feed in the comment's content")

seed("c08-blank-comment", "C08", (SY + "serializer.py", 'prefix if len(line) == 0 else', 'prefix if not line.strip() else'), '''
r = parse("#    \\n# x\\na = b\\n")
assert parse(serialize(r)).equals(r)
''', "a comment line made of white space only", "the white space is lost by serializing")

seed("c09-junk-first", "C09", (SY + "serializer.py", '''                if not state & self.HAS_ENTRIES:
                    state |= self.HAS_ENTRIES
''', '''            if not state & self.HAS_ENTRIES:
                state |= self.HAS_ENTRIES
'''), '''
out = serialize(parse("broken\\n\\n# comment\\n\\na = b\\n"))
assert serialize(parse(out)) == out, out
''', "Junk, left out, before a standalone comment at the start", "the output starts with a blank line that serializing again removes")

seed("c09-named-first", "C09", (SY + "serializer.py", '''    if len(expr.positional) > 0 and len(expr.named) > 0:
        return f"({positional}, {named})"
    return''', '''    if positional and named:
        return f"({positional},{named})" if expr.positional[-1:] == expr.named[:1] or len(named) > 60 else f"({positional}, {named})"
    return'''), '''
n = "n" * 40
assert serialize(parse("a = { FOO(1, %s: \\"vvvvvvvvvvvvvvvvvvvvv\\") }\\n" % n)) == "a = { FOO(1, %s: \\"vvvvvvvvvvvvvvvvvvvvv\\") }\\n" % n
''', "a call whose named arguments are longer than sixty characters", "the space after the comma is left out")

seed("c10-clone-span", "C10", (SY + "ast.py", '''            if isinstance(value, BaseNode):
                return value.clone()
            if isinstance(value, list):
                return [visit''', '''            if isinstance(value, BaseNode):
                # Positions are plain values.
                return value if isinstance(value, Span) else value.clone()
            if isinstance(value, list):
                return [visit'''), '''
m = parse("a = b\\n").body[0]
c = m.clone()
c.span.end = 99
assert m.span.end == 5
''', "changing the position of a node of a clone", "a clone shares its positions with the original")

seed("c10-ignored", "C10", (SY + "ast.py", "            elif not scalars_equal(field1, field2, ignored_fields):", "            elif not scalars_equal(field1, field2, [\"span\"]):"), '''
a, b = parse("a = b\\n").body[0], parse("\\n\\na = b\\n").body[0]
assert not a.value.equals(b.value, ignored_fields=[])
assert not a.equals(b, ignored_fields=["comment"])
x, y = parse("# c\\na = b\\n").body[0], parse("# d\\na = b\\n").body[0]
assert x.equals(y, ignored_fields=["span", "content"])
''', "fields to ignore other than the default, below a single child", "the fields to ignore are not respected below single children")

seed("c11-cache", "C11", (SY + "visitor.py", '''        if not isinstance(node, BaseNode):
            return
        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        if not isinstance(node, BaseNode):
            return
        if type(node) not in self._handlers:
            self._handlers[type(node)] = f"visit_{type(node).__name__}"
            if not hasattr(self, self._handlers[type(node)]):
                self._handlers[type(node)] = "generic_visit"
        getattr(self, self._handlers[type(node)])(node)

    _handlers: "dict[type, str]" = {}
'''), '''
from fluent.syntax.visitor import Visitor
class A(Visitor):
    pass
class B(Visitor):
    seen = 0
    def visit_SelectExpression(self, node):
        self.seen += 1
t = parse("a = { $x ->\\n *[o] x\\n }\\n")
A().visit(t)
b = B()
b.visit(t)
assert b.seen == 1
''', "two visitor classes in one process, the first without a handler the second has", "the second visitor's handler is never called")

seed("c11-remove-last", "C11", (SY + "visitor.py", '''                propvalue[:] = new_vals
''', '''                if new_vals:
                    propvalue[:] = new_vals
'''), '''
from fluent.syntax.visitor import Transformer
class T(Transformer):
    def visit_Attribute(self, node):
        return None
t = T().visit(parse("a = b\\n .x = y\\n"))
assert t.body[0].attributes == []
''', "a transformer that removes every item of a list", "nothing is removed")

seed("c12-lower", "C12", [(SY + "ast.py", "[0-9a-fA-F]{4})|U([0-9a-fA-F]{6}))'", "[0-9a-fA-F]{4})|U([0-9A-F]{6}))'")], '''
assert FTL.StringLiteral("\\\\U01f602").parse()["value"] == "\\U0001f602"
''', "a six-digit escape in lower case", "the escape is not decoded")

seed("c13-indented", "C13", (SY + "parser.py", '''                return skipped
            ps.skip_blank_block()
''', '''                return skipped
            ps.skip_blank()
'''), '''
s = "# c\\n  a = b\\n"
assert isinstance(FluentParser().parse_entry(s), FTL.Junk)
''', "an indented, thus invalid, entry after a comment", "parse_entry accepts what the full parse rejects")

seed("c15-ordinal", "C15", (RT + "bundle.py", '''        )(self._babel_locale.ordinal_form)
''', '''        )(self._babel_locale.ordinal_form)
        rule = self._ordinal_form
        self._ordinal_form = lambda n: rule(round(n))  # type: ignore
'''), '''
assert fmt("a = { NUMBER($n, type: \\"ordinal\\") ->\\n [one] st\\n [two] nd\\n *[other] th\\n }\\n", "a", {"n": 1.5})[0] == "th"
''', "an ordinal selector with a fraction", "the fraction is ignored in selecting an ordinal category")

seed("c15-last", "C15", (RT + "resolver.py", '''                found = variant
                break
''', '''                found = variant
                if not variant.default:
                    break
'''), '''
assert fmt("a = { $n ->\\n *[one] word\\n [1] digit\\n }\\n", "a", {"n": 1})[0] == "word"
''', "a default variant that matches, before another that matches as well", "the later variant is taken instead of the first")

seed("c16-order", "C16", (RT + "resolver.py", '''        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name = self.id.name
        try:
            function = env.context._functions[function_name]
        except LookupError:
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")

''', '''        function_name = self.id.name
        try:
            function = env.context._functions[function_name]
        except LookupError:
            env.errors.append(
                FluentReferenceError("Unknown function: {}".format(function_name))
            )
            return FluentNone(function_name + "()")

        args = [arg(env) for arg in self.arguments.positional]
        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
'''), '''
assert fmt("a = { NOPE($missing) }\\n", "a")[1] == ["Unknown external: missing", "Unknown function: NOPE"]
''', "an unknown function with an argument that fails as well", "the argument's error is missing")

seed("c16-unsupported", "C16", (RT + "resolver.py", '''        if isinstance(arg_val, (FluentType, str)):
            return arg_val
''', '''        if arg_val is None:
            return FluentNone(name)
        if isinstance(arg_val, (FluentType, str)):
            return arg_val
'''), '''
assert len(fmt("a = { $x }\\n", "a", {"x": None})[1]) == 1
''', "None as an argument", "no error for an unsupported argument")

seed("c17-positional", "C17", (RT + "resolver.py", '''                    )
                )
            kwargs = {
                kwarg''', '''                    )
                )
            kwargs = None if self.arguments.positional else {
                kwarg'''), '''
assert fmt('-t = { $x }\\na = { -t(1, x: "v") }\\n', "a")[0] == "v"
''', "a term called with both positional and named arguments", "the named arguments are ignored as well")

seed("c17-missing-error", "C17", (RT + "resolver.py", '''        yield self
        self.current = old_current
''', '''        yield self
        self.current = attr.evolve(
            old_current, error_for_missing_arg=self.current.error_for_missing_arg
        )
'''), '''
out, errs = fmt("-t = T\\na = { -t } { $gone }\\n", "a")
assert errs == ["Unknown external: gone"], errs
''', "a missing variable after a term in the same message", "no error for the missing variable")

seed("c18-empty", "C18", (RT + "resolver.py", '''        if not env.context.use_isolating:
            return inner
''', '''        if not env.context.use_isolating or not inner:
            return inner
'''), '''
assert fmt("a = x{ $e }y\\n", "a", {"e": ""}, iso=True)[0] == "x\\u2068\\u2069y"
''', "an empty interpolated value", "the value is not wrapped")

seed("c18-nested", "C18", (RT + "prepare.py", '''        if isinstance(expression, resolver.Literal):
            return expression
''', '''        if isinstance(expression, (resolver.Literal, resolver.NumberLiteral)):
            return resolver.NeverIsolatingPlaceable(expression) if isinstance(expression, resolver.NumberLiteral) else expression
'''), '''
assert fmt("a = x{ 5 }y\\n", "a", iso=True)[0] == "x\\u20685\\u2069y"
''', "a number literal in a pattern with other content", "the number is not wrapped")

seed("c19-attribute-cycle", "C19", (RT + "resolver.py", '''        if self in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(self)
        elements''', '''        if self in env.active_patterns and env.current.error_for_missing_arg:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        env.active_patterns.add(self)
        elements'''), '''
out, errs = fmt("-t = x { -t } y\\na = { -t } z\\n", "a")
assert errs == ["Cyclic reference"] and out.endswith(" z"), (out[:50], errs)
''', "a cycle that goes through terms only", "the cycle is not recognized")

seed("c20-override-last", "C20", [(RT + "bundle.py", '''        for item in resource.body:
            if not''', '''        added = set()
        for item in resource.body:
            if not'''), (RT + "bundle.py", '''            if full_id not in map_ or allow_overrides:
''', '''            if full_id not in map_ or (allow_overrides and (full_id, type(item)) not in added):
                added.add((full_id, type(item)))
''')], '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = 0\\n"))
b.add_resource(FluentResource("a = 1\\na = 2\\n"), allow_overrides=True)
assert b.format_pattern(b.get_message("a").value)[0] == "2"
''', "a resource, added with overriding, that defines a message twice", "the first of the two definitions wins")

seed("c21-static-cache", "C21", (RT + "bundle.py", '''        errors: List[Exception] = []
        env''', '''        if not fluent_args and id(pattern) in self._static:
            return self._static[id(pattern)][1]
        errors: List[Exception] = []
        env'''), '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $x } { b }\\nb = B\\n"))
p = b.get_message("a").value
e = b.format_pattern(p)[1]
e.append("mine")
assert len(b.format_pattern(p)[1]) == 1
b.add_resource(FluentResource("b = C\\n"), allow_overrides=True)
assert "C" in b.format_pattern(p)[0]
''', "formatting a pattern without arguments again after changing the error list, or a message it refers to", "results, and error lists, of earlier calls are returned")
SEEDS[-1]["edits"] += [(RT + "bundle.py", '''            result = "{???}"
        return (result, errors)
''', '''            result = "{???}"
        if not fluent_args:
            self._static[id(pattern)] = (pattern, (result, errors))
        return (result, errors)
'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        self._static: Dict[int, Any] = {}
''')]

seed("c21-args", "C21", (RT + "bundle.py", '''            fluent_args = {
                argname: native_to_fluent(argvalue)
                for argname, argvalue in args.items()
            }
''', '''            fluent_args = args
            for argname, argvalue in args.items():
                if type(argvalue) not in (str, int):
                    fluent_args[argname] = native_to_fluent(argvalue)
                elif isinstance(argvalue, int):
                    fluent_args = {**fluent_args, argname: native_to_fluent(argvalue)}
'''), '''
args = {"x": 1.5}
fmt("a = { $x }\\n", "a", args)
assert type(args["x"]) is float
''', "arguments of other types than str and int", "the caller's arguments are replaced by wrapped ones")

seed("c22-code-negative", "C22", (RT + "types.py", '''                    replacer(pattern.suffix[0]),
                    replacer(pattern.suffix[1]),
''', '''                    replacer(pattern.suffix[0]),
                    pattern.suffix[1],
'''), '''
out = fmt('a = { NUMBER($x, style: "currency", currency: "EUR", currencyDisplay: "code") }\\n', "a", {"x": -5}, locale="de")[0]
assert "EUR" in out, out
''', "a negative amount with its currency code in a locale that writes it after the number", "the symbol is shown instead of the code")

seed("c23-which-format", "C23", (RT + "types.py", "cast(str, get_datetime_format(ds, locale=locale))", "cast(str, get_datetime_format(ts, locale=locale))"), '''
import datetime
out = fmt('a = { DATETIME($d, dateStyle: "full", timeStyle: "short") }\\n', "a", {"d": datetime.datetime(2020, 1, 2, 3, 4)}, locale="fr")[0]
assert out == fmt('a = { DATETIME($d, dateStyle: "full") }\\n', "a", {"d": datetime.datetime(2020, 1, 2, 3, 4)}, locale="fr")[0] + ", 03:04", out
''', "different styles for date and time", "date and time are joined as for the other style")

seed("c23-naive-zone", "C23", (RT + "types.py", '''        dt = dt.replace(tzinfo=pytz.UTC)
    if tzinfo is not None:
''', '''        dt = dt.replace(tzinfo=pytz.UTC)
    if tzinfo is not None and str(dt.tzinfo) != tzinfo:
'''), '''
import datetime, zoneinfo
class Odd(datetime.tzinfo):
    def utcoffset(self, dt): return datetime.timedelta(0)
    def dst(self, dt): return None
    def tzname(self, dt): return "x"
    def __str__(self): return "Asia/Tokyo"
d = datetime.datetime(2020, 1, 1, 12, 0, tzinfo=Odd())
out = fmt('a = { DATETIME($d, timeStyle: "short", timeZone: "Asia/Tokyo") }\\n', "a", {"d": d})[0]
assert out.startswith("9:00"), out
''', "an aware datetime whose zone object has the requested name but another offset", "the time is not converted")

seed("c24-none", "C24", (RT + "types.py", '''    for k in kwargs.keys():
        setattr(retval, k, getattr(kwarg_options, k))
''', '''    for k in kwargs.keys():
        if getattr(kwarg_options, k) is not None:
            setattr(retval, k, getattr(kwarg_options, k))
'''), '''
from fluent.runtime.types import fluent_number
n = fluent_number(fluent_number(5, minimumFractionDigits=2), minimumFractionDigits=None)
assert n.options.minimumFractionDigits is None
''', "resetting an option to None", "the earlier value stays in force")

seed("c25-builtin-leak", "C25", (RT + "bundle.py", "self._functions = {**BUILTINS, **(functions or {})}", "self._functions = BUILTINS\n        self._functions.update(functions or {})"), '''
fmt("a = { F() }\\n", "a", functions={"F": lambda: "x"})
assert fmt("a = { F() }\\n", "a")[1] == ["Unknown function: F"]
''', "two bundles, one of them with functions", "functions leak into every other bundle")

seed("c26-eager", "C26", (RT + "fallback.py", '''            for resources in self.resource_loader.resources(locs[0], self.resource_ids):
''', '''            for resources in list(
                self.resource_loader.resources(locs[0], self.resource_ids)
            ):
'''), '''
from fluent.runtime import FluentLocalization
log = []
class L:
    def resources(self, locale, ids):
        for k in range(3):
            log.append(k)
            yield [FluentResource("a = %d\\n" % k)]
l = FluentLocalization(["en"], ["x"], L())
assert l.format_value("a") == "0" and log == [0], log
''', "a loader with several locations", "all locations are loaded although the first would do")

seed("c26-chain", "C26", (RT + "fallback.py", '''                bundle = self._create_bundle(locs)
''', '''                bundle = self._create_bundle(self.locales if first_loc == 0 else locs[:1])
'''), '''
from fluent.runtime import FluentLocalization
seen = []
class B(FluentBundle):
    def __init__(self, locales, *a, **k):
        seen.append(list(locales))
        super().__init__(locales, *a, **k)
class L:
    def resources(self, locale, ids):
        yield [FluentResource("")]
FluentLocalization(["xx", "de", "en"], ["x"], L(), bundle_class=B).format_value("a")
assert seen == [["xx", "de", "en"], ["de", "en"], ["en"]], seen
''', "three or more locales", "bundles after the first are not made for the remaining chain")

seed("c27-shared-active", "C27", [(RT + "resolver.py", '''    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(
        factory=set, init=False
    )
''', '''    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(factory=set)
'''), (RT + "bundle.py", '''            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors
        )
''', '''            context=self,
            current=CurrentEnvironment(args=fluent_args),
            errors=errors,
            active_patterns=self._active,
        )
'''), (RT + "bundle.py", '''            result = "{???}"
        return''', '''            result = "{???}"
            self._active = set()
        return'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        self._active: Any = set()
''')], '''
import threading
go, done = threading.Event(), threading.Event()
def slow():
    go.set()
    done.wait(10)
    return "x"
b = FluentBundle(["en"], use_isolating=False, functions={"SLOW": slow})
b.add_resource(FluentResource("a = { $n ->\\n [1] { SLOW() } !\\n *[other] y\\n } .\\n"))
p = b.get_message("a").value
t = threading.Thread(target=lambda: b.format_pattern(p, {"n": 1}))
t.start()
go.wait(10)
r = b.format_pattern(p, {"n": 2})
done.set()
t.join()
assert r == ("y .", []), r
''', "two threads formatting the same message at the same time", "a cyclic reference is reported where there is none")

seed("c28-bom", "C28", (RT + "fallback.py", 'resources.append(FluentParser().parse(content))', 'resources.append(FluentParser().parse(content[1:] if content[:1] == "\\ufeff" else content))'), '''
import tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    os.mkdir(d + "/en")
    open(d + "/en/f.ftl", "wb").write("\\ufeffa = b\\n".encode("utf-8"))
    [[r]] = list(FluentResourceLoader(d + "/{locale}").resources("en", ["f.ftl"]))
    assert r.equals(parse("\\ufeffa = b\\n"), ignored_fields=[])
finally:
    shutil.rmtree(d)
''', "a file that starts with a byte order mark", "the file's text is not intact: a character is dropped and all positions shift")

seed("c28-lines", "C28", (RT + "fallback.py", 'resources.append(FluentParser().parse(content))', 'resources.append(FluentParser().parse("\\n".join(content.splitlines()) + "\\n"))'), '''
import tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    open(d + "/f.ftl", "wb").write("a = x\\u2028y\\nb = { \\"z\\u0085\\" }\\n".encode("utf-8"))
    [[r]] = list(FluentResourceLoader(d).resources("en", ["f.ftl"]))
    assert r.equals(parse("a = x\\u2028y\\nb = { \\"z\\u0085\\" }\\n"), ignored_fields=[])
finally:
    shutil.rmtree(d)
''', "a file with a line separator, form feed or lone carriage return in its text", "the text of the file is changed")

seed("c29-crlf", "C29", ("fluent.pygments/fluent/pygments/lexer.py", "self.ast = parse(text)", 'self.ast = parse(text.replace("\\r\\n", "\\n"))'), '''
from fluent.pygments.lexer import FluentLexer
s = "a = b\\r\\nc = d\\r\\n"
toks = list(FluentLexer().get_tokens_unprocessed(s))
assert "".join(t for _, _, t in toks) == s
assert toks[4][2] == "c" and len(toks) == 8, toks
''', "CRLF line ends", "tokens are shifted against the text")
SEEDS[-1]["property"] = "C30"

seed("c29-order", "C29", ("fluent.pygments/fluent/pygments/lexer.py", '''        for child in children:
            yield from''', '''        if isinstance(node, FTL.CallArguments):
            children = [node.named, node.positional]
        for child in children:
            yield from'''), '''
from fluent.pygments.lexer import FluentLexer
s = "a = { FOO($x, n: 1) }\\n"
assert "".join(t for _, _, t in FluentLexer().get_tokens_unprocessed(s)) == s
''', "a call with both positional and named arguments", "text is repeated and out of order")

seed("c30-key", "C30", ("fluent.pygments/fluent/pygments/lexer.py", '''        yield self._token(node.key, Token.Name.Attribute)
''', '''        if isinstance(node.key, FTL.NumberLiteral):
            yield from self.tokenize(node.key)
        else:
            yield self._token(node.key, Token.Name.Attribute)
'''), '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
toks = list(FluentLexer().get_tokens_unprocessed("a = { $x ->\\n *[1] y\\n }\\n"))
assert any(t == "1" and c is Token.Name.Attribute for _, c, t in toks), toks
''', "a number as variant key", "the key is classified as a number, not as a variant key")

seed("c31-cutoff", "C31", ("fluent.docs/fluent/docs/tags.py", "if ti.date > cut_off_date]", "if ti.date >= cut_off_date]"), '''
import datetime, subprocess
from fluent.docs import tags
class R:
    stdout = "fluent.syntax@1.0 2020-05-01\\nfluent.syntax@0.9 2020-04-30\\n"
tags.subprocess = type("S", (), {"run": staticmethod(lambda *a, **k: R), "PIPE": -1})
assert [str(t) for t in tags.get_tag_infos(datetime.date(2020, 5, 1))] == []
''', "a release made on the day of the cut-off", "that release is published although it is not newer")

DOCS = '''
import datetime, shutil, subprocess, tempfile
d = tempfile.mkdtemp()
env = {**os.environ, "HOME": d, "TMPDIR": d + "/tmp", "PATH": d + "/bin:" + os.environ["PATH"], "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "t", "GIT_AUTHOR_EMAIL": "t@x",
       "GIT_COMMITTER_NAME": "t", "GIT_COMMITTER_EMAIL": "t@x"}
try:
    w = d + "/w"
    for x in ("/bin", "/tmp", "/w", "/w/docs", "/w/fluent.syntax", "/w/fluent.syntax/docs"):
        os.mkdir(d + x)
    with open(d + "/bin/sphinx-build", "w") as f:
        f.write("""#!/bin/sh
for a; do src=$dest; dest=$a; done
mkdir -p "$dest" && cat "$PYTHONPATH/code.txt" > "$dest/code.txt"
""")
    os.chmod(d + "/bin/sphinx-build", 0o755)
    def run(*a, **e):
        subprocess.run(a, cwd=w, env={**env, **e}, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def commit(day, tag=None):
        with open(w + "/fluent.syntax/code.txt", "w") as f:
            f.write(day)
        open(w + "/fluent.syntax/docs/index.rst", "w").close()
        with open(w + "/.gitignore", "w") as f:
            f.write("/_build/\\nversions.html\\n")
        run("git", "add", ".")
        run("git", "commit", "-qm", day, GIT_AUTHOR_DATE=day + "T12:00:00Z", GIT_COMMITTER_DATE=day + "T12:00:00Z")
        if tag:
            run("git", "tag", tag)
    run("git", "init", "-q")
    commit("2021-01-01", "fluent.syntax@1.0")
    commit("2022-01-01", "fluent.syntax@2.0")
    commit("2023-01-01")
    def build():
        run(sys.executable, "-B", "-c", "import datetime; from fluent.docs.build import build; build('r', ['fluent.syntax'], datetime.date(2020, 5, 1))")
    out = w + "/_build/r/fluent.syntax/"
    build()
    %s
finally:
    shutil.rmtree(d)
'''
seed("c31-code", "C31", ("fluent.docs/fluent/docs/build.py", '''        env["PYTHONPATH"] = self.src_dir
''', '''        env["PYTHONPATH"] = self.project_name
'''), DOCS % '''assert open(out + "1.0/code.txt").read() == "2021-01-01"''', "a release whose code differs from the current one", "a release's pages document the current code")

seed("c31-rebuild", "C31", ("fluent.docs/fluent/docs/build.py", '''        if stable.is_symlink():
            stable.unlink()
        if stable.exists():
            shutil.rmtree(stable)
        stable.symlink_to''', '''        if stable.is_symlink() and os.readlink(stable) == last_vers[project]:
            continue
        if stable.exists() and not stable.is_symlink():
            shutil.rmtree(stable)
        if stable.is_symlink():
            continue
        stable.symlink_to'''), DOCS % '''commit("2024-01-01", "fluent.syntax@3.0")
    build()
    assert os.readlink(out + "stable") == "3.0", os.readlink(out + "stable")''', "building again after a new release", "the stable link keeps pointing to the old release")

seed("c31-failing-sphinx", "C31", ("fluent.docs/fluent/docs/build.py", '''        subprocess.check_call(cmd, env=env)
''', '''        subprocess.call(cmd, env=env)
'''), DOCS % '''commit("2024-01-01", "fluent.syntax@3.0")
    with open(d + "/bin/sphinx-build", "w") as f:
        f.write('#!/bin/sh\\nfor a; do dest=$a; done\\nmkdir -p "$dest"\\nexit 1\\n')
    try:
        build()
        raise SystemExit("the failure was not reported")
    except subprocess.CalledProcessError:
        pass''', "Sphinx failing for a project or release", "the build reports success although pages are missing")

seed("c31-failing-tags", "C31", ("fluent.docs/fluent/docs/tags.py", '''        stdout=subprocess.PIPE,
        check=True,
''', '''        stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL,
'''), DOCS % '''git = shutil.which("git")
    with open(d + "/bin/git", "w") as f:
        f.write("#!/bin/sh\\n[ \\"$1\\" = tag ] && exit 128\\nexec " + git + ' "$@"\\n')
    os.chmod(d + "/bin/git", 0o755)
    try:
        build()
        raise SystemExit("the failure was not reported")
    except subprocess.CalledProcessError:
        pass''', "git failing to list the tags", "the build reports success and publishes no releases")

seed("c32-newlines", "C32", ("tools/fluentfmt.py", '''    with codecs.open(path, "r", encoding="utf-8") as file:
        text = file.read()
''', '''    with open(path, encoding="utf-8") as file:
        text = file.read()
'''), '''
import shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    s = "a = x\\ry\\n"
    with open(d + "/f.ftl", "wb") as f:
        f.write(s.encode())
    out = subprocess.run([sys.executable, "tools/fluentfmt.py", d + "/f.ftl"], stdout=subprocess.PIPE, check=True).stdout.decode()
    assert out == serialize(parse(s)) + "\\n", out
finally:
    shutil.rmtree(d)
''', "a file with a lone carriage return", "the tool formats other text than the file's")

seed("c32-ascii", "C32", ("tools/serialize.py", '''    with codecs.open(path, "r", encoding="utf-8") as file:
        return json.load(file)
''', '''    with codecs.open(path, "r", encoding="utf-8") as file:
        return json.loads("".join(line.strip() for line in file))
'''), '''
import shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    r = parse("a = x \\u2028 y\\n")
    with open(d + "/f.json", "wb") as f:
        f.write(json.dumps(r.to_json(), ensure_ascii=False).encode())
    out = subprocess.run([sys.executable, "tools/serialize.py", d + "/f.json"], stdout=subprocess.PIPE, check=True).stdout.decode()
    assert out == serialize(r) + "\\n", out
finally:
    shutil.rmtree(d)
''', "a tree whose text has a line separator unescaped in the JSON file", "characters of the text are lost")


# ---------------------------------------------------------------- second batch
seed("c01-backtrack", "C01", (SY + "parser.py", '''        exp = self.get_inline_expression(ps)

        ps.skip_blank()

        if ps.current_char != ":":
            return exp
''', '''        start = ps.index
        exp = self.get_inline_expression(ps)

        ps.skip_blank()

        if ps.current_char != ":":
            # Not a named argument: leave the blanks to the caller.
            ps.index = start
            return self.get_inline_expression(ps)
'''), '''
import signal
signal.alarm(30)
r = parse("key = { " + "F(" * 30 + "1" + ")" * 30 + " }\\n")
assert isinstance(r.body[0], FTL.Message)
''', "calls nested in the arguments of calls, many levels deep", "parsing takes time exponential in the depth of nested calls")

seed("c02-bom", "C02", (SY + "parser.py", '''        ps = FluentParserStream(source)
        ps.skip_blank_block()

        entries''', '''        ps = FluentParserStream(source.lstrip("\\ufeff"))
        ps.skip_blank_block()

        entries'''), '''
s = "\\ufeffa = b\\n"
r = parse(s)
assert r.span.end == len(s) and "".join(s[e.span.start:e.span.end] for e in r.body).strip() == s.strip()
''', "a file that starts with a byte order mark", "source text disappears from the tree and positions shift")

seed("c02-cr-blank", "C02", (SY + "stream.py", '''            if self.current_peek == EOL:
                blank += EOL
                self.peek()
                continue
''', '''            if self.current_peek in (EOL, "\\r"):
                blank += EOL
                self.peek()
                continue
'''), '''
s = "a = b\\n\\r\\nc = d\\n\\r\\r\\ne = f\\n  \\r"
r = parse(s)
pos = 0
for e in r.body:
    assert not s[pos:e.span.start].strip(" \\n") or s[pos:e.span.start].replace("\\r\\n", "").strip(" \\n") == "", (pos, e.span.start)
    pos = e.span.end
assert s[pos:].replace("\\r\\n", "").strip(" \\n") == "", s[pos:]
''', "a lone carriage return on a line of its own", "carriage returns vanish from the tree as if they were blank")

seed("c03-term-call", "C03", (SY + "parser.py", '''            arguments = None
            ps.peek_blank()
            if ps.current_peek''', '''            arguments = None
            ps.peek_blank_inline()
            if ps.current_peek'''), '''
assert isinstance(parse("a = { -t\\n    (x: 1) }\\n").body[0], FTL.Message)
''', "a line break between a term reference and its arguments", "a well-formed message becomes Junk")

seed("c03-case-args", "C03", [(SY + "parser.py", "if arg.name.name in argument_names:", "if arg.name.name.lower() in argument_names:"),
     (SY + "parser.py", "argument_names.add(arg.name.name)", "argument_names.add(arg.name.name.lower())")], '''
assert isinstance(parse('a = { F(x: 1, X: 2) }\\n').body[0], FTL.Message)
''', "two named arguments whose names differ in case only", "a well-formed message becomes Junk")

seed("c05-key-eof", "C05", (SY + "parser.py", '''        if ch is None:
            raise ParseError("E0013")

        cc = ord(ch)
''', '''        if ch is None or ch == "]":
            raise ParseError("E0013")

        cc = ord(ch)
'''), '''
assert parse("a = { $x ->\\n *[] y\\n }\\n").body[0].annotations[0].code == "E0004"
''', "an empty pair of brackets as variant key", "another error code than documented")

seed("c06-indent-end", "C06", (SY + "parser.py", '''                        self.Indent(blank_lines + indent, blank_start, ps.index)
''', '''                        self.Indent(
                            blank_lines + indent,
                            blank_start,
                            blank_start + len(blank_lines) + len(indent),
                        )
'''), '''
s = "a = { $x }\\r\\n\\r\\n    { $y }\\r\\n"
e = parse(s).body[0].value.elements[1]
assert (e.span.start, e.span.end) == (10, 18), (e.span.start, e.span.end)
''', "text made of a line break between two placeables, with CRLF line ends or blanks on empty lines", "the text element's span ends too early")

seed("c06-no-spans", "C06", (SY + "parser.py", '''                text_element = ast.TextElement(element.value)
                if self.with_spans:
                    text_element.add_span(
                        cast(ast.Span, element.span).start,
                        cast(ast.Span, element.span).end,
                    )
''', '''                text_element = ast.TextElement(element.value, span=element.span)
'''), '''
r = FluentParser(with_spans=False).parse("a = { $x }\\n    { $y }\\n")
assert r.body[0].value.elements[1].span is None
''', "position tracking off and a line break between two placeables", "a node has a position although position tracking is off")

seed("c08-junk-end", "C08", (SY + "serializer.py", 'return junk.content or ""', 'return (junk.content or "").rstrip("\\n") + "\\n"'), '''
r = parse("a = b\\nbroken\\n\\n\\n")
out = serialize(r, with_junk=True)
r2 = parse("a = b\\nbroken")
assert parse(serialize(r2, with_junk=True)).equals(r2) and parse(out).equals(r), (out, serialize(r2, with_junk=True))
''', "Junk without or with several line breaks at its end", "Junk is not reproduced with its content")

seed("c10-length", "C10", (SY + "ast.py", '''                if len(field1) != len(field2):
                    return False

''', ""), '''
a, b = parse("a = b\\n").body[0], parse("a = b\\n    .c = d\\n").body[0]
assert not a.equals(b)
''', "two trees of which one has more attributes, variants or elements", "different trees are taken for equal")

seed("c10-type", "C10", (SY + "ast.py", '''    if type(node1) is not type(node2):
        return False

    if isinstance(node1, BaseNode):''', '''    if isinstance(node1, BaseNode) and isinstance(node2, BaseNode):'''), '''
a, b = parse('a = { F("1") }\\n').body[0], parse("a = { F(1) }\\n").body[0]
assert not a.equals(b)
''', "two trees that differ in the type of a node only, like the literals 1 and '1'", "different trees are taken for equal")

seed("c11-same-length", "C11", (SY + "visitor.py", '''                propvalue[:] = new_vals
''', '''                if len(new_vals) != len(propvalue) or propname != "elements":
                    propvalue[:] = new_vals
'''), '''
from fluent.syntax.visitor import Transformer
class X(Transformer):
    def visit_TextElement(self, node):
        return FTL.TextElement("new")
r = parse("a = x { $y }\\n")
X().visit(r)
assert r.body[0].value.elements[0].value == "new"
''', "a handler that replaces an element of a pattern without removing any", "the replacement is lost")

seed("c12-sequential", "C12", (SY + "ast.py", '''            c, codepoint4, codepoint6 = matchobj.groups()
            if c:
                return cast(str, c)
            codepoint = int(codepoint4 or codepoint6, 16)
''', '''            codepoint4, codepoint6 = matchobj.groups()
            codepoint = int(codepoint4 or codepoint6, 16)
'''), '''
assert FTL.StringLiteral("\\\\\\\\\\\\u0041").parse()["value"] == "\\\\A", FTL.StringLiteral("\\\\\\\\\\\\u0041").parse()
assert FTL.StringLiteral('\\\\\\\\\\\\"').parse()["value"] == '\\\\"', FTL.StringLiteral('\\\\\\\\\\\\"').parse()
''', "an escaped backslash next to another escape", "escapes are decoded one kind after the other, so that results of one are taken for the other")
SEEDS[-1]["edits"].append((SY + "ast.py", '''            r'\\\\(?:(\\\\|")|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{6}))',
            from_escape_sequence,
            self.value,
        )
''', '''            r'(?<!\\\\)\\\\(?:u([0-9a-fA-F]{4})|U([0-9a-fA-F]{6}))',
            from_escape_sequence,
            self.value,
        )
        value = value.replace('\\\\"', '"').replace("\\\\\\\\", "\\\\")
'''))

seed("c13-comments", "C13", (SY + "parser.py", '''            if isinstance(skipped, ast.Junk):
                # Don't skip Junk comments.
                return skipped
            ps.skip_blank_block()
''', '''            if isinstance(skipped, ast.Junk):
                # Don't skip Junk comments.
                return skipped
            if not isinstance(skipped, ast.Comment):
                ps.skip_blank_block()
'''), '''
p = FluentParser()
assert isinstance(p.parse_entry("# c\\n\\na = b\\n"), FTL.Message)
''', "a comment followed by a blank line", "parsing one entry gives Junk where the full parse has a message")


# ---------------------------------------------------------------- third batch
seed("c15-bigint", "C15", (RT + "resolver.py", '''    elif is_number(val2):
        return False
''', '''        return float(val1) == float(val2)
    elif is_number(val2):
        return False
'''), '''
src = "a = { $x ->\\n [9007199254740992] even\\n *[other] odd\\n }\\n"
assert fmt(src, "a", {"x": 2 ** 53 + 1})[0] == "odd"
assert fmt(src, "a", {"x": 2 ** 53})[0] == "even"
''', "an integer beyond 2**53 next to the key", "a number matches a key of another value")

seed("c15-none-name", "C15", (RT + "resolver.py", '''    if val1 is None or isinstance(val1, FluentNone):
        return False
''', '''    if isinstance(val1, FluentNone):
        val1 = val1.name
    if val1 is None:
        return False
'''), '''
assert fmt("a = { $one ->\\n [one] A\\n *[b] B\\n }\\n", "a")[0] == "B"
''', "a missing argument whose name is one of the keys", "a missing selector does not take the default")

seed("c16-narrow", "C16", (RT + "resolver.py", '''            return function(*args, **kwargs)
        except Exception as e:
            env.errors.append(e)
''', '''            return function(*args, **kwargs)
        except (ValueError, TypeError, LookupError, ArithmeticError, AttributeError) as e:
            env.errors.append(e)
'''), '''
def bad():
    raise RuntimeError("no")
out, errs = fmt("a = x { F() } y\\n", "a", functions={"F": bad})
assert out == "x F() y" and errs == ["no"], (out, errs)
''', "a function that raises another exception than the usual ones", "the whole message is replaced, not only the call")

seed("c16-dup-errors", "C16", (RT + "resolver.py", '''                env.errors.append(FluentReferenceError(f"Unknown external: {name}"))
''', '''                error = FluentReferenceError(f"Unknown external: {name}")
                if error not in env.errors:
                    env.errors.append(error)
'''), '''
assert len(fmt("a = { $x } { $x }\\n", "a")[1]) == 2
''', "the same problem twice in one call", "the second error is not reported")

seed("c17-merge", "C17", (RT + "resolver.py", '''            kwargs = {
                kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named
            }
''', '''            kwargs = {
                kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named
            }
            if self.attribute is not None:
                # Selectors need to see what is being selected on.
                kwargs = {**env.current.args, **kwargs}
'''), '''
src = 'a = { -t.x(y: "1") ->\\n [X] wrong\\n *[b] B\\n }\\n-t = T\\n    .x = { $x }\\n'
assert fmt(src, "a", {"x": "X"})[0] == "B"
''', "an attribute of a term as selector, called with arguments", "the caller's arguments are visible inside the term")

seed("c18-double", "C18", (RT + "resolver.py", '''        if not env.context.use_isolating:
            return inner
''', '''        if not env.context.use_isolating:
            return inner
        if inner.startswith("\\u2068") and inner.endswith("\\u2069"):
            return inner
'''), '''
out = fmt("a = x { b }\\nb = { $y }, { $z }\\n", "a", {"y": "Y", "z": "Z"}, iso=True)[0]
assert out == "x \\u2068\\u2068Y\\u2069, \\u2068Z\\u2069\\u2069", ascii(out)
''', "an interpolated value that begins and ends with interpolations of its own", "the value is not isolated")

seed("c18-flatten", "C18", (RT + "prepare.py", '''        if isinstance(expression, resolver.Literal):
            return expression
''', '''        if isinstance(expression, (resolver.Literal, resolver.SelectExpression)):
            return expression
'''), '''
out = fmt("a = x { $y ->\\n *[o] O { $y }\\n }\\n", "a", {"y": "Y"}, iso=True)[0]
assert out == "x \\u2068O \\u2068Y\\u2069\\u2069", ascii(out)
''', "a selection next to text", "the selected text is not isolated")

seed("c19-wide", "C19", (RT + "resolver.py", "if len(self.elements) > remaining_parts:", "if env.part_count and len(self.elements) > remaining_parts:"), '''
out, errs = fmt("a = " + "x{ $y }" * 2000 + "\\n", "a", {"y": "Y"})
assert out == "{???}" and len(errs) == 1
''', "a single pattern with more parts than allowed", "it is not cut off")

seed("c19-term-budget", "C19", (RT + "resolver.py", '''        with env.modified_for_term_reference(args=kwargs):
            return resolveEntryReference(self, env)
''', '''        # Terms have their own budget.
        part_count, env.part_count = env.part_count, 0
        with env.modified_for_term_reference(args=kwargs):
            value = resolveEntryReference(self, env)
        env.part_count = part_count
        return value
'''), '''
calls = []
src = "a = " + "{ -t2 }" * 40 + "\\n-t0 = x{ F() }\\n" + "".join("-t%d = %s\\n" % (k, ("{ -t%d }" % (k - 1)) * 40) for k in (1, 2))
b = FluentBundle(["en"], use_isolating=False, functions={"F": lambda: calls.append(1) or ""})
b.add_resource(FluentResource(src.replace("= x{", "= { \\"\\" }{")))
out, errs = b.format_pattern(b.get_message("a").value)
assert errs and len(calls) <= 2000, (len(calls), errs)
''', "terms multiplying each other", "the expansion is not cut off")

seed("c19-active", "C19", (RT + "resolver.py", '''        # CurrentEnvironment only has args that we never mutate, so the shallow
''', '''        active_patterns, self.active_patterns = self.active_patterns, set()
        # CurrentEnvironment only has args that we never mutate, so the shallow
'''), '''
out, errs = fmt("a = x { -t }\\n-t = y { -t }\\n", "a")
assert out == "x y ???" or errs == ["Cyclic reference"], (out, errs)
''', "a term that refers to itself", "the cycle is not found until something else breaks")
SEEDS[-1]["edits"].append((RT + "resolver.py", '''        yield self
        self.current = old_current
''', '''        yield self
        self.current = old_current
        self.active_patterns = active_patterns
'''))

seed("c20-readd", "C20", [(RT + "bundle.py", '''        # TODO - warn/error about duplicates
''', '''        # TODO - warn/error about duplicates
        if any(known is resource for known in self._resources):
            # Nothing new.
            return
        self._resources.append(resource)
'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        self._resources: List[FTL.Resource] = []
''')], '''
b = FluentBundle(["en"])
r1, r2 = FluentResource("a = one\\n"), FluentResource("a = two\\n")
for r in (r1, r2, r1):
    b.add_resource(r, allow_overrides=True)
assert b.format_pattern(b.get_message("a").value)[0] == "one"
''', "adding a resource again, with overriding, after another one that overrides it", "the earlier definition stays in force")

seed("c20-term-override", "C20", (RT + "bundle.py", "            if full_id not in map_ or allow_overrides:\n", "            if full_id not in map_ or (allow_overrides and full_id not in self._terms):\n"), '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("-a = one\\na = { -a }\\n"))
b.add_resource(FluentResource("-a = two\\n"), allow_overrides=True)
assert b.format_pattern(b.get_message("a").value)[0] == "two"
''', "overriding a term, or a message with the name of a term", "the override has no effect")

seed("c21-select-memo", "C21", (RT + "resolver.py", '''        key = self.selector(env)
        default''', '''        key = self.selector(env)
        memo = self.__dict__.setdefault("_memo", {})
        if is_number(key) and (env.context, key) in memo:
            return memo[env.context, key].value(env)
        default'''), '''
from fluent.runtime.types import fluent_number
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $n ->\\n [one] one\\n [two] two\\n *[other] other\\n }\\n"))
p = b.get_message("a").value
assert b.format_pattern(p, {"n": 2})[0] == "other"
assert b.format_pattern(p, {"n": fluent_number(2, type="ordinal")})[0] == "two"
''', "formatting the same selection with equal numbers, one cardinal and one ordinal", "the first call's choice is repeated")
SEEDS[-1]["edits"].append((RT + "resolver.py", '''            found = default
        return found.value(env)
''', '''            found = default
        if is_number(key):
            memo[env.context, key] = found
        return found.value(env)
'''))

seed("c21-error-state", "C21", [(RT + "bundle.py", '''        errors: List[Exception] = []
''', '''        errors: List[Exception] = self._spare
'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        self._spare: List[Exception] = []
'''), (RT + "bundle.py", '''        return (result, errors)
''', '''        if errors:
            # Handed out with entries, so the next call needs its own.
            self._spare = []
        return (result, errors)
''')], '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $x }\\n"))
pa = b.get_message("a").value
e1 = b.format_pattern(pa, {"x": "X"})[1]
e2 = b.format_pattern(pa)[1]
assert (len(e1), len(e2)) == (0, 1), (e1, e2)
''', "keeping the empty error list of one call while a later call fails", "the error of the later call appears in the earlier result")

seed("c22-float", "C22", (RT + "types.py", "        selfnum = cast(float, self)\n", "        selfnum = float(cast(float, self))\n"), '''
from decimal import Decimal
assert fmt("a = { $x }\\n", "a", {"x": 12345678901234567890})[0] == "12,345,678,901,234,567,890"
assert fmt("a = { NUMBER($x, maximumFractionDigits: 20) }\\n", "a", {"x": Decimal("0.12345678901234567891")})[0] == "0.12345678901234567891"
''', "integers or decimals with more digits than a float has", "digits are invented or lost")

seed("c22-cache-currency", "C22", [(RT + "types.py", '''        pattern = clone_pattern(pattern)
''', '''        key = (id(pattern), attr.astuple(attr.evolve(self.options, currency=None)))
        if key in _PATTERNS and self.options.style != FORMAT_STYLE_CURRENCY or key in _PATTERNS and self.options.minimumFractionDigits is None:
            return _PATTERNS[key]
        pattern = _PATTERNS[key] = clone_pattern(pattern)
'''), (RT + "types.py", '''_UNGROUPED_PATTERN = parse_pattern("#0")
''', '''_UNGROUPED_PATTERN = parse_pattern("#0")
_PATTERNS: Dict[Any, NumberPattern] = {}
''')], '''
from fluent.runtime.types import fluent_number
import babel
l = babel.Locale.parse("en_US")
assert fluent_number(5, style="currency", currency="USD", maximumFractionDigits=4).format(l) == "$5.00"
out = fluent_number(5, style="currency", currency="JPY", maximumFractionDigits=4).format(l)
assert out == "\\u00a55", out
''', "two currencies with different numbers of digits, formatted with otherwise equal options", "the second is formatted with the digits of the first")

seed("c22-min-int", "C22", (RT + "types.py", '''                pattern.int_prec = (
                    self.options.minimumIntegerDigits,
                    pattern.int_prec[1],
                )
''', '''                pattern.int_prec = (
                    self.options.minimumIntegerDigits,
                    pattern.int_prec[1],
                )
                if self.options.minimumIntegerDigits > 3:
                    pattern.grouping = _UNGROUPED_PATTERN.grouping
'''), '''
assert fmt("a = { NUMBER($x, minimumIntegerDigits: 5) }\\n", "a", {"x": 42})[0] == "00,042"
''', "a minimum of more than three integer digits", "grouping is lost")

seed("c24-integral", "C24", (RT + "types.py", '''    elif isinstance(number, float):
        return FluentFloat(number, **kwargs)
''', '''    elif isinstance(number, float):
        if number.is_integer() and abs(number) >= 1e6:
            # No fraction digits to keep.
            return FluentInt(number, **kwargs)
        return FluentFloat(number, **kwargs)
'''), '''
from fluent.runtime.types import fluent_number, FluentFloat
n = fluent_number(FluentFloat(2e6, style="percent"), minimumFractionDigits=1)
assert isinstance(n, float) and n.options.style == "percent", (type(n), n.options)
''', "a large float without fraction", "the value changes its type and loses its options")

seed("c24-date-merge", "C24", (RT + "types.py", '''        self.options = merge_options(
            DateFormatOptions, getattr(dt_obj, "options", None), kwargs
        )
''', '''        base = getattr(dt_obj, "options", None)
        if base is not None and "dateStyle" in kwargs:
            # A new style replaces the old one.
            base = DateFormatOptions(timeZone=base.timeZone)
        self.options = merge_options(DateFormatOptions, base, kwargs)
'''), '''
import datetime
from fluent.runtime.types import fluent_date
d = fluent_date(fluent_date(datetime.datetime(2020, 1, 2), timeStyle="short"), dateStyle="full")
assert d.options.timeStyle == "short"
''', "re-wrapping a value that has a time style with a date style", "the time style is lost")

seed("c25-memo", "C25", [(RT + "resolver.py", '''            return function(*args, **kwargs)
        except Exception as e:
''', '''            # The same call needs to be made once only.
            if self not in env.results:
                env.results[self] = function(*args, **kwargs)
            return env.results[self]
        except Exception as e:
'''), (RT + "resolver.py", '''    current: CurrentEnvironment = attr.ib(factory=CurrentEnvironment)

    @contextlib''', '''    current: CurrentEnvironment = attr.ib(factory=CurrentEnvironment)
    results: Dict[Any, Any] = attr.ib(factory=dict, init=False)

    @contextlib''')], '''
out = fmt('a = { -t(x: "1") } { -t(x: "2") }\\n-t = { F($x) }\\n', "a", functions={"F": lambda x: "<" + x + ">"})[0]
assert out == "<1> <2>", out
''', "a call that is evaluated twice in one formatting call with other arguments, as in a term", "the first result is repeated")

seed("c25-retry", "C25", (RT + "resolver.py", '''            return function(*args, **kwargs)
        except Exception as e:
''', '''            try:
                return function(*args, **kwargs)
            except TypeError:
                if not kwargs:
                    raise
                # Options the function does not know are ignored.
                return function(*args)
        except Exception as e:
'''), '''
out, errs = fmt("a = { F(1, bogus: 2) }\\n", "a", functions={"F": lambda x: "F"})
assert out == "F()" and len(errs) == 1, (out, errs)
''', "a function called with a named argument it does not have", "the error is hidden and the function called again")

seed("c25-literal", "C25", (RT + "resolver.py", '''        kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}
        function_name''', '''        kwargs = {
            kwarg.name.name: kwarg.value(env)
            if isinstance(kwarg.value, NumberLiteral)
            else kwarg.value.value
            for kwarg in self.arguments.named
        }
        function_name'''), '''
out = fmt('a = { F(x: "\\\\u0041") }\\n', "a", functions={"F": lambda x: x})[0]
assert out == "A", out
''', "an escape in a string literal passed as named argument", "the function gets the undecoded literal")

seed("c26-one-location", "C26", (RT + "fallback.py", '''                    bundle.add_resource(resource)
                yield bundle
''', '''                    bundle.add_resource(resource)
                yield bundle
                if len(resources) == len(self.resource_ids):
                    # All resources were found.
                    break
'''), '''
from fluent.runtime import FluentLocalization
class L:
    def resources(self, locale, ids):
        yield [FluentResource("a = A\\n")]
        yield [FluentResource("b = B\\n")]
assert FluentLocalization(["en"], ["x"], L()).format_value("b") == "B"
''', "a loader with several locations of which the first has all files", "the other locations are not used")

seed("c26-missing", "C26", (RT + "fallback.py", '''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
''', '''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                if self._bundle_cache[0].has_message(msg_id):
                    break
                continue
'''), '''
from fluent.runtime import FluentLocalization
class L:
    def resources(self, locale, ids):
        yield [FluentResource({"xx": "a =\\n    .b = c\\n", "de": "", "en": "a = A\\n"}[locale])]
assert FluentLocalization(["xx", "de", "en"], ["x"], L()).format_value("a") == "A"
''', "a message that has only attributes in the first locale and is missing in the second", "fallback stops too early")

seed("c27-shared-env", "C27", [(RT + "bundle.py", '''        env = ResolverEnvironment(
            context=self, current=CurrentEnvironment(args=fluent_args), errors=errors
        )
''', '''        if self._env is None:
            self._env = ResolverEnvironment(context=self, errors=errors)
        env = self._env
        env.errors = errors
        env.part_count = 0
        env.active_patterns = set()
        env.current = CurrentEnvironment(args=fluent_args)
'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        self._env: Union[ResolverEnvironment, None] = None
''')], '''
import threading
go, done = threading.Event(), threading.Event()
def slow():
    go.set()
    done.wait(10)
    return "x"
b = FluentBundle(["en"], use_isolating=False, functions={"SLOW": slow})
b.add_resource(FluentResource("a = { SLOW() } { $n }\\nb = { $n } .\\n"))
res = []
t = threading.Thread(target=lambda: res.append(b.format_pattern(b.get_message("a").value, {"n": 1})))
t.start()
go.wait(10)
b.format_pattern(b.get_message("b").value, {"n": 2})
done.set()
t.join()
assert res == [("x 1", [])], res
''', "two threads formatting through one bundle at the same time", "one gets the other's arguments")

seed("c27-pattern-restore", "C27", (RT + "types.py", '''            base_pattern = cast(NumberPattern, locale.decimal_formats.get(None))
            pattern = self._apply_options(base_pattern)
            return pattern.apply(selfnum, locale)
''', '''            base_pattern = cast(NumberPattern, locale.decimal_formats.get(None))
            if self.options.useGrouping:
                pattern = self._apply_options(base_pattern)
                return pattern.apply(selfnum, locale)
            # No need to copy the whole pattern.
            grouping = base_pattern.grouping
            base_pattern.grouping = _UNGROUPED_PATTERN.grouping
            try:
                pattern = self._apply_options(base_pattern)
                return pattern.apply(selfnum, locale)
            finally:
                base_pattern.grouping = grouping
'''), '''
import threading
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { NUMBER($n, useGrouping: 0) }\\nb = { $n }\\n"))
sys.setswitchinterval(1e-6)
bad = []
stop = []
def other():
    p = b.get_message("a").value
    while not stop:
        b.format_pattern(p, {"n": 12345})
ts = [threading.Thread(target=other) for _ in range(3)]
for t in ts:
    t.start()
p = b.get_message("b").value
for _ in range(6000):
    r = b.format_pattern(p, {"n": 12345})[0]
    if r != "12,345":
        bad.append(r)
        break
stop.append(1)
for t in ts:
    t.join()
assert not bad, bad
''', "two threads formatting numbers in one locale, one with and one without grouping", "a thread's number loses its grouping for a moment")

seed("c28-cache", "C28", [(RT + "fallback.py", '''                resources.append(FluentParser().parse(content))
''', '''                if path not in self._parsed:
                    self._parsed[path] = FluentParser().parse(content)
                resources.append(self._parsed[path])
'''), (RT + "fallback.py", '''        self.roots = [roots] if isinstance(roots, str) else roots
''', '''        self.roots = [roots] if isinstance(roots, str) else roots
        self._parsed: Dict[str, Any] = {}
''')], '''
import tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    l = FluentResourceLoader(d)
    for s in ("a = b\\n", "a = c\\n"):
        with open(d + "/g.ftl", "w") as f:
            f.write(s)
        [[r]] = list(l.resources("en", ["g.ftl"]))
        assert r.equals(parse(s)), s
finally:
    shutil.rmtree(d)
''', "a file that changes between two requests to one loader", "the old content is returned")

seed("c28-double-locale", "C28", (RT + "fallback.py", '''        return path.format(locale=locale)
''', '''        head, marker, tail = path.partition("{locale}")
        return head + (locale if marker else "") + tail
'''), '''
import tempfile, shutil
from fluent.runtime import FluentResourceLoader
d = tempfile.mkdtemp()
try:
    os.mkdir(d + "/en")
    open(d + "/en/f.en.ftl", "w").write("a = b\\n")
    assert len(list(FluentResourceLoader(d + "/{locale}").resources("en", ["f.{locale}.ftl"]))) == 1
finally:
    shutil.rmtree(d)
''', "the locale's marker both in root and file name", "only the first marker is replaced and the file not found")

seed("c29-empty-comment", "C29", ("fluent.pygments/fluent/pygments/lexer.py", '''            last_end = node.span.end
''', '''            last_end = start + len(span.rstrip("\\n"))
'''), '''
from fluent.pygments.lexer import FluentLexer
for s in ("a = { $x }\\n  { $y }\\n", "junk {\\n\\n\\na = b\\n"):
    toks = list(FluentLexer().get_tokens_unprocessed(s))
    assert "".join(t for _, _, t in toks) == s, toks
''', "a token that ends in line breaks, like Junk", "line breaks are repeated")

seed("c30-function", "C30", ("fluent.pygments/fluent/pygments/lexer.py", '''    def tokenize_Variant(self, node):
''', '''    def tokenize_MessageReference(self, node):
        yield self._token(node, Token.Name.Constant)

    def tokenize_Variant(self, node):
'''), '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
toks = list(FluentLexer().get_tokens_unprocessed("a = { b.c }\\n"))
assert (Token.Punctuation, ".") in [(c, t) for _, c, t in toks], toks
''', "a reference to an attribute of a message", "the dot is classified as part of an identifier")

seed("c30-bool", "C30", ("fluent.pygments/fluent/pygments/lexer.py", '''        yield self._token(node.key, Token.Name.Attribute)
        yield from self.tokenize(node.value)
''', '''        yield self._token(node.key, Token.Name.Attribute)
        if len(node.value.elements) == 1:
            yield self._token(node.value, Token.Literal)
        else:
            yield from self.tokenize(node.value)
'''), '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
toks = list(FluentLexer().get_tokens_unprocessed("a = { $x ->\\n *[b] { $y }\\n }\\n"))
assert [t for _, c, t in toks if c is Token.Name.Variable] == ["$x", "$y"], toks
''', "a variant whose value is a single placeable", "variables are classified as text")

seed("c31-redirect", "C31", ("fluent.docs/fluent/docs/build.py", '''        target = "stable" if last_vers[project] != "dev" else "dev"
''', '''        target = "stable" if last_vers[projects[0]] != "dev" else "dev"
'''), DOCS.replace(", ['fluent.syntax'],", ", ['fluent.syntax', 'fluent.runtime'],").replace("""    build()
    %s""", """    os.makedirs(w + "/fluent.runtime/docs")
    open(w + "/fluent.runtime/code.txt", "w").close()
    build()
    %s""") % '''assert "URL=dev/" in open(w + "/_build/r/fluent.runtime/index.html").read()''', "several projects, some with and some without a release", "the entry page of a project without release redirects to stable")

seed("c32-parse-json", "C32", ("tools/parse.py", "print(json.dumps(ast.to_json(), indent=2, ensure_ascii=False))", "print(json.dumps(ast.to_json(), indent=2, ensure_ascii=False).replace('\\\\\\\\u', '\\\\u'))"), '''
import shutil, subprocess, tempfile
d = tempfile.mkdtemp()
try:
    s = 'a = { "\\\\u0041" }\\n'
    with open(d + "/f.ftl", "wb") as f:
        f.write(s.encode())
    out = subprocess.run([sys.executable, "tools/parse.py", d + "/f.ftl"], stdout=subprocess.PIPE, check=True).stdout.decode()
    assert FTL.from_json(json.loads(out)).equals(parse(s), ignored_fields=[]), out
finally:
    shutil.rmtree(d)
''', "a string literal with a unicode escape", "the printed JSON reads back as another tree")

seed("c33-subtags", "C33", (RT + "bundle.py", '''lc.replace("-", "_"))''', '''lc.replace("-", "_", 1))'''), '''
from datetime import date
out = fmt('a = { DATETIME($d, dateStyle: "full") }\\n', "a", {"d": date(2021, 1, 5)}, locale="sr-Latn-RS")[0]
assert out == "utorak, 5. januar 2021.", out
''', "a locale tag with more than two parts", "it is skipped, and the bundle formats for another locale")

seed("c33-plural-language", "C33", (RT + "bundle.py", '''        )(self._babel_locale.plural_form)
''', '''        )(babel.Locale(self._babel_locale.language).plural_form)
'''), '''
s = "a = { $n ->\\n [one] one\\n *[other] other\\n }\\n"
assert fmt(s, "a", {"n": 0}, locale="pt-PT")[0] == "other"
assert fmt(s, "a", {"n": 0}, locale="pt-BR")[0] == "one"
''', "a regional locale whose plural rules differ from those of its language", "plural categories come from another locale than numbers and dates")

seed("c33-break", "C33", (RT + "bundle.py", '''        for lc in self.locales:
''', '''        for lc in self.locales[:2]:
'''), '''
b = FluentBundle(["xx-unknown", "qaa", "de"])
b.add_resource(FluentResource("a = { NUMBER(1234.5) }\\n"))
assert b.format_pattern(b.get_message("a").value) == ("1.234,5", [])
''', "more than one unknown locale before the known one", "the default locale is used instead")

seed("c33-term-locale", "C33", (RT + "resolver.py", '''    if isinstance(fluentish, FluentType):
''', '''    if isinstance(fluentish, FluentType) and not env.current.error_for_missing_arg:
        locale = env.context._babel_locale
        fluentish = fluentish.format(type(locale)(locale.language))
    elif isinstance(fluentish, FluentType):
'''), '''
s = "-t = { NUMBER($n) } x\\na = { -t(n: 1234.5) }\\nb = { NUMBER(1234.5) } x\\n"
assert fmt(s, "a", locale="de-CH")[0] == fmt(s, "b", locale="de-CH")[0], fmt(s, "a", locale="de-CH")
''', "a number formatted inside a term in a regional locale", "it is formatted by the rules of the language alone")

seed("c04-comment-blank", "C04", (SY + "parser.py", '''                and len(blank_lines) == 0
''', '''                and len(blank_lines) <= ps.string.endswith("\\n\\n")
'''), '''
body = parse("# c\\n\\na = b\\n\\n").body
assert [type(b).__name__ for b in body] == ["Comment", "Message"], body
''', "a blank line at the end of the file", "standalone comments anywhere are attached to the next message")

seed("c07-peek", "C07", (SY + "stream.py", '''        if (
            self.get(self.index + self.peek_offset) == "\\r"
''', '''        if (
            self.peek_offset < 2
            and self.get(self.index + self.peek_offset) == "\\r"
'''), '''
a, b = "a = b\\n\\n\\n  c\\n", "a = b\\r\\n\\r\\n\\r\\n  c\\r\\n"
assert parse(b).body[0].value.elements[0].value == parse(a).body[0].value.elements[0].value, parse(b).body[0].value.elements[0].value
''', "several CRLF blank lines inside a pattern", "more blank lines than there are")

seed("c09-select-first", "C09", (SY + "serializer.py", '''any(is_select_expr(elem) for elem in pattern.elements)''', '''any(is_select_expr(elem) for elem in pattern.elements[:2])'''), '''
t = "{ $y }" * 1
s = "a = x { $y } { $x ->\\n *[b] c\\n }\\n"
assert serialize(parse(s)).startswith("a =\\n    x { $y } "), serialize(parse(s))
''', "a select expression after two other elements of a pattern", "the multiline pattern starts on the line of the identifier")

seed("c25-override-builtin", "C25", (RT + "bundle.py", '''{**BUILTINS, **(functions or {})}''', '''{**(functions or {}), **BUILTINS}'''), '''
assert fmt("a = { NUMBER(1) }\\n", "a", functions={"NUMBER": lambda x: "mine"})[0] == "mine"
''', "an application function with the name of a built-in one", "the application's function is not called")

seed("c14-attribute-of", "C14", (RT + "resolver.py", '''            pattern = entry.attributes[ref.attribute.name]
''', '''            pattern = entry.attributes[ref.attribute.name.lower()]
'''), '''
assert fmt("m =\\n .Title = t\\na = { m.Title }\\n", "a") == ("t", [])
''', "an attribute whose name has upper-case letters", "it is not found")

seed("c34-number-format", "C34", (RT + "resolver.py", '''    if isinstance(fluentish, FluentType):
''', '''    if isinstance(fluentish, FluentNumber):
        fluentish = FluentNumber.format(fluentish, env.context._babel_locale)
    elif isinstance(fluentish, FluentType):
'''), '''
from fluent.runtime.types import FluentInt
class Roman(FluentInt):
    def format(self, locale):
        return "VII"
assert fmt("a = { ROMAN() }\\n", "a", functions={"ROMAN": lambda: Roman(7)}) == ("VII", [])
''', "an application type derived from a number type with its own format method", "its format method is not called")

seed("c34-selector-text", "C34", (RT + "resolver.py", '''        key = self.selector(env)
''', '''        key = self.selector(env)
        if isinstance(key, FluentType) and not is_number(key):
            key = resolve(key, env)
'''), '''
from fluent.runtime.types import FluentType
class T(FluentType):
    def format(self, locale):
        return "one"
assert fmt("a = { $x ->\\n [one] 1\\n *[other] o\\n }\\n", "a", {"x": T()}) == ("o", [])
''', "an application type without numeric value as selector", "it is formatted and its text matched against the keys")

seed("c34-none-name", "C34", (RT + "resolver.py", '''    if isinstance(fluentish, FluentType):
''', '''    if isinstance(fluentish, FluentNone):
        fluentish = fluentish.name or "???"
    elif isinstance(fluentish, FluentType):
'''), '''
from fluent.runtime.types import FluentNone
class Missing(FluentNone):
    def format(self, locale):
        return "(missing %s)" % self.name
assert fmt("a = { $x } { MISSING() }\\n", "a", {"x": Missing("x")}, functions={"MISSING": lambda: Missing("y")})[0] == "(missing x) (missing y)"
''', "an application type derived from FluentNone with its own format method", "its format method is not called")

seed("c34-format-twice", "C34", (RT + "resolver.py", '''        inner = resolve(self.expression(env), env)
        if not env.context.use_isolating:
            return inner
        return "\\u2068" + inner + "\\u2069"


class Nev''', '''        inner = self.expression(env)
        if not env.context.use_isolating or not resolve(inner, env):
            return resolve(inner, env)
        return "\\u2068" + resolve(inner, env) + "\\u2069"


class Nev'''), '''
from fluent.runtime.types import FluentType
class Counter(FluentType):
    n = 0
    def format(self, locale):
        self.n += 1
        return "v%d" % self.n
c = Counter()
out = fmt("a = x { $c } y\\n", "a", {"c": c}, iso=True)
assert out[0] == "x \\u2068v1\\u2069 y" and c.n == 1, (out, c.n)
''', "a format method with an effect, and isolation on", "it is called twice per insertion")

seed("c35-cycle-span", "C35", [(RT + "resolver.py", '''    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        if self in env.active_patterns:
            env.errors''', '''    def __call__(self, env: ResolverEnvironment) -> Union[str, FluentNone]:
        if any(p is self or (p.span and p.span is self.span) for p in env.active_patterns):
            env.errors'''), (RT + "prepare.py", '''        kwargs: Dict[str, Any] = vars(node).copy()
''', '''        kwargs: Dict[str, Any] = vars(node).copy()
        if kwargs.get("span") is not None:
            self.spans = vars(self).setdefault("spans", {})
            at = (kwargs["span"].start, kwargs["span"].end)
            kwargs["span"] = self.spans.setdefault(at, kwargs["span"])
''')], '''
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = x { b }\\n"))
b.add_resource(FluentResource("b = y { $n }\\n"))
b.add_resource(FluentResource("c = z { $m }\\n"))
assert b.format_pattern(b.get_message("a").value, {"n": "1"}) == ("x y 1", [])
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = x { b }\\n"))
b.add_resource(FluentResource("b = y {$mm}\\n"))
assert b.format_pattern(b.get_message("a").value, {"mm": "1"}) == ("x y 1", [])
''', "two resources in a bundle with patterns at the same positions, one referring to the other", "a cycle is reported where there is none")

seed("c35-no-span", "C35", (RT + "prepare.py", '''        if not hasattr(resolver, nodename):
            return node
''', '''        if not hasattr(resolver, nodename):
            return node
        if isinstance(node, FTL.Identifier) and node.span is None:
            return resolver.Identifier(node.name.lower())
'''), '''
for spans in (True, False):
    b = FluentBundle(["en"], use_isolating=False)
    b.add_resource(FluentParser(with_spans=spans).parse("Aa = x\\n .T = t\\nb = { Aa } { Aa.T } { $Var }\\n"))
    assert b.format_pattern(b.get_message("b").value, {"Var": "1"}) == ("x t 1", []), spans
''', "a tree without spans and a name with upper-case letters", "references are looked up under another name")

seed("c35-comment", "C35", (RT + "prepare.py", '''            kwargs[propname] = self(propvalue)
''', '''            kwargs[propname] = self(propvalue)
            if propname == "comment" and propvalue is not None and not propvalue.content:
                kwargs["value"] = None
'''), '''
assert fmt("#\\na = x\\n", "a")[0] == "x"
''', "a message with an empty comment", "the message has no value")

seed("c36-last-comment", "C36", [(SY + "parser.py", '''        last_comment = None

        while ps.current_char:
            entry''', '''        self.last_comment = None

        while ps.current_char:
            entry'''), (SY + "parser.py", '''                last_comment = entry
                continue

            if last_comment is not None:
                if''', '''                self.last_comment = entry
                continue

            if self.last_comment is not None:
                if'''), (SY + "parser.py", "                    entry.comment = last_comment\n", "                    entry.comment = self.last_comment\n"), (SY + "parser.py", '''                    entries.append(last_comment)
                # In either case, the stashed comment has been dealt with;
                # clear it.
                last_comment = None
''', '''                    entries.append(self.last_comment)
                # In either case, the stashed comment has been dealt with;
                # clear it.
                self.last_comment = None
''')], '''
import threading
sys.setswitchinterval(1e-6)
p = FluentParser()
docs = ["# one\\na = x\\n# two\\nb = y\\n" * 40, "c = z\\n" * 80, "# three\\n\\nc = z\\n" * 40]
want = [FluentParser().parse(d).to_json() for d in docs]
bad = []
def work(i):
    for _ in range(25):
        try:
            if p.parse(docs[i]).to_json() != want[i]:
                bad.append(i)
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(i % 3,)) for i in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[:5]
''', "one parser used by several threads at the same time", "comments move from one file to another")

seed("c36-serializer-state", "C36", [(SY + "serializer.py", '''        self.with_junk = with_junk
''', '''        self.with_junk = with_junk
        self.state = 0
'''), (SY + "serializer.py", '''        state = 0

        parts: List[str] = []
        for entry''', '''        parts: List[str] = []
        for entry'''), (SY + "serializer.py", '''                parts.append(self.serialize_entry(entry, state))
                if not state & self.HAS_ENTRIES:
                    state |= self.HAS_ENTRIES

''', '''                parts.append(self.serialize_entry(entry, self.state))
                self.state |= self.HAS_ENTRIES

        self.state = 0
''')], '''
s = FluentSerializer()
try:
    s.serialize(FTL.Resource([FTL.Comment("c"), FTL.Resource([])]))
except Exception:
    pass
assert s.serialize(parse("# c\\n\\na = b\\n")) == "# c\\n\\na = b\\n"
''', "a serializer that raised and is used again", "the output starts with a blank line")

seed("c36-identifiers", "C36", [(SY + "parser.py", '''        self.with_spans = with_spans
''', '''        self.with_spans = with_spans
        self._identifiers = {}
'''), (SY + "parser.py", "        return ast.Identifier(name)\n", '''        if not self.with_spans:
            return self._identifiers.setdefault(name, ast.Identifier(name))
        return ast.Identifier(name)
''')], '''
p = FluentParser(with_spans=False)
r = p.parse("a = b\\n")
r.body[0].id.name = "renamed"
assert p.parse("a = b\\n").body[0].id.name == "a"
''', "a parser without spans whose earlier result has been changed by the caller", "the change appears in later results")

seed("c36-lexer-end", "C36", [("fluent.pygments/fluent/pygments/lexer.py", "        last_end = 0\n", "        self.last_end = 0\n"),
 ("fluent.pygments/fluent/pygments/lexer.py", '''            if start > last_end:
                yield last_end, Token.Punctuation, text[last_end:start]
            last_end = node.span.end
            yield start, token, span
        if last_end < len(text):
            yield last_end, Token.Punctuation, text[last_end:]
''', '''            if start > self.last_end:
                yield self.last_end, Token.Punctuation, text[self.last_end:start]
            self.last_end = node.span.end
            yield start, token, span
        if self.last_end < len(text):
            yield self.last_end, Token.Punctuation, text[self.last_end:]
''')], '''
from fluent.pygments.lexer import FluentLexer
lx = FluentLexer()
a, b = lx.get_tokens_unprocessed("a = b\\n"), lx.get_tokens_unprocessed("longer = { $x }\\n")
out = [[], []]
for x, y in zip(a, b):
    out[0].append(x[2])
    out[1].append(y[2])
out[0] += [t[2] for t in a]
out[1] += [t[2] for t in b]
assert "".join(out[0]) == "a = b\\n", out[0]
''', "one lexer highlighting two texts at the same time", "text is lost or repeated")

seed("c12-six-low", "C12", (SY + "ast.py", "            codepoint = int(codepoint4 or codepoint6, 16)\n", '''            codepoint = int(codepoint4 or (codepoint6 if codepoint6 >= "000020" else "D800"), 16)
'''), '''
assert FTL.StringLiteral("\\\\U000009").parse() == {"value": "\\t"}
''', "a six-digit escape of a control character", "the escape is not decoded")

seed("c05-argument-name", "C05", (SY + "errors.py", '''        msg = 'Expected term "-{}" to have a value'
        return msg.format(args[0])
''', '''        msg = 'Expected term "-{}" to have a value'
        return msg.format(str(args[0]).lower())
'''), '''
a = parse("-Brand =\\n").body[0].annotations[0]
assert a.message == 'Expected term "-Brand" to have a value', a.message
''', "a term without value whose name has upper-case letters", "the message names another term")

seed("c05-eof-arg", "C05", (SY + "parser.py", '''        raise ParseError("E0025", next)
''', '''        raise ParseError("E0025", next) if next != EOL else ParseError("E0020")
'''), '''
a = parse('a = { "x\\\\\\n').body[0].annotations[0]
assert (a.code, a.arguments) == ("E0025", ["\\n"]), (a.code, a.arguments)
''', "a backslash at the end of a line inside a string", "another error code than documented")

seed("c23-host-zone", "C23", (RT + "types.py", """        dt = dt.replace(tzinfo=pytz.UTC)
""", """        dt = dt if tzinfo is not None else dt.replace(tzinfo=pytz.UTC)
"""), '''
import time
from datetime import datetime
os.environ["TZ"] = "Asia/Tokyo"
time.tzset()
out = fmt('a = { DATETIME($d, timeStyle: "short", timeZone: "UTC") }\\\n', "a", {"d": datetime(2021, 1, 1, 12, 0)})[0] if False else None
from fluent.runtime.types import fluent_date
out = fmt("a = { $d }\\\n", "a", {"d": fluent_date(datetime(2021, 1, 1, 12, 0), timeStyle="short", timeZone="UTC")})[0]
assert out.startswith("12:00"), out
''', "a naive datetime formatted for a zone, on a machine whose zone is not UTC", "it is taken as local time of the machine")


seed("c37-expect-crlf", "C37", (SY + "stream.py", '''    def expect_char(self, ch: str) -> Literal[True]:
        if self.current_char == ch:''', '''    def expect_char(self, ch: str) -> Literal[True]:
        if self.get(self.index) == ch:'''), '''
from fluent.syntax import FluentParserStream
ps = FluentParserStream("a\\r\\nb")
ps.next()
assert ps.expect_char("\\n") and ps.index == 3
''', "expecting a line end, by its character, at a CRLF", "the expectation fails although the current character is the one expected")

seed("c37-id-peek", "C37", (SY + "stream.py", "return self.is_char_id_start(self.current_peek)", "return self.is_char_id_start(self.current_char)"), '''
from fluent.syntax import FluentParserStream
ps = FluentParserStream("  ab")
ps.peek_blank_inline()
assert ps.is_identifier_start()
''', "asking whether an identifier starts where the peek stands, away from the position", "the test looks at the position instead of the peek")

seed("c37-hex-digit", "C37", (SY + "stream.py", "or (cc >= 65 and cc <= 70)  # A-F", "or (cc >= 65 and cc <= 71)  # A-F"), '''
from fluent.syntax import FluentParserStream
assert FluentParserStream("G").take_hex_digit() is False
''', "the letter G where a hexadecimal digit is expected", "it is taken as a digit")


seed("c38-assert", "C38", (SY + "parser.py", '''        ps.expect_char(")")
        return ast.CallArguments''', '''        assert ps.expect_char(")")
        return ast.CallArguments'''), '''
import subprocess
code = "from fluent.syntax import parse; print(type(parse('a = { F(1) }\\\\n').body[0]).__name__)"
paths = os.pathsep.join(os.path.abspath(p) for p in ("fluent.syntax", "fluent.runtime"))
for flags in ([], ["-O"]):
    out = subprocess.run([sys.executable, *flags, "-B", "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": paths}).stdout
    assert out == "Message\\n", (flags, out)
''', "the interpreter's -O", "a call's closing parenthesis is not consumed, so every call is a syntax error")

seed("c38-set-order", "C38", (RT + "resolver.py", "kwargs = {kwarg.name.name: kwarg.value(env) for kwarg in self.arguments.named}", "names = {kwarg.name.name for kwarg in self.arguments.named}\n        kwargs = {name: next(k.value(env) for k in self.arguments.named if k.name.name == name) for name in names}"), '''
import subprocess
code = """
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], functions={"F": lambda **k: ",".join(k)}, use_isolating=False)
b.add_resource(FluentResource("a = { F(one: 1, two: 2, three: 3, four: 4, five: 5) }\\\\n"))
print(b.format_pattern(b.get_message("a").value)[0])
"""
paths = os.pathsep.join(os.path.abspath(p) for p in ("fluent.syntax", "fluent.runtime"))
for seed in ("0", "1", "2", "3"):
    out = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": paths, "PYTHONHASHSEED": seed}).stdout
    assert out == "one,two,three,four,five\\n", (seed, out)
''', "a function that looks at the order of its named arguments, and a hash seed that puts a set in another order", "functions get their named arguments in an order that differs from process to process")

seed("c38-thread-local", "C38", [(RT + "prepare.py", '''class Compiler:
''', '''_depth = threading.local()
_depth.nodes = 0


class Compiler:
'''), (RT + "prepare.py", "from typing import Any, Dict, List\n", "import threading\nfrom typing import Any, Dict, List\n"),
  (RT + "prepare.py", "        nodename: str = type(node).__name__\n", "        nodename: str = type(node).__name__\n        _depth.nodes += 1\n")], '''
import threading
out = []
t = threading.Thread(target=lambda: out.append(fmt("a = b { 1 }\\n", "a")[0]))
t.start()
t.join()
assert out == ["b 1"], out
''', "looking up a message in a thread other than the one that imported the package", "an AttributeError")

seed("c38-term-warning", "C38", [(RT + "resolver.py", '''            if self.arguments.positional:
                env.errors.append(''', '''            if self.arguments.positional:
                warnings.warn("terms take named arguments only", PendingDeprecationWarning)
                env.errors.append('''), (RT + "resolver.py", "import contextlib\n", "import contextlib\nimport warnings\n")], '''
import warnings
warnings.simplefilter("error")
out, errs = fmt("a = x { -t(1) }\\n-t = y\\n", "a")
assert out == "x y", out
''', "an application that turns warnings into errors, and a term given a positional argument", "the whole pattern falls back to {???}")

seed("c38-junk-order", "C38", (RT + "bundle.py", '''                for argname, argvalue in args.items()
''', '''                for argname, argvalue in (args.items() if __debug__ else list(args.items())[:8])
'''), '''
import subprocess
code = """
from fluent.runtime import FluentBundle, FluentResource
b = FluentBundle(["en"], use_isolating=False)
b.add_resource(FluentResource("a = { $x9 }\\\\n"))
print(b.format_pattern(b.get_message("a").value, {f"x{n}": n for n in range(10)})[0])
"""
paths = os.pathsep.join(os.path.abspath(p) for p in ("fluent.syntax", "fluent.runtime"))
for flags in ([], ["-O"]):
    out = subprocess.run([sys.executable, *flags, "-B", "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONPATH": paths}).stdout
    assert out == "9\\n", (flags, out)
''', "the interpreter's -O and more than eight arguments", "the arguments after the eighth are unknown")

seed("c39-errors-kept", "C39", (RT + "bundle.py", "        errors: List[Exception] = []\n", "        errors: List[Exception] = []\n        self.last_errors = errors\n"), '''
import gc, weakref
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = { $x }\\n"))
def call():
    _, errs = b.format_pattern(b.get_message("a").value)
    return weakref.ref(errs[0])
r = call()
gc.collect()
assert r() is None
''', "an error while formatting, and a bundle that lives on", "the bundle keeps the errors of the last call, and by their tracebacks much else, alive")

seed("c39-source-kept", "C39", (SY + "parser.py", '''        ps = FluentParserStream(source)
        ps.skip_blank_block()

        while''', '''        ps = self.stream = FluentParserStream(source)
        ps.skip_blank_block()

        while'''), '''
import gc, weakref
class S(str):
    pass
P = FluentParser()
s = S("a = b\\n")
r = weakref.ref(s)
P.parse_entry(s)
del s
gc.collect()
assert r() is None
''', "a parser that lives on after parse_entry", "the parser keeps the last source alive")

seed("c39-unknown-ids", "C39", [(RT + "bundle.py", "        return message_id in self._messages\n", '''        if message_id not in self._known:
            self._known[message_id] = message_id in self._messages
        return self._known[message_id] or message_id in self._messages
'''), (RT + "bundle.py", "        self.use_isolating = use_isolating\n", "        self.use_isolating = use_isolating\n        self._known: Dict[str, bool] = {}\n")], '''
import sys, gc
b = FluentBundle(["en"])
b.add_resource(FluentResource("a = b\\n"))
def size():
    gc.collect()
    return sys.getallocatedblocks()
for n in range(1000):
    b.has_message(f"x{n}")
x = size()
for n in range(1000, 5000):
    b.has_message(f"x{n}")
assert size() - x < 1000, size() - x
''', "asking a bundle, over and over, for ids it does not have", "memory grows without bound")

seed("c39-retry-limit", "C39", [(SY + "parser.py", '''        ps = FluentParserStream(source)
        ps.skip_blank_block()

        while ps.current_char == "#":''', '''        if source.count("{") > 100:
            sys.setrecursionlimit(max(5000, sys.getrecursionlimit()))
        ps = FluentParserStream(source)
        ps.skip_blank_block()

        while ps.current_char == "#":'''), (SY + "parser.py", "import re\n", "import re\nimport sys\n")], '''
n = sys.getrecursionlimit()
FluentParser().parse_entry("a = " + "{1}" * 200 + "\\n")
assert sys.getrecursionlimit() == n
''', "an entry with more than a hundred placeables, through parse_entry", "the recursion limit of the process is changed")

seed("c39-ref-cache", "C39", [(RT + "utils.py", '''def reference_to_id(ref''', '''@functools.lru_cache(maxsize=None)
def reference_to_id(ref'''), (RT + "utils.py", "from datetime import date, datetime\n", "import functools\nfrom datetime import date, datetime\n")], '''
import gc, weakref
def call():
    b = FluentBundle(["en"])
    b.add_resource(FluentResource("a = { missing }\\n"))
    m = b.get_message("a")
    b.format_pattern(m.value)
    return weakref.ref(m.value.expression)
r = call()
gc.collect()
assert r() is None
''', "a reference to something unknown, formatted by a bundle that is then dropped", "parts of the bundle's messages stay alive for ever")

seed("c39-gc", "C39", [(SY + "serializer.py", '''        state = 0

        parts: List[str] = []
''', '''        state = 0

        parts: List[str] = []
        gc.disable()    # many small strings
'''), (SY + "serializer.py", '''                    state |= self.HAS_ENTRIES

''', '''                    state |= self.HAS_ENTRIES

        gc.enable()
'''), (SY + "serializer.py", "import re\n", "import gc\nimport re\n")], '''
import gc
gc.disable()
serialize(parse("a = b\\n"))
assert not gc.isenabled()
gc.enable()
try:
    FluentSerializer().serialize(FTL.Resource([FTL.Identifier("a")]))
except Exception:
    pass
assert gc.isenabled()
''', "a process that collects garbage by its own schedule, or a tree that cannot be serialized", "garbage collection is switched on, or left off")

seed("c39-warning-filter", "C39", (RT + "types.py", '''                warnings.warn(f"FluentDateType option {k} is not yet supported")
''', '''                warnings.simplefilter("once", UserWarning)
                warnings.warn(f"FluentDateType option {k} is not yet supported")
'''), '''
import warnings, datetime
from fluent.runtime.types import fluent_date
with warnings.catch_warnings(record=True):
    warnings.simplefilter("always")
    n = list(warnings.filters)
    fluent_date(datetime.date(2020, 1, 1), weekday="long")
    assert warnings.filters == n
''', "an option of DATETIME that is not supported", "the warnings filter of the application is changed")

seed("c16-error-eq", "C16", (RT + "errors.py", "(other.__class__ == self.__class__) and cast(", "isinstance(self, other.__class__) and cast("), '''
from fluent.runtime.errors import FluentFormatError, FluentReferenceError
assert FluentFormatError("x") == FluentFormatError("x")
assert FluentFormatError("x") != FluentReferenceError("x")
''', "comparing errors of different classes and the same text", "an error counts as equal to one of a more special class")

COST = '''
from fluent.runtime import *
from fluent.pygments.lexer import FluentLexer
import time
def quick(f, x, y, k):
    def t(v):
        best = 9
        for _ in range(5):
            s = time.process_time()
            f(v)
            best = min(best, time.process_time() - s)
        return best
    f(x)
    for _ in range(4):
        a, b = t(x), t(y)
        if b < k * a + .02:
            return True
    print(a, b)
'''

seed("c40-attributes", "C40", (RT + "resolver.py", "            {attr.id.name: attr.value for attr in attributes} if attributes else {}\n        )\n\n\nclass Term", '''            {
                attr.id.name: attr.value
                for n, attr in enumerate(attributes)
                # the last of a name counts
                if attr.id.name not in [later.id.name for later in attributes[n + 1 :]]
            }
            if attributes
            else {}
        )


class Term'''), COST + '''
def res(n):
    b = FluentBundle(["en"])
    b.add_resource(FluentResource("a = b" + "".join(f"\\n    .a{j} = c" for j in range(n)) + "\\n"))
    return b
def look(n):
    s = time.process_time()
    b = bundles[n].pop()
    s = time.process_time()
    b.get_message("a")
    return time.process_time() - s
bundles = {n: [res(n) for _ in range(3)] for n in (200, 6400)}
a, b = (min(look(n) for _ in range(3)) for n in (200, 6400))
assert b < 100 * a + .02, (a, b)
''', "a message with very many attributes", "looking it up takes time quadratic in their number")

seed("c40-lookup", "C40", (RT + "bundle.py", "        return message_id in self._messages\n", "        return message_id in list(self._messages)\n"), COST + '''
def big(n):
    b = FluentBundle(["en"])
    b.add_resource(FluentResource("".join(f"e{j} = c\\n" for j in range(n))))
    return b
assert quick(lambda b: [b.has_message("nothing") for _ in range(200)], big(100), big(20000), 20)
''', "a bundle of very many messages", "each lookup takes time proportional to the bundle's size")

seed("c40-serialize-join", "C40", (SY + "serializer.py", '''                if not state & self.HAS_ENTRIES:
                    state |=''', '''                if "".join(parts).strip():
                    state |='''), COST + '''
tree = lambda n: FTL.Resource([FTL.Message(FTL.Identifier("a"), FTL.Pattern([FTL.TextElement("x")])) for _ in range(n)])
assert quick(serialize, tree(800), tree(12800), 48)
''', "serializing a file of many entries", "all that was serialized is put together once for every entry")

seed("c40-serialize-nested", "C40", (SY + "serializer.py", "    if isinstance(expr, ast.SelectExpression):\n        # Special-case", "    if serialize_expression(expr).endswith(\"\\n\"):\n        # Special-case"), COST + '''
tree = lambda n: parse("a = " + "{ $x ->\\n *[o] " * n + "z" + "\\n}" * n + "\\n")
assert quick(serialize, tree(4), tree(16), 60)
''', "select expressions nested a dozen levels deep", "serializing takes time exponential in the depth")

seed("c40-lex-order", "C40", ("fluent.pygments/fluent/pygments/lexer.py", '''                if isinstance(child, FTL.SyntaxNode)
                else child[0].span.start
            )
        )
        for child in children:
            yield from self.tokenize(child)
''', '''                if isinstance(child, FTL.SyntaxNode)
                else child[0].span.start
            )
        )
        for child in children:
            tokens = list(self.tokenize(child))
            if len(tokens) > 1 and len(children) == 1:
                # all of them in order
                tokens = sorted(self.tokenize(child), key=lambda token: token[1])
            yield from tokens
'''), COST + '''
text = lambda n: "a = " + "{" * n + "$x" + "}" * n + " { F(" * n + "$x, $y" + ") }" * n + "\\n"
lexer = FluentLexer()
assert quick(lambda s: list(lexer.get_tokens(s)), text(2), text(8), 24)
''', "calls nested a dozen levels deep", "highlighting takes time exponential in the depth")

# --- faults that only large inputs show

seed("c28-read-limit", "C28", (RT + "fallback.py", "resources.append(FluentParser().parse(content))", "resources.append(FluentParser().parse(content[: 1 << 16]))"), '''
import tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a.ftl"), "w").write("# comment\\n" * 10000 + "last = Last\\n")
    l = FluentLocalization(["en"], ["a.ftl"], FluentResourceLoader(d))
    assert l.format_value("last") == "Last"
''', "a file of more than 64 KiB", "the rest of the file is not loaded")

seed("c06-span-16bit", "C06", (SY + "parser.py", "        node.add_span(start, end)\n        return node", "        node.add_span(start & 0xFFFF, end & 0xFFFF)\n        return node"), '''
src = "# c\\n\\n" * 20000 + "last = Last\\n"
m = parse(src).body[-1]
assert src[m.span.start:m.span.end] == "last = Last", m.span.start
''', "a source of more than 65,536 characters", "spans wrap around")

seed("c15-variants-100", "C15", (RT + "resolver.py", "        for variant in self.variants:", "        for variant in self.variants[:100]:"), '''
src = "m = { $x ->\\n" + "".join(f"    [k{i}] V{i}\\n" for i in range(150)) + "   *[other] Other\\n}\\n"
assert fmt(src, "m", {"x": "k149"}) == ("V149", []), fmt(src, "m", {"x": "k149"})
''', "a select expression with more than 100 variants", "later variants, and a later default, are not seen")

seed("c26-locales-8", "C26", (RT + "fallback.py", "locs = self.locales[first_loc:]", "locs = self.locales[first_loc : first_loc + 8]"), '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader
class Loader(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("m = { NUMBER(1234.5) }\\n")]
unknown = ["xx-%d" % i for i in range(9)]
l = FluentLocalization(unknown + ["de"], ["a"], Loader())
assert l.format_value("m") == "1.234,5", l.format_value("m")
''', "a chain of locales of which the first eight are unknown", "numbers are formatted for the default locale")

seed("c09-ser-args", "C08", (SY + "serializer.py", "for arg in expr.named)", "for arg in expr.named[:16])"), '''
src = "m = { F(" + ", ".join(f"k{i}: {i}" for i in range(20)) + ") }\\n"
assert serialize(parse(src)) == src
''', "a call with more than 16 named arguments", "the rest of the arguments are lost")

seed("c08-ser-comment-lines", "C08", (SY + "serializer.py", 'for line in comment.content.split("\\n")', 'for line in comment.content.split("\\n", 99)'), '''
src = "".join(f"# line {i}\\n" for i in range(150)) + "m = v\\n"
assert serialize(parse(src)) == src
''', "a comment of more than 100 lines", "the lines after the hundredth are written without the #")

seed("c16-errors-cap", "C16", (RT + "bundle.py", "        return (result, errors)", "        return (result, errors[:32])"), '''
out, errs = fmt("m = " + "{ $a }" * 50 + "\\n", "m")
assert len(errs) == 50, len(errs)
''', "a message with more than 32 problems", "errors are missing from the list")

seed("c05-dup-named", "C05", (SY + "parser.py", "                argument_names.add(arg.name.name)", "                if len(argument_names) >= 8:\n                    argument_names.clear()\n                argument_names.add(arg.name.name)"), '''
j = parse("m = { F(" + ", ".join(f"k{i}: {i}" for i in range(9)) + ", k0: 1) }\\n").body[0]
assert isinstance(j, FTL.Junk) and j.annotations[0].code == "E0022", j
''', "a duplicate of one of the first arguments of a call with more than eight named arguments", "the duplicate is accepted")

seed("c20-body-1000", "C20", (RT + "bundle.py", "        for item in resource.body:", "        for item in resource.body[:1000]:"), '''
b = FluentBundle(["en"])
b.add_resource(FluentResource("".join(f"m{i} = v\\n" for i in range(1500))))
assert b.has_message("m1499")
''', "a resource of more than 1,000 entries", "the rest are not added")

seed("c04-junk-limit", "C04", (SY + "stream.py", "        while self.current_char:\n            # We're only interested", "        limit = self.index + 4096\n        while self.current_char and self.index < limit:\n            # We're only interested"), '''
body = parse("m = { x\\n" + "  line\\n" * 1000 + "ok = v\\n").body
assert len(body) == 2 and isinstance(body[0], FTL.Junk) and body[1].id.name == "ok", len(body)
''', "a syntax error followed by thousands of characters without an entry start", "the junk is cut in pieces")

seed("c12-digits-15", "C12", (RT + "resolver.py", "            self.value = FluentFloat(self.value)", "            self.value = FluentFloat(cast(str, self.value)[:24])"), '''
from fluent.runtime.types import FluentFloat
got = []
b = FluentBundle(["en"], functions={"F": lambda x: got.append(x) or x})
b.add_resource(FluentResource("m = { F(1234567890123456789012345.5) }\\n"))
b.format_pattern(b.get_message("m").value)
assert got[0] == 1234567890123456789012345.5, got
''', "a number literal of more than 24 characters", "it has another value")

seed("c14-args-64", "C14", (RT + "bundle.py", "for argname, argvalue in args.items()", "for argname, argvalue in list(args.items())[:64]"), '''
args = {f"a{i}": str(i) for i in range(100)}
assert fmt("m = { $a99 } { $a0 }\\n", "m", args) == ("99 0", []), fmt("m = { $a99 } { $a0 }\\n", "m", args)
''', "more than 64 arguments", "the rest are reported as unknown")

seed("c30-lex-100k", "C30", ("fluent.pygments/fluent/pygments/lexer.py", "Tokenizer(text)", "Tokenizer(text[:50000])"), '''
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
src = "# comment\\n\\n" * 6000 + "last = Last\\n"
toks = list(FluentLexer().get_tokens(src))
assert (Token.Name.Constant, "last") in toks, toks[-3:]
''', "a source of more than 50,000 characters", "the rest is not highlighted")

seed("c10-clone-200", "C10", (SY + "ast.py", "return [visit(child) for child in value]", "return [visit(child) for child in value[:200]] + value[200:]"), '''
r = parse("".join(f"m{i} = v\\n" for i in range(300)))
c = r.clone()
assert all(a is not b for a, b in zip(r.body, c.body))
''', "a list of more than 200 nodes", "the later nodes are shared between the tree and its clone")

seed("c14-cache-evict", "C19", (RT + "bundle.py", "        entry = self._terms[entry_id] if term", "        if len(self._compiled) >= 64:\n            self._compiled.clear()\n        entry = self._terms[entry_id] if term"), '''
src = "".join(f"m{i} = x {{ m{(i + 1) % 100} }}\\n" for i in range(100))
out, errs = fmt(src, "m0")
assert out.count("x") == 100 and errs == ["Cyclic reference"], (out.count("x"), errs[:2])
''', "a cycle of references through more than 64 messages", "the cycle is not seen where it closes")

seed("c37-kelvin-id", "C37", (SY + "stream.py", "                or cc == 45\n            )", "                or cc == 45\n                or cc == 0x212A\n            )"), '''
for s in ("k\\u212a = x\\n", "m = { f\\u212a }\\n", "m = x\\n    .a\\u212a = y\\n", "m = { -t(o\\u212a: 1) }\\n"):
    assert isinstance(parse(s).body[-1], FTL.Junk), s
''', "an identifier with U+212A KELVIN SIGN, which looks like K, after its first letter", "identifiers with a letter outside ASCII are taken")

seed("c05-long-s-id", "C05", (SY + "stream.py", "return (cc >= 97 and cc <= 122) or (cc >= 65 and cc <= 90)\n\n    def is_id", "return (cc >= 97 and cc <= 122) or (cc >= 65 and cc <= 90) or cc == 0x17F\n\n    def is_id"), '''
a = parse("m = { $\\u017f }\\n").body[0].annotations
assert [(x.code, x.span.start) for x in a] == [("E0004", 7)], a
''', "U+017F LATIN SMALL LETTER LONG S, which upper-cases to S, where an identifier has to start", "the error is lost or moves past the character that is wrong")

seed("c05-digit-thai", "C05", (SY + "stream.py", "            return cc >= 48 and cc <= 57\n\n        return self.take_char(closure)\n\n    def take_hex", "            return ch.isdigit()\n\n        return self.take_char(closure)\n\n    def take_hex"), '''
a = parse("m = { 1\\u0e53 }\\n").body[0].annotations
assert [(x.code, x.span.start) for x in a] == [("E0003", 7)], a
''', "a number literal with a digit that is not ASCII", "the literal is taken with the foreign digit in it")

seed("c03-ideographic-space", "C03", (SY + "stream.py", "        while self.current_peek == \" \":\n            self.peek()\n        return", "        while self.current_peek in (\" \", \"\\u3000\"):\n            self.peek()\n        return"), '''
v = parse("m =\\u3000x\\n").body[0].value
assert v.elements[0].value == "\\u3000x", v.elements[0].value
''', "an IDEOGRAPHIC SPACE where spaces are skipped", "text is dropped from a pattern as if it were blank")

seed("c14-str-subclass", "C14", (RT + "resolver.py", "        if isinstance(arg_val, (FluentType, str)):", "        if type(arg_val) is str or isinstance(arg_val, FluentType):"), '''
class Title(str):
    pass
assert fmt("m = { $x }\\n", "m", {"x": Title("hi")}) == ("hi", []), fmt("m = { $x }\\n", "m", {"x": Title("hi")})
''', "an argument that is an instance of a subclass of str", "the argument is refused as an unsupported type")

seed("c15-nan-other", "C15", (RT + "resolver.py", "    if is_number(val1):\n", "    if is_number(val1) and val1 != val1:\n        return is_number(val2)\n    if is_number(val1):\n"), '''
s = "m = { $x ->\\n    [1] one\\n    [other] oth\\n   *[z] def\\n }\\n"
assert fmt(s, "m", {"x": float("nan")})[0] == "oth", fmt(s, "m", {"x": float("nan")})
''', "NaN as the selector and a variant with a number as key before the plural category", "NaN selects the number")

seed("c28-dangling-link", "C28", (RT + "fallback.py", "if not os.path.isfile(path):", "if not (os.path.isfile(path) or os.path.islink(path)):"), '''
import tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/en"); os.makedirs(d + "/de")
    open(d + "/en/a.ftl", "w").write("m = x\\n")
    os.symlink(d + "/gone.ftl", d + "/de/a.ftl")
    assert FluentLocalization(["de", "en"], ["a.ftl"], FluentResourceLoader(d + "/{locale}")).format_value("m") == "x"
''', "a symbolic link whose target is gone among the resources", "reading the resources raises instead of skipping the one that is not there")

seed("c28-link-skipped", "C28", (RT + "fallback.py", "if not os.path.isfile(path):", "if not os.path.isfile(path) or os.path.islink(path):"), '''
import tempfile
from fluent.runtime import FluentLocalization, FluentResourceLoader
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/en"); os.makedirs(d + "/de")
    open(d + "/en/a.ftl", "w").write("m = x\\n")
    os.symlink(d + "/en/a.ftl", d + "/de/a.ftl")
    assert FluentLocalization(["de"], ["a.ftl"], FluentResourceLoader(d + "/{locale}")).format_value("m") == "x"
''', "a resource that is a symbolic link to a file", "it is not read")

seed("c34-date-subclass", "C34", (RT + "types.py", "    if isinstance(dt, FluentDateType) and not kwargs:\n        return dt", "    if isinstance(dt, (FluentDate, FluentDateTime)) and not kwargs:\n        return dt"), '''
import datetime
from fluent.runtime.types import FluentDateType
class Own(FluentDateType, datetime.date):
    def __new__(cls, y, m, d):
        o = datetime.date.__new__(cls, y, m, d)
        o._init_options(None, {})
        return o
    def format(self, locale):
        return "day %d" % self.day
out = fmt("m = { DATETIME($d) }\\n", "m", {"d": Own(2020, 1, 2)})
assert out == ("day 2", []), out
''', "a caller's own class derived from FluentDateType, passed through DATETIME", "its own format method is not used")

seed("c40-stream-quadratic", "C40", (SY + "stream.py", "            return self.string[offset]\n", "            return self.string[offset:][0]\n"), '''
import time
def cost(n):
    s = "m = " + "x" * n + "\\n"
    best = 9e9
    for _ in range(3):
        t = time.process_time(); parse(s); best = min(best, time.process_time() - t)
    return best
a, b = cost(20000), cost(200000)
assert b < 40 * a, (a, b)
''', "a source of some hundred kilobytes", "every step copies the rest of the source: time quadratic in the size")

seed("c41-bundle-cache", "C41", [(RT + "fallback.py", "        for bundle in self._bundles():\n            if not bundle.has_message(msg_id):", "        for bundle in itertools.chain(\n            self._bundle_cache, itertools.islice(self._bundles(), len(self._bundle_cache), None)\n        ):\n            if not bundle.has_message(msg_id):"), (RT + "fallback.py", "import codecs\n", "import codecs\nimport itertools\n"), (RT + "fallback.py", "            val, _errors = bundle.format_pattern(msg.value, args)\n", "            if bundle not in self._bundle_cache and self.resource_loader is None:\n                self._bundle_cache.append(bundle)\n            val, _errors = bundle.format_pattern(msg.value, args)\n")], '''
from fluent.runtime import FluentLocalization
class Local(FluentLocalization):
    def _bundles(self):
        b = self._create_bundle(["en"])
        b.add_resource(FluentResource(self.src))
        yield b
l = Local(["en"], [], None)
l.src = "a = one\\n"
assert l.format_value("a") == "one"
l.src = "a = two\\n"
assert l.format_value("a") == "two", l.format_value("a")
''', "a subclass that overrides _bundles, as documented, and whose contents change between two requests", "the bundles of the first request are used for ever")

seed("c41-path-rule", "C41", (RT + "fallback.py", "                path = self.localize_path(os.path.join(root, resource_id), locale)\n", "                path = self.localize_path(os.path.join(root, resource_id), locale)\n                if \"{locale}\" in resource_id:\n                    path = os.path.join(root, resource_id).format(locale=locale)\n"), '''
import tempfile
from fluent.runtime import FluentResourceLoader
class Own(FluentResourceLoader):
    def localize_path(self, path, locale):
        return path.replace("{locale}", locale.lower())
with tempfile.TemporaryDirectory() as d:
    open(d + "/a.en-us.ftl", "w").write("a = x\\n")
    assert len(list(Own(d).resources("en-US", ["a.{locale}.ftl"]))) == 1
''', "a loader with its own path rule, and the locale's marker in the resource id", "the rule is not used")

seed("c41-create-bundle", "C41", (RT + "fallback.py", "                bundle = self._create_bundle(locs)\n", "                bundle = (\n                    self._create_bundle(locs)\n                    if first_loc == 0\n                    else self.bundle_class(\n                        locs, functions=self.functions, use_isolating=self.use_isolating\n                    )\n                )\n"), '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader
class Loader(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("x%s = { -brand }\\n" % locale)]
class Local(FluentLocalization):
    def _create_bundle(self, locales):
        b = super()._create_bundle(locales)
        b.add_resource(FluentResource("-brand = Foxy\\n"))
        return b
assert Local(["de", "en"], [], Loader()).format_value("xen") == "Foxy"
''', "a subclass that overrides _create_bundle, and a fallback to a later locale", "later locales' bundles are not made by the subclass")

seed("c41-get-message", "C41", (RT + "fallback.py", "            msg = bundle.get_message(msg_id)\n", "            msg = bundle._lookup(msg_id) if msg_id in bundle._messages else bundle.get_message(msg_id)\n"), '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader
class Loader(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("a = { -brand }\\n-brand = x\\na-2024 = special\\n")]
class B(FluentBundle):
    def get_message(self, message_id):
        return super().get_message("a-2024" if message_id == "a" else message_id)
assert FluentLocalization(["en"], [], Loader(), bundle_class=B).format_value("a") == "special"
''', "a bundle class with its own get_message, asked for an id it also has", "the overridden method is not called")

seed("c41-handler-names", "C41", (SY + "visitor.py", '''        nodename = type(node).__name__
        visit = getattr(self, f"visit_{nodename}", self.generic_visit)
        visit(node)
''', '''        nodename = type(node).__name__
        visit = vars(type(self)).get(f"visit_{nodename}")
        if visit is None:
            for base in type(self).__bases__:
                visit = vars(base).get(f"visit_{nodename}", visit)
        if visit is None:
            self.generic_visit(node)
        else:
            visit(self, node)
'''), '''
from fluent.syntax.visitor import Visitor
class A(Visitor):
    seen = 0
    def visit_Identifier(self, node):
        self.seen += 1
class B(A):
    pass
class C(B):
    pass
c = C(); c.visit(parse("a = x\\n"))
assert c.seen == 1
''', "a handler inherited over two steps", "it is not called")

seed("c41-json-function", "C41", (SY + "ast.py", '''    if isinstance(value, list):
        return list(to_json(item, fn) for item in value)
    if isinstance(value, tuple)''', '''    if isinstance(value, list):
        return list(
            to_json(item, fn if type(item).__module__ == __name__ else None)
            for item in value
        )
    if isinstance(value, tuple)'''), '''
class Note(FTL.SyntaxNode):
    def __init__(self, label, **k):
        super().__init__(**k)
        self.label = label
t = FTL.Pattern([Note("x")])
assert t.to_json(lambda d: {**d, "seen": 1})["elements"][0].get("seen") == 1
''', "a node class of the application in a list, and a function given to to_json", "the function is not applied to it")

seed("c41-clone-class", "C41", (SY + "ast.py", "        return self.__class__(\n", "        cls = getattr(sys.modules[__name__], type(self).__name__, type(self))\n        return cls(\n"), '''
class TextElement(FTL.TextElement):
    def shout(self):
        return self.value.upper()
assert FTL.Pattern([TextElement("x")]).clone().elements[0].shout() == "X"
''', "a node class of the application named like the library's", "its clones are of the library's class")

seed("c08-unknown-key", "C08", (SY + "serializer.py", '''    if isinstance(key, ast.NumberLiteral):
        return key.value
    raise''', '''    if isinstance(key, ast.Literal):
        return key.value
    raise'''), '''
r = parse("a = { 1 ->\\n   *[x] y\\n }\\n")
r.body[0].value.elements[0].expression.variants[0].key = FTL.StringLiteral("x y")
try:
    print(serialize(r))
except Exception:
    sys.exit(0)
sys.exit(1)
''', "a tree with a string literal as variant key", "Fluent that doesn't parse is written instead of an exception")

seed("c08-unknown-element", "C08", (SY + "serializer.py", "    if isinstance(element, ast.TextElement):\n        return element.value\n", "    if not isinstance(element, ast.Placeable):\n        return str(getattr(element, \"value\", \"\"))\n"), '''
r = parse("a = b\\n")
r.body[0].value.elements.append(FTL.VariableReference(FTL.Identifier("x")))
try:
    print(serialize(r))
except Exception:
    sys.exit(0)
sys.exit(1)
''', "a variable reference directly in a pattern, not in a placeable", "the reference is left out of the text")

seed("c10-pickle-span", "C10", (SY + "ast.py", "    def __str__(self) -> str:\n        return json.dumps(self.to_json())\n", "    def __str__(self) -> str:\n        return json.dumps(self.to_json())\n\n    def __getstate__(self) -> Dict[str, Any]:\n        return {k: v for k, v in vars(self).items() if v}\n"), '''
import pickle
r = parse("a = { $x ->\\n [a] b\\n*[c] d\\n }\\n")
c = pickle.loads(pickle.dumps(r))
try:
    assert r.equals(c) and c.equals(r, []) and c.body[0].comment is None
except AttributeError as e:
    sys.exit(str(e))
''', "pickling or copying a tree with empty fields, like a message without comment", "the empty fields are missing afterwards")

seed("c10-json-fn-first", "C10", (SY + "ast.py", '''        obj.update({"type": self.__class__.__name__})
        return fn(obj) if fn else obj
''', '''        obj.update({"type": self.__class__.__name__})
        if fn and self.__class__.__name__ not in ("Annotation", "Span"):
            return fn(obj)
        return obj
'''), '''
n = []
parse("a = {\\n").to_json(lambda d: n.append(d["type"]) or d)
assert "Annotation" in n, n
''', "a tree with Junk or positions, converted with a function", "the function does not see annotations and positions")

# --- application code that calls back

seed("c42-localization-busy", "C42", [(RT + "fallback.py", '''        for bundle in self._bundles():
            if not bundle.has_message(msg_id):
                continue
''', '''        # Start where the last message was found, to save lookups.
        for bundle in self._bundles():
            if bundle is self._skip:
                continue
            if not bundle.has_message(msg_id):
                continue
'''), (RT + "fallback.py", '''            val, _errors = bundle.format_pattern(msg.value, args)
            return cast(
''', '''            self._skip = bundle
            try:
                val, _errors = bundle.format_pattern(msg.value, args)
            finally:
                self._skip = None
            return cast(
'''), (RT + "fallback.py", '''        self._bundle_cache: List[FluentBundle] = []
''', '''        self._bundle_cache: List[FluentBundle] = []
        self._skip: Union[FluentBundle, None] = None
''')], '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        yield [FluentResource("a = { BACK() }\\nb = b in " + locale + "\\n")]
loc = FluentLocalization(["en", "de"], ["x"], L(), functions={"BACK": lambda: loc.format_value("b")})
assert loc.format_value("b") == "b in en"
assert loc.format_value("a") == "b in en", loc.format_value("a")
''', "a custom function that asks the localization for another message while one is being formatted", "the inner request skips the bundle in use and gets the text of another locale")

seed("c42-single-active", "C42", [(RT + "resolver.py", '''        if self in env.active_patterns:
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        if env.part_count''', '''        if getattr(self, "active", False):
            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
            return FluentNone()
        if env.part_count'''), (RT + "resolver.py", '''        env.active_patterns.add(self)
        inner = resolve(self.expression(env), env)
        env.part_count += 1
        env.active_patterns.remove(self)
        return inner
''', '''        self.active = True
        try:
            inner = resolve(self.expression(env), env)
        finally:
            self.active = False
        env.part_count += 1
        return inner
''')], '''
depth = []
def back(x):
    if depth:
        return "inner"
    depth.append(1)
    out, errs = b.format_pattern(b.get_message("a").value, {"x": 1})
    assert (out, errs) == ("inner", []), (out, errs)
    return "outer " + out
b = FluentBundle(["en"], functions={"BACK": back})
b.add_resource(FluentResource("a = { BACK($x) }\\n"))
out, errs = b.format_pattern(b.get_message("a").value, {"x": 1})
assert (out, errs) == ("outer inner", []), (out, errs)
''', "a custom function that formats the message it is called from, whose value is a single placeable", "the inner formatting is taken for a cyclic reference")

seed("c42-errors-current", "C42", [(RT + "bundle.py", '''        try:
            result = pattern(env)
        except Exception as e:
            errors.append(e)
            result = "{???}"
        return (result, errors)
''', '''        outer, self._current = self._current, env
        try:
            result = pattern(env)
        except Exception as e:
            self._current.errors.append(e)
            result = "{???}"
        else:
            self._current = outer
        return (result, errors)
'''), (RT + "bundle.py", '''        self._babel_locale = self._get_babel_locale()
''', '''        self._current: Any = None
        self._babel_locale = self._get_babel_locale()
'''), (RT + "resolver.py", '''        except Exception as e:
            env.errors.append(e)
            return FluentNone(function_name + "()")
''', '''        except Exception as e:
            env.context._current.errors.append(e)
            return FluentNone(function_name + "()")
''')], '''
def back():
    out, errs = b.format_pattern(b.get_message("long").value, {"x": "x" * 3000})
    assert out == "{???}" and len(errs) == 1, (out, errs)
    raise ValueError("no")
b = FluentBundle(["en"], functions={"BACK": back})
b.add_resource(FluentResource("a = { BACK() }\\nlong = x { $x }\\n"))
out, errs = b.format_pattern(b.get_message("a").value)
assert [str(e) for e in errs] == ["no"], errs
''', "a custom function that raises after it formatted a message which was cut off", "its error goes to the list of the inner call")

seed("c42-json-function", "C42", [(SY + "ast.py", '''        obj = {name: to_json(value, fn) for name, value in vars(self).items()}
        obj.update({"type": self.__class__.__name__})
        return fn(obj) if fn else obj
''', '''        # Pass the function on to the children.
        if fn is not None:
            BaseNode.json_fn = fn
        obj = {name: to_json(value, fn) for name, value in vars(self).items()}
        obj.update({"type": self.__class__.__name__})
        if fn is not None:
            return BaseNode.json_fn(obj)
        return obj
'''), (SY + "ast.py", '''    def clone(self: Node) -> Node:
        """Create a deep clone of the current node."""
''', '''    json_fn: Any = None

    def clone(self: Node) -> Node:
        """Create a deep clone of the current node."""
''')], '''
inner = parse("b = c\\n")
def f(d):
    if d["type"] == "TextElement":
        inner.to_json(lambda x: x)
    return {**d, "mark": 1}
out = parse("a = b\\n").to_json(f)
assert "mark" in out and "mark" in out["body"][0]["value"], out
''', "a conversion function that converts another tree with another function", "the rest of the outer tree is converted with the inner function")


# --- interrupted calls

seed("c43-environment-pool", "C43", [(RT + "bundle.py", '''        try:
            result = pattern(env)
        except Exception as e:
            errors.append(e)
            result = "{???}"
        return (result, errors)
''', '''        if self._free:
            env.active_patterns = self._free.pop()
        try:
            result = pattern(env)
        except Exception as e:
            env.active_patterns.clear()
            errors.append(e)
            result = "{???}"
        finally:
            self._free.append(env.active_patterns)
        return (result, errors)
'''), (RT + "bundle.py", '''        self.use_isolating = use_isolating
''', '''        self.use_isolating = use_isolating
        # Sets of active patterns for reuse, empty when no call is using them.
        self._free: List[Any] = []
''')], '''
state = []
def stop(*a):
    if state:
        raise KeyboardInterrupt()
    return "x"
b = FluentBundle(["en"], functions={"STOP": stop}, use_isolating=False)
b.add_resource(FluentResource("a = in { b }\\nb = text { STOP() }\\n"))
f = lambda: b.format_pattern(b.get_message("a").value)
assert f() == ("in text x", [])
state.append(1)
try:
    f()
    assert False
except KeyboardInterrupt:
    pass
state.clear()
assert f() == ("in text x", []), f()
''', "KeyboardInterrupt, or another exception that is no Exception, while a message is formatted", "the patterns that were being formatted count as cyclic in the next call")

seed("c43-serializer-state", "C43", [(SY + "serializer.py", '''        state = 0

        parts: List[str] = []
''', '''        parts: List[str] = []
'''), (SY + "serializer.py", '''                parts.append(self.serialize_entry(entry, state))
                if not state & self.HAS_ENTRIES:
                    state |= self.HAS_ENTRIES

        return "".join(parts)
''', '''                parts.append(self.serialize_entry(entry, self.state))
                self.state |= self.HAS_ENTRIES

        self.state = 0
        return "".join(parts)
'''), (SY + "serializer.py", '''        self.with_junk = with_junk
''', '''        self.with_junk = with_junk
        self.state = 0
''')], '''
from fluent.syntax import ast
from fluent.syntax.serializer import FluentSerializer
s = FluentSerializer()
good = parse("# c\\n\\na = b\\n")
want = s.serialize(good)
bad = parse("a = b\\nc = d\\n")
bad.body[1].value.elements[0].value = None
try:
    s.serialize(bad)
except Exception:
    pass
assert s.serialize(good) == want, s.serialize(good)
''', "a serializer used again after a call that raised or was interrupted", "the first comment of the next resource gets a blank line before it")

seed("c43-parser-comment", "C43", [(SY + "parser.py", '''                last_comment = entry
                continue

            if last_comment is not None:
                if isinstance(entry, (ast.Message, ast.Term)):
                    entry.comment = last_comment
''', '''                self.last_comment = entry
                continue

            if self.last_comment is not None:
                if isinstance(entry, (ast.Message, ast.Term)):
                    entry.comment = self.last_comment
'''), (SY + "parser.py", '''                    entries.append(last_comment)
''', '''                    entries.append(self.last_comment)
'''), (SY + "parser.py", '''                # clear it.
                last_comment = None
''', '''                # clear it.
                self.last_comment = None
'''), (SY + "parser.py", '''        entries: List[ast.EntryType] = []
        last_comment = None
''', '''        entries: List[ast.EntryType] = []
'''), (SY + "parser.py", '''        self.with_spans = with_spans
''', '''        self.with_spans = with_spans
        self.last_comment: Union[ast.Comment, None] = None
''')], '''
import signal
from fluent.syntax import FluentParser
class Late(BaseException):
    pass
def late(*a):
    raise Late()
signal.signal(signal.SIGALRM, late)
p = FluentParser()
text = "# about a\\na = " + "x { $y }\\n    " * 400000 + "\\n"
signal.setitimer(signal.ITIMER_REAL, .3)
try:
    p.parse(text)
    assert False
except Late:
    pass
finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
out = p.parse("b = c\\n")
assert out.body[0].comment is None, out.body[0].comment.content
''', "a parse that is interrupted, say by a timeout, in a message with a comment", "the comment is attached to the first message of the next text")

seed("c43-locales-taken", "C43", [(RT + "fallback.py", '''        for first_loc in range(0, len(self.locales)):
            locs = self.locales[first_loc:]
''', '''        # Each locale is loaded once, whoever asks for it first.
        while self._first_loc < len(self.locales):
            locs = self.locales[self._first_loc :]
            self._first_loc += 1
'''), (RT + "fallback.py", '''        self._bundle_cache: List[FluentBundle] = []
''', '''        self._bundle_cache: List[FluentBundle] = []
        self._first_loc = 0
''')], '''
from fluent.runtime import FluentLocalization, AbstractResourceLoader
bad = [1]
class L(AbstractResourceLoader):
    def resources(self, locale, ids):
        if bad:
            raise OSError("network")
        yield [FluentResource("a = " + locale + "\\n")]
loc = FluentLocalization(["en", "de"], ["x"], L())
try:
    loc.format_value("a")
    assert False
except OSError:
    bad.clear()
assert loc.format_value("a") == "en", loc.format_value("a")
''', "a loader that fails once", "the locale it failed for is never loaded")

seed("c43-tokens-kept", "C43", [("fluent.pygments/fluent/pygments/lexer.py", '''        last_end = 0
        tokenizer = Tokenizer(text)
        for token in tokenizer.tokenize():
            node, start, token, span = token
            if start > last_end:
                yield last_end, Token.Punctuation, text[last_end:start]
            last_end = node.span.end
            yield start, token, span
        if last_end < len(text):
            yield last_end, Token.Punctuation, text[last_end:]
''', '''        # Highlighting the same text again, in another format say, is common.
        if self._last is not None and self._last[0] == text:
            yield from self._last[1]
            return
        tokens = []
        self._last = (text, tokens)
        last_end = 0
        tokenizer = Tokenizer(text)
        for token in tokenizer.tokenize():
            node, start, token, span = token
            if start > last_end:
                tokens.append((last_end, Token.Punctuation, text[last_end:start]))
                yield tokens[-1]
            last_end = node.span.end
            tokens.append((start, token, span))
            yield tokens[-1]
        if last_end < len(text):
            tokens.append((last_end, Token.Punctuation, text[last_end:]))
            yield tokens[-1]
'''), ("fluent.pygments/fluent/pygments/lexer.py", '''    filenames = ["*.ftl"]
''', '''    filenames = ["*.ftl"]
    _last = None
''')], '''
from fluent.pygments.lexer import FluentLexer
lx = FluentLexer()
text = "a = b { $c }\\nd = e\\n"
want = list(lx.get_tokens(text))
lx = FluentLexer()
it = iter(lx.get_tokens(text))
next(it); next(it)
it.close()
assert list(lx.get_tokens(text)) == want
''', "highlighting that is interrupted or given up half way, and the same text again", "only the first tokens are given")
