"""C39: calls have no effect but their result, and keep nothing alive."""
from .rt import *
from .c35 import build
from lib import env
from fluent.runtime import FluentLocalization, FluentResourceLoader
from fluent.runtime.types import FluentType, FluentDateType, fluent_number, fluent_date
from fluent.runtime.utils import native_to_fluent
from fluent.syntax.visitor import Visitor, Transformer
from fluent.pygments.lexer import FluentLexer
import contextlib, datetime, decimal, gc, io, locale, os, random, shutil, signal, sys, tempfile, threading, time, weakref

ID = "C39"
RULE = ("random histories of parsing, serializing, visiting, copying, highlighting, formatting and localizing, valid and failing, with everything watched that a call "
        "could touch: output streams, audited system events, files, process state; objects passed in or out followed by weak references, and memory blocks "
        "counted over rounds of calls with ever new data; distinct by (operation, input)")
QUICK, THOROUGH = 1600, 50000
NEED = {"operations": 4400, "snapshots": 4400, "references": 60000, "tracked_arguments": 1500, "tracked_errors": 3000, "tracked_nodes": 30000, "while_alive": 4000, "rounds": 1200,
        "audited": 400, "op:parse": 500, "op:format": 700, "op:localize": 300, "op:lex": 300, "op:edit": 300, "op:fail": 300, "op:wrap": 300, "op:deep": 250, "op:big": 250, "too_deep": 500, "odd_settings": 2000, "raised": 300}
MIN_NONTRIVIAL = 4400
ASSUMPTIONS = ["reading the locale and time zone databases, on first use, and keeping what was read of them is no side effect"]
OPS = ["parse", "parse", "serialize", "lex", "edit", "format", "format", "format", "localize", "fail", "wrap", "deep", "big"]
BIG = ["placeables", "lines", "attributes", "variants", "entries", "junk", "arguments", "comment", "digits", "text"]

active = False
events = []
LIBRARY = (sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), "/usr/share/zoneinfo", "/usr/lib", "/usr/local", "/etc/localtime", env.REPO)
WATCHED = ("os.", "socket.", "subprocess.", "shutil.", "tempfile.", "ctypes.", "signal.", "fcntl.", "mmap.", "urllib.", "http.", "ftplib.", "smtplib.", "syslog.", "pty.", "time.sleep",
           "sys.set", "sys.addaudithook", "builtins.input", "webbrowser.", "_thread.", "sqlite3.", "glob.", "resource.", "marshal.dump")
READING = ("os.listdir", "os.scandir", "glob.glob", "os.walk")


def hook(event, args):
    if active and (event == "open" or event.startswith(WATCHED)):
        events.append((event, args))


def init(rng, tier):
    sys.addaudithook(hook)
    # first uses load lazily
    w = RT.world(random.Random(1))
    for _ in range(2):
        operate(random.Random(5), Obs0(), {"op": "format", "world": w, "tracked": [], "seed": 1})


class Obs0:
    def count(self, *a):
        pass


class S(str):
    pass


class Thing:
    def __str__(self):
        return "thing"


class Money(FluentType):
    def format(self, locale):
        return "money"


class Failing(FluentType):
    def format(self, locale):
        raise ValueError("no")


class Day(datetime.date):
    pass


def text(r):
    x = r.random()
    if x < .6:
        g = G.Gen(r, size=.7)
        s = G.render(g.model(r.choice([1, 2]), entries=r.randint(1, 4)), r, r.random() < .4)
        return T.mutate(r, s, 1) if r.random() < .3 else s
    if x < .8:
        return "".join(r.choice(["", "ok = x\n"]) + r.choice(T.ERRORS) + "\n" for _ in range(3))
    return T.text(r)


def gen(r, i, tier):
    ops = []
    for _ in range(r.randint(3, 8)):
        op = {"op": r.choice(OPS), "seed": r.getrandbits(30)}
        if op["op"] in ("format", "localize"):
            w = op["world"] = RT.world(r)
            op["tracked"] = [(v, r.choice(["str", "thing", "money", "failing", "day", "float", "dec"])) for v in r.sample(w["vars"], r.choice([0, 1, 3]))]
        else:
            op["text"] = text(r).encode("utf-8", "replace").decode("utf-8")
        # settings the application made, which are not the default ones
        op["settings"] = r.sample(["gc", "recursion", "decimal", "folder", "warnings", "switch"], r.choice([0, 0, 1, 3]))
        ops.append(op)
    return {"ops": ops, "rounds": r.choice(["parse", "serialize", "lex", "format", "bundle", "localize", "wrap", "fail", "visit"]) if i % 4 == 0 else None, "seed": r.getrandbits(30)}


def state():
    c = decimal.getcontext()
    return {"decimal": (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, tuple(sorted((k.__name__, v) for k, v in c.traps.items()))),
            "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "warnings": [tuple(f) for f in __import__("warnings").filters],
            "environment": dict(os.environ), "folder": os.getcwd(), "threads": threading.active_count(), "signals": [signal.getsignal(s) for s in (2, 14, 15)],
            "gc": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)), "switch": sys.getswitchinterval(), "random": random.getstate(), "path": list(sys.path),
            "hooks": (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(), warnings.showwarning), "zone": (time.tzname, time.timezone),
            "files": sorted(os.listdir("/proc/self/fd")).__len__(), "streams": (sys.stdout, sys.stderr, sys.stdin), "digits": sys.get_int_max_str_digits(),
            "builtins": sorted(vars(__builtins__) if not isinstance(__builtins__, dict) else __builtins__), "umask": threading.stack_size()}


def tracked(kind):
    return {"str": lambda: S("text"), "thing": Thing, "money": Money, "failing": Failing, "day": lambda: Day(2020, 2, 3), "float": lambda: fluent_number(1.5),
            "dec": lambda: fluent_date(datetime.date(2020, 1, 1))}[kind]()


def nodes(n, out):
    if isinstance(n, list):
        for x in n:
            nodes(x, out)
    elif isinstance(n, FTL.BaseNode):
        out.append(weakref.ref(n))
        for x in vars(n).values():
            nodes(x, out)
    return out


class V(Visitor):
    def __init__(self):
        self.n = 0

    def visit_TextElement(self, node):
        self.n += 1


class X(Transformer):
    def visit_TextElement(self, node):
        node.value = node.value.upper()
        return node


def nested(n):
    p = FTL.StringLiteral("x")
    for _ in range(n):
        p = FTL.Placeable(p)
    return FTL.Resource([FTL.Message(FTL.Identifier("a"), FTL.Pattern([p]))])


def bundle_of(t):
    b = FluentBundle(["en"])
    b.add_resource(t)
    return b


def operate(r, obs, op, root=None):
    """Does it, and returns (what may stay, references to what must not, while it does)."""
    refs = []
    k = op["op"]
    if k in ("parse", "serialize", "lex", "edit", "fail", "wrap"):
        s = S(op["text"])
        refs.append(weakref.ref(s))
    if k == "parse":
        P = FluentParser(with_spans=r.random() < .8)
        t = P.parse(s)
        e = P.parse_entry(s)
        refs += nodes(t, []) + nodes(e, [])
        obs.count("tracked_nodes", len(refs))
        return P, refs
    if k == "deep":
        P, Z, L = FluentParser(), FluentSerializer(), FluentLexer()
        s = S("deep = " + "{" * 400 + op["text"][:20] + "}" * 400 + "\n" + op["text"])
        refs.append(weakref.ref(s))
        for f in (lambda: P.parse(s), lambda: P.parse_entry(s), lambda: parse(s), lambda: list(L.get_tokens(s)), lambda: Z.serialize(nested(300)), lambda: nested(300).clone(), lambda: nested(300).to_json(),
                  lambda: bundle_of(nested(150)).format_pattern(bundle_of(nested(150)).get_message("a").value)):
            try:
                f()
            except RecursionError:
                obs.count("too_deep")
            except Exception:
                pass
        return (P, Z, L), refs
    if k == "big":
        P, Z, L = FluentParser(with_spans=r.random() < .5), FluentSerializer(), FluentLexer()
        n = r.choice([120, 400])
        s = S({"placeables": "a = " + "{ $x }" * n, "lines": "a =" + "\n    x" * n, "attributes": "a = b" + "".join(f"\n    .a{j} = c" for j in range(n)),
               "variants": "a = { $x ->" + "".join(f"\n    [k{j}] c" for j in range(n)) + "\n   *[o] d\n    }", "entries": "".join(f"e{j} = c\n" for j in range(n)), "junk": "a b\n" * n,
               "arguments": "a = { F(" + ", ".join(f"n{j}: {j}" for j in range(n)) + ") }", "comment": "# c\n" * n + "a = b", "digits": "a = { " + "1" * n + "." + "2" * n + " }",
               "text": "a = " + "x" * n * 50}[r.choice(BIG)] + "\n" + op["text"][:100])
        refs.append(weakref.ref(s))
        t, e = P.parse(s), P.parse_entry(s)
        c = t.clone()
        assert Z.serialize(c) == Z.serialize(t)
        list(L.get_tokens(s))
        V().visit(c)
        X().visit(c)
        b = bundle_of(t)
        if b.has_message("a"):
            with contextlib.suppress(Exception):
                b.format_pattern(b.get_message("a").value, {f"v{j}": j for j in range(n)})
        refs += nodes(t, [])[:200] + nodes(e, [])[:200] + nodes(c, [])[:200]
        return (P, Z, L), refs
    if k == "serialize":
        t = parse(s)
        Z = FluentSerializer(with_junk=r.random() < .5)
        Z.serialize(t)
        for x in t.body:
            Z.serialize_entry(x)
        refs += nodes(t, [])
        obs.count("tracked_nodes", len(refs))
        return Z, refs
    if k == "lex":
        L = FluentLexer(stripnl=False, ensurenl=False)
        g = L.get_tokens_unprocessed(s)
        for n, _ in enumerate(g):
            if r.random() < .02:
                break          # abandoned
        list(L.get_tokens(s))
        refs.append(weakref.ref(g))
        return L, refs
    if k == "edit":
        t = parse(s)
        c = t.clone()
        refs += nodes(c, [])
        v, x = V(), X()
        v.visit(t)
        d = build(json.loads(json.dumps(t.to_json())))
        t.equals(c)
        refs += nodes(d, [])
        x.visit(c)
        refs += nodes(t, []) + nodes(c, [])
        obs.count("tracked_nodes", len(refs))
        return (v, x), refs
    if k == "fail":
        P, Z = FluentParser(), FluentSerializer()
        t = P.parse(s)
        bad = FTL.Message(FTL.Identifier("a"), FTL.Pattern([FTL.Placeable(t)]))
        refs += nodes(bad, [])
        for f in (lambda: Z.serialize(FTL.Resource([bad])), lambda: Z.serialize(bad), lambda: P.parse(None), lambda: FTL.from_json({"type": "Message", "nope": t}),
                  lambda: fluent_number(1.5, nope=bad), lambda: fluent_number(1.5, style=S("bad")), lambda: native_to_fluent(t), lambda: V().visit(5)):
            try:
                f()
            except Exception as e:
                obs.count("raised")
                try:
                    refs.append(weakref.ref(e))
                except TypeError:
                    pass
        return (P, Z), refs
    if k == "wrap":
        with contextlib.suppress(Exception):
            fluent_number(5, style="currency", currency="EUR", currencyDisplay="name").format(Babel())
        with contextlib.suppress(Exception):
            fluent_date(datetime.date(2020, 1, 1), weekday="long").format(Babel())
        for v in (1.25, decimal.Decimal("12.5"), 7):
            n = fluent_number(v, minimumFractionDigits=r.randint(0, 3))
            n.format(Babel())
            m = fluent_number(n, useGrouping=False)
            for x in (n, m, n.options, m.options):
                try:
                    refs.append(weakref.ref(x))
                except TypeError:
                    pass
        d = fluent_date(datetime.datetime(2020, 5, 1, 3), timeStyle="short", timeZone=r.choice([None, "Europe/Paris"]))
        d.format(Babel())
        refs += [weakref.ref(d), weakref.ref(d.options)]
        return None, refs
    w = op["world"]
    log = []
    args = [dict(RT.nargs(a) or {}) for a in w["args"]]
    for a in args:
        for name, kind in op["tracked"]:
            a[name] = tracked(kind)
            refs.append(weakref.ref(a[name]))
            obs.count("tracked_arguments")
    keep = None
    if k == "format":
        res = FluentResource(w["src"])
        b = FluentBundle([w["locale"]], functions=RT.fn_repo(log), use_isolating=w["iso"])
        b.add_resource(res)
        for label, _ in RT.patterns(w["tree"]):
            for a in args:
                _, errs = b.format_pattern(RT.get(b, label), a)
                for e in errs:
                    try:
                        refs.append(weakref.ref(e))
                        obs.count("tracked_errors")
                    except TypeError:
                        pass
        keep = b
    else:
        loc = FluentLocalization([w["locale"], "en"], ["a.ftl", "b.ftl"], FluentResourceLoader(os.path.join(root, "{locale}")), use_isolating=w["iso"], functions=RT.fn_repo(log))
        for label, _ in RT.patterns(w["tree"]):
            for a in args:
                loc.format_value(label[0], a)
        loc.format_value("unknown-message", args[0])
        keep = loc
    del log[:]
    # its own until it goes
    later = nodes(res, []) if k == "format" else []
    return keep, refs, later


def Babel():
    import babel
    return babel.Locale.parse("en_US")


@contextlib.contextmanager
def settings(which, root):
    limit, switch, folder = sys.getrecursionlimit(), sys.getswitchinterval(), os.getcwd()
    with decimal.localcontext(decimal.Context(prec=9, rounding=decimal.ROUND_UP) if "decimal" in which else None):
        try:
            if "gc" in which:
                gc.disable()
            if "recursion" in which:
                sys.setrecursionlimit(1300)
            if "switch" in which:
                sys.setswitchinterval(.003)
            if "folder" in which:
                os.chdir(root)
            yield
        finally:
            gc.enable()
            sys.setrecursionlimit(limit)
            sys.setswitchinterval(switch)
            os.chdir(folder)


class Recorder(io.StringIO):
    pass


def allowed(ev, args, root):
    if ev == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if mode is not None and set(str(mode)) & set("wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return False
        return isinstance(path, str) and (path.startswith(LIBRARY) or root is not None and path.startswith(root))
    if ev in READING:
        return bool(args) and isinstance(args[0], str) and args[0].startswith(LIBRARY)
    return False


def run(case, obs):
    global active
    # makes the collections below quick
    gc.collect()
    gc.freeze()
    root = tempfile.mkdtemp(prefix="verif-c39-")
    old = sys.stdout, sys.stderr
    try:
        for op in case["ops"]:
            k = op["op"]
            if k == "localize":
                d = os.path.join(root, op["world"]["locale"])
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "a.ftl"), "w", encoding="utf-8", errors="replace", newline="") as f:
                    f.write(op["world"]["src"])
            before_files = {p: content(p) for p in files(root)}
            sys.stdout, sys.stderr = out, err = Recorder(), Recorder()
            del events[:]
            with warnings.catch_warnings(record=True) as ws, settings(op["settings"], root):
                warnings.simplefilter("always")
                if "warnings" in op["settings"]:
                    warnings.filterwarnings("ignore", "some message", RuntimeWarning, "some.module", append=True)
                before = state()
                active = True
                try:
                    keep, refs, *later = operate(random.Random(op["seed"]), obs, op, root)
                finally:
                    active = False
                after = state()
                # what was passed in or came out is gone as soon as its owner lets go, even while the parser, bundle ... lives
                gc.collect()
                left = [x for x in (r() for r in refs) if x is not None]
                what = [type(x).__name__ for x in left]
                x = None
                del left
                warned = [w for w in ws if issubclass(w.category, ResourceWarning)]
                del ws[:]
            sys.stdout, sys.stderr = old
            seen = list(events)
            source = op["world"]["src"] if "world" in op else op["text"]
            ctx = dict(op=k, input=source)
            obs.check(not what, "something passed to a call, or returned or raised by it, is kept alive", kept=sorted(set(what)), number=len(what), **ctx)
            if keep is not None:
                obs.count("while_alive")
                for o in keep if isinstance(keep, tuple) else (keep,):
                    refs.append(weakref.ref(o))
                o = keep = None
                gc.collect()
                obs.check(refs[-1]() is None, "the object used is kept alive", **ctx)
                for q in later:
                    obs.check(not any(r() is not None for r in q), "the resource of a bundle is kept alive", **ctx)
                    refs += q
                    obs.count("tracked_nodes", len(q))
            obs.count("references", len(refs))
            for name in before:
                obs.check(before[name] == after[name], f"a call changed the process: {name}", before=repr(before[name])[:300], after=repr(after[name])[:300], **ctx)
            obs.check(not out.getvalue() and not err.getvalue(), "a call printed something", stdout=out.getvalue()[:300], stderr=err.getvalue()[:300], **ctx)
            obs.check(not warned, "a call left something open", warning=repr([str(w.message) for w in warned]), **ctx)
            for ev, args in seen:
                obs.count("audited")
                obs.check(allowed(ev, args, root if k == "localize" else None), "a call did something to the system", event=ev, args=repr(args)[:300], **ctx)
            obs.check(before_files == {p: content(p) for p in files(root)}, "a call changed files", **ctx)
            obs.count("operations")
            obs.count("odd_settings", bool(op["settings"]))
            obs.count("snapshots")
            obs.count("op:" + k)
            obs.nontrivial((k, source, op["seed"]))
        if case["rounds"]:
            grow(case, obs, root)
        obs.sample({"ops": [o["op"] for o in case["ops"]], "rounds": case["rounds"]})
    finally:
        active = False
        sys.stdout, sys.stderr = old
        shutil.rmtree(root, ignore_errors=True)


def files(root):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)


CALLS = 30
SRC = """m = { $n } { $s } { $d } { $n ->
    [one] a
    [0] zero
   *[other] { -t(x: 5) }
  }
  .a = { $missing } { NUMBER($n, minimumFractionDigits: 2) } { DATETIME($d, dateStyle: "long") } { FAIL($n) }
-t = T { $x }
"""


def settle():
    gc.collect()
    # The interpreter's own cache of attribute lookups (4096 entries, by the
    # address of the name) keeps names computed at run time, like "visit_" + ...
    getattr(sys, "_clear_type_cache", lambda: None)()


def grow(case, obs, root):
    """Calls with ever new data must not go on taking more memory."""
    r = random.Random(case["seed"])
    kind = case["rounds"]
    def fail(x):
        raise ValueError(str(x))
    b = FluentBundle([r.choice(RT.PLOCALES)], functions={"FAIL": fail})
    b.add_resource(FluentResource(SRC))
    os.makedirs(os.path.join(root, "en"), exist_ok=True)
    with open(os.path.join(root, "en", "x.ftl"), "w") as f:
        f.write(SRC)
    loc = FluentLocalization(["en"], ["x.ftl"], FluentResourceLoader(os.path.join(root, "{locale}")), functions={"FAIL": fail})
    P, Z, L = FluentParser(), FluentSerializer(), FluentLexer()
    n = 0

    def call():
        nonlocal n
        n += 1
        new = f"key{n} = some text { '{' } $v{n} { '}' } and \"{n}\" # {n}\n# comment {n}\n-t{n} = { '{' } F{n}({n}, a: \"{n}\") { '}' }\n    .a{n} = v\nbroken{n} = {'{'} \"{n}\n"
        args = {"n": n * 7 + .25, "s": f"string {n}", "d": datetime.datetime(2020, 1, 1) + datetime.timedelta(hours=n), "o": Thing(), "big": decimal.Decimal(n) / 3}
        if kind == "parse":
            P.parse(new), P.parse_entry(new)
        elif kind == "serialize":
            Z.serialize(parse(new))
        elif kind == "lex":
            list(L.get_tokens(new))
        elif kind == "visit":
            t = parse(new)
            V().visit(t), X().visit(t.clone()), t.equals(t.clone()), FTL.from_json(t.to_json())
        elif kind == "format":
            m = b.get_message("m")
            b.format_pattern(m.value, args), b.format_pattern(m.attributes["a"], args), b.has_message(f"key{n}")
        elif kind == "bundle":
            c = FluentBundle(["de"])
            c.add_resource(FluentResource(new))
            m = c.get_message(f"key{n}")
            c.format_pattern(m.value, args)
        elif kind == "localize":
            loc.format_value("m", args), loc.format_value(f"unknown{n}", args)
        elif kind == "wrap":
            fluent_number(n * 1.5, minimumFractionDigits=n % 4).format(Babel()), native_to_fluent(args["big"]), fluent_date(args["d"], timeStyle="short").format(Babel())
        else:
            for f in (lambda: fluent_number(n, nope=n), lambda: Z.serialize_entry(FTL.Identifier(f"x{n}")), lambda: b.get_message(f"x{n}")):
                try:
                    f()
                except Exception:
                    pass

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        growth = []
        for k in range(8):
            settle()
            a = sys.getallocatedblocks()
            for _ in range(CALLS):
                call()
            settle()
            growth.append(sys.getallocatedblocks() - a)
    obs.count("rounds", len(growth))
    obs.check(growth and min(growth[2:]) < CALLS * .8, "memory grows with every call", kind=kind, growth=growth, calls=CALLS)


def content(p):
    with open(p, "rb") as f:
        return f.read()
