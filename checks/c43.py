"""C43: a call that was interrupted leaves nothing half done."""
from .rt import *
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResourceLoader
from fluent.syntax.visitor import Visitor, Transformer
from fluent.pygments.lexer import FluentLexer
from lib import env
import contextlib, decimal, locale, random, shutil, tempfile, threading

ID = "C43"
RULE = ("calls on shared bundles, localizations, parsers, serializers, visitors, trees and lexers are interrupted by an exception injected at a random control-flow "
        "step of the library, or raised by a function, loader, bundle class, handler or file; afterwards the same and other calls, some from another thread, must give "
        "what fresh objects give; distinct by (operation, kind of interruption, place)")
QUICK, THOROUGH = 3200, 100000
NEED = {"interrupted": 7900, "escaped": 7700, "by_function": 230, "by_step": 2700, "formatted_after": 6000, "failing_after": 4400, "by_handler": 160, "called_after": 8700, "highlighted_after": 3200, "abandoned": 480,
        "add_interrupted": 570, "part_added": 350, "loc_by_loader": 84, "loc_by_class": 44, "loc_by_function": 30, "loc_by_step": 260, "loc_by_file": 120, "asked_after": 800, "other_thread": 2500}
MIN_NONTRIVIAL = 1200


class Interrupt(BaseException):
    """Like KeyboardInterrupt, or the exception of a timeout."""


SHIFT = 0           # see run()
KINDS = {"interrupt": Interrupt, "keyboard": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit}


def gen(r, i, tier):
    x = i % 10
    if x < 4:
        w = RT.world(r, cyclic=r.choice([0, 0, .1, .3]), dates=True, big=0)
        extra = ("bomb0 = " + "{ $x }" * 12 + "\nbomb1 = " + "{ bomb0 }" * 12 + "\nbomb2 = " + "{ bomb1 }" * 12 + "\n"
                 "ring0 = r { ID(\"r\") } { ring1 }\nring1 = s { ring0 } { ID(\"s\") }\n    .at = { ring0 } { ring1.at }\n-rt = t { $n } { ID(\"t\") } { -rt }\nuse = { -rt(n: 1) } { $n } { -rt } { $n }\n"
                 "sel = { COUNT($n, 1) ->\n    [one] { use }\n   *[other] { ring0 } { $n }\n }\nlone = { sel }\n")
        w["src"] += "\n\n" + extra
        labels = [(e["id"]["name"], None) for e in RP.parse(extra)["body"] if e["type"] == "Message"] * 2 + [l for l, _ in RT.patterns(w["tree"])]
        return {"kind": "format", "w": w, "labels": labels, "seed": r.getrandbits(30)}
    if x < 5:
        return {"kind": "add", "seed": r.getrandbits(30), "n": r.randint(2, 14), "override": r.random() < .5}
    if x < 7:
        return {"kind": "localization", "seed": r.getrandbits(30), "locales": r.randint(1, 4)}
    g = G.Gen(r, size=.5)
    return {"kind": "syntax" if x < 9 else "tokens", "seed": r.getrandbits(30),
            "srcs": [G.render(g.model(r.choice([1, 2]), entries=r.randint(1, 4)), r) + r.choice(["", "", "x = {\n", "junk here\n", "y = { \"\\q\" }\n"]) for _ in range(3)]}


def settings():
    """What a call may change for a while and has to put back."""
    c = decimal.getcontext()
    return (sys.getrecursionlimit(), c.prec, c.rounding, c.Emin, c.Emax, [c.traps[t] for t in sorted(c.traps, key=repr)], len(warnings.filters), locale.setlocale(locale.LC_ALL),
            sys.getswitchinterval(), sys.gettrace(), sys.stdout is sys.__stdout__, gc_on())


def gc_on():
    import gc
    return gc.isenabled()


def inject(obs, r, f, what, ctx, n=None, prefixes=None):
    """Calls f() and interrupts it somewhere.  True: it was."""
    if n is None:
        with Steps(prefixes=prefixes, calls=True) as st:
            f()
        n = st.n
    if not n:
        return False
    kind = r.choice(list(KINDS))
    # near the start, near the end, or anywhere
    k = r.choice([r.randrange(n), r.randrange(n), min(n - 1, r.randrange(12)), max(0, n - 1 - r.randrange(12))])
    k = max(0, k + SHIFT)
    e = KINDS[kind]("injected")
    before = settings()
    out = None
    st = Steps(limit=k, exc=e, prefixes=prefixes)
    with st:
        try:
            f()
        except BaseException as x:
            out = x
    if isinstance(out, Violation) or out is not None and not st.fired:
        raise out
    obs.count("calls")
    if not st.fired:
        return False
    obs.count("interrupted")
    obs.count("escaped", out is e)
    if kind != "memory":
        # (an exception like any other is an error of the formatting)
        obs.check(out is e, "an interruption did not reach the caller", call=what, step=k, of=n, kind=kind, got=repr(out), **ctx)
    obs.count("kind_" + kind)
    obs.eq(settings(), before, "an interrupted call left a setting of the process changed", call=what, step=k, of=n, kind=kind, **ctx)
    # by tenths of the way, how it ended
    obs.nontrivial((what, kind, k if k < 12 else ("of", k * 20 // n), out is e))
    return True


def elsewhere(obs, f, what, ctx):
    """Runs f in another thread, where a lock left behind would block it."""
    out = []

    def body():
        try:
            out.append((True, f()))
        except BaseException as e:
            out.append((False, e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(20)
    if t.is_alive():
        raise Violation("after an interrupted call, another thread waits for ever", call=what, **ctx)
    obs.count("other_thread")
    if not out[0][0]:
        raise out[0][1]
    return out[0][1]


# ------------------------------------------------------------- formatting
def image(out):
    text, errs = out
    return (text if isinstance(text, str) else ("fallback", type(text).__name__, getattr(text, "name", None)), [err_image(e) for e in errs])


class Faults:
    """Functions that raise at a chosen call."""
    def __init__(self):
        self.left = None
        self.exc = None

    def wrap(self, f):
        def g(*a, **k):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    raise self.exc
            return f(*a, **k)
        return g


def formatting(case, obs):
    w = case["w"]
    r = random.Random(case["seed"])
    ctx = dict(source=w["src"], args=w["args"])
    alone, steps = {}, {}

    def make(faults):
        b = FluentBundle([w["locale"]], functions={n: faults.wrap(f) for n, f in RT.fn_repo([]).items()}, use_isolating=w["iso"])
        b.add_resource(FluentResource(w["src"]))
        return b

    def call(b, label, ai):
        return image(b.format_pattern(RT.get(b, label), args[ai]))
    args = [RT.nargs(a) for a in w["args"]]

    def expect(label, ai):
        # on a bundle of its own
        if (label, ai) not in alone:
            b = make(Faults())
            with Steps(calls=True) as st:
                alone[label, ai] = call(b, label, ai)
            steps[label, ai] = st.n
        return alone[label, ai]
    faults = Faults()
    b = make(faults)
    plain_args = [repr(a) for a in args]
    for _ in range(8):
        label, ai = r.choice(case["labels"]), r.randrange(len(args))
        want = expect(label, ai)
        if r.random() < .2:
            # by the application's own function
            kind = r.choice(["interrupt", "keyboard", "memory", "exit"])
            faults.left, faults.exc = r.randrange(4), KINDS[kind]("injected")
            try:
                call(b, label, ai)
                hit = faults.left is None
                obs.check(not hit or kind == "memory", "an interruption did not reach the caller", call="format_pattern", kind=kind, message=label, **ctx)
            except BaseException as e:
                if e is not faults.exc:
                    raise
                hit = True
            faults.left = None
            obs.count("by_function", hit)
            obs.nontrivial(("function", kind, label[0]))
        else:
            hit = inject(obs, r, lambda: call(b, label, ai), "format_pattern", ctx, n=steps[label, ai])
            obs.count("by_step", hit)
        if not hit:
            continue
        for other in [(label, ai), (r.choice(case["labels"]), r.randrange(len(args)))]:
            want = expect(*other)
            f = lambda: call(b, *other)
            obs.eq(elsewhere(obs, f, "format_pattern", ctx) if r.random() < .2 else f(), want, "after an interrupted call a message formats differently",
                   interrupted=label, message=other, **ctx)
            obs.count("formatted_after")
            obs.count("failing_after", bool(want[1]))
        obs.eq([repr(a) for a in args], plain_args, "an interrupted call changed the arguments", interrupted=label, **ctx)
    if case["seed"] % 40 == 0:
        obs.sample({"source": w["src"][:400], "interrupted so far": obs.n["interrupted"]})


class Body(list):
    """A list of entries whose production fails on the way."""
    left = exc = None

    def __iter__(self):
        for x in super().__iter__():
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    raise self.exc
            yield x


def adding(case, obs):
    """Every entry is as before or as added; adding again completes it."""
    r = random.Random(case["seed"])
    n, over = case["n"], case["override"]
    entry = lambda k, v: (f"m{k} = {v} {{ $x }}\n    .a = at {v}\n" if k % 3 else f"-t{k} = {v}\nm{k} = {{ -t{k} }}\n")
    first = "".join(entry(k, "old") for k in range(n) if r.random() < .5)
    second = "".join(entry(k, "new") for k in r.sample(range(n), n))
    res1, res2 = FluentResource(first), FluentResource(second)
    ctx = dict(first=first, second=second, override=over)

    def state(b):
        out = {}
        for k in range(n):
            out[k] = image(b.format_pattern(b.get_message(f"m{k}").value, {"x": 1})) if b.has_message(f"m{k}") else None
            if out[k] and k % 3:
                out[k] = (out[k], image(b.format_pattern(b.get_message(f"m{k}").attributes["a"])))
        return out

    def new(*res):
        b = FluentBundle(["en"], use_isolating=False)
        for k, x in enumerate(res):
            b.add_resource(x, allow_overrides=over and k > 0)
        return b
    before, after = state(new(res1)), state(new(res1, res2))
    b = new(res1)
    if r.random() < .6:
        state(b)
    tree = json.dumps(J(res2))
    body = Body(res2.body)
    for _ in range(4):
        # at a step of the library, or where the application's list of entries fails
        if r.random() < .2:
            if not inject(obs, r, lambda: b.add_resource(res2, allow_overrides=over), "add_resource", ctx, n=2):
                continue
        else:
            body.left, body.exc = r.randrange(len(res2.body)), KINDS[r.choice(list(KINDS))]("injected")
            res2.body = body
            hit = True
            try:
                b.add_resource(res2, allow_overrides=over)
                hit = body.left is None
            except BaseException as e:
                if e is not body.exc:
                    raise
            body.left = None
            res2.body = list(body)
            obs.nontrivial(("add", type(body.exc).__name__, over, n, hit))
            if not hit:
                continue
        obs.count("add_interrupted")
        obs.eq(json.dumps(J(res2)), tree, "an interrupted add_resource changed the tree", **ctx)
        got = state(b)
        for k in range(n):
            if k % 3 == 0 and got[k] is not None and got[k] not in (before[k], after[k]):
                # the message without its term, yet
                obs.check(got[k][1] == [("FluentReferenceError", f"Unknown term: -t{k}")], "an interrupted add_resource left an entry neither as before nor as added", entry=k, got=got[k], **ctx)
                continue
            obs.check(got[k] in (before[k], after[k]), "an interrupted add_resource left an entry neither as before nor as added", entry=k, got=got[k], before=before[k], after=after[k], **ctx)
        obs.count("part_added", got not in (before, after))
    b.add_resource(res2, allow_overrides=over)
    obs.eq(state(b), after, "adding again after an interrupted add_resource does not complete it", **ctx)


# ------------------------------------------------------------ localization
IDS = ["a", "b", "c", "d", "e"]


def localization(case, obs):
    r = random.Random(case["seed"])
    locales = ["en", "de", "fr", "pl"][:case["locales"]]
    layout = {l: [["".join(f"{n} = {n}@{l}{k} {{ $x }} {{ F(\"{n}\") }}\n" for i, n in enumerate(IDS) if r.random() < .35)
                   for _ in range(r.choice([1, 1, 2]))] for k in range(r.choice([1, 1, 2]))] for l in locales}
    mode = r.choice(["loader", "loader", "class", "function", "step", "step", "file"])
    ctx = dict(layout=layout, locales=locales, mode=mode)
    fault = Faults()
    trip = fault.wrap(lambda: None)

    def build(trip):
        class Loader(AbstractResourceLoader):
            def resources(self, locale, ids):
                if mode == "loader":
                    trip()
                for texts in layout[locale]:
                    if mode == "loader":
                        trip()
                    yield [FluentResource(t) for t in texts]

        class B(FluentBundle):
            def __init__(self, *a, **k):
                if mode == "class":
                    trip()
                super().__init__(*a, **k)

            def add_resource(self, *a, **k):
                if mode == "class":
                    trip()
                super().add_resource(*a, **k)

        def f(x):
            if mode == "function":
                trip()
            return x
        return FluentLocalization(locales, ["x.ftl"], Loader(), bundle_class=B, functions={"F": f})

    def ask(loc, mid):
        return loc.format_value(mid, {"x": 1})
    plain = build(lambda: None)
    requests = IDS + ["unknown"]
    alone = {i: ask(plain, i) for i in requests}
    if mode == "file":
        return files(case, obs, r, locales, ctx)
    loc = build(trip)
    root = env.REPO.rstrip("/")
    # inside what loading and formatting use
    inner = (root + "/fluent.syntax/", root + "/fluent.runtime/fluent/runtime/bundle.py", root + "/fluent.runtime/fluent/runtime/resolver.py")
    for _ in range(5):
        mid = r.choice(requests)
        if mode == "step":
            hit = inject(obs, r, lambda: ask(loc, mid), "format_value", ctx, n=r.choice([20, 400, 2000]), prefixes=inner)
        else:
            kind = r.choice(["interrupt", "memory", "exit", "other"])
            fault.left, fault.exc = r.randrange(5), KINDS[kind]("injected") if kind != "other" else r.choice([OSError, ValueError, KeyError, RuntimeError])("injected")
            hit = False
            try:
                ask(loc, mid)
                hit = fault.left is None
                obs.check(not hit or mode == "function" and kind in ("memory", "other"), "an exception did not reach the caller", kind=kind, request=mid, **ctx)
            except BaseException as e:
                if e is not fault.exc:
                    raise
                hit = True
            fault.left = None
            obs.nontrivial(("localization", mode, kind, mid, len(locales), hit))
        if not hit:
            continue
        obs.count("loc_interrupted")
        obs.count("loc_by_" + mode)
        for other in [mid] + r.sample(requests, 2):
            f = lambda: ask(loc, other)
            obs.eq(elsewhere(obs, f, "format_value", ctx) if r.random() < .3 else f(), alone[other], "after an interrupted request a localization answers differently", interrupted=mid, request=other, **ctx)
            obs.count("asked_after")
            if r.random() < .4:
                break
    for mid in requests:
        obs.eq(ask(loc, mid), alone[mid], "after interrupted requests a localization answers differently", request=mid, **ctx)
    obs.count("localizations")


def files(case, obs, r, locales, ctx):
    """A file that cannot be read is reported at every request that needs it, and used once it can."""
    with tempfile.TemporaryDirectory(prefix="c43-") as d:
        for l, parts in ctx["layout"].items():
            for name, text in zip(("x", "y"), parts[0] + [""]):
                os_write(d, l, name, text)
        make = lambda: FluentLocalization(locales, ["x.ftl", "y.ftl"], FluentResourceLoader(d + "/{locale}"), functions={"F": lambda x: x})
        ask = lambda loc, mid: loc.format_value(mid, {"x": 1})
        plain = make()
        alone = {i: ask(plain, i) for i in IDS + ["unknown"]}
        bad = r.choice(locales)
        path = f"{d}/{bad}/x.ftl"
        good = open(path, "rb").read()
        with open(path, "wb") as f:
            f.write(good + b"z = \xff\xfe\n")
        loc = make()
        failed = 0
        mids = [r.choice(IDS + ["unknown"]) for _ in range(4)]
        for mid in mids:
            fresh = None
            with contextlib.suppress(UnicodeDecodeError):
                fresh = ask(make(), mid)
            try:
                got = ask(loc, mid)
            except UnicodeDecodeError:
                got = None
            failed += got is None
            obs.eq(got, fresh, "an undecodable file is reported by a fresh localization, but not by one used before", request=mid, before=mids, bad=bad, **ctx)
        with open(path, "wb") as f:
            f.write(good)
        for mid in alone:
            obs.eq(ask(loc, mid), alone[mid], "a file that was repaired is not used", request=mid, bad=bad, **ctx)
        obs.count("loc_by_file", failed)
        obs.nontrivial(("file", len(locales), bad, failed))


def os_write(d, l, name, text):
    import os
    os.makedirs(f"{d}/{l}", exist_ok=True)
    with open(f"{d}/{l}/{name}.ftl", "w", encoding="utf-8", newline="") as f:
        f.write(text)


# ------------------------------------------------------------------- syntax
def tokens_of(lexer, s):
    return [(str(t), v) for t, v in lexer.get_tokens(s)]


def syntax(case, obs):
    srcs = case["srcs"]
    r = random.Random(case["seed"])
    ctx = dict(sources=srcs)

    class V(Visitor):
        def __init__(self):
            self.seen = []

        def generic_visit(self, node):
            self.seen.append(type(node).__name__)
            trip()
            super().generic_visit(node)

    class T(Transformer):
        def visit_Identifier(self, node):
            trip()
            node.name += "-x"
            return node

        def visit_Comment(self, node):
            trip()
            return None

    def convert(d):
        trip()
        return {**d, "seen": True}
    fault = Faults()
    trip = fault.wrap(lambda: None)
    spans = r.random() < .7
    parser, ser = FluentParser(spans), FluentSerializer(with_junk=True)
    visitor, transformer = V(), T()
    trees = [FluentParser(spans).parse(s) for s in srcs]
    copies = [FluentParser(spans).parse(s) for s in srcs]
    plain = [json.dumps(J(t)) for t in trees]

    def visited(v, k):
        v.seen.clear()
        v.visit(trees[k])
        return list(v.seen)
    ops = {
        "parse": (lambda k: json.dumps(J(parser.parse(srcs[k]))), lambda k: json.dumps(J(FluentParser(spans).parse(srcs[k])))),
        "parse_entry": (lambda k: json.dumps(J(parser.parse_entry(srcs[k]))), lambda k: json.dumps(J(FluentParser(spans).parse_entry(srcs[k])))),
        "module parse": (lambda k: json.dumps(J(parse(srcs[k]))), None),
        "serialize": (lambda k: ser.serialize(trees[k]), lambda k: FluentSerializer(with_junk=True).serialize(trees[k])),
        "module serialize": (lambda k: serialize(trees[k]), None),
        "visit": (lambda k: visited(visitor, k), lambda k: visited(V(), k)),
        "transform": (lambda k: json.dumps(J(transformer.visit(trees[k].clone()))), lambda k: json.dumps(J(T().visit(trees[k].clone())))),
        "clone": (lambda k: json.dumps(J(trees[k].clone())), None),
        "to_json": (lambda k: json.dumps(trees[k].to_json()), None),
        "to_json with function": (lambda k: json.dumps(trees[k].to_json(convert)), None),
        "from_json": (lambda k: json.dumps(J(FTL.from_json(json.loads(plain[k])))), None),
        "equals": (lambda k: (trees[k].equals(copies[k]), trees[k].equals(trees[(k + 1) % 3])), None),
    }
    if spans is False:
        del ops["module parse"]
    want, steps = {}, {}
    for name, (f, fresh) in ops.items():
        for k in range(3):
            with Steps(calls=True) as st:
                want[name, k] = (fresh or f)(k)
            steps[name, k] = st.n
    for _ in range(14):
        name, k = r.choice(list(ops)), r.randrange(3)
        f = ops[name][0]
        if name in ("visit", "transform", "to_json with function") and r.random() < .6:
            fault.left, fault.exc = r.randrange(8), r.choice([Interrupt, ValueError, MemoryError, AttributeError, TypeError])("injected")
            hit = False
            try:
                f(k)
                obs.check(fault.left is not None, "an exception of a handler did not reach the caller", call=name, tree=k, exception=repr(fault.exc), **ctx)
            except BaseException as e:
                if e is not fault.exc:
                    raise
                hit = True
            fault.left = None
            obs.count("by_handler", hit)
        else:
            hit = inject(obs, r, lambda: f(k), name, ctx, n=steps[name, k])
        if not hit:
            continue
        obs.count("syntax_interrupted")
        obs.eq([json.dumps(J(t)) for t in trees], plain, "an interrupted call changed the tree it was given", call=name, tree=k, **ctx)
        obs.eq(f(k), want[name, k], "after an interrupted call the same call gives another result", call=name, source=k, **ctx)
        other, j = r.choice(list(ops)), r.randrange(3)
        g = lambda: ops[other][0](j)
        obs.eq(elsewhere(obs, g, other, ctx) if r.random() < .15 else g(), want[other, j], "after an interrupted call another call gives another result", interrupted=name, call=other, source=j, **ctx)
        obs.count("called_after", 2)


def tokens(case, obs):
    srcs = case["srcs"]
    r = random.Random(case["seed"])
    ctx = dict(sources=srcs)
    lexer = FluentLexer()
    want, steps = [], []
    for s in srcs:
        with Steps(calls=True) as st:
            want.append(tokens_of(FluentLexer(), s))
        steps.append(st.n)
    for _ in range(10):
        k = r.randrange(3)
        if r.random() < .3:
            it = iter(lexer.get_tokens(srcs[k]))
            for _ in range(r.randrange(6)):
                next(it, None)
            if r.random() < .5:
                it.close()
            del it
            obs.count("abandoned")
        elif not inject(obs, r, lambda: tokens_of(lexer, srcs[k]), "get_tokens", ctx, n=steps[k]):
            continue
        for j in (k, r.randrange(3)):
            f = lambda: tokens_of(lexer, srcs[j])
            obs.eq(elsewhere(obs, f, "get_tokens", ctx) if r.random() < .15 else f(), want[j], "after interrupted highlighting the tokens differ", interrupted=k, source=j, **ctx)
            obs.count("highlighted_after")


@contextlib.contextmanager
def restored():
    limit, c = sys.getrecursionlimit(), decimal.getcontext().copy()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.setrecursionlimit(limit)
        decimal.setcontext(c)


def run(case, obs):
    """A single step at which an interruption does harm - the start of a
    function that puts something back - is nothing an implementation can avoid:
    a violation counts if it shows for neighbouring steps as well."""
    global SHIFT
    body = {"format": formatting, "add": adding, "localization": localization, "syntax": syntax, "tokens": tokens}[case["kind"]]
    try:
        with restored():
            return body(case, obs)
    except Violation as v:
        first = v
    again = 0
    try:
        for SHIFT in (1, -1, 2, -2, 3, -3, 4, -4):
            try:
                with restored():
                    body(case, type(obs)())
            except Violation:
                again += 1
                if again >= 2:
                    raise first
    finally:
        SHIFT = 0
    obs.count("single_step")
