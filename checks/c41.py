"""C41: what an application overrides or adds where the documentation invites it is used."""
from .rt import *
from .c26 import text, IDS
import copy
import os
import random
import tempfile
from fluent.runtime import FluentLocalization, AbstractResourceLoader, FluentResourceLoader
from fluent.syntax.ast import BaseNode
from fluent.syntax.visitor import Visitor, Transformer

ID = "C41"
RULE = ("localizations whose class finds or makes its bundles itself, bundle classes with their own lookup, storing and formatting, loaders with their own path rule, "
        "and trees with the application's node classes, under random resources and histories of requests; oracles: the fallback model over what the application "
        "supplied (changed between requests), a model of every override, files at the places the rule gives, and an independent walk, copy and comparison of trees; "
        "distinct by (kind, contents, request)")
QUICK, THOROUGH = 6000, 250000
NEED = {"own_bundles": 3000, "own_create": 1700, "own_class": 2000, "own_paths": 500, "own_nodes": 2000, "changed_between": 800, "lazy": 900,
        "aliases": 150, "wrapped": 580, "swapped": 150, "namesakes": 150, "mixins": 150,  "overriding": 150, "own_terms": 25, "evaluated": 600, "inherited_handlers": 460, "pruned": 470,
        "delegated": 80, "no_fallback": 500, "fell_back": 500, "type_told_apart": 630}
MIN_NONTRIVIAL = 4000
LOCS = ["en-US", "de", "fr", "ja", "pl"]
KINDS = ["bundles", "bundles", "create", "class", "class", "paths", "nodes", "nodes"]


def gen(r, i, tier):
    kind = KINDS[i % len(KINDS)]
    case = {"kind": kind, "seed": r.getrandbits(32), "args": r.choice([None, {}, {"x": 1}, {"x": 5}]), "iso": r.random() < .4, "fn": r.random() < .5}
    if kind == "bundles":
        case["bundles"] = [(r.choice(LOCS), [text(r, f"{k}/{j}") for j in range(r.choice([1, 1, 2, 3]))]) for k in range(r.choice([0, 1, 1, 2, 3, 6]))]
        case["steps"] = []
        for _ in range(r.randint(1, 10)):
            x = r.random()
            if x < .2 and case["bundles"]:
                case["steps"].append(("add", r.randrange(len(case["bundles"])), text(r, "later"), r.random() < .5))
            elif x < .3:
                case["steps"].append(("insert", r.randint(0, 3), r.choice(LOCS), text(r, "inserted")))
            elif x < .37:
                case["steps"].append(("drop",))
            else:
                case["steps"].append(("ask", r.choice(IDS * 3 + ["nope", "-a", ""])))
        case["steps"].append(("ask", r.choice(IDS)))
    elif kind in ("create", "class"):
        locs = r.sample(LOCS, r.choice([1, 2, 2, 3]))
        case["locs"] = locs
        case["layout"] = {l: [[text(r, f"{l}/{k}/{j}") for j in range(r.choice([1, 1, 2]))] for k in range(r.choice([0, 1, 1, 2]))] for l in locs}
        case["brand"] = r.choice(["", "-brand = Foxy { $x }\nbranded = { -brand }\n", "e = e from the class\n-a = own term\n"])
        case["over"] = sorted(k for k in ("alias", "swap", "wrap", "override", "hide") if r.random() < .5)
        case["reqs"] = [r.choice(IDS * 2 + ["branded", "branded", "nope", "alias-a", "alias-b", "alias-c", "alias-nope"]) for _ in range(r.randint(1, 8))]
    elif kind == "paths":
        locs = r.sample(LOCS + ["en-GB"], r.choice([1, 2, 3]))
        case["locs"] = locs
        case["rule"] = r.choice(["lower", "underscore", "language", "map", "suffix"])
        case["roots"] = r.choice([["r0/{locale}"], ["r0/{locale}", "r1/{locale}"], ["{locale}/deep/er", "r1"], ["r0/x-{locale}-y"]])
        case["ids"] = r.choice([["a.ftl"], ["a.ftl", "b.ftl"], ["sub/a.ftl", "b.{locale}.ftl"]])
        case["texts"] = [text(r, f"file{k}") for k in range(6)]
        case["exists"] = [r.random() < .7 for _ in range(24)]
        case["common"] = r.choice([None, None, text(r, "common")])
        case["reqs"] = [r.choice(IDS + ["nope"]) for _ in range(r.randint(1, 6))]
    else:
        g = G.Gen(r, size=.7)
        case["src"] = G.render(g.model(r.choice([0, 1, 2]), entries=r.randint(1, 5)), r)
        case["spans"] = r.random() < .5
    return case


def reference(locale, iso, fn, texts, trees=()):
    ref = RR.Bundle(locale, iso, {"F": lambda p, n: "custom"} if fn else None)
    for t in texts:
        ref.add(RP.strip_spans(RP.parse(t)))
    return ref


def answer(refs, mid, args, lookup=lambda ref, mid: ref.messages.get(mid)):
    rargs = {k: RR.Num(v) for k, v in (args or {}).items()}
    for j, ref in enumerate(refs):
        e = lookup(ref, mid)
        if e is not None and e["value"] is not None:
            return ref.format(e["value"], rargs)[0], j + 1
    return None, len(refs)


def run(case, obs):
    {"bundles": own_bundles, "create": own_create, "class": own_class, "paths": own_paths, "nodes": own_nodes}[case["kind"]](case, obs)


def own_bundles(case, obs):
    """The documented subclass: it overrides _bundles, and has no loader."""
    fns = {"F": lambda: "custom"} if case["fn"] else None
    pulls = []

    class Local(FluentLocalization):
        def __init__(self, contents):
            super().__init__(["en-US"], [], None, functions=fns, use_isolating=case["iso"])
            self.contents = contents

        def _bundles(self):
            for locale, texts in self.contents:
                pulls.append(locale)
                b = self._create_bundle([locale])
                for t, over in texts:
                    b.add_resource(FluentResource(t), allow_overrides=over)
                yield b

    contents = [[l, [(t, False) for t in texts]] for l, texts in case["bundles"]]
    loc = Local(contents)
    changed = False
    for n, step in enumerate(case["steps"]):
        if step[0] == "add":
            contents[step[1] % len(contents)][1].append(step[2:]) if contents else None
            changed = True
        elif step[0] == "insert":
            contents.insert(step[1], [step[2], [(step[3], False)]])
            changed = True
        elif step[0] == "drop":
            del contents[:1]
            changed = True
        else:
            refs = []
            for l, texts in contents:
                ref = RR.Bundle(l, case["iso"], {"F": lambda p, k: "custom"} if fns else None)
                for t, over in texts:
                    ref.add(RP.strip_spans(RP.parse(t)), over)
                refs.append(ref)
            want, used = answer(refs, step[1], case["args"])
            del pulls[:]
            got = loc.format_value(step[1], case["args"]) if case["args"] is not None or n % 2 else loc.format_value(step[1])
            obs.eq(got, step[1] if want is None else want, "not formatted with the bundles of the application's class", case=case, step=n)
            obs.check(pulls == [l for l, _ in contents][:used], "bundles were asked for out of order, twice, or beyond the one that has the message",
                      asked=pulls, have=[l for l, _ in contents], needed=used, case=case, step=n)
            obs.count("own_bundles")
            obs.count("changed_between", changed)
            obs.count("lazy", used < len(refs))
            obs.count("fell_back", used > 1 and want is not None)
            obs.count("no_fallback", want is None)
            obs.nontrivial(("bundles", repr(contents), step[1]))


class Given(AbstractResourceLoader):
    def __init__(self, layout):
        self.layout = layout

    def resources(self, locale, ids):
        for texts in self.layout[locale]:
            yield [FluentResource(t) for t in texts]


def own_create(case, obs):
    """The class overrides how a bundle is made."""
    fns = {"F": lambda: "custom"} if case["fn"] else None
    made = []

    class Local(FluentLocalization):
        def _create_bundle(self, locales):
            made.append(list(locales))
            b = super()._create_bundle(locales)
            if case["brand"]:
                b.add_resource(FluentResource(case["brand"]))
            return b
    loc = Local(list(case["locs"]), ["a.ftl"], Given(case["layout"]), use_isolating=case["iso"], functions=fns)
    spec = [(i, l, texts) for i, l in enumerate(case["locs"]) for texts in case["layout"][l]]
    refs = [reference(l, case["iso"], fns, [case["brand"]] + texts) for _, l, texts in spec]
    reached = 0
    for n, mid in enumerate(case["reqs"]):
        want, used = answer(refs, mid, case["args"])
        got = loc.format_value(mid, case["args"])
        obs.eq(got, mid if want is None else want, "not formatted with the bundle the application's class made", case=case, request=mid)
        reached = max(reached, used)
        obs.check(made == [case["locs"][i:] for i, _, _ in spec][:reached], "the application's class was asked for other bundles",
                  made=made, want=[case["locs"][i:] for i, _, _ in spec][:reached], case=case)
        obs.count("own_create")
        obs.count("own_terms", mid == "branded" and "Foxy" in got)
        if len(repr(case)) < 400:
            obs.sample(case)
        obs.nontrivial(("create", repr(case["layout"]), case["brand"], mid))


def own_class(case, obs):
    """The bundles are of the application's class."""
    over = case["over"]

    def other_id(mid):
        if "alias" in over:
            mid = mid.replace("alias-", "")
        if "swap" in over:
            mid = {"a": "b", "b": "a", "c": "d", "d": "nope"}.get(mid, mid)
        return mid

    class Bundle(FluentBundle):
        if "alias" in over or "swap" in over:
            def has_message(self, message_id):
                return super().has_message(other_id(message_id))

            def get_message(self, message_id):
                return super().get_message(other_id(message_id))
        if "wrap" in over:
            def format_pattern(self, pattern, args=None):
                val, errors = super().format_pattern(pattern, dict(args or {}, x=7))
                return f"<{val}>", errors
        if "override" in over or "hide" in over:
            def add_resource(self, resource, allow_overrides=False):
                body = [e for e in resource.body if not ("hide" in over and isinstance(e, FTL.Message) and e.id.name == "b")]
                return super().add_resource(FTL.Resource(body), allow_overrides="override" in over)
    fns = {"F": lambda: "custom"} if case["fn"] else None
    loc = FluentLocalization(list(case["locs"]), ["a.ftl"], Given(case["layout"]), use_isolating=case["iso"], functions=fns, bundle_class=Bundle)
    refs = []
    for l in case["locs"]:
        for texts in case["layout"][l]:
            ref = RR.Bundle(l, case["iso"], {"F": lambda p, n: "custom"} if fns else None)
            for t in texts:
                tree = RP.strip_spans(RP.parse(t))
                if "hide" in over:
                    tree = dict(tree, body=[e for e in tree["body"] if not (e["type"] == "Message" and e["id"]["name"] == "b")])
                ref.add(tree, "override" in over)
            refs.append(ref)
    for mid in case["reqs"]:
        args = dict(case["args"] or {}, x=7) if "wrap" in over else case["args"]
        look = lambda ref, m: ref.messages.get(other_id(m))
        want, used = answer(refs, mid, args, look)
        if want is not None and "wrap" in over:
            want = f"<{want}>"
        got = loc.format_value(mid, case["args"])
        obs.eq(got, mid if want is None else want, "not formatted by the application's bundle class", case=case, request=mid, overrides=over)
        obs.count("own_class")
        obs.count("aliases", "alias" in over and mid.startswith("alias-") and want is not None)
        obs.count("swapped", "swap" in over and mid in ("a", "b", "c") and want is not None)
        obs.count("wrapped", "wrap" in over and want is not None)
        obs.count("overriding", "override" in over and want is not None and any(len(t) > 1 for l in case["layout"].values() for t in l))
        obs.nontrivial(("class", repr(case["layout"]), mid, tuple(over)))


RULES = {"lower": str.lower, "underscore": lambda l: l.replace("-", "_"), "language": lambda l: l.split("-")[0],
         "map": lambda l: {"en-US": "english", "de": "german", "fr": "{weird}"}.get(l, "other"), "suffix": lambda l: l + ".d"}


def own_paths(case, obs):
    """The loader's rule for paths is overridden."""
    rule = RULES[case["rule"]]

    class Loader(FluentResourceLoader):
        def localize_path(self, path, locale):
            return path.replace("{locale}", rule(locale))

        def resources(self, locale, ids):
            for resources in super().resources(locale, ids):
                if case["common"] is not None:
                    resources = [*resources, FluentResource(case["common"])]
                yield resources
    with tempfile.TemporaryDirectory(prefix="verif-c41-") as top:
        have, k = {}, 0
        for l in case["locs"]:
            for root in case["roots"]:
                for rid in case["ids"]:
                    # the files at the library's own places are not the ones wanted
                    for name, decoy in ((rule(l), False), (l, True)):
                        path = os.path.join(top, root, rid).replace("{locale}", name)
                        if decoy and (name == rule(l) or path in have) or not case["exists"][k % 24]:
                            k += 1
                            continue
                        k += 1
                        t = "e = decoy\na = decoy\n" if decoy else case["texts"][k % 6]
                        os.makedirs(os.path.dirname(path), exist_ok=True)
                        with open(path, "w", encoding="utf-8", newline="") as f:
                            f.write(t)
                        have[path] = t
        roots = [os.path.join(top, r) for r in case["roots"]]
        loc = FluentLocalization(list(case["locs"]), list(case["ids"]), Loader(roots if len(roots) > 1 or case["iso"] else roots[0]), use_isolating=case["iso"])
        refs = []
        for l in case["locs"]:
            for root in roots:
                paths = [os.path.join(root, rid).replace("{locale}", rule(l)) for rid in case["ids"]]
                texts = [have[p] for p in paths if p in have]
                if texts:
                    refs.append(reference(l, case["iso"], None, texts + ([case["common"]] if case["common"] is not None else [])))
                    obs.count("delegated", case["common"] is not None)
        for mid in case["reqs"]:
            want, used = answer(refs, mid, case["args"])
            got = loc.format_value(mid, case["args"])
            obs.eq(got, mid if want is None else want, "not read by the application's rule for paths", case=case, request=mid, files=sorted(have))
            obs.count("own_paths", bool(refs))
            obs.nontrivial(("paths", case["rule"], repr(have), mid))


# ---- node classes of the application
class Note(FTL.SyntaxNode):
    def __init__(self, label, child=None, children=None, pair=(), **kwargs):
        super().__init__(**kwargs)
        self.label = label
        self.child = child
        self.children = children or []
        self.pair = pair


class Shout(FTL.TextElement):
    pass


Namesake = type("TextElement", (FTL.TextElement,), {"shout": lambda self: self.value.upper()})
OWN = (Note, Shout, Namesake)


class Bare(BaseNode):
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


def nodes(x):
    if isinstance(x, BaseNode):
        yield x
        for v in vars(x).values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def image(x, spans=True):
    if isinstance(x, BaseNode):
        return (type(x), [(k, image(v, spans)) for k, v in sorted(vars(x).items()) if spans or k != "span"])
    if isinstance(x, (list, tuple)):
        return (type(x), [image(v, spans) for v in x])
    return x


def jsonlike(x):
    if isinstance(x, BaseNode):
        return {**{k: jsonlike(v) for k, v in vars(x).items()}, "type": type(x).__name__}
    if isinstance(x, (list, tuple)):
        return [jsonlike(v) for v in x]
    return x


def own_nodes(case, obs):
    r = random.Random(case["seed"])
    tree = FluentParser(with_spans=case["spans"]).parse(case["src"])
    plain = tree.clone()
    # put the application's nodes into patterns
    put = 0
    texts = {}
    for p in [n for n in nodes(tree) if isinstance(n, FTL.Pattern)]:
        for k, el in enumerate(list(p.elements)):
            if isinstance(el, FTL.TextElement) and r.random() < .6:
                x = r.random()
                if x < .15:
                    new = Namesake(el.value, span=el.span)
                    obs.count("namesakes")
                elif x < .3:
                    new = Shout(el.value, span=el.span)
                elif x < .8:
                    new = Note(r.choice(["n", "", None, 3]), child=r.choice([None, FTL.TextElement(el.value), el]),
                               children=[FTL.Identifier("i%d" % j) for j in range(r.randint(0, 3))] + r.choice([[], ["text"], [None]]),
                               pair=r.choice([(), (1, "two"), ("x",)]), **({"span": el.span} if r.random() < .5 else {}))
                else:
                    new = Bare(label=el.value, many=[Note("in", child=FTL.Identifier("deep"))], nothing=None)
                p.elements[k] = new
                texts[id(new)] = el.value
                put += 1
    if not put:
        return
    ctx = dict(source=case["src"])
    before = image(tree)
    want = list(nodes(tree))

    # visitors: their handlers are found by the class's name, also when inherited
    seen, generic = [], []

    def note(self, node):
        seen.append(node)
        self.generic_visit(node)

    def leaf(self, node):
        seen.append(node)

    def bare(self, node):
        seen.append(node)
        Visitor.generic_visit(self, node)

    def everything(self, node):
        generic.append(node)
        Visitor.generic_visit(self, node)
    # each handler in one of a line of classes, with another above it that it overrides; or in a mixin that is no visitor
    handlers = {"visit_Note": note, "visit_Shout": leaf, "visit_TextElement": leaf, "visit_Bare": bare, "generic_visit": everything}
    depth = r.randint(1, 4)
    at = {k: r.randrange(depth) for k in handlers}

    def wrong(self, node):
        raise Violation("an overridden handler was called", **ctx)
    cls, mixin = Visitor, {}
    for level in range(depth):
        body = {k: h for k, h in handlers.items() if at[k] == level}
        if r.random() < .3:
            # an inherited method
            body.update({k: wrong for k in handlers if at[k] > level})
        if r.random() < .3 and level == depth - 1:
            mixin = {k: body.pop(k) for k in list(body)}
            obs.count("mixins", bool(mixin))
        bases = (type("Mixin", (), mixin), cls) if mixin else (cls,)
        cls = type("Level%d" % level, bases, body)
    if r.random() < .3:
        cls = type("Last", (cls,), {})
    cls().visit(tree)
    leaves = lambda n: type(n).__name__ in ("Shout", "TextElement")
    inside = {id(x) for n in want if leaves(n) for v in vars(n).values() for x in nodes(v)}
    exp = [n for n in want if isinstance(n, (Note, Bare)) or leaves(n)]
    obs.check(len(seen) == len(exp) and all(a is b for a, b in zip(seen, exp)), "handlers for the application's nodes are not called for each of them", **ctx)
    exp = [n for n in want if not leaves(n) and not isinstance(n, Bare) and id(n) not in inside]
    if not case["spans"]:
        obs.check(len(generic) == len(exp) and all(a is b for a, b in zip(generic, exp)), "the application's generic_visit does not see each node once", **ctx)
    obs.count("inherited_handlers", depth > 1)
    # "to generally define which nodes not to descend in to, overload generic_visit"
    stop = r.choice([FTL.Pattern, FTL.SelectExpression, Note, FTL.Message, FTL.CallArguments])
    pruned = []

    class Prune(Visitor):
        def generic_visit(self, node):
            pruned.append(node)
            if not isinstance(node, stop):
                super().generic_visit(node)
    Prune().visit(tree)

    def above(x):
        if isinstance(x, BaseNode):
            yield x
            if not isinstance(x, stop):
                for v in vars(x).values():
                    yield from above(v)
        elif isinstance(x, list):
            for v in x:
                yield from above(v)
    exp = list(above(tree))
    obs.check(len(pruned) == len(exp) and all(a is b for a, b in zip(pruned, exp)), "a visitor that does not descend into some nodes sees others", stop=stop.__name__, **ctx)
    obs.count("pruned", len(exp) < len(want))
    obs.check(image(tree) == before, "a visitor changed the tree", **ctx)

    # clones, comparison, JSON
    c = tree.clone()
    obs.check(image(c) == before and image(tree) == before, "a clone of a tree with the application's nodes differs from it", **ctx)
    mine = {id(n) for n in nodes(tree)}
    obs.check(not any(id(n) in mine for n in nodes(c)), "a clone shares nodes with the tree", **ctx)
    lists = {id(v) for n in nodes(tree) for v in vars(n).values() if isinstance(v, list)}
    obs.check(not any(id(v) in lists for n in nodes(c) for v in vars(n).values() if isinstance(v, list)), "a clone shares lists with the tree", **ctx)
    obs.check(tree.equals(c) and c.equals(tree) and not tree.equals(plain) and not plain.equals(tree), "comparison is wrong for the application's nodes", **ctx)
    target = r.choice([n for n in nodes(c) if isinstance(n, (*OWN, Bare))])
    if isinstance(target, Note):
        k = r.choice(["label", "child", "children", "pair", "class"])
        if k == "children":
            target.children.append(FTL.Identifier("more"))
        elif k == "class":
            target.__class__ = type("Note", (Note,), {})
        elif k == "child":
            target.child = FTL.NumberLiteral("987")
        else:
            setattr(target, k, ("changed",))
    elif isinstance(target, FTL.TextElement):
        if r.random() < .5:
            target.__class__ = FTL.TextElement
        else:
            target.value += "!"
    else:
        target.many[0].child.name = "other"
    obs.check(not tree.equals(c) and not c.equals(tree), "trees that differ in the application's nodes compare equal", **ctx)
    obs.count("type_told_apart")
    obs.eq(tree.to_json(), jsonlike(tree), "wrong JSON data for the application's nodes", **ctx)
    obs.check(json.loads(str(tree)) == json.loads(json.dumps(jsonlike(tree))), "wrong JSON text for the application's nodes", **ctx)
    tagged = tree.to_json(lambda d: ("n", d["type"], d))

    def count(x):
        if isinstance(x, tuple):
            return 1 + sum(count(v) for v in x[2].values())
        return sum(count(v) for v in x) if isinstance(x, list) else 0
    obs.check(count(tagged) == len(want), "the function given to to_json is not applied to each node once", got=count(tagged), want=len(want), **ctx)

    # evaluating the application's nodes gives the library's tree back
    class Evaluate(Transformer):
        def visit_Note(self, node):
            return FTL.TextElement(texts[id(node)])
        visit_Shout = visit_Note
        visit_Bare = visit_Note

        def visit_TextElement(self, node):
            return self.visit_Note(node) if id(node) in texts else node
    out = Evaluate().visit(tree)
    obs.check(out is tree and tree.equals(plain) and plain.equals(tree), "a transformer did not replace the application's nodes", **ctx)
    obs.eq(FluentSerializer().serialize(tree), FluentSerializer().serialize(plain), "the transformed tree serializes differently", **ctx)
    obs.count("evaluated")
    obs.count("own_nodes", put)
    obs.nontrivial(("nodes", case["src"], put))
