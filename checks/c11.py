"""C11: visitors see every node once; transformers edit exactly what they say."""
from .common import *
import random
from fluent.syntax.ast import BaseNode
from fluent.syntax.visitor import Visitor, Transformer

ID = "C11"
RULE = ("trees of random texts; event logs of visitors against an independent field-order walk; transformers with random keep / replace / "
        "remove plans against an independent model edit; distinct by (tree, plan)")
QUICK, THOROUGH = 20000, 150000
NEED = {"visits": 100000, "removed_list": 2000, "removed_single": 1500, "replaced": 4000, "kept": 10000, "partial_visitors": 2000}
MIN_NONTRIVIAL = 3000
TYPES = ["Resource", "Message", "Term", "Attribute", "Pattern", "TextElement", "Placeable", "StringLiteral", "NumberLiteral",
         "MessageReference", "TermReference", "VariableReference", "FunctionReference", "SelectExpression", "Variant", "CallArguments",
         "NamedArgument", "Identifier", "Comment", "GroupComment", "ResourceComment", "Junk", "Annotation", "Span"]


def gen(r, i, tier):
    if r.random() < .6:
        g = G.Gen(r, size=.7)
        s = G.render(g.model(r.choice([0, 1, 2]), entries=r.randint(1, 5)), r)
    else:
        s = T.text(r)
    return (s, r.random() < .5, r.getrandbits(32))


def fixed(tier):
    # an annotation whose arguments hold None (repaired: 1e432be)
    return [('a = {"\\', True, k) for k in range(6)] + [('a = {"\\', False, k) for k in range(2)]


def feedback(case):
    T.fb(case[0])


def order(x):
    if isinstance(x, BaseNode):
        yield x
        for v in vars(x).values():
            yield from order(v)
    elif isinstance(x, list):
        for v in x:
            yield from order(v)


def deep(x):
    if isinstance(x, BaseNode):
        return [type(x).__name__, {k: deep(v) for k, v in vars(x).items()}]
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


def run(case, obs):
    s, spans, seed = case
    r = random.Random(seed)
    t = FluentParser(with_spans=spans).parse(s)
    before = deep(t)
    want = list(order(t))
    # 1. generic visitor: every node once, in order
    log = []
    class All(Visitor):
        def generic_visit(self, node):
            log.append(node)
            super().generic_visit(node)
    All().visit(t)
    obs.count("visits", len(log))
    obs.check(len(log) == len(want) and all(a is b for a, b in zip(log, want)), "visitor does not see every node once in order",
              got=[type(n).__name__ for n in log][:40], want=[type(n).__name__ for n in want][:40], source=s)
    # 2. visitor with handlers for some types, which may or may not descend
    chosen = r.sample(TYPES, r.randint(1, 6))
    descend = {c: r.random() < .5 for c in chosen}
    log2 = []
    def handler(name):
        def h(self, node):
            log2.append(("own:" + name, node))
            if descend[name]:
                self.generic_visit(node)
        return h
    def generic(self, node):
        log2.append(("generic", node))
        Visitor.generic_visit(self, node)
    P = type("P", (Visitor,), {**{"visit_" + c: handler(c) for c in chosen}, "generic_visit": generic})
    P().visit(t)
    exp = []
    def model(x):
        if isinstance(x, list):
            for v in x:
                model(v)
        elif isinstance(x, BaseNode):
            name = type(x).__name__
            if name in descend:
                exp.append(("own:" + name, x))
                if not descend[name]:
                    return
                exp.append(("generic", x))
            else:
                exp.append(("generic", x))
            for v in vars(x).values():
                model(v)
    model(t)
    obs.count("partial_visitors")
    obs.check(len(exp) == len(log2) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(exp, log2)),
              "handlers are not called as documented", got=[a for a, _ in log2][:30], want=[a for a, _ in exp][:30], source=s)
    obs.check(deep(t) == before, "a visitor changed the tree", source=s)
    # a list may be visited too
    log3 = []
    class A3(Visitor):
        def generic_visit(self, node):
            log3.append(node)
            super().generic_visit(node)
    A3().visit(t.body)
    obs.check([id(x) for x in log3] == [id(x) for x in want if x is not t and x is not t.span], "visiting a list misses nodes")
    # 3. transformer with a random plan
    handled = r.sample([x for x in TYPES if x != "Resource"], r.randint(1, 5))
    rate = r.choice([.15, .5, 1.0])
    plan = {}
    for n in want:
        name = type(n).__name__
        if name in handled and r.random() < rate:
            x = r.random()
            plan[id(n)] = "remove" if x < .35 else "replace" if x < .7 else "keep"
    repl = {}
    for n in want:
        if plan.get(id(n)) == "replace":
            repl[id(n)] = n.clone() if r.random() < .5 else FTL.Identifier("replaced")
    calls = []
    def th(self, node):
        p = plan.get(id(node))
        calls.append(node)
        if p == "remove":
            return None
        if p == "replace":
            return repl[id(node)]
        if p == "keep":
            return node
        return self.generic_visit(node)
    X = type("X", (Transformer,), {"visit_" + h: th for h in handled})
    exp_calls = []
    GONE = object()
    def edit(x):
        """Expected deep image after the transformation."""
        if isinstance(x, BaseNode):
            name = type(x).__name__
            if name in handled:
                exp_calls.append(x)
                p = plan.get(id(x))
                if p == "remove":
                    return GONE
                if p == "replace":
                    return deep(repl[id(x)])
                if p == "keep":
                    return deep(x)
            out = {}
            for k, v in vars(x).items():
                if isinstance(v, list):
                    l = []
                    for c in v:
                        e = edit(c)
                        if e is GONE:
                            obs.count("removed_list")
                        else:
                            l.append(e)
                    out[k] = l
                elif isinstance(v, BaseNode):
                    e = edit(v)
                    if e is GONE:
                        obs.count("removed_single")
                    else:
                        out[k] = e
                else:
                    out[k] = v
            return [name, out]
        return x
    expected = edit(t)
    idlists = {id(n): {k: v for k, v in vars(n).items() if isinstance(v, list)} for n in want}
    kept = list(want)
    got = X().visit(t)
    for k, v in plan.items():
        obs.count({"remove": "removed", "replace": "replaced", "keep": "kept"}[v])
    obs.count("kept", len(want) - len(plan))
    obs.check(got is t, "the transformer did not work in place")
    obs.check(len(calls) == len(exp_calls) and all(a is b for a, b in zip(calls, exp_calls)), "transformer handlers not called once per node in order",
              source=s, handled=handled)
    g, w = lax(deep(t)), lax(expected)
    if g != w:
        d = difflist(g, w)
        raise Violation("the transformer did not make exactly the edits asked for", at=d, source=s, handled=handled,
                        plan=[plan[id(n)] + " " + type(n).__name__ for n in kept if id(n) in plan][:20])
    for n in order(t):
        for k, l in vars(n).items():
            if isinstance(l, list) and id(n) in idlists:
                obs.check(l is idlists[id(n)].get(k), "a list was replaced instead of edited in place", node=type(n).__name__)
    if len(want) > 4:
        obs.nontrivial((s, tuple(handled), len(plan)))
        obs.state("plans", (tuple(sorted(handled)), rate))
        if len(s) < 100:
            obs.sample({"text": s, "handled": handled, "plan": sorted(plan.values())})


def lax(x):
    """A removed single child may show as None or as absent."""
    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], dict):
        return [x[0], {k: lax(v) for k, v in x[1].items() if v is not None}]
    if isinstance(x, list):
        return [lax(v) for v in x]
    return x


def difflist(a, b):
    return diff(json.loads(json.dumps(a)), json.loads(json.dumps(b)))
