"""C36: parsers, serializers and highlighters carry nothing over from one call to another."""
from .common import *
from .c27 import Scheduler, together
from fluent.pygments.lexer import FluentLexer
from pygments.token import Token
import threading

ID = "C36"
RULE = ("random histories of calls on shared parser, serializer and lexer objects and on the module's functions: whole files and single entries, with and "
        "without positions, serializing with and without Junk, abandoned highlighting, calls that raise, and results and arguments modified in between by the caller; "
        "one after another, and in 2 to 6 threads interleaved at random source lines; oracle: the result of a fresh object for each call, made beforehand, "
        "and for parsing the reference parser; distinct by history and interleaving")
QUICK, THOROUGH = 2500, 60000
HANG_CPU = 120.0
NEED = {"operations": 12000, "raising": 400, "modified_results": 1500, "repeated_source": 4500, "abandoned": 400, "histories": 1200, "thread_runs": 1500,
        "thread_switches": 10000, "op:parse": 1700, "op:entry": 800, "op:serialize": 1600, "op:serialize_entry": 400, "op:lex": 800, "op:module": 800, "op:edit": 700}
MIN_NONTRIVIAL = 1200


def source(r):
    x = r.random()
    if x < .5:
        g = G.Gen(r, size=.4)
        s = G.render(g.model(r.choice([0, 1, 1, 2]), entries=r.randint(1, 3)), r)
    elif x < .8:
        g = G.Gen(r, size=.3)
        s = "".join(T.pieces(r, g, r.randint(1, 4)))
    else:
        s = T.text(r)
    return s[:1500]


def gen(r, i, tier):
    srcs = [source(r) for _ in range(r.choice([1, 2, 4]))]
    if r.random() < .5:
        # nearly the same text, the same length
        s = r.choice(srcs)
        if s:
            k = r.randrange(len(s))
            srcs.append(s[:k] + r.choice("ab {}\n#.") + s[k + 1:])
    nthreads = r.choice([2, 3, 4, 6]) if i % 3 == 0 else 1
    ops = [[(r.choice(["parse"] * 4 + ["entry"] * 2 + ["serialize"] * 4 + ["serialize_entry", "lex", "lex", "module", "module", "lexpart", "bad", "edit", "edit"]),
             r.randrange(len(srcs)), r.random() < .5, r.random()) for _ in range(r.randint(3, 12) if nthreads == 1 else r.randint(1, 4))] for _ in range(nthreads)]
    if nthreads > 1 and r.random() < .5:
        ops = [ops[0]] * nthreads
    if nthreads == 1 and r.random() < .006:
        # the same objects used over and over
        ops = [[r.choice(ops[0]) for _ in range(r.choice([140, 300, 1100]))]]
    return {"srcs": srcs, "ops": ops, "seed": r.getrandbits(32), "p": r.choice([.02, .1])}


def feedback(case):
    for s in case["srcs"]:
        T.fb(s)


class Objects:
    """The objects under test: shared, or fresh for every call."""
    def __init__(self, shared):
        if shared:
            self.ps = {w: FluentParser(with_spans=w) for w in (True, False)}
            self.ss = {j: FluentSerializer(with_junk=j) for j in (True, False)}
            self.lexer = FluentLexer()
        self.shared = shared

    def parser(self, w):
        return self.ps[w] if self.shared else FluentParser(with_spans=w)

    def serializer(self, j):
        return self.ss[j] if self.shared else FluentSerializer(with_junk=j)

    def lex(self):
        return self.lexer if self.shared else FluentLexer()


def perform(o, op, src, trees):
    """-> comparable result, and the node it came from, if any"""
    kind, k, flag, x = op
    try:
        if kind == "parse":
            n = o.parser(flag).parse(src)
            return J(n), n
        if kind == "entry":
            n = o.parser(flag).parse_entry(src)
            return J(n), n
        if kind == "serialize":
            return o.serializer(flag).serialize(trees[k]), None
        if kind == "serialize_entry":
            body = trees[k].body
            return (o.serializer(flag).serialize_entry(body[int(x * len(body))]) if body else None), None
        if kind == "lex":
            return [(p, str(t), s) for p, t, s in o.lex().get_tokens_unprocessed(src)], None
        if kind == "lexpart":
            it = o.lex().get_tokens_unprocessed(src)
            return [(p, str(t), s) for (p, t, s), _ in zip(it, range(int(x * 6)))], None
        if kind == "module":
            if flag:
                n = parse(src, with_spans=x < .5)
                return J(n), n
            return serialize(trees[k], with_junk=x < .5), None
        if kind == "edit":
            # the caller changes the tree between two calls
            t = trees[k].clone()
            ser = o.serializer(flag)
            out = [ser.serialize(t)]
            for e in t.body:
                if isinstance(e, (FTL.Message, FTL.Term)):
                    e.id.name += "x"
                    if e.value and e.value.elements and isinstance(e.value.elements[0], FTL.TextElement):
                        e.value.elements[0].value = "changed"
                elif isinstance(e, FTL.BaseComment):
                    e.content = "changed"
            out.append(ser.serialize(t) if o.shared else FluentSerializer(with_junk=flag).serialize(FTL.from_json(t.to_json())))
            del t.body[:1]
            out.append(ser.serialize(t) if o.shared else FluentSerializer(with_junk=flag).serialize(FTL.from_json(t.to_json())))
            return out, None
        # calls that raise
        if x < .3:
            o.parser(flag).parse(None)
        elif x < .5:
            o.parser(flag).parse_entry(None)
        elif x < .8:
            o.serializer(flag).serialize(FTL.Resource([FTL.Comment("c"), FTL.Message(FTL.Identifier("m"), FTL.Pattern([FTL.Placeable(None)]))]))
        else:
            o.serializer(flag).serialize(trees[k].body)
        return "returned", None
    except Exception as e:
        return ("raised", type(e).__name__), None


def spoil(node, r):
    """What a caller may do with the tree it got."""
    for n in [node] + list(getattr(node, "body", [])):
        for k, v in list(vars(n).items()):
            if isinstance(v, list):
                del v[:]
            elif isinstance(v, str):
                setattr(n, k, "spoiled")
            elif isinstance(v, FTL.BaseNode) and k != "span":
                for kk, vv in list(vars(v).items()):
                    if isinstance(vv, str):
                        setattr(v, kk, "spoiled")
                    elif isinstance(vv, list):
                        vv.clear()


def run(case, obs):
    srcs = case["srcs"]
    trees = [FluentParser().parse(s) for s in srcs]
    before = [J(t) for t in trees]
    fresh = Objects(False)
    want = {}
    for ops in case["ops"]:
        for op in ops:
            if op not in want:
                want[op], n = perform(fresh, op, srcs[op[1]], trees)
    shared = Objects(True)
    ctx = dict(history=case["ops"], sources=srcs)
    kept = []
    obs.count("histories")
    if len(case["ops"]) == 1:
        seen = set()
        for i, op in enumerate(case["ops"][0]):
            got, node = perform(shared, op, srcs[op[1]], trees)
            obs.count("operations")
            obs.count("op:" + op[0])
            obs.count("raising", op[0] == "bad")
            obs.count("abandoned", op[0] == "lexpart")
            obs.count("repeated_source", op[1] in seen)
            seen.add(op[1])
            obs.check(got == want[op], "a call gives another result on a used object", call=op, step=i, got=got, want=want[op], **ctx)
            if node is not None:
                for o in kept:
                    obs.check(o[1] is not node, "two calls return the same object", **ctx)
                if op[3] < .5:
                    spoil(node, op[3])
                    obs.count("modified_results")
                else:
                    kept.append((got, node))
        for g, n in kept:
            obs.check(J(n) == g, "a later call changed an earlier result", **ctx)
        obs.nontrivial((srcs, case["ops"]))
    else:
        obs.count("thread_histories")
        jobs = [lambda ops=ops: [perform(shared, op, srcs[op[1]], trees)[0] for op in ops] for ops in case["ops"]]
        sched = Scheduler(case["seed"], case["p"], ("fluent.syntax", "fluent.pygments"))
        out, ids = together(obs, jobs, sched)
        for k, (o, ops) in enumerate(zip(out, case["ops"])):
            obs.check(o is not None and o[0] == "ok", "a thread failed", outcome=o, **ctx)
            for op, got in zip(ops, o[1]):
                obs.count("operations")
                obs.check(got == want[op], "a call gives another result among threads", call=op, got=got, want=want[op], **ctx)
        sig = sched.signature(ids)
        obs.nontrivial(sig)
        obs.state("interleavings", sig)
    obs.check([J(t) for t in trees] == before, "a call changed a tree it was given, or one returned before", **ctx)
    # the answers of a fresh object now are those of one before the history
    for op in list(want)[:4]:
        got, _ = perform(fresh, op, srcs[op[1]], trees)
        obs.check(got == want[op], "a fresh object answers differently after the history", call=op, got=got, want=want[op], **ctx)
    for s in srcs:
        got = J(FluentParser().parse(s))
        r = RP.parse(s)
        same(obs, strip(got)["body"] if isinstance(strip(got), dict) else got, strip(r)["body"], "not the reference's tree after the history", source=s) if not any(
            e["type"] == "Junk" for e in r["body"]) else None
    if sum(map(len, srcs)) < 200:
        obs.sample({"sources": srcs, "history": case["ops"]})
