"""What C38 computes for an item, in the monitor's process and in others."""
import json, os, warnings


def exc(e):
    return ["raised", type(e).__name__, str(e)]


def message(e):
    # attrs lists an option's allowed values, a set, in any order
    return str(e).split(" must be in {")[0]


def attempt(f):
    try:
        return f()
    except Exception as e:
        return exc(e)


def text(s):
    from fluent.syntax import FluentParser, FluentSerializer, FluentParserStream, parse, serialize, ast as FTL
    from fluent.syntax.visitor import Visitor
    from fluent.pygments.lexer import FluentLexer
    tree = FluentParser().parse(s)
    log = []

    class V(Visitor):
        def generic_visit(self, node):
            log.append(type(node).__name__)
            super().generic_visit(node)
    V().visit(tree)
    return {"tree": tree.to_json(), "nospans": FluentParser(with_spans=False).parse(s).to_json(), "entry": FluentParser().parse_entry(s).to_json(),
            "out": serialize(tree), "junk": FluentSerializer(with_junk=True).serialize(tree), "visits": log,
            "equals": tree.equals(parse(s)), "again": FTL.from_json(json.loads(json.dumps(tree.to_json()))).to_json(),
            "tokens": [[i, str(t), v] for i, t, v in FluentLexer(stripnl=False, ensurenl=False).get_tokens_unprocessed(s)]}


def world(w, root=None):
    from fluent.runtime import FluentBundle, FluentResource, FluentLocalization, FluentResourceLoader
    from lib import rtgen as RT
    out = []
    log = []
    b = FluentBundle([w["locale"]], functions=RT.fn_repo(log), use_isolating=w["iso"])
    b.add_resource(FluentResource(w["src"]))
    args = [RT.nargs(a) for a in w["args"]]
    # and many that are not asked for, before and after
    args.append({**{f"more{n}": n for n in range(40)}, **(args[0] or {}), **{f"less{n}": str(n) for n in range(40)}})
    for label, _ in RT.patterns(w["tree"]):
        pat = RT.get(b, label)
        for a in args:
            t, errs = b.format_pattern(pat, a)
            out.append([list(label), t if isinstance(t, str) else "FluentNone", [[type(e).__name__, message(e)] for e in errs]])
    out.append([[n, a, list(k.items())] for n, a, k in log])
    for e in w["tree"]["body"]:
        if e["type"] == "Message":
            out.append([e["id"]["name"], list(b.get_message(e["id"]["name"]).attributes)])
    if root is not None:
        # through files
        for k, s in enumerate(w["files"]):
            d = os.path.join(root, str(k), w["locale"])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "main.ftl"), "w", encoding="utf-8", newline="", errors="surrogatepass") as f:
                f.write(s)
        loc = FluentLocalization([w["locale"]], ["main.ftl"], FluentResourceLoader([os.path.join(root, str(k), "{locale}") for k in range(len(w["files"]))]),
                                 use_isolating=w["iso"], functions=RT.fn_repo(log))
        for label, _ in RT.patterns(w["tree"]):
            if len(label) == 1 or label[1] is None:
                for a in args:
                    out.append([list(label), loc.format_value(label[0], a)])
    return out


def do(item, root):
    def f():
        if item["kind"] == "text":
            return text(item["s"])
        return world(item, root)
    return json.loads(json.dumps(attempt(f)))
