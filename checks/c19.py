"""C19: cycles and bombs are cut off at bounded cost."""
from .rt import *
from lib import ftlgen as G
from lib.ftlgen import N, Id

ID = "C19"
RULE = ("random reference graphs over messages, terms and attributes (edges through values, attributes, selectors, variants, call arguments), "
        "cyclic or not, compared with an independent evaluator; multiplying messages of every shape around and far beyond the part limit; "
        "interpolations of 2500 and 2501 characters of every kind; control-flow events inside the library counted per call; distinct by (graph, root)")
QUICK, THOROUGH = 4800, 150000
NEED = {"cyclic": 2600, "acyclic_shared": 2000, "bombs_cut": 440, "bombs_full": 150, "deep_chains": 50, "length_ok": 170, "length_cut": 300,
        "text_around_cycle": 1500, "step_counted": 2500, "huge_bombs": 80, "rings": 60}
MIN_NONTRIVIAL = 5000
ASSUMPTIONS = ["between 970 and 1030 expanded parts either outcome is accepted ('about a thousand')"]
KINDS = ["value", "value", "attr", "term", "termattr_sel", "variant", "arg", "termvalue_args", "nested", "novalue"]
# Events per call, generous: the costliest legitimate call seen takes about 200000.
STEP_BASE, STEP_SOURCE = 400000, 100


def ref_expr(r, kind, m, t, a):
    """An expression that refers on, through the given kind of edge."""
    if kind == "value":
        return f"{m}"
    if kind == "attr":
        return f"{m}.{a}"
    if kind == "term":
        return f"-{t}"
    if kind == "termattr_sel":
        return f"-{t}.{a} ->\n    [x] X\n   *[y] Y\n"
    if kind == "variant":
        return f"$n ->\n    [1] {{ {m} }}\n   *[other] <{{ {m} }}>\n"
    if kind == "arg":
        return f"LAST({m}, {m}.{a})" if r.random() < .5 else f"LAST({m})"
    if kind == "termvalue_args":
        return f"-{t}(n: {r.choice([1, 2, 5])})"
    if kind == "nested":
        return "{ { " + m + " } }"
    return f"{m}.none"


def graph(r):
    nm, nt = r.choice([1, 2, 3, 4, 6]), r.choice([1, 2, 3])
    ms, ts, at = [f"m{i}" for i in range(nm)], [f"t{i}" for i in range(nt)], ["a", "b"]
    back = r.choice([0, .15, .4, 1])

    def pat(level):
        """A pattern on one line; refers to later nodes, or with some chance anywhere."""
        out = []
        for j in range(r.choice([1, 1, 2, 3])):
            if r.random() < .35:
                out.append(r.choice(["text ", "x", "\u00e9 "]))
            later = [x for x in range(level + 1, nm + nt)]
            p = r.random()
            if p < .2:
                out.append("{ " + r.choice(["$n", "$v", '"lit"', "5"]) + " }")
                continue
            if p < .2 + .8 * back:
                m, t = r.choice(ms), r.choice(ts)
            else:
                ml, tl = [ms[x] for x in later if x < nm], [ts[x - nm] for x in later if x >= nm]
                m, t = (r.choice(ml) if ml else None), (r.choice(tl) if tl else None)
            k = r.choice(KINDS)
            if "term" in k and t is None:
                k = "value"
            if "term" not in k and m is None:
                k = "term" if t else None
            if k is None:
                out.append("{ $v }")
                continue
            out.append("{ " + ref_expr(r, k, m, t, r.choice(at)) + " }")
        s = "".join(out).strip(" ")
        return s or "empty"
    src = ""
    for i, m in enumerate(ms):
        src += f"{m} = {pat(i)}\n" + "".join(f"    .{a} = {pat(i)}\n" for a in at if r.random() < .7)
    for i, t in enumerate(ts):
        src += f"-{t} = {pat(nm + i)}\n" + "".join(f"    .{a} = {pat(nm + i)}\n" for a in at if r.random() < .7)
    return src


def bomb(r):
    """Messages that multiply: width ** depth leaves.  -> source, root"""
    depth = r.choice([1, 2, 2, 3, 3, 4, 5, 7, 9, 12])
    target = r.choice([30, 100, 200, 400, 600, 800, 900, 1100, 1200, 2000, 10 ** 4, 10 ** 7, 10 ** 12])
    w = max(1, round(target ** (1 / depth)))
    w = min(w, 1100)
    if depth == 1 and r.random() < .7:
        depth, w = 2, 33
    kind = r.choice(["value", "attr", "term", "variant", "arg", "sole_arg", "mixed", "termattr", "cycle_inside", "clique", "lit"])
    leaf = r.choice(["{ $v }", "x{ $v }", "{ $v }{ $v }", "{ 1 }", "{ $gone }"] + (["lit"] if w ** depth < 10 ** 5 else []))
    sep = r.choice(["", " ", "-"])
    src = []
    if kind == "clique":
        n = min(w, 25)
        ref = r.choice(["{{ m{0} }}", "{{ m{0}.a }}", "{{ -m{0} }}", "{{ LAST(m{0}) }}"])
        for i in range(n):
            body = sep.join(ref.format(j) for j in range(n))
            if "-m" in ref:
                src.append(f"-m{i} = {body}")
            else:
                src.append(f"m{i} = {body}\n    .a = {body}")
        if "-m" in ref:
            src.append("m0 = { -m0 }")
        return "\n".join(src) + "\n", "m0"
    src.append(f"m0 = {leaf}\n    .a = {leaf}")
    src.append(f"-m0 = {leaf}\n    .a = {leaf}")
    for d in range(1, depth + 1):
        k = kind if kind != "mixed" else r.choice(["value", "attr", "term", "variant", "arg"])
        p = d - 1
        if k == "sole_arg":
            body = "{ LAST(" + ", ".join([f"m{p}"] * w) + ") }"
        else:
            one = {"value": f"{{ m{p} }}", "attr": f"{{ m{p}.a }}", "term": f"{{ -m{p} }}", "arg": f"{{ LAST(m{p}) }}", "lit": f"q{{ m{p} }}",
                   "variant": f"{{ $n ->\n    *[o] {{ m{p} }}\n }}", "cycle_inside": f"{{ m{p} }}{{ m{d} }}",
                   "termattr": f"{{ -m{p}.a ->\n    [x] 1\n    *[y] {{ -m{p} }}\n }}"}[k]
            body = sep.join([one] * w)
        src.append(f"m{d} = {body}")
        if k == "attr" or kind == "mixed" and w < 40:
            src[-1] += f"\n    .a = {body}"
        elif kind == "mixed":
            src[-1] += f"\n    .a = {{ m{d} }}"
        if k in ("term", "termattr") or kind == "mixed":
            src.append(f"-m{d} = {body if k == 'term' or w < 20 else f'{{ m{d} }}'}")
        if k == "termattr":
            src[-1] += f"\n    .a = {body}"
    return "\n".join(src) + "\n", f"m{depth}"


def length(r):
    n = r.choice([2499, 2500, 2501, 2502, 2600, 5000, 100000])
    kind = r.choice(["var", "sole", "msg", "term", "attr", "fn", "select", "strlit_term", "lit", "text", "many", "number", "frac", "tworefs", "fnum"])
    return kind, n


def gen(r, i, tier):
    x = r.random()
    iso = r.random() < .5
    if x < .5:
        return ("graph", graph(r), iso)
    if x < .75:
        src, root = bomb(r)
        return ("bomb", src, root, iso)
    if x < .8:
        n = r.choice([20, 40, 60, 300, 900, 1500, 4000])
        if r.random() < .4:
            return ("ring", r.choice([1, 2, 5, 17, 33, 50, 65, 70, 80, 90]), r.choice(["value", "text", "term", "variant", "arg"]), r.random() < .5, iso)
        return ("chain", n, r.choice(["value", "text", "term", "variant", "arg"]), iso)
    return ("length",) + length(r) + (iso,)


def fixed(tier):
    # a repaired defect: formatted numbers escaped the length limit
    yield ("length", "frac", 2600, True)
    yield ("length", "number", 2600, False)
    yield ("graph", "m0 = { m0 }\nm1 = { m2 }\nm2 = { m1 }\nm3 = a { m3 } b\n", True)


def bundles(src, iso):
    log = []
    b = FluentBundle(["en-US"], functions=RT.fn_repo(log), use_isolating=iso)
    b.add_resource(FluentResource(src))
    tree = RP.strip_spans(RP.parse(src))
    ref = RR.Bundle("en-US", iso, RT.fn_ref())
    ref.add(tree)
    return b, ref, tree


def fmt(obs, b, pat, args, src):
    from lib.engine import Steps
    if obs.n["formats"] % 2 == 0 or len(src) > 3000:
        with Steps(STEP_BASE + STEP_SOURCE * len(src)) as st:
            out = b.format_pattern(pat, args)
        obs.count("step_counted")
    else:
        out = b.format_pattern(pat, args)
    obs.count("formats")
    return out


def cut(errs):
    return [e for e in errs if isinstance(e, (ValueError, RecursionError)) and not isinstance(e, UnicodeError)]


def run(case, obs):
    if case[0] == "length":
        return run_length(case, obs)
    if case[0] == "ring":
        return run_ring(case, obs)
    if case[0] == "chain":
        return run_chain(case, obs)
    src, iso = case[1], case[-1]
    b, ref, tree = bundles(src, iso)
    args, rargs = {"n": 1, "v": "V"}, {"n": RR.Num(1), "v": "V"}
    roots = list(RT.patterns(tree))
    if case[0] == "bomb":
        roots = [x for x in roots if x[0] == (case[2], None)]
        obs.check(len(roots) == 1, "bomb without its root", source=src)
    for label, pat in roots:
        got, errs = fmt(obs, b, RT.get(b, label), args, src)
        ctx = dict(root=label, source=src[:3000], iso=iso)
        if isinstance(got, FluentNone):
            got = "???"
        obs.check(isinstance(got, str), "not text", **ctx)
        # whatever happens: bounded output
        els = pat["elements"]
        room = sum(len(e["value"]) if e["type"] == "TextElement" else 2502 + len(src) * (RR.literal(e) is not None) for e in els)
        obs.check(len(got) <= max(room, 5), "unbounded output", length=len(got), room=room, **ctx)
        w1, e1, c1 = ref.format(pat, rargs, 970)
        aborted = any(t and t.startswith("Too many") for _, t in e1)
        if not aborted:
            obs.eq(got, w1, "wrong text", errors=[err_image(e) for e in errs], **ctx)
            obs.check(same_errors([err_image(e) for e in errs], e1), "wrong errors", got=[err_image(e) for e in errs], want=e1, **ctx)
            cyc = sum(1 for c, _ in e1 if c == "FluentCyclicReferenceError")
            if case[0] == "bomb":
                obs.count("bombs_full")
            if cyc:
                obs.count("cyclic")
                if len(w1.replace("???", "").strip("\u2068\u2069")):
                    obs.count("text_around_cycle")
                if len(src) < 400:
                    obs.sample({"source": src, "root": label, "text": got, "errors": [err_image(e) for e in errs]})
            elif c1.parts > 3:
                obs.count("acyclic_shared")
            obs.nontrivial((src, label))
            continue
        w2, e2, c2 = ref.format(pat, rargs, 1030)
        if any(t and t.startswith("Too many parts") for _, t in e2):
            obs.check(cut(errs), "more than 1030 parts were not cut off", length=len(got), errors=[err_image(e) for e in errs][:5], **ctx)
            obs.check(len(errs) < 20000 + len(src), "unbounded error list", n=len(errs), **ctx)
            obs.count("bombs_cut")
            if len(src) < 1500 and "m7" in src:
                obs.count("huge_bombs")
            obs.nontrivial((src, label))


def run_chain(case, obs):
    """Long chains of references: whatever the depth, no exception and bounded work."""
    _, n, kind, iso = case
    one = {"value": "m%d = { m%d }", "text": "m%d = a { m%d } b", "term": "-m%d = { -m%d }", "arg": "m%d = { LAST(m%d) }",
           "variant": "m%d = { $n ->\n    *[o] { m%d }\n }"}[kind]
    src = "\n".join(one % (i + 1, i) for i in range(n))
    src += "\n-m0 = end\nm0 = end\n" + (f"m{n} = {{ -m{n} }}\n" if kind == "term" else "")
    b = FluentBundle(["en"], functions=RT.fn_repo([]), use_isolating=iso)
    b.add_resource(FluentResource(src))
    got, errs = fmt(obs, b, b.get_message(f"m{n}").value, {"n": 1}, src)
    obs.count("deep_chains")
    obs.check(isinstance(got, str), "not text", chain=case)
    if n <= 40:
        p, q = ("\u2068", "\u2069") if iso else ("", "")
        want = f"a {p}" * n + "end" + f"{q} b" * n if kind == "text" else "end"
        obs.check(not errs, "errors in a short chain", errors=repr(errs), chain=case)
        obs.eq(got, want, "wrong text for a chain", chain=case)
    else:
        obs.check(got.strip("\u2068\u2069") == "end" or kind == "text" and not errs or errs, "neither complete nor cut off", got=got[:200], chain=case)
    obs.nontrivial(case)


def run_ring(case, obs):
    """A cycle through many messages: followed once round, then cut."""
    _, n, kind, spare, iso = case
    one = {"value": "m%d = { m%d }", "text": "m%d = a { m%d } b", "term": "-m%d = { -m%d }", "arg": "m%d = { LAST(m%d) }",
           "variant": "m%d = { $n ->\n    *[o] { m%d }\n }"}[kind]
    src = "\n".join(one % (i, (i + 1) % n) for i in range(n)) + "\n"
    if kind == "term":
        src += "m0 = { -m0 }\n"
    if spare:
        src += "".join(f"s{i} = spare {{ m0 }}\n" for i in range(200))
    b = FluentBundle(["en"], functions=RT.fn_repo([]), use_isolating=iso)
    b.add_resource(FluentResource(src))
    for k in range(3):
        if spare and k:
            for i in range(200):
                b.get_message(f"s{i}")
        got, errs = fmt(obs, b, b.get_message("m0").value, {"n": 1}, src)
        obs.check(len(errs) == 1 and err_image(errs[0])[0] == "FluentCyclicReferenceError", "a cycle gives other errors", errors=repr(errs), case=case)
        p, q = ("\u2068", "\u2069") if iso else ("", "")
        want = f"a {p}" * n + "???" + f"{q} b" * n if kind == "text" else "???"
        if kind == "text":
            obs.eq(got, want, "a cycle is not cut where it closes", case=case)
        else:
            obs.check((got if isinstance(got, str) else "???").strip("\u2068\u2069") == "???", "a cycle gives another text", got=repr(got), case=case)
        obs.count("rings")
    obs.nontrivial(case)


def run_length(case, obs):
    _, kind, n, iso = case
    if kind in ("number", "frac", "fnum"):
        n = min(n, 4900)        # numbers have at most 5,000 digits
    p, q = ("\u2068", "\u2069") if iso else ("", "")
    x = "x" * n
    too_long = n > 2500
    args = {"v": x, "n": 1}
    src = {
        "var": "m = a { $v } b", "sole": "m = { $v }", "msg": f"z = {x}\nm = a {{ z }} b", "term": f"-z = {x}\nm = a {{ -z }} b",
        "attr": f"z =\n    .a = {x}\nm = a {{ z.a }} b", "fn": "m = a { LAST($v) } b", "select": f"m = a {{ $n ->\n   *[o] {x}\n }} b",
        "strlit_term": f'-z = {{ "{x}" }}\nm = a {{ -z }} b', "lit": f'm = a {{ "{x}" }} b', "text": f"m = {x} {{ $n }} b",
        "many": "m = " + "{ $v }" * 3, "number": "m = a { $big } b", "frac": "m = a { NUMBER($n, minimumFractionDigits: %d) } b" % (n - 2),
        "tworefs": f"z = {x}\ny = {{ z }}\nm = a {{ y }} b",
        "fnum": "m = { NUMBER($n, minimumFractionDigits: %d) }" % (n - 2),
    }[kind] + "\n"
    if kind == "number":
        from fluent.runtime.types import fluent_number
        args["big"] = fluent_number(1, minimumFractionDigits=n - 2)
    b = FluentBundle(["en"], functions=RT.fn_repo([]), use_isolating=iso)
    b.add_resource(FluentResource(src))
    import decimal
    with decimal.localcontext() as c:
        c.prec = 200000
        got, errs = fmt(obs, b, b.get_message("m").value, args, src)
    digits = "1." + "0" * (n - 2)
    whole = {"sole": x, "text": f"{x} {p}1{q} b", "many": f"{p}{x}{q}" * 3, "number": f"a {p}{digits}{q} b", "frac": f"a {p}{digits}{q} b",
             "lit": f"a {x} b", "fnum": digits}.get(kind, f"a {p}{x}{q} b")
    ctx = dict(kind=kind, n=n, iso=iso, errors=[err_image(e) for e in errs])
    if kind in ("text", "lit") or not too_long:
        # Text of the pattern itself is no interpolation, however long.
        obs.check(not errs, "an interpolation within the limit was cut off", **ctx)
        obs.eq(got[:6000], whole[:6000], "wrong text around the length limit", **ctx)
        obs.count("length_ok")
    else:
        obs.check(cut(errs), "an interpolation beyond 2500 characters was not cut off", length=len(got), **ctx)
        obs.check(len(got) < 2600, "cut off, but still long", length=len(got), **ctx)
        obs.count("length_cut")
    obs.nontrivial(case + (len(src),))
