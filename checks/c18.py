"""C18: isolation marks wrap interpolations, and only those."""
from .rt import *

ID = "C18"
RULE = ("random bundles formatted with isolation on and off, with text and arguments free of isolation marks; monitors on the marks "
        "(balance, nesting, number, removal) and comparison with an independent evaluator; distinct by (pattern, isolated text)")
QUICK, THOROUGH = 2200, 70000
NEED = {"pairs": 15000, "marked": 6000, "nested_marks": 1500, "sole_placeables": 2500, "literal_placeables": 500, "near_limit": 50}
MIN_NONTRIVIAL = 5000
FSI, PDI = "\u2068", "\u2069"


def gen(r, i, tier):
    if i % 30 == 0:
        n = r.choice([2495, 2497, 2498, 2499, 2500])
        src = ("m0 = a { $long } b\nm1 = { $long }\nm2 = { m3 } x\nm3 = y { $s }\nm4 = {{ $s }}\n"
               "m5 = a { $n ->\n *[o] { $long }\n } b\n")
        return {"src": src, "tree": RP.strip_spans(RP.parse(src)), "locale": "en-US", "iso": True, "near": n,
                "args": [{"long": ("str", "x" * n), "s": ("str", "x" * (n - 2)), "n": ("int", 1)}]}
    w = RT.world(r, cyclic=r.choice([0, .1]))
    if FSI in w["src"] or PDI in w["src"]:
        w["src"] = w["src"].replace(FSI, "<").replace(PDI, ">")
    w["tree"] = json.loads(json.dumps(w["tree"]).replace("\\u2068", "<").replace("\\u2069", ">"))
    for a in w["args"]:
        for k, v in list((a or {}).items()):
            if v[0] == "sub":
                v = v[1]
            if v[0] == "str":
                a[k] = ("str", v[1].replace(FSI, "<").replace(PDI, ">"))
    return w


def unmark(errs):
    """Error texts may quote an argument that contains an interpolated text."""
    out = []
    for e in errs:
        s = str(e)
        for m in (FSI, PDI, "\\u2068", "\\u2069"):
            s = s.replace(m, "")
        out.append((type(e).__name__, s))
    return out


def desc_used(w, call):
    """A function that describes its arguments as text would show marks inside
    argument strings twice, escaped or counted; those are real text then."""
    return any(n in ("DESC", "STRICT") for n, _, _ in call.calls)


def run(w, obs):
    on, off = Pair(w, iso=True), Pair(w, iso=False)
    for args in w["args"]:
        for label, pat in RT.patterns(w["tree"]):
            a, aerr, wa, waerr, call = on.both(label, pat, args)
            b, berr, wb, wberr, call2 = off.both(label, pat, args)
            if call.parts > 900:
                continue
            obs.count("pairs")
            if "near" in w:
                obs.count("near_limit")
            if not isinstance(a, str) or not isinstance(b, str):
                continue
            ctx = dict(message=label, args=args, source=w["src"], isolated=a, plain=b)
            obs.check(FSI not in b and PDI not in b, "marks added with isolation off", **ctx)
            # balanced and properly nested
            depth = most = 0
            for c in a:
                if c == FSI:
                    depth += 1
                    most = max(most, depth)
                elif c == PDI:
                    depth -= 1
                    obs.check(depth >= 0, "marks not properly nested", **ctx)
            obs.check(depth == 0, "marks not balanced", **ctx)
            # A message used as selector or argument may carry marks that
            # change what it equals, so only compare when the choices agree.
            if call.selected == call2.selected and [c[0] for c in call.calls] == [c[0] for c in call2.calls] and not desc_used(w, call):
                if not any(t and t.startswith("Too many") for _, t in waerr + wberr):
                    obs.eq(a.replace(FSI, "").replace(PDI, ""), b, "removing the marks does not give the unisolated text", **ctx)
                    obs.check(unmark(aerr) == unmark(berr), "isolation changes the errors", on=aerr, off=berr, **ctx)
            obs.eq(a, wa, "marks in the wrong places", **ctx)
            obs.eq(b, wb, "unisolated text differs", **ctx)
            if most:
                obs.count("marked")
                obs.nontrivial((json.dumps(pat), a))
                if len(a) < 100:
                    obs.sample(a)
            if most > 1:
                obs.count("nested_marks")
            els = pat["elements"]
            if len(els) == 1 and els[0]["type"] == "Placeable" and RR.literal(els[0]) is None:
                obs.count("sole_placeables")
                if els[0]["expression"]["type"] == "VariableReference":
                    obs.check(most == 0, "a pattern of a single placeable was wrapped", **ctx)
            if any(e["type"] == "Placeable" and e["expression"]["type"] == "StringLiteral" for e in els):
                obs.count("literal_placeables")
