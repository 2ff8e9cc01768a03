"""C20: a bundle is a faithful store of its resources."""
from .rt import *
from lib import ftlgen as G
import re

ID = "C20"
RULE = ("random histories of adding (shared, repeated, conflicting) resources with and without overriding, looking up and formatting; after every "
        "operation the answers are compared with a first/last-definition model, with a fresh bundle given the same resources, and with an independent "
        "evaluator; distinct by (history, query)")
QUICK, THOROUGH = 12000, 300000
NEED = {"adds": 5000, "overrides_effective": 1500, "override_after_use": 1500, "kept_first": 1500, "found": 8000, "not_found": 5000,
        "term_not_message": 3000, "fresh_compared": 6000, "formats": 4500, "same_name_both": 1000, "attr_changed": 300, "held_patterns": 360, "without_arguments": 2200}
MIN_NONTRIVIAL = 5000
NAMES = ["m0", "m1", "m2", "both", "x"]
TERMS = ["t0", "t1", "both", "x"]


def pattern(r, tag):
    x = r.random()
    if x < .35:
        return tag
    n = r.choice(NAMES)
    t = r.choice(TERMS)
    return tag + " " + r.choice(["{ %s }" % n, "{ %s.a }" % n, "{ -%s }" % t, "{ $v }", "{ -%s.b ->\n    [p] P\n   *[q] Q\n }" % t,
                                 "{ $n ->\n    [one] { %s }\n   *[other] { -%s }\n }" % (n, t), "{ -%s(n: 1) }" % t, '{ "q" }'])


def resource(r, k):
    out = []
    for j in range(r.randint(1, 6)):
        tag = f"r{k}e{j}"
        x = r.random()
        if x < .5:
            n = r.choice(NAMES)
            s = f"{n} = {pattern(r, tag)}\n" if r.random() < .85 else f"{n} =\n    .a = {pattern(r, tag + 'A')}\n"
        elif x < .85:
            n = r.choice(TERMS)
            s = f"-{n} = {pattern(r, tag)}\n"
        elif x < .92:
            out.append(r.choice(["junk {{{\n", "# comment\n\n", "## group\n", "m0 = {\n", "-t0\n"]))
            continue
        else:
            out.append(f"{r.choice(NAMES)} = {pattern(r, tag)}\n")
            continue
        for a in r.sample(["a", "b", "c"], r.choice([0, 0, 1, 2])):
            s += f"    .{a} = {r.choice(['p', 'q', pattern(r, tag + a)])}\n"
        out.append(s)
    if r.random() < .006:
        # many entries, or many attributes
        n = r.choice([40, 101, 130, 300, 520, 1100])
        if r.random() < .6:
            out.insert(r.choice([0, 0, len(out)]), "".join(f"{'-' * (j % 5 == 1)}{'ft'[j % 5 == 1]}{j} = F{j}\n" for j in range(n)))
        else:
            out.insert(r.randint(0, len(out)), r.choice(NAMES) + " = many\n" + "".join(f"    .z{j} = Z{j}\n" for j in range(n)) + "    .a = { $v }\n")
    return "".join(out)


def gen(r, i, tier):
    res = [resource(r, k) for k in range(r.randint(1, 5))]
    ops = []
    for _ in range(r.randint(4, 14) if r.random() > .01 else r.choice([40, 70, 130])):
        x = r.random()
        if x < .4:
            ops.append(("add", r.randrange(len(res)), r.random() < .45))
        elif x < .55:
            ops.append(("has", r.choice(NAMES + ["-t0", "t0", "t1", "-both", "", "nope", "m0.a"])))
        elif x < .75:
            ops.append(("get", r.choice(NAMES + ["-t0", "t0", "t1", "-x", "nope"])))
        else:
            ops.append(("format", r.choice(NAMES), r.choice(["args", "none", "held", "held none"])))
    pre = ""
    if r.random() < .03:
        # long names that differ only at the end
        pre = r.choice(["y", "Long-name_"]) * r.choice([5, 9, 33, 65, 130])
        long = lambda s: re.sub(r"\b(m0|m1|m2|both|t0|t1|x)\b", lambda m: pre + m[0], s)
        res = [long(s) for s in res]
        ops = [(op[0], long(op[1]), *op[2:]) if isinstance(op[1], str) else op for op in ops]
    return {"res": res, "ops": ops, "iso": r.random() < .3, "args": {"v": "V", "n": r.choice([1, 2])}, "pre": pre}


def fixed(tier):
    yield {"res": ["m0 = { -t0 }\n-t0 = T\n"], "ops": [("add", 0, False), ("format", "m0"), ("get", "-t0"), ("has", "-t0")], "iso": False, "args": {}}
    yield {"res": ["m0 = old\n    .a = A\n", "m0 = new\n    .b = B\n"], "ops": [("add", 0, False), ("format", "m0"), ("add", 1, True), ("format", "m0")],
           "iso": False, "args": {}}


def view(b, args, names):
    """Everything a user can see of a bundle."""
    out = {}
    for n in names:
        if not b.has_message(n):
            try:
                m = b.get_message(n)
            except LookupError:
                out[n] = None
                continue
            out[n] = ("has says no, get returns", type(m).__name__)
            continue
        m = b.get_message(n)
        p = {None: m.value, **m.attributes}
        out[n] = {}
        for k, v in p.items():
            if v is None:
                out[n][k] = None
                continue
            t, e = b.format_pattern(v, args)
            out[n][k] = (t if isinstance(t, str) else "FluentNone", tuple(err_image(x) for x in e))
    return out


def everything(pre):
    return [pre + n for n in NAMES] + ["-" + pre + "t0", pre + "t0", pre + "t1", "-" + pre + "t1", "-" + pre + "both", "-" + pre + "x", "nope", "", "m0"]


def refview(ref, args, ALL):
    out = {}
    for n in ALL:
        e = ref.messages.get(n)
        if e is None:
            out[n] = None
            continue
        p = {None: e["value"], **{a["id"]["name"]: a["value"] for a in e["attributes"]}}
        out[n] = {}
        for k, v in p.items():
            if v is None:
                out[n][k] = None
                continue
            t, errs, c = ref.format(v, args)
            out[n][k] = (t, tuple(errs))
    return out


def run(case, obs):
    rs = [FluentResource(s) for s in case["res"]]
    trees = [RP.strip_spans(RP.parse(s)) for s in case["res"]]
    iso, args = case["iso"], case["args"]
    rargs = {k: v if isinstance(v, str) else RR.Num(v) for k, v in args.items()}
    b = FluentBundle(["en"], use_isolating=iso)
    ref = RR.Bundle("en", iso)
    added, used, held = [], set(), {}
    ALL = everything(case.get("pre", ""))
    TERMS = [case.get("pre", "") + t for t in globals()["TERMS"]]
    ctx = dict(ops=case["ops"], resources=case["res"])
    for step, op in enumerate(case["ops"]):
        ctx["at"] = (step, op)
        if op[0] == "add":
            before = dict(ref.messages), dict(ref.terms)
            if op[2]:
                b.add_resource(rs[op[1]], allow_overrides=True)
            else:
                b.add_resource(rs[op[1]])
            ref.add(trees[op[1]], op[2])
            added.append(op)
            obs.count("adds")
            for e in trees[op[1]]["body"]:
                if e["type"] in ("Message", "Term"):
                    k = e["type"] == "Term"
                    n = e["id"]["name"]
                    if op[2] and not k:
                        held.pop(n, None)
                    if n in before[k]:
                        if (ref.terms if k else ref.messages)[n] is before[k][n]:
                            obs.count("kept_first")
                        else:
                            obs.count("overrides_effective")
                            if (k, n) in used:
                                obs.count("override_after_use")
                            if [a["id"] for a in before[k][n]["attributes"]] != [a["id"] for a in e["attributes"]]:
                                obs.count("attr_changed")
            if step % 3:
                continue     # let some additions pass unobserved
        elif op[0] == "has":
            obs.eq(b.has_message(op[1]), op[1] in ref.messages, "has_message is wrong", **ctx)
        elif op[0] == "get":
            want = ref.messages.get(op[1])
            try:
                m = b.get_message(op[1])
                got = {"name": m.id.name, "value": m.value is not None, "attrs": sorted(m.attributes)}
                obs.count("found")
            except LookupError:
                got = None
                obs.count("not_found")
            w = want and {"name": op[1], "value": want["value"] is not None, "attrs": sorted({a["id"]["name"] for a in want["attributes"]})}
            obs.eq(got, w, "get_message is wrong", **ctx)
            used.add((False, op[1]))
        else:
            e = ref.messages.get(op[1])
            if e is None or e["value"] is None:
                continue
            how = op[2] if len(op) > 2 else "args"
            if "held" in how and op[1] in held and held[op[1]][0] is e:
                # a pattern obtained earlier whose message is still in force
                p = held[op[1]][1]
                obs.count("held_patterns")
            else:
                p = b.get_message(op[1]).value
                held[op[1]] = e, p
            if "none" in how:
                obs.count("without_arguments")
                got, errs = b.format_pattern(p)
            else:
                got, errs = b.format_pattern(p, args)
            want, werrs, call = ref.format(e["value"], {} if "none" in how else rargs)
            obs.count("formats")
            obs.eq(got, want, "formatting does not follow the definitions in force", **ctx)
            obs.check(same_errors([err_image(x) for x in errs], werrs), "wrong errors", got=[err_image(x) for x in errs], want=werrs, **ctx)
            used.add((False, op[1]))
            for t in TERMS:
                used.add((True, t))
        for t in TERMS:
            obs.count("term_not_message")
            obs.check(not b.has_message("-" + t), "a term is found as message", name="-" + t, **ctx)
            if step % 4 == 3:
                try:
                    b.get_message("-" + t)
                    got = True
                except LookupError:
                    got = False
                obs.check(not got, "a term is returned as message", name="-" + t, **ctx)
        if any(n in ref.messages and n in ref.terms for n in ("both", "x")):
            obs.count("same_name_both")
        obs.nontrivial((tuple(case["ops"][:step + 1]), tuple(case["res"])))
    # at the end: everything, against a fresh bundle and the evaluator
    fresh = FluentBundle(["en"], use_isolating=iso)
    for _, k, ov in added:
        fresh.add_resource(rs[k] if len(added) % 2 else FluentResource(case["res"][k]), allow_overrides=ov)
    v1, v2, v3 = view(b, args, ALL), view(fresh, args, ALL), refview(ref, rargs, ALL)
    obs.count("fresh_compared")
    obs.eq(v1, v2, "the bundle differs from a fresh one given the same resources", **ctx)
    obs.eq(v1, v3, "the bundle differs from what its resources define", **ctx)
    obs.eq(view(b, args, reversed(ALL)), v1, "looking everything up changed the answers", **ctx)
    obs.count("found", sum(v is not None for v in v1.values()))
    obs.count("not_found", sum(v is None for v in v1.values()))
    if len(repr(case)) < 500:
        obs.sample(case)
