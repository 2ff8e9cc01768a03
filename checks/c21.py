"""C21: formatting is pure."""
from .rt import *
from decimal import Decimal
import copy, datetime

ID = "C21"
RULE = ("random sequences of formatting calls, successful, failing and cut off, over several bundles sharing resources and argument objects; each "
        "result compared with an independent evaluator and, repeated later in another order and bundle, with itself; arguments, resources and "
        "earlier error lists compared with their copies; distinct by (pattern, args, position)")
QUICK, THOROUGH = 1500, 50000
NEED = {"calls": 20000, "repeats": 12000, "failing": 5000, "cut_off": 300, "arguments_compared": 15000, "resources_compared": 750, "old_error_lists": 10000,
        "equal_values_of_other_type": 950, "cyclic": 85, "cross_bundle": 3900, "own_lists_changed": 3700, "without_arguments": 4000, "marathon_calls": 15000}
MIN_NONTRIVIAL = 5000
UTC = datetime.timezone.utc

# Values that compare equal (and hash alike) yet format or select differently.
EQUAL = [
    [("int", 1), ("float", 1.0), ("dec", "1"), ("dec", "1.0"), ("dec", "1.00"), ("bool", True), ("num", (("int", 1), {"minimumFractionDigits": 2})),
     ("num", (("int", 1), {"type": "ordinal"})), ("num", (("float", 1.0), {"style": "percent"})), ("num", (("dec", "1"), {"style": "currency", "currency": "EUR"})),
     ("num", (("dec", "1"), {"style": "currency", "currency": "JPY"}))],
    [("int", 0), ("float", 0.0), ("float", -0.0), ("dec", "0"), ("dec", "0.0"), ("bool", False), ("num", (("int", 0), {"minimumFractionDigits": 1}))],
    [("int", 2), ("float", 2.0), ("dec", "2.00"), ("num", (("int", 2), {"type": "ordinal"})), ("num", (("int", 2), {"minimumIntegerDigits": 3}))],
    [("int", 1234567), ("float", 1234567.0), ("num", (("int", 1234567), {"useGrouping": False})), ("num", (("int", 1234567), {"maximumSignificantDigits": 2}))],
    [("str", "1"), ("int", 1), ("str", "one"), ("fnone", "one"), ("str", "1.0")],
]


def gen(r, i, tier):
    w = RT.world(r, cyclic=r.choice([0, .1, .4]), dates=True)
    # a bomb and an overlong value live next to the others
    extra = ("bomb0 = { $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }{ $n }\n"
             "bomb1 = " + "{ bomb0 }" * 12 + "\nbomb2 = " + "{ bomb1 }" * 12 + "\nlong = a { $long } b\n"
             "longterm = { -t0 } { -lt(a: 1) } { $n }\n-lt = { $long }{ $n } { $a } { bomb2 }\n"
             "sel = { $x ->\n    [0] zero { $x }\n    [1] one { $x }\n    [one] cat { $x }\n   *[other] other { $x }\n }\n"
             "num = { NUMBER($x, minimumFractionDigits: 1) } { $x } { NUMBER($x, type: \"ordinal\") ->\n    [one] st\n    [two] nd\n   *[other] th\n }\n"
             "dat = { DATETIME($d, dateStyle: \"short\") } { $d } { DATETIME($d, timeStyle: \"short\") }\n")
    w["src"] = extra + w["src"]
    t = RP.strip_spans(RP.parse(extra))
    w["tree"] = {"type": "Resource", "body": t["body"] + w["tree"]["body"]}
    fam = r.choice(EQUAL)
    argsets = []
    for a in w["args"] + [dict(w["args"][0] or {})]:
        a = dict(a or {})
        a["x"] = r.choice(fam)
        a["n"] = r.choice(fam)
        a["long"] = ("str", "x" * r.choice([3, 2500, 2501]))
        argsets.append(a)
    for v in fam[:6]:
        argsets.append(dict(argsets[0], x=v))
    argsets += [None, {}]
    w["args"] = argsets
    labels = [l for l, _ in RT.patterns(w["tree"])]
    fav = [("sel", None), ("num", None), ("dat", None), ("bomb2", None), ("long", None), ("longterm", None)]
    calls = []
    for _ in range(r.randint(8, 24)):
        calls.append((r.randrange(3), r.choice(labels if r.random() < .65 else fav), r.randrange(len(argsets)) if r.random() < .75 else len(argsets) - r.choice([1, 2, 2])))
    order = list(range(len(calls)))
    r.shuffle(order)
    w["calls"], w["order"] = calls, order
    w["locale2"] = r.choice(RT.PLOCALES)
    w["marathon"] = r.random() < .012
    return w


def pic(v):
    """Deep picture of an argument object, including its identity-free state."""
    import attr
    o = getattr(v, "options", None)
    d = {k: x for k, x in vars(v).items() if k != "options"} if hasattr(v, "__dict__") and not isinstance(v, type) else {}
    try:
        base = repr(v) if not type(v).__module__.startswith("fluent") or not hasattr(v, "options") else \
            type(v).__name__ + (v.isoformat() if hasattr(v, "isoformat") else str(Decimal(v)) if isinstance(v, Decimal) else repr(float(v)))
    except Exception:
        base = "?"
    if type(v) is object:
        base = str(id(v))
    return (type(v).__name__, base, repr(sorted((k, repr(x)) for k, x in d.items())), repr(attr.asdict(o)) if o is not None and attr.has(type(o)) else repr(o))


def run(w, obs):
    res = FluentResource(w["src"])
    frozen = json.dumps(J(res))
    spec = [(w["locale"], w["iso"]), (w["locale2"], w["iso"]), (w["locale"], not w["iso"])]
    log = []
    bs, refs = [], []
    for loc, iso in spec:
        b = FluentBundle([loc], functions=RT.fn_repo(log), use_isolating=iso)
        b.add_resource(res)
        ref = RR.Bundle(loc, iso, RT.fn_ref())
        ref.add(w["tree"])
        bs.append(b)
        refs.append(ref)
    pats = dict(RT.patterns(w["tree"]))
    args = [None if a is None else RT.nargs(a) for a in w["args"]]
    pics = [{k: pic(v) for k, v in (a or {}).items()} for a in args]
    results, lists = {}, []
    ctx = dict(calls=w["calls"], source=w["src"], args=w["args"])

    def call(k, b, again):
        bi, label, ai = w["calls"][k]
        if args[ai] is None:
            obs.count("without_arguments")
            got, errs = b.format_pattern(RT.get(b, label))
        else:
            got, errs = b.format_pattern(RT.get(b, label), args[ai])
        obs.count("calls")
        obs.check(isinstance(errs, list), "errors are not a list", **ctx)
        obs.check(all(errs is not o for o, _ in lists), "an error list is shared between calls", **ctx)
        picture = (got if isinstance(got, str) else "???", [err_image(e) for e in errs])
        lists.append((errs, list(errs)))
        return picture

    def later(k):
        obs.count("arguments_compared")
        ai = w["calls"][k][2]
        now = {n: pic(v) for n, v in (args[ai] or {}).items()}
        obs.check(list(now) == list(pics[ai]) and now == pics[ai], "formatting changed its arguments", now=now, before=pics[ai], **ctx)
        for errs, copy_ in lists[-12:]:
            obs.count("old_error_lists")
            obs.check(len(errs) == len(copy_) and all(x is y for x, y in zip(errs, copy_)), "a later call changed an earlier error list", **ctx)

    MARK = Exception("added by the caller")
    for k, (bi, label, ai) in enumerate(w["calls"]):
        if lists and k % 3 == 2:
            # the caller owns the lists of earlier calls
            errs, copy_ = lists[(k * 7) % len(lists)]
            if k % 2:
                errs.append(MARK)
            else:
                errs.clear()
            copy_[:] = errs
            obs.count("own_lists_changed")
        p = call(k, bs[bi], False)
        later(k)
        results[k] = p
        want, werrs, c = refs[bi].format(pats[label], RT.rargs(w["args"][ai] or {}))
        if not 900 < c.parts < 1000 or not any(t and t.startswith("Too many") for _, t in werrs):
            obs.check(p[0] == want, "history changed the text", got=p[0][:500], want=want[:500], label=label, argset=w["args"][ai], position=k, **ctx)
            obs.check(same_errors(p[1], werrs), "history changed the errors", got=p[1], want=werrs, label=label, position=k, **ctx)
        if p[1]:
            obs.count("failing")
        if any("Too many" in t for _, t in p[1]):
            obs.count("cut_off")
        if any("Cyclic" in t for _, t in p[1]):
            obs.count("cyclic")
        if label[0] in ("sel", "num") and k and any(c[1] == label for c in w["calls"][:k]):
            obs.count("equal_values_of_other_type")
        obs.nontrivial((label, json.dumps(w["args"][ai], default=repr), k, w["src"][-200:]))
    # again, in another order; in fresh bundles over the same resource; in a bundle of a copy
    fresh = {}
    for j, k in enumerate(w["order"]):
        bi = w["calls"][k][0]
        if j % 3 == 1:
            if bi not in fresh:
                loc, iso = spec[bi]
                fresh[bi] = FluentBundle([loc], functions=RT.fn_repo(log), use_isolating=iso)
                fresh[bi].add_resource(res)
            b = fresh[bi]
            obs.count("cross_bundle")
        else:
            b = bs[bi]
        for _ in range(2 if j % 4 == 0 else 1):
            p = call(k, b, True)
            obs.count("repeats")
            obs.eq(p, results[k], "the same call gives another result later", label=w["calls"][k], **ctx)
        later(k)
    if w.get("marathon"):
        # the same calls over and over
        short = [k for k in results if not any("Too many" in t or "Cyclic" in t for _, t in results[k][1])] or list(results)[:1]
        for n in range(2200):
            k = short[n % len(short)]
            p = call(k, bs[w["calls"][k][0]], True)
            obs.count("marathon_calls")
            obs.eq(p, results[k], "the same call gives another result after many others", label=w["calls"][k], number=n, **ctx)
    obs.check(json.dumps(J(res)) == frozen, "formatting changed a parsed resource", **ctx)
    obs.count("resources_compared")
    if len(repr(w["calls"])) < 700:
        obs.sample({"calls": w["calls"], "results": [results[k] for k in list(results)[:4]]})
