"""C26: localization falls back through locales in order, lazily."""
from .rt import *
from fluent.runtime import FluentLocalization, AbstractResourceLoader

ID = "C26"
RULE = ("random locale chains, resource layouts (several locations per locale, missing locales, messages without value, terms, duplicates) and request "
        "sequences; a recording loader and bundle class log every load, creation and lookup; oracle: a lazy fallback model for results, the exact "
        "loads after every request, and the arguments of each bundle; distinct by (layout, request, position)")
QUICK, THOROUGH = 12000, 400000
NEED = {"requests": 50000, "fallbacks": 13000, "ids_returned": 10000, "bundles_created": 17000, "not_loaded": 4000, "second_location": 5000,
        "valueless_skipped": 3000, "with_functions": 2000, "isolating": 1900, "repeat_no_load": 20000, "interleaved": 1000, "fallbacks_beyond_8": 100}
MIN_NONTRIVIAL = 8000
LOCS = ["en-US", "en", "de", "fr", "ja", "sr-Latn", "xx-unknown"]
MANY = LOCS[:-1] + ["it", "es", "pt-BR", "pt-PT", "ru", "pl", "cs", "ar", "he", "hi", "sl", "ga", "cy", "lt", "zh-Hant-TW", "uk", "mt", "br", "lv", "ro", "sv-SE"]
IDS = ["a", "b", "c", "d", "e"]


def text(r, tag):
    out = []
    for n in r.sample(IDS, r.randint(0, 5)):
        x = r.random()
        if x < .55:
            out.append(f"{n} = {n}@{tag}\n")
        elif x < .68:
            out.append(f"{n} =\n    .t = attr {tag}\n")
        elif x < .76:
            out.append(f"-{n} = term {tag}\n")
        elif x < .84:
            out.append(f"{n} = {n}@{tag} {{ $x }} {{ F() }}\n")
        elif x < .9:
            out.append(f"{n} = {{ {r.choice(IDS)} }} via {tag}\n")
        elif x < .95:
            out.append(f"{n} = {{ NUMBER($x) }} {{ $x ->\n    [one] O\n   *[other] P\n }} {tag}\n")
        else:
            out.append(f'{n} = {{ "" }}\n')
    return "".join(out)


def gen(r, i, tier):
    locs = r.sample(LOCS, r.choice([0, 1, 2, 2, 3, 4]))
    if locs and r.random() < .1:
        locs.append(locs[0])
    layout = {}
    for l in dict.fromkeys(locs):
        layout[l] = [[text(r, f"{l}/{k}/{j}") for j in range(r.choice([1, 1, 2]))] for k in range(r.choice([0, 1, 1, 2, 3]))]
    big = r.random()
    if big < .012:
        # a long chain of locales, most of them with little in them
        locs = r.sample(MANY, r.choice([9, 12, 17, 24]))
        layout = {l: [[text(r, f"{l}/{k}/0") if r.random() < .15 else "other = x\n"] for k in range(r.choice([0, 1, 1, 1, 3]))] for l in locs}
    elif big < .024 and locs:
        # many locations, or many resources at each
        a, b = r.choice([(17, 1), (40, 1), (2, 17), (1, 40)])
        layout[locs[-1]] = [[text(r, f"{locs[-1]}/{k}/{j}") if r.random() < .3 else "other = x\n" for j in range(b)] for k in range(a)]
    elif big < .03 and locs:
        n = r.choice([130, 300, 520, 1100])
        layout[locs[-1]].append(["".join(f"f{j} = F\n" for j in range(n)) + text(r, "late") + "e = e@last\n"])
    reqs = [(r.choice(IDS * 3 + ["nope", "-a", "a.t", "", "f"]), r.random() < .3) for _ in range(r.randint(1, 12) if r.random() > .01 else r.choice([80, 80, 300, 1100]))]
    return {"locs": locs, "layout": layout, "reqs": reqs, "iso": r.choice([None, True, False]), "fn": r.random() < .5, "lazy": r.random() < .5,
            "ids": r.choice([["main.ftl"], ["a.ftl", "b.ftl"], []] + [["f%d.ftl" % k for k in range(40)]] * (big < .024)), "two": r.random() < .2, "args": r.choice([None, {}, {"x": 1}, {"x": 5}])}


def run(case, obs):
    log = []
    locs = list(case["locs"])
    layout = case["layout"]

    class Loader(AbstractResourceLoader):
        def resources(self, locale, ids):
            log.append(("ask", locale, list(ids)))
            if case["lazy"]:
                return self.lazily(locale)
            return iter([[FluentResource(t) for t in texts] for texts in layout[locale]])

        def lazily(self, locale):
            for k, texts in enumerate(layout[locale]):
                log.append(("load", locale, k))
                yield [FluentResource(t) for t in texts]

    class B(FluentBundle):
        def __init__(self, locales, functions=None, use_isolating=True):
            super().__init__(locales, functions=functions, use_isolating=use_isolating)
            log.append(("bundle", list(locales), functions, use_isolating))

        def add_resource(self, resource, *a, **k):
            log.append(("add",))
            return super().add_resource(resource, *a, **k)
    fns = {"F": lambda: "custom"} if case["fn"] else None
    kw = {"functions": fns} if fns else {}
    if case["iso"] is not None:
        kw["use_isolating"] = case["iso"]
    iso = bool(case["iso"])
    loc = FluentLocalization(locs, case["ids"], Loader(), bundle_class=B, **kw)
    other = FluentLocalization(locs, case["ids"], Loader(), **kw) if case["two"] else None
    # ---- the model: bundles in order, made on demand
    spec = [(i, l, k) for i, l in enumerate(case["locs"]) for k in range(len(layout[l]))]
    refs = []
    for i, l, k in spec:
        name = l if l != "xx-unknown" else None
        if name is None:
            rest = [x for x in case["locs"][i:] if x != "xx-unknown"]
            name = rest[0] if rest else "en-US"
        ref = RR.Bundle(name, iso, {"F": lambda p, n: "custom"} if fns else None)
        for t in layout[l][k]:
            ref.add(RP.strip_spans(RP.parse(t)))
        refs.append(ref)
    args = case["args"]
    rargs = {k: RR.Num(v) for k, v in (args or {}).items()}
    ctx = dict(case=case)
    obs.check(not any(e[0] in ("bundle", "load") for e in log), "something was loaded before the first request", log=log, **ctx)
    reached = 0
    obs.count("with_functions", bool(fns))
    obs.count("isolating", iso)
    for n, (mid, again) in enumerate(case["reqs"]):
        before = len(log)
        got = loc.format_value(mid, args) if args is not None else loc.format_value(mid)
        obs.count("requests")
        want, used = mid, len(refs)
        for j, ref in enumerate(refs):
            e = ref.messages.get(mid)
            if e is None:
                continue
            if e["value"] is None:
                obs.count("valueless_skipped")
                continue
            want, errs, _ = ref.format(e["value"], rargs)
            used = j + 1
            obs.count("fallbacks", j > 0)
            obs.count("fallbacks_beyond_8", j > 8)
            obs.count("second_location", spec[j][2] > 0)
            break
        else:
            obs.count("ids_returned")
        obs.eq(got, want, "wrong value", request=mid, position=n, **ctx)
        need = max(reached, used)
        made = [e for e in log if e[0] == "bundle"]
        obs.check(len(made) == need, f"{len(made)} bundles were made, {need} were needed", request=mid, position=n, log=log, **ctx)
        if need < len(refs):
            obs.count("not_loaded")
        if need == reached:
            obs.count("repeat_no_load")
            obs.check(not any(e[0] in ("bundle", "add", "load") for e in log[before:]), "a request that needed nothing new loaded something",
                      log=log[before:], request=mid, **ctx)
        for (i, l, k), m in zip(spec, made):
            obs.check(m[1] == case["locs"][i:], "a bundle has the wrong locale chain", got=m[1], want=case["locs"][i:], **ctx)
            obs.check(m[2] is fns or m[2] == fns or (not m[2] and not fns), "a bundle did not get the functions", **ctx)
            obs.check(m[3] == iso, "a bundle did not get the isolation setting", got=m[3], **ctx)
        loads = [e[1:] for e in log if e[0] == "load"]
        if case["lazy"]:
            obs.check(loads == [(l, k) for _, l, k in spec][:len(loads)] and len(loads) == need, "locations loaded out of order, twice or too early",
                      loads=loads, needed=need, **ctx)
        asks = [e[1] for e in log if e[0] == "ask"]
        obs.check(asks == case["locs"][:len(asks)], "the loader was asked out of order or twice", asks=asks, **ctx)
        if used < len(refs) and reached <= used:
            obs.check(len(asks) <= spec[need - 1][0] + 1 if need else len(asks) == 0, "a locale was asked for before it was needed", asks=asks, **ctx)
        obs.check(all(e[2] == case["ids"] for e in log if e[0] == "ask"), "the loader was asked for other resources", **ctx)
        reached = need
        obs.nontrivial((repr(layout), mid, n, tuple(case["locs"])))
        if again:
            obs.eq(loc.format_value(mid, args), want, "the same request gives another result", request=mid, **ctx)
        if other is not None and n % 2:
            mark = len(log)
            obs.eq(other.format_value(mid, args), want, "a second localization gives another result", request=mid, **ctx)
            del log[mark:]
            obs.count("interleaved")
    obs.count("bundles_created", sum(e[0] == "bundle" for e in log))
    adds = sum(e[0] == "add" for e in log)
    obs.check(adds == sum(len(layout[l][k]) for _, l, k in spec[:reached]), "resources were added other than once each", adds=adds, **ctx)
    obs.check(locs == case["locs"], "the list of locales was changed")
    if len(repr(case)) < 500:
        obs.sample(case)
