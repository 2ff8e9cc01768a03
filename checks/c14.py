"""C14: formatting yields what the Fluent semantics prescribe."""
from .rt import *

ID = "C14"
RULE = ("random bundles of messages and terms referring to each other, in many locales, with random arguments and custom functions; every "
        "value and attribute formatted and compared with an independent evaluator; non-trivial: at least one placeable; distinct by "
        "(pattern, arguments, result)")
QUICK, THOROUGH = 2500, 80000
NEED = {"formats": 20000, "with_selection": 2000, "error_free": 4000, "with_calls": 2000, "literal_only": 500, "long_text": 50, "deep": 500}
MIN_NONTRIVIAL = 6000


def gen(r, i, tier):
    w = RT.world(r, big=.06, cyclic=r.choice([0, 0, .1]))
    if i % 25 == 0:
        # long text is text, however long
        n = r.choice([2400, 2499, 2500, 2501, 2600, 6000])
        w["src"] = ("m0 = " + "t" * n + " { $name } end\nm1 = { \"" + "s" * n + "\" } { $name }\nm2 = " + "u" * n + "\nm3 = { m2 }\n"
                    "m4 = { $name ->\n  [one] " + "v" * n + "{ $n }\n *[other] " + "w" * 7 + "{ $n }\n }\n")
        w["tree"] = RP.strip_spans(RP.parse(w["src"]))
        w["long"] = True
    return w


def run(w, obs):
    p = Pair(w)
    if w.get("long"):
        obs.count("long_text")
    for args in w["args"]:
        for label, pat in RT.patterns(w["tree"]):
            got, gerr, want, werr, call = p.both(label, pat, args)
            obs.count("formats")
            if call.parts > 900:
                continue            # C19
            if isinstance(got, FluentNone):
                got = "FluentNone:" + str(got.name)
            obs.eq(got, want, "formatted text differs from the Fluent semantics", message=label, args=args, source=w["src"], iso=w["iso"],
                   locale=w["locale"], errors=gerr, expected_errors=werr)
            obs.check(bool(gerr) == bool(werr), "errors reported for a clean formatting, or none for a failing one", errors=gerr,
                      expected_errors=werr, message=label, args=args, source=w["src"])
            if not werr:
                obs.count("error_free")
            if call.selected:
                obs.count("with_selection")
            if call.calls:
                obs.count("with_calls")
            if call.depth >= 3:
                obs.count("deep")
            if call.depth:
                obs.nontrivial((json.dumps(pat), repr(args), want))
                if not werr and len(want) < 200:
                    obs.sample({"message": label, "text": want})
            else:
                obs.count("literal_only")
            obs.state("results", want)
