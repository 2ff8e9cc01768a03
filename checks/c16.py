"""C16: formatting never raises; problems show as fallbacks plus errors."""
from .rt import *

from fluent.runtime.errors import FluentFormatError, FluentReferenceError, FluentCyclicReferenceError
import copy, pickle

ID = "C16"
KINDS = [FluentFormatError, FluentReferenceError, FluentCyclicReferenceError]
RULE = ("random bundles and arguments full of failures (unknown references, missing and unsupported arguments, failing functions, wrong "
        "builtin uses); text and the complete error list compared with an independent evaluator; plus hostile worlds for totality; distinct by "
        "(errors, text)")
QUICK, THOROUGH = 2200, 70000
NEED = {"formats": 18000, "with_errors": 6000, "error_free": 3000, "several_errors": 2500, "hostile": 300, "errors_compared": 6000}
NEED.update({"error:" + k: 100 for k in ("Unknown external", "Unknown message", "Unknown term", "Unknown attribute", "Unknown function", "No pattern",
                                         "Unsupported external type", "Ignored positional", "function raised")})
MIN_NONTRIVIAL = 4000


class Evil:
    def __str__(self):
        raise RuntimeError("no str")
    __repr__ = __str__


class EvilStr(str):
    def __len__(self):
        raise RuntimeError("no len")


class EvilEq(str):
    def __eq__(self, o):
        raise RuntimeError("no eq")
    __hash__ = str.__hash__


def gen(r, i, tier):
    if i % 12 == 0:
        w = RT.world(r, cyclic=.3)
        w["hostile"] = r.getrandbits(30)
        return w
    return RT.world(r, cyclic=r.choice([0, .15]))


def run(w, obs):
    if "hostile" in w:
        return hostile(w, obs)
    p = Pair(w)
    for args in w["args"]:
        for label, pat in RT.patterns(w["tree"]):
            got, gerr, want, werr, call = p.both(label, pat, args)
            obs.count("formats")
            if call.parts > 900:
                continue
            ctx = dict(message=label, args=args, source=w["src"], iso=w["iso"], locale=w["locale"])
            obs.check(isinstance(got, (str, FluentNone)), "format_pattern returned " + type(got).__name__, **ctx)
            if isinstance(got, FluentNone):
                got = "FluentNone:" + str(got.name)
            obs.check(same_errors(gerr, werr), "wrong errors", got=gerr, want=werr, **ctx)
            obs.eq(got, want, "wrong text with errors " + repr(werr)[:200], **ctx)
            for c, t in werr:
                k = "function raised"
                for known in ("Unknown external", "Unknown message", "Unknown term", "Unknown attribute", "Unknown function", "No pattern",
                              "Unsupported external type", "Ignored positional", "Cyclic reference"):
                    if t and t.startswith(known):
                        k = known
                obs.count("error:" + k)
            if werr:
                obs.count("with_errors")
                obs.nontrivial((repr(werr), want))
                if len(want) < 120:
                    obs.sample({"text": want, "errors": werr})
            else:
                obs.count("error_free")
            if len(werr) > 1:
                obs.count("several_errors")
            own = [e for e in p.errors if isinstance(e, FluentFormatError)]
            for e in own:
                obs.check(e == type(e)(*e.args) and not e != type(e)(*e.args), "an error differs from one of its class and text", error=repr(e), **ctx)
                for c in KINDS:
                    obs.check((e == c(*e.args)) == (type(e) is c), "an error's class does not count in comparison", error=repr(e), other=c.__name__, **ctx)
                obs.check(e != type(e)(e.args[0] + "x") and e != e.args[0] and e != ValueError(*e.args) and e != LookupError(*e.args),
                          "an error is equal to something else", error=repr(e), **ctx)
                again = [copy.copy(e), copy.deepcopy(e), pickle.loads(pickle.dumps(e))]
                obs.check(all(type(x) is type(e) and x == e and str(x) == str(e) for x in again), "a copy of an error differs", error=repr(e), **ctx)
                obs.count("errors_compared")
            for e, f in zip(own, own[1:]):
                obs.check((e == f) == (err_image(e) == err_image(f)), "errors compare otherwise than their class and text", errors=[repr(e), repr(f)], **ctx)


def hostile(w, obs):
    """Anything at all as arguments: a pair comes back."""
    import random, decimal
    r = random.Random(w["hostile"])
    b = FluentBundle([w["locale"]], functions=RT.fn_repo([]), use_isolating=w["iso"])
    b.add_resource(FluentResource(w["src"]))
    pool = [Evil(), EvilStr("x"), EvilEq("one"), float("nan"), float("inf"), -float("inf"), decimal.Decimal("NaN"), decimal.Decimal("Infinity"),
            decimal.Decimal("sNaN"), 10 ** 40, 10 ** 400, 1e308, 5e-324, decimal.Decimal("1E+999"), "x" * 3000, "\ud800", "\0", b"", Evil, lambda: 1, ..., [], (), {},
            __import__("datetime").date.max, __import__("datetime").datetime.min, __import__("datetime").time(1), True, None, object(), type]
    for label, pat in RT.patterns(w["tree"]):
        args = {v: r.choice(pool) for v in w.get("vars", RT.VARS) if r.random() < .9}
        obs.count("hostile")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = b.format_pattern(RT.get(b, label), args)
        obs.check(isinstance(out, tuple) and len(out) == 2 and isinstance(out[0], (str, FluentNone)) and isinstance(out[1], list),
                  "format_pattern returned something else than text and errors", message=label, source=w["src"])
        obs.check(all(isinstance(e, Exception) for e in out[1]), "a non-exception in the error list")
        obs.check(out[0] != "{???}" or out[1], "gave up without an error", message=label)
