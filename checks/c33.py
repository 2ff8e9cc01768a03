"""C33: a bundle formats for the first of its locales it knows."""
from .rt import *
from fluent.runtime import FluentLocalization, AbstractResourceLoader
import datetime
from decimal import Decimal

ID = "C33"
RULE = ("random locale chains of known tags in random spelling, unknown languages, and well-formed tags the locale data cannot parse; plural and ordinal "
        "selection, numbers, currencies, percentages, dates and times formatted by bundles made for the chain, directly and through a localization; "
        "oracle: an independent evaluator for the first known tag of the chain; distinct by (chain, values)")
QUICK, THOROUGH = 6000, 200000
NEED = {"formatted": 60000, "first_known": 1700, "later_known": 590, "none_known": 150, "unparseable_skipped": 900, "unknown_skipped": 900, "respelled": 650,
        "localizations": 1000, "later_bundles": 700, "with_script": 250, "in_terms": 5000}
MIN_NONTRIVIAL = 3000
# tag -> the locale it means
KNOWN = {"en-US": "en_US", "en": "en", "en-GB": "en_GB", "de": "de", "de-AT": "de_AT", "de-CH": "de_CH", "fr": "fr", "fr-CH": "fr_CH", "es-MX": "es_MX",
         "es": "es", "pt-BR": "pt", "pt-PT": "pt_PT", "ja": "ja", "ru": "ru", "pl": "pl", "cs": "cs", "ar": "ar", "ar-EG": "ar_EG", "he": "he", "hi": "hi",
         "sl": "sl", "ga": "ga", "cy": "cy", "lt": "lt", "zh-Hant-TW": "zh_Hant_TW", "zh-Hans": "zh_Hans", "zh-TW": "zh_Hant_TW", "sr-Latn": "sr_Latn",
         "sr-Cyrl-RS": "sr_Cyrl_RS", "sv-SE": "sv", "it": "it", "it-CH": "it_CH", "ko-KR": "ko", "uk": "uk", "mt": "mt", "br": "br", "lv": "lv", "ro": "ro"}
UNKNOWN = ["xx", "qqq", "x-pseudo", "i-klingon", "qps-ploc", "zz-ZZ", "tlh", "xx-US", "sh", "zxx", "art-lojban", "qaa"]
UNPARSEABLE = ["en-x-pseudo", "en-US-x-accented", "ja-JP-mac", "de-x-formal", "1", "en--US", "", "fr-u-ca-buddhist-x", "-", "de_", "12-34"]
SRC = """\
n = { $n }
nn = <{ NUMBER($n, minimumFractionDigits: 2) }>
p = { NUMBER($n, style: "percent") }
o = { NUMBER($n, type: "ordinal") ->
    [zero] ZERO
    [one] ONE
    [two] TWO
    [few] FEW
    [many] MANY
   *[other] OTHER
 }
c = { $n ->
    [zero] ZERO
    [one] ONE
    [two] TWO
    [few] FEW
    [many] MANY
   *[other] OTHER
 }
d = { $d }
df = { DATETIME($d, dateStyle: "full") }
dt = { DATETIME($t, dateStyle: "long", timeStyle: "short") }
lit = { 1234567.5 } { 3 ->
    [few] F
    [many] M
   *[other] O
 }
-t = { $v ->
    [zero] zero
    [one] one
    [two] two
    [few] few
    [many] many
   *[other] other
 } { 9876543 }
term = { -t(v: 2) } { -t(v: 5) } { -t(v: 1) }
m = { $m }
"""
TREE = None


def respell(r, t):
    x = r.random()
    if x < .5:
        return t
    if x < .7:
        return t.replace("-", "_")
    if x < .8:
        return t.upper()
    if x < .9:
        return t.lower()
    return t.lower().replace("-", "_")


def gen(r, i, tier):
    chain = []
    most = r.choice([1, 1, 1, 2, 2, 3, 4, 5]) if r.random() > .02 else r.choice([9, 12, 17, 30])
    for _ in range(most):
        x = r.random() ** (1 if most < 9 else .15)
        if x < .6:
            k = r.choice(list(KNOWN))
            chain.append((respell(r, k), k))
        else:
            chain.append((r.choice(UNKNOWN if x < .8 else UNPARSEABLE), None))
    vals = []
    for _ in range(2):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 14, 20, 21, 22, 80, 100, 101, 1000, 1234567, -1, -5432, 1.5, 0.5, 0.0, 1234.5, 10 ** 9])
        if r.random() < .2:
            n = Decimal(str(n))
        y, mo, da, h, mi = r.randint(1990, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59)
        vals.append((n, (y, mo, da), (y, mo, da, h, mi)))
    return {"chain": chain, "vals": vals, "iso": r.random() < .3, "loc": r.random() < .35}


def args(v):
    from fluent.runtime.types import fluent_number
    n, d, t = v
    d, t = datetime.date(*d), datetime.datetime(*t)
    a = {"n": n, "d": d, "t": t, "m": fluent_number(n, style="currency", currency="USD")}
    ra = {"n": RR.Num(n), "d": RR.Date(d), "t": RR.Date(t), "m": RR.Num(n, style="currency", currency="USD")}
    return a, ra


def effective(chain):
    for j, (tag, k) in enumerate(chain):
        if k:
            return j, KNOWN[k]
    return None, None


def run(case, obs):
    global TREE
    if TREE is None:
        TREE = RP.parse(SRC)
        if isinstance(TREE, tuple):
            TREE = TREE[0]
    chain = case["chain"]
    tags = [t for t, _ in chain]
    j, eff = effective(chain)
    obs.count("none_known" if eff is None else "first_known" if j == 0 else "later_known")
    for t, k in chain[:j]:
        obs.count("unparseable_skipped" if t in UNPARSEABLE else "unknown_skipped")
    if eff:
        obs.count("respelled", tags[j] != chain[j][1])
        obs.count("with_script", eff.count("_") > 1 or "Latn" in eff)
    given = list(tags)
    b = FluentBundle(given, use_isolating=case["iso"])
    b.add_resource(FluentResource(SRC))
    obs.check(given == tags, "the list of locales was changed", before=tags, after=given)
    compare(case, obs, b, eff, tags)
    obs.nontrivial((repr(tags), repr(case["vals"])))
    if case["loc"]:
        # The bundle of each locale is made for the chain from there on.
        made = []

        class Recording(FluentBundle):
            def __init__(self, locales, **k):
                super().__init__(locales, **k)
                made.append(self)

        class Loader(AbstractResourceLoader):
            def resources(self, locale, ids):
                yield [FluentResource(SRC)]

        l = FluentLocalization(list(tags), ["a.ftl"], Loader(), use_isolating=case["iso"], bundle_class=Recording)
        obs.count("localizations")
        a, ra = args(case["vals"][0])
        _, eff0 = effective(chain)
        if eff0:
            ref = RR.Bundle(eff0, case["iso"])
            ref.add(TREE)
            for m in ("n", "c", "o", "df", "term", "m"):
                want, _, _ = ref.format(ref.messages[m]["value"], ra)
                obs.eq(l.format_value(m, a), want, "a localization formats for another locale", message=m, chain=tags, locale=eff0, args=repr(a))
        l.format_value("missing everywhere")
        obs.check(len(made) == len(tags), "not one bundle per locale", got=len(made), chain=tags)
        for k, bundle in enumerate(made[1:], 1):
            _, effk = effective(chain[k:])
            if effk:
                obs.count("later_bundles")
                compare({**case, "vals": case["vals"][:1]}, obs, bundle, effk, tags[k:])


def compare(case, obs, b, eff, tags):
    for v in case["vals"]:
        a, ra = args(v)
        if eff is None:
            # The system's locale: any text, but no failure.
            for m in ("n", "c", "o", "d", "dt", "term"):
                got, errs = b.format_pattern(b.get_message(m).value, a)
                obs.check(isinstance(got, str) and not errs, "formatting fails without a known locale", chain=tags, text=got, errors=repr(errs))
            continue
        ref = RR.Bundle(eff, case["iso"])
        ref.add(TREE)
        for m in ref.messages:
            got, errs = b.format_pattern(b.get_message(m).value, a)
            want, werrs, _ = ref.format(ref.messages[m]["value"], ra)
            obs.count("formatted")
            obs.count("in_terms", m == "term")
            obs.check(not errs and not werrs, "errors: " + repr(errs), message=m, chain=tags)
            obs.eq(got, want, "not formatted for the first known locale", message=m, chain=tags, locale=eff, args=repr(a))
    obs.sample({"chain": tags, "locale": eff, "text": [got, want] if eff else "system locale"})
