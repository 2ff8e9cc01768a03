"""C17: terms see only the arguments passed to them."""
from .rt import *

ID = "C17"
RULE = ("chains of messages and terms referring to each other with and without arguments, every variable observable in the text; oracle: "
        "independent evaluator with explicit scopes; distinct by (source, arguments)")
QUICK, THOROUGH = 5000, 160000
NEED = {"formats": 12000, "term_calls": 12000, "positional_ignored": 1000, "missing_in_term": 4000, "missing_outside": 800, "after_term": 8000,
        "nested_terms": 4000, "message_from_term": 720}
MIN_NONTRIVIAL = 2500
V = ["a", "b", "c"]


def gen(r, i, tier):
    nt, nm = r.randint(1, 4), r.randint(1, 4)
    def lit():
        return r.choice(['"L%d"' % r.randint(0, 9), str(r.randint(0, 99)), '"one"', "1.5", '""'])
    def targs():
        if r.random() < .3:
            return ""
        pos = [r.choice([lit(), "$a", "$nope", "NUMBER($b)", '{ $c }']) for _ in range(r.choice([0, 0, 0, 1, 2]))]
        named = [f"{v}: {lit()}" for v in r.sample(V + ["unused", "extra"], r.choice([0, 1, 1, 2, 3]))]
        if r.random() < .02:
            # among many others
            named += [f"more{k}: {k}" for k in range(r.choice([6, 14, 30, 70]))]
            r.shuffle(named)
        return "(" + ", ".join(pos + named) + ")"
    def term(lo):
        c = list(range(lo, nt)) or [99]
        return f"-t{r.choice(c) if r.random() < .95 else 99}" + ("" if r.random() < .8 else ".x") 
    def ref(tlo, mlo, sel=False):
        x = r.random()
        if x < .42:
            return "$" + r.choice(V + ["nope"] if r.random() < .3 else V)
        if x < .82 and tlo < nt:
            k = r.choice(range(tlo, nt)) if r.random() < .95 else 99
            return f"-t{k}" + targs()
        if x < .92 and mlo < nm:
            return f"m{r.randrange(mlo, nm)}" + r.choice(["", "", ".x"])
        if x < .97:
            return "ID(" + "$" + r.choice(V) + ")"
        return "NUMBER($" + r.choice(V) + ", minimumFractionDigits: 1)"
    def seg(tlo, mlo):
        x = r.random()
        if x < .8:
            return "{ " + ref(tlo, mlo) + " }"
        s = r.choice(["$" + r.choice(V), "$" + r.choice(V)] + ([f"-t{r.randrange(tlo, nt)}.x" + targs()] if tlo < nt else []))
        return "{ " + s + f" ->\n    [one] one { '{' } {ref(tlo, mlo)} {'}'}\n    [L1] L1\n   *[other] o { '{' } {ref(tlo, mlo)} {'}'}\n    }}"
    def pat(tlo, mlo):
        n = r.choice([1, 2, 3, 4, 6])
        return " ".join(r.choice(["", "w "]) + seg(tlo, mlo) for _ in range(n))
    src = ""
    for m in range(nm):
        src += f"m{m} = {pat(0, m + 1)}\n    .x = {pat(0, m + 1)}\n"
    back = r.random() < .3
    for t in range(nt):
        src += f"-t{t} = {pat(t + 1, nm - 1 if back and nm > 1 else nm)}\n    .x = {r.choice([pat(t + 1, nm), '{ $a }', 'one', '{ $b }'])}\n"
    args = [{v: r.choice([("str", "S" + v), ("int", 1), ("int", 7), ("str", "one"), ("dec", "1.5")]) for v in V if r.random() < .8} for _ in range(2)]
    return {"src": src, "locale": "en-US", "iso": r.random() < .4, "args": args}


def run(w, obs):
    w = dict(w)
    w["tree"] = RP.strip_spans(RP.parse(w["src"]))
    if any(e["type"] == "Junk" for e in w["tree"]["body"]):
        raise AssertionError("generator made junk: " + w["src"])
    p = Pair(w)
    for args in w["args"]:
        for label, pat in RT.patterns(w["tree"]):
            got, gerr, want, werr, call = p.both(label, pat, args)
            obs.count("formats")
            if call.parts > 900:
                continue
            obs.eq(got, want, "text differs: wrong variables visible", message=label, args=args, source=w["src"], errors=gerr, expected=werr)
            obs.check(same_errors(gerr, werr), "errors differ: wrong error reporting in or after a term", got=gerr, want=werr, message=label, args=args,
                      source=w["src"])
            obs.count("positional_ignored", sum((t or "").startswith("Ignored pos") for _, t in werr))
            obs.count("missing_outside", sum((t or "").startswith("Unknown ext") for _, t in werr))
            js = json.dumps(pat)
            k = js.count('"TermReference"')
            obs.count("term_calls", k)
            # something evaluated after a term reference in the same pattern
            i = js.find('"TermReference"')
            if i >= 0 and '"VariableReference"' in js[i:]:
                obs.count("after_term")
            if call.depth >= 3 and k:
                obs.count("nested_terms")
            obs.count("missing_in_term", call_missing(w, want))
    src = w["src"]
    for line in src.split("\n-t")[1:]:
        if " m" in line and "{ m" in line:
            obs.count("message_from_term")
    obs.nontrivial((src, repr(w["args"])))
    if len(src) < 400:
        obs.sample(src)


def call_missing(w, want):
    """Bare variable names showing in the text: variables a term was not passed."""
    return sum(1 for x in want.replace("\u2068", " ").replace("\u2069", " ").split() if x in V)
