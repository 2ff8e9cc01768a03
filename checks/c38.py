"""C38: results are the same in every process."""
from .rt import *
from lib import env, procwork
import os, shutil, subprocess, sys, tempfile

ID = "C38"
RULE = ("batches of random texts and worlds computed in this process and in others started with another hash seed, optimisation level, locale, encoding, time zone, "
        "folder, warnings filter, import order, decimal context, garbage collection, tracing, threads and order of work; oracle: every tree, text, token and error "
        "is the same; distinct by (item, way of running)")
QUICK, THOROUGH = 96, 2400
NEED = {"processes": 240, "compared": 2400, "hash_seeds": 240, "optimized": 60, "localized": 58, "zoned": 60, "warnings_are_errors": 50, "threaded": 50, "reordered": 135,
        "decimal": 38, "gc": 45, "traced": 20, "imports": 55, "formats": 4000, "with_errors": 1000, "trees": 230, "from_files": 3400}
MIN_NONTRIVIAL = 2400
LOCALES = [{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LANG": "tr_TR.UTF-8", "LANGUAGE": "tr"},
           {"LC_ALL": "de_DE.UTF-8", "LANGUAGE": "de:fr"}, {"LC_ALL": "C.UTF-8"}, {"LC_NUMERIC": "de_DE", "LC_TIME": "ar", "LANG": "ja_JP.eucJP"}, {"PYTHONIOENCODING": "ascii"}, {"PYTHONUTF8": "1"}]
ZONES = ["Asia/Tokyo", "America/New_York", "UTC", "Pacific/Kiritimati", "XXX-3:30", "nonsense", ""]
MODULES = ["fluent.runtime.types", "fluent.runtime.resolver", "fluent.runtime.fallback", "fluent.runtime.builtins", "fluent.runtime.bundle", "fluent.runtime.prepare", "fluent.runtime.utils",
           "fluent.runtime.errors", "fluent.runtime", "fluent.syntax.ast", "fluent.syntax.stream", "fluent.syntax.serializer", "fluent.syntax.parser", "fluent.syntax.errors",
           "fluent.syntax.visitor", "fluent.syntax", "fluent.pygments.lexer", "fluent.pygments", "fluent.pygments.cli"]


def item(r):
    if r.random() < .45:
        x = r.random()
        if x < .5:
            g = G.Gen(r, size=.7)
            s = G.render(g.model(r.choice([1, 2, 2]), entries=r.randint(2, 5)), r, r.random() < .4)
            if r.random() < .3:
                s = T.mutate(r, s, 2)
        elif x < .75:
            s = "".join(r.choice(["", "ok = x\n", "# c\n"]) + r.choice(T.ERRORS) + r.choice(["\n", "\n\n", "\n  "]) for _ in range(r.randint(2, 5)))
        else:
            s = T.text(r)
        if r.random() < .2:
            s = G.crlf(s, r, 1.0)
        return {"kind": "text", "s": s.encode("utf-8", "replace").decode("utf-8")}
    w = RT.world(r)
    files = [w["src"].encode("utf-8", "replace").decode("utf-8")]
    return {"kind": "world", **w, "files": files}


def variant(r, n):
    v = {"flags": [], "env": {}, "on": [], "imports": [], "order": list(range(n)), "cwd": None}
    v["env"]["PYTHONHASHSEED"] = r.choice(["0", "1", "2", "3", str(r.randint(4, 4000000000)), "random"])
    p = r.choice([.15, .35])
    if r.random() < p:
        v["flags"].append(r.choice(["-O", "-OO"]))
    if r.random() < p:
        v["env"].update(r.choice(LOCALES))
        if r.random() < .5:
            v["on"].append("locale")
    if r.random() < p:
        v["env"]["TZ"] = r.choice(ZONES)
    if r.random() < p:
        v["imports"] = r.sample(MODULES, r.choice([1, 1, 3]))
    if r.random() < p:
        v["on"].append("errors")
    x = r.random()
    if x < p:
        v["on"].append("threads")
    elif x < 2 * p:
        v["on"].append("thread")
    for name, q in (("decimal", .7), ("gc_off", .4), ("gc_often", .5), ("traced", .4), ("random", .4), ("noargv", .3), ("recursion", .3)):
        if r.random() < p * q:
            v["on"].append(name)
    if r.random() < .6:
        r.shuffle(v["order"])
    if r.random() < p:
        v["cwd"] = r.choice(["/", "here"])
    if r.random() < .1:
        v["flags"].append(r.choice(["-Xutf8=0", "-Xdev", "-Wd", "-bb", "-Xint_max_str_digits=0"]))
    return v


def gen(r, i, tier):
    items = [item(r) for _ in range(r.randint(8, 14))]
    return {"items": items, "variants": [variant(r, len(items)) for _ in range(5)]}


def start(v, items, root):
    spec = {"verif": env.VERIF, "items": items, "order": v["order"], "on": v["on"], "imports": v["imports"], "root": root, "cwd": root if v["cwd"] == "here" else v["cwd"]}
    e = {k: x for k, x in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "TZ"))}
    e.update(v["env"])
    e["VERIF_REPO"] = env.REPO
    p = subprocess.run([sys.executable, "-B", *v["flags"], os.path.join(env.VERIF, "checks", "aux", "procchild.py")], input=json.dumps(spec).encode("ascii"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=root, timeout=300)
    return p


def run(case, obs):
    root = tempfile.mkdtemp(prefix="verif-c38-")
    try:
        items = json.loads(json.dumps(case["items"]))
        want = []
        for k, x in enumerate(items):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                want.append(procwork.do(x, os.path.join(root, "base", str(k))))
            if x["kind"] == "text":
                obs.count("trees")
                obs.check(isinstance(want[k], dict), "processing a text raised", text=x["s"], got=want[k])
            else:
                obs.count("formats", len(want[k]))
                obs.count("with_errors", sum(len(t) == 3 and t[0] and isinstance(t[1], str) and bool(t[2]) for t in want[k]))
                obs.count("from_files", sum(len(t) == 2 and isinstance(t[1], str) for t in want[k]))
                obs.check(not (want[k] and want[k][0] == "raised"), "formatting raised", source=x["src"], got=want[k])
        for n, v in enumerate(case["variants"]):
            d = os.path.join(root, str(n))
            os.mkdir(d)
            p = start(v, items, d)
            how = {k: x for k, x in v.items() if x}
            mark = p.stdout.rfind(b"\nRESULTS:")
            obs.check(p.returncode == 0 and mark >= 0, "the process failed", how=how, status=p.returncode, stderr=p.stderr.decode("utf-8", "replace")[-1500:])
            obs.check(mark == 0, "something was printed", how=how, got=p.stdout[:mark].decode("utf-8", "replace")[:500])
            got = json.loads(p.stdout[mark + 9:])
            obs.count("processes")
            on = set(v["on"])
            obs.count("hash_seeds", "PYTHONHASHSEED" in v["env"])
            obs.count("optimized", any(f.startswith("-O") for f in v["flags"]))
            obs.count("localized", len(set(v["env"]) - {"TZ", "PYTHONHASHSEED"}) > 0)
            obs.count("zoned", "TZ" in v["env"])
            obs.count("warnings_are_errors", "errors" in on)
            obs.count("threaded", bool(on & {"threads", "thread"}))
            obs.count("reordered", v["order"] != sorted(v["order"]))
            obs.count("decimal", "decimal" in on)
            obs.count("gc", bool(on & {"gc_off", "gc_often"}))
            obs.count("traced", "traced" in on)
            obs.count("imports", bool(v["imports"]))
            for k, x in enumerate(items):
                if got[k] != want[k]:
                    dd = diff(got[k], want[k])
                    obs.check(dd is None, "the result is another in a process started otherwise", how=how, item=x.get("s", x.get("src")), where=dd[0], got=repr(dd[1])[:400],
                              want=repr(dd[2])[:400], args=x.get("args"))
                obs.count("compared")
                obs.nontrivial((x.get("s", x.get("src")), repr(how)))
        obs.sample({"how": how, "items": len(items)})
    finally:
        shutil.rmtree(root, ignore_errors=True)
