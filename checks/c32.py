"""C32: the command-line tools agree with the library."""
from .common import *
from fluent.pygments.lexer import FluentLexer
from lib import env
import contextlib, io, os, re, runpy, shutil, subprocess, sys, tempfile

ID = "C32"
RULE = ("random UTF-8 files (valid, broken, CRLF, lone CR, byte order mark, astral and separator characters, empty, JSON trees with and without spans) given to "
        "each tool, in the monitor's process (many) and as processes of their own under different locales (some); output, exit status and the folder compared "
        "with the library's result; distinct by (tool, content)")
QUICK, THOROUGH = 5000, 120000
NEED = {"fmt": 2500, "parse": 2500, "serialize": 2500, "highlight": 2500, "processes": 240, "odd_locale_processes": 100, "crlf": 600, "cr": 200, "astral": 300,
        "bom": 100, "junk": 1200, "files_unchanged": 10000, "empty": 1, "read_back": 2500}
MIN_NONTRIVIAL = 8000
ANSI = re.compile(r"\x1b\[[0-9;]*m")
LOCALES = [{}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}]


def gen(r, i, tier):
    x = r.random()
    if x < .5:
        g = G.Gen(r, size=r.choice([.5, 1]))
        s = G.render(g.model(r.choice([1, 2, 2]), entries=r.randint(1, 4)), r, r.random() < .4)
        if r.random() < .3:
            s = T.mutate(r, s, 1)
    elif x < .6:
        s = "".join(r.choice(["", "ok = é😀\n", "# c\n", "\n", "\n\n"]) + r.choice(T.ERRORS) + r.choice(["\n", "\n\n", "\n  "]) for _ in range(r.randint(1, 2)))
    else:
        s = T.text(r)
    y = r.random()
    if y < .2:
        s = G.crlf(s, r, r.choice([1.0, .5]))
    elif y < .27:
        s = s.replace("\n", "\r", r.randint(1, 2))
    elif y < .32:
        s = "\ufeff" + s
    elif y < .42:
        s = s.replace(r.choice("aeko "), r.choice(["😀", "𝒳", "\u2028", "\x0c", "\x85", "é", "漢", "\x1c"]), r.randint(1, 3))
    elif y < .46:
        s = r.choice(["\n\n", "", "\n \n"]) + s + r.choice(["\n\n\n", " ", ""])
    s = s.replace("\x1b", "e").encode("utf-8", "ignore").decode("utf-8")
    return {"text": s, "spans": r.random() < .5, "indent": r.choice([None, 2, 4]), "ascii": r.random() < .5, "process": r.choice([0, 1, 2, 3]) if i % 60 == 7 else None,
            "name": r.choice(["file.ftl", "f", "a b.ftl", "ü.ftl", "x.json"]), "relative": r.random() < .3}


def fixed(tier):
    for k, s in enumerate(["", "\n", "a = b", "\ufeffa = b\n", "a = é😀\r\n", "broken\n", "a = b\u2028c\n", "# c\n\n\n\nfoo = x\n", "a = \"x\\\" \\\\ é\"\n"]):
        for loc in range(4):
            yield {"text": s, "spans": True, "indent": None, "ascii": bool(k % 2), "process": loc, "name": "file.ftl", "relative": False}


def feedback(c):
    T.fb(c["text"])


def inproc(path, mod, argv):
    """Run a tool as __main__ in this process, as the interpreter would."""
    raw = io.BytesIO()
    out = io.TextIOWrapper(raw, encoding="utf-8", newline="", write_through=True)
    old, oldpath = sys.argv, list(sys.path)
    sys.argv = [path or mod] + argv
    code = 0
    try:
        with contextlib.redirect_stdout(out):
            try:
                if path:
                    runpy.run_path(path, run_name="__main__")
                else:
                    import fluent.pygments.cli
                    fluent.pygments.cli.main()
            except SystemExit as e:
                code = e.code or 0
    finally:
        sys.argv = old
        sys.path[:] = oldpath
    out.flush()
    return code, raw.getvalue().decode("utf-8"), ""


def process(path, mod, argv, loc, cwd):
    e = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": os.pathsep.join(os.path.join(env.REPO, p) for p in env.PKGS), "PYTHONIOENCODING": "utf-8",
         "PYTHONDONTWRITEBYTECODE": "1", "HOME": cwd, **LOCALES[loc]}
    p = subprocess.run([sys.executable] + ([path] if path else ["-m", mod]) + argv, env=e, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = (fh.read(), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d)] = None
    return out


def run(case, obs):
    s = case["text"]
    d = tempfile.mkdtemp(prefix="verif-c32-")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        tree = parse(s)
        jtree = J(tree if case["spans"] else FluentParser(with_spans=False).parse(s))
        ftl, js = os.path.join(d, case["name"]), os.path.join(d, "tree.json")
        with open(ftl, "wb") as f:
            f.write(s.encode("utf-8"))
        with open(js, "wb") as f:
            f.write(json.dumps(jtree, indent=case["indent"], ensure_ascii=case["ascii"]).encode("utf-8"))
        before = snapshot(d)
        obs.count("junk", any(e["type"] == "Junk" for e in jtree["body"]))
        obs.count("crlf", "\r\n" in s)
        obs.count("cr", "\r" in s.replace("\r\n", ""))
        obs.count("astral", any(ord(c) > 0xffff for c in s))
        obs.count("bom", s.startswith("\ufeff"))
        obs.count("empty", s == "")
        ways = [None] if case["process"] is None else [None, case["process"]]
        for tool, path, mod, arg in (("fmt", "tools/fluentfmt.py", None, ftl), ("parse", "tools/parse.py", None, ftl), ("serialize", "tools/serialize.py", None, js),
                                     ("highlight", None, "fluent.pygments.cli", ftl)):
            path = path and os.path.join(env.REPO, path)
            # what the library says
            want = fail = None
            if tool in ("fmt", "serialize"):
                try:
                    want = serialize(tree if tool == "fmt" else FTL.from_json(json.loads(json.dumps(jtree)))) + "\n"
                except Exception as e:     # a tree without text (C08's finding)
                    continue
            if case["relative"]:
                arg = os.path.basename(arg)
            for way in ways:
                ctx = dict(tool=tool, way=way, text=s)
                code, out, err = inproc(path, mod, [arg]) if way is None else process(path, mod, [arg], way, d)
                obs.check(code == 0, f"{tool} failed with status {code}", stderr=err[-400:], **ctx)
                obs.check(err == "", "output on stderr", stderr=err[-400:], **ctx)
                obs.count(tool)
                if way is not None:
                    obs.count("processes")
                    obs.count("odd_locale_processes", way in (1, 2))
                if tool in ("fmt", "serialize"):
                    obs.eq(out, want, f"{tool} prints other text than the library", **ctx)
                elif tool == "parse":
                    try:
                        got = json.loads(out)
                    except ValueError as e:
                        raise Violation("parse does not print JSON", output=out[:500], **ctx)
                    same(obs, got, J(tree), "parse prints another tree than the library", **ctx)
                    obs.check(FTL.from_json(got).equals(tree, ignored_fields=[]), "the printed tree does not read back equal", **ctx)
                    obs.count("read_back")
                else:
                    norm = s.replace("\r\n", "\n").replace("\r", "\n").removeprefix("\ufeff")
                    vis = ANSI.sub("", out)
                    obs.eq(vis.strip("\n"), norm.strip("\n"), "the highlighted text is not the file's", **ctx)
                    from pygments import highlight
                    from pygments.formatters import Terminal256Formatter
                    obs.eq(out.rstrip("\n"), highlight(norm, FluentLexer(), Terminal256Formatter()).rstrip("\n"), "highlighting unlike the library's", **ctx)
                after = snapshot(d)
                obs.check(after == before, "the tool changed files", changed=sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0)), **ctx)
                obs.count("files_unchanged")
            if len(s) > 3:
                obs.nontrivial((tool, s))
        if 10 < len(s) < 120:
            obs.sample(s)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
