#!/usr/bin/env python3
"""Systematic mutants of the sources, to look for gaps in the checks (a development tool; no check uses it).

    mutate.py list                       number of mutants per file
    mutate.py tests OUT [-jN]            which mutants pass the stable tests -> OUT (JSON lines)
    mutate.py checks IN OUT [-jN]        run the checks that concern the file on those, stopping at the first that reports
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
S, R, P, D = "fluent.syntax/fluent/syntax/", "fluent.runtime/fluent/runtime/", "fluent.pygments/fluent/pygments/", "fluent.docs/fluent/docs/"
SYN = ["C13", "C05", "C04", "C06", "C03", "C02", "C07", "C08", "C09", "C12", "C11", "C01", "C30", "C29", "C28", "C32", "C10"]
RUN = ["C14", "C16", "C22", "C24", "C23", "C15", "C20", "C17", "C12", "C26", "C25", "C18", "C21", "C19", "C28", "C27"]
FILES = {S + "parser.py": SYN, S + "stream.py": SYN, S + "ast.py": ["C10", "C12", "C06", "C11", "C08", "C03", "C05", "C32"], S + "errors.py": ["C05"],
         S + "serializer.py": ["C09", "C08", "C32"], S + "visitor.py": ["C11"], S + "__init__.py": ["C08", "C03", "C06", "C32"],
         R + "resolver.py": RUN, R + "bundle.py": RUN, R + "prepare.py": RUN, R + "types.py": ["C22", "C24", "C23", "C15", "C14", "C16", "C21", "C25"],
         R + "utils.py": RUN, R + "builtins.py": ["C24", "C22", "C23", "C14", "C16"], R + "fallback.py": ["C26", "C28", "C27"], R + "errors.py": ["C16", "C19"],
         R + "__init__.py": ["C14", "C05", "C28"], P + "lexer.py": ["C30", "C29", "C32"], P + "cli.py": ["C32"], D + "build.py": ["C31"], D + "tags.py": ["C31"],
         D + "__init__.py": ["C31"], "tools/fluentfmt.py": ["C32"], "tools/parse.py": ["C32"], "tools/serialize.py": ["C32"], "scripts/build-docs": ["C31"]}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
ATTR = {"rstrip": "strip", "strip": "rstrip", "lstrip": "strip", "append": "extend", "rfind": "find", "find": "rfind", "startswith": "endswith", "endswith": "startswith",
        "get": "pop", "partition": "rpartition", "split": "splitlines", "start": "end", "end": "start", "peek_blank_inline": "skip_blank_inline", "skip_blank_inline": "peek_blank_inline",
        "skip_blank": "skip_blank_inline", "peek_blank": "peek_blank_inline", "peek_blank_block": "peek_blank", "current_char": "current_peek", "current_peek": "current_char",
        "skip_blank_block": "skip_blank", "next": "peek", "index": "peek_offset", "update": "setdefault", "isdigit": "isalnum", "args": "errors", "messages": "_terms", "insert": "append"}


def mutants(f, repo="/repo"):
    """[(description, start offset, end offset, replacement)]"""
    src = open(f"{repo}/{f}", newline="").read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.split("\n"):
        starts.append(starts[-1] + len(l) + 1)
    bl = src.split("\n")
    def off(line, col):
        return starts[line - 1] + len(bl[line - 1].encode()[:col].decode())
    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []
    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((f"L{n.lineno} {what}: {src[a:b][:70]!r} -> {new[:70]!r}", a, b, new))
    ann = set()
    for n in ast.walk(tree):
        for k in ("annotation", "returns"):
            x = getattr(n, k, None)
            if isinstance(x, ast.AST):
                ann.update(map(id, ast.walk(x)))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "cast":
            ann.update(map(id, ast.walk(n.args[0])))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            ann.update(map(id, ast.walk(n.body[0])))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ann.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Subscript, ast.Call)) and getattr(getattr(n.value, "func", getattr(n.value, "value", None)), "id", "") in ("Union", "TypeVar", "Callable", "Dict", "Type"):
            ann.update(map(id, ast.walk(n)))
        if isinstance(n, ast.If) and text(n.test) in ("TYPE_CHECKING",) or isinstance(n, ast.If) and "version_info" in text(n.test):
            ann.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                add(n, f"{text(n.left)} {o} {text(n.comparators[0])}", "cmp")
            if isinstance(n.ops[0], ast.Lt): add(n, f"{text(n.left)} > {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add(n, f" {o} ".join("(" + text(v) + ")" for v in n.values), "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, (" and " if o == "or" else " or ").join("(" + text(v) + ")" for v in rest), "drop-cond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + text(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            o = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, f"{text(n.left)} {o} {text(n.right)}", "arith")
            add(n, text(n.left), "drop-right")
            add(n, text(n.right), "drop-left")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int):
                add(n, str(v + 1), "const")
                add(n, str(v - 1), "const")
            elif isinstance(v, str) and text(n)[:1] in "\"'":
                add(n, repr(v + "x"), "str")
                if v:
                    add(n, repr(v[:-1]), "str")
                    if len(v) > 1:
                        add(n, repr(v[1:]), "str")
            elif v is None and not isinstance(n, ast.keyword):
                add(n, "True", "const")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, f"not ({text(n.test)})", "neg")
            if not isinstance(n, ast.While):
                add(n.test, "True", "true")
            add(n.test, "False", "false")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            add(n, "pass", "drop")
            if isinstance(n, ast.AugAssign):
                add(n, text(n).replace("+=", "=", 1) if "+=" in text(n) else "pass", "aug")
        elif isinstance(n, ast.AnnAssign) and n.value is not None and not isinstance(tree, ast.ClassDef):
            add(n.value, "None", "none")
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "ret")
            add(n, "pass", "drop")
        elif isinstance(n, ast.Break):
            add(n, "continue", "flow"); add(n, "pass", "flow")
        elif isinstance(n, ast.Continue):
            add(n, "break", "flow"); add(n, "pass", "flow")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a = [text(x) for x in n.args] + [(f"{q.arg}=" if q.arg else "**") + text(q.value) for q in n.keywords if q is not k]
                    add(n, f"{text(n.func)}({', '.join(a)})", "drop-kw")
            if len(n.args) == 2 and not n.keywords and getattr(n.func, "id", "") != "cast":
                add(n, f"{text(n.func)}({text(n.args[1])}, {text(n.args[0])})", "swap")
            if n.args:
                a = [text(x) for x in n.args[:-1]] + [(f"{q.arg}=" if q.arg else "**") + text(q.value) for q in n.keywords]
                add(n, f"{text(n.func)}({', '.join(a)})", "drop-arg")
        elif isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)):
                o, c = "[]" if isinstance(n, ast.List) else "()"
                add(n, o + "".join(text(e) + ", " for j, e in enumerate(n.elts) if j != i) + c, "drop-elt")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for b in (n.slice.lower, n.slice.upper):
                if b is not None:
                    add(b, f"{text(b)} + 1", "slice")
                    add(b, f"{text(b)} - 1", "slice")
        elif isinstance(n, ast.Attribute) and n.attr in ATTR:
            add(n, f"{text(n.value)}.{ATTR[n.attr]}", "attr")
        if isinstance(n, ast.For):
            add(n.iter, f"list({text(n.iter)})[:-1]", "iter"); add(n.iter, f"list({text(n.iter)})[1:]", "iter"); add(n.iter, f"list({text(n.iter)})[::-1]", "iter")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, "KeyError" if text(n.type) != "KeyError" else "ValueError", "exc")
        if isinstance(n, ast.IfExp):
            add(n, text(n.body), "ifexp"); add(n, text(n.orelse), "ifexp")
    res, seen = [], set()
    for d, a, b, new in out:
        t = src[:a] + new + src[b:]
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, f, "exec")
        except Exception:
            continue
        res.append({"file": f, "what": d, "text": t})
    return res


def copy():
    w = tempfile.mkdtemp(prefix="mut-")
    os.chmod(w, 0o755)
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    return w


def tests(m):
    w = copy()
    r = w + "/r"
    try:
        open(f"{r}/{m['file']}", "w", newline="").write(m["text"])
        env = {**os.environ, "PYTHONPATH": ":".join(f"{r}/fluent.{x}" for x in ("syntax", "runtime", "pygments", "docs")), "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
        for p in (["syntax", "runtime", "pygments"] if m["file"].startswith("fluent.syntax") else ["runtime"] if m["file"].startswith("fluent.runtime") else ["pygments"] if m["file"].startswith("fluent.pyg") else []):
            try:
                t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=f"{r}/fluent.{p}", env=env, capture_output=True, timeout=60)
            except subprocess.TimeoutExpired:
                return False
            if t.returncode:
                return False
        return True
    finally:
        shutil.rmtree(w)


def checks(m):
    w = copy()
    r = w + "/r"
    try:
        open(f"{r}/{m['file']}", "w", newline="").write(m["text"])
        e = {**os.environ, "VERIF_REPO": r, "VERIF_EVIDENCE_DIR": w + "/ev", "VERIF_REPLAY_DIR": w + "/rp", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
        res = []
        for prop in FILES[m["file"]]:
            c = subprocess.run(["/opt/venv/bin/python", "-B", VERIF + "/run.py", prop], cwd=VERIF, env=e, capture_output=True, text=True, errors="replace")
            if c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout:
                return {"caught": prop, "odd": res, "msg": c.stdout.splitlines()[1].strip()[:150] if len(c.stdout.splitlines()) > 1 else ""}
            if c.returncode:
                res.append((prop, c.returncode, (c.stdout + c.stderr)[-200:]))
        return {"caught": None, "odd": res}
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    j = int(next((a[2:] for a in sys.argv if a.startswith("-j")), 4))
    only = [a[2:] for a in sys.argv if a.startswith("-f")]
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if args[0] == "list":
        for f in FILES:
            print(len(mutants(f)), f)
    elif args[0] == "tests":
        ms = [m for f in FILES if not only or any(o in f for o in only) for m in mutants(f)]
        with cf.ThreadPoolExecutor(j) as ex, open(args[1], "w") as out:
            for m, ok in zip(ms, ex.map(tests, ms)):
                if ok:
                    out.write(json.dumps(m) + "\n"); out.flush()
    else:
        ms = [json.loads(l) for l in open(args[1])]
        ms = [m for m in ms if not only or any(o in m["file"] for o in only)]
        with cf.ThreadPoolExecutor(j) as ex, open(args[2], "w") as out:
            for m, res in zip(ms, ex.map(checks, ms)):
                out.write(json.dumps({"file": m["file"], "what": m["what"], **res}) + "\n"); out.flush()
