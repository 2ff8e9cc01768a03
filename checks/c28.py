"""C28: the disk loader reads exactly the right files."""
from .rt import *
from lib import textgen as T, ftlgen as G
from fluent.runtime import FluentLocalization, FluentResourceLoader
import os, shutil, sys, tempfile

ID = "C28"
RULE = ("random directory trees in a scratch directory with decoys (other locales, directories in place of files, neighbours, links) and file contents "
        "with every line end and character; all file opens recorded by an audit hook; oracle: the expected list of texts per root, parsed from memory; "
        "distinct by (layout, query)")
QUICK, THOROUGH = 4000, 150000
NEED = {"dangling": 400, "linked": 400, "queries": 9000, "files_yielded": 9000, "missing_left_out": 4000, "empty_roots": 3000, "crlf_files": 800, "cr_files": 600, "astral_files": 800,
        "bom_files": 300, "dirs_in_place": 400, "marker_in_name": 1500, "marker_in_root": 3000, "opens_seen": 9000, "reread_after_change": 520, "through_localization": 2500,
        "several_roots": 670, "large_files": 25}
MIN_NONTRIVIAL = 4000
LOCS = ["en", "en-US", "de", "zh-Hant-TW", "sr_Latn", "x", "e.n"]
OPENS = []
ON = [False]


def hook(event, args):
    if ON[0] and event == "open":
        OPENS.append(args[0])


def init(rng, tier):
    sys.addaudithook(hook)


def content(r):
    x = r.random()
    s = "".join(f"{n} = {n} {r.choice(['v', 'é', '😀', '漢', '', 'x', '𝒳', chr(0x2028), chr(0x85), chr(12) + 'f', chr(0), chr(0x1f)])}{k}\n"
                for k, n in enumerate(r.sample(["a", "b", "c", "d"], r.randint(0, 4))))
    if x < .0025:
        # a large file
        s = r.choice(["# " + "é" * 60 + "\n", "# " + "c" * 99 + "\n", "big =" + "\n    line 漢字 😀" * 40 + "\n"])
        s = s * (r.choice([70000, 140000, 300000, 1100000 if r.random() < .2 else 70000]) // len(s.encode("utf-8")) + 1) + r.choice(["", "\n"]) + "a = after\nz = last\n"
    elif x < .2:
        s = T.text(r)
        s = s.encode("utf-8", "ignore").decode("utf-8")
    elif x < .35:
        s += "m =\n    line one\n\n      line two { $x ->\n        [a] A\n       *[b] B\n    }\n"
    y = r.random()
    if y < .2:
        s = s.replace("\r\n", "\n").replace("\n", "\r\n")
    elif y < .3:
        s += "z = a\rb\r\r\nq = \r\n"
    elif y < .35:
        s = s.rstrip("\n")
    elif y < .4:
        s = "\ufeff" + s
    return s


def gen(r, i, tier):
    locs = r.sample(LOCS, 3)
    roots = r.sample(["{locale}", "r1/{locale}", "r2/{locale}/x", "plain", "deep/{locale}/{locale}", "pre-{locale}-post", "absent/{locale}", "r1", "sp ace/{locale}"],
                     r.choice([1, 1, 2, 3]))
    ids = r.sample(["main.ftl", "other.ftl", "sub/dir.ftl", "{locale}.ftl", "sub/{locale}/m.ftl", "no-ext", "m.{locale}.ftl", "ünï.ftl", "main.ftl.bak"],
                   r.choice([0, 1, 2, 3, 4]))
    if ids and r.random() < .1:
        ids.append(ids[0])
    if r.random() < .012:
        # many roots, or many files
        if r.random() < .5:
            roots = r.sample(roots + ["root%d/{locale}" % k for k in range(30)], r.choice([8, 12, 20, 30]))
        else:
            ids = r.sample(ids + ["file%d.ftl" % k for k in range(60)], r.choice([12, 20, 40, 60]))
    files = {}
    for root in roots + ["r1", "elsewhere/{locale}"]:
        for fid in ids + ["main.ftl", "decoy.ftl"]:
            for l in locs:
                x = r.random()
                p = os.path.join(root, fid).replace("{locale}", l)
                if x < .55:
                    files.setdefault(p, content(r))
                elif x < .6:
                    files.setdefault(p, None)       # a directory of that name
    # no file where another path needs a directory
    for p in sorted(files):
        if files[p] is not None and any(q.startswith(p + "/") for q in files):
            files[p] = None
    return {"locs": locs, "roots": roots, "ids": ids, "files": files, "slash": r.random() < .2, "single": r.random() < .3, "relative": r.random() < .15,
            "change": r.random() < .3, "link": r.random() < .1}


def run(case, obs):
    top = tempfile.mkdtemp(prefix="verif-c28-")
    cwd = os.getcwd()
    try:
        run_in(case, obs, top)
    finally:
        ON[0] = False
        os.chdir(cwd)
        shutil.rmtree(top)


def write(top, p, s):
    q = os.path.join(top, p)
    if s is None:
        os.makedirs(q, exist_ok=True)
        return
    os.makedirs(os.path.dirname(q), exist_ok=True)
    if os.path.isdir(q):
        return
    with open(q, "wb") as f:
        f.write(s.encode("utf-8"))


def run_in(case, obs, top):
    files = dict(case["files"])
    for p, s in files.items():
        write(top, p, s)
    if case["link"]:
        # links that lead nowhere, or round in a circle, are no files
        for k, p in enumerate(sorted({os.path.join(a, b).replace("{locale}", l) for a in case["roots"] for b in case["ids"] for l in case["locs"]})):
            q = os.path.join(top, p)
            if p not in files and not os.path.lexists(q) and k % 3:
                try:
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                except OSError:
                    continue         # a file is in the way
                os.symlink(os.path.basename(q) if k % 3 == 1 else os.path.join(top, "nowhere.ftl"), q)
                obs.count("dangling")
        # and links to files are as good as files
        for k, p in enumerate(sorted(files)):
            q = os.path.join(top, p)
            if files[p] is not None and k % 2 and os.path.isfile(q):
                os.makedirs(os.path.join(top, "store"), exist_ok=True)
                os.rename(q, os.path.join(top, f"store/{k}"))
                os.symlink(os.path.relpath(os.path.join(top, f"store/{k}"), os.path.dirname(q)) if k % 4 == 1 else os.path.join(top, f"store/{k}"), q)
                obs.count("linked")
    roots = case["roots"][:1] if case["single"] else case["roots"]
    base = "" if case["relative"] else top + "/"
    if case["relative"]:
        os.chdir(top)
    given = [base + x + ("/" if case["slash"] else "") for x in roots]
    arg = given[0] if case["single"] else list(given)
    loader = FluentResourceLoader(arg)
    ids = list(case["ids"])
    ctx = dict(roots=roots, ids=ids, files={k: v for k, v in files.items()})

    def texts(l):
        out, want = [], set()
        for root in roots:
            got = []
            for fid in ids:
                p = os.path.join(root, fid).replace("{locale}", l)
                want.add(os.path.join(top, p))
                s = files.get(p)
                if s is not None and os.path.isfile(os.path.join(top, p)):
                    got.append(s)
                    obs.count("marker_in_name", "{locale}" in fid)
                    obs.count("marker_in_root", "{locale}" in root)
                else:
                    obs.count("missing_left_out")
                    obs.count("dirs_in_place", p in files and s is None)
            if got:
                out.append(got)
            else:
                obs.count("empty_roots")
        return out, want

    def query(l):
        want, paths = texts(l)
        del OPENS[:]
        ON[0] = True
        try:
            got = []
            for rs in loader.resources(l, ids):
                obs.check(isinstance(rs, list), "not a list", got=type(rs).__name__, **ctx)
                got.append(list(rs))
        finally:
            ON[0] = False
        obs.count("queries")
        for o in OPENS:
            if isinstance(o, bytes):
                o = os.fsdecode(o)
            if isinstance(o, str):
                q = os.path.normpath(os.path.join(os.getcwd(), o))
                if q.startswith(top + "/"):
                    obs.count("opens_seen")
                    obs.check(q in {os.path.normpath(x) for x in paths}, "a file outside the designated paths was opened", path=q, locale=l, **ctx)
        obs.check([len(x) for x in got] == [len(x) for x in want], "wrong files", locale=l, got=[[json.dumps(J(x))[:200] for x in y] for y in got], want=want, **ctx)
        for g, w in zip(got, want):
            for a, s in zip(g, w):
                obs.count("files_yielded")
                obs.count("large_files", len(s) > 65536)
                obs.count("bom_files", s.startswith("\ufeff"))
                obs.count("crlf_files", "\r\n" in s)
                obs.count("cr_files", "\r" in s.replace("\r\n", ""))
                obs.count("astral_files", any(ord(c) > 0xffff for c in s))
                j = J(FluentParser().parse(s))
                b = J(a)
                if b != j and RP.strip_spans(b) == RP.strip_spans(j):
                    # a loader may parse without spans, but must not shift them
                    obs.check(all(x.get("span") is None for x in b["body"]), "the positions are not those of the file's text", locale=l, text=s, **ctx)
                else:
                    obs.check(b == j, "a file's content was not parsed intact", locale=l, text=s, got=json.dumps(b)[:600], **ctx)
        obs.nontrivial((repr(roots), repr(ids), l, repr(sorted(files.items()))))
        return want
    for l in case["locs"] + case["locs"][:1]:
        query(l)
    obs.count("several_roots", len(roots) > 1)
    if case["change"] and files:
        # the files decide, at every request
        for n, p in enumerate(sorted(files)):
            if files[p] is None or os.path.islink(os.path.join(top, p)) or n % 2:
                continue
            if n % 4:
                os.unlink(os.path.join(top, p))
                del files[p]
            else:
                files[p] = "changed = yes\n" + files[p]
                write(top, p, files[p])
        if case["link"]:
            return
        for l in case["locs"]:
            query(l)
        obs.count("reread_after_change")
    # end to end
    if ids:
        loc = FluentLocalization(case["locs"], ids, FluentResourceLoader(arg))
        stores = {}
        for mid in "abcz":
            want = mid
            for l in case["locs"]:
                for texts_ in texts(l)[0]:
                    store = {}
                    for s in texts_:
                        if s not in stores:
                            stores[s] = [e for e in RP.parse(s)["body"] if e["type"] == "Message"]
                        for e in stores[s]:
                            store.setdefault(e["id"]["name"], e)
                    if want == mid and mid in store and store[mid]["value"] is not None:
                        els = store[mid]["value"]["elements"]
                        want = els[0]["value"] if len(els) == 1 and els[0]["type"] == "TextElement" else None
            if want is not None:
                obs.eq(loc.format_value(mid), want, "wrong text through FluentLocalization", message=mid, locs=case["locs"], **ctx)
                obs.count("through_localization")
    obs.check(arg == (given[0] if case["single"] else given) and ids == case["ids"], "the caller's lists were changed")
    if len(repr(case)) < 600:
        obs.sample(case)
