"""C31: documentation builds publish the right versions."""
from lib.engine import Violation
from lib import env
import datetime, html, json, os, re, shutil, subprocess, sys, tempfile

ID = "C31"
RULE = ("random git histories (lightweight and annotated tags, several projects, dates around the cut-off, releases out of order, tags that are no releases) built "
        "one to three times in a scratch repository by the real code with a recording stand-in for sphinx-build, tags and cut-off changing in between, git or Sphinx failing at a random step; oracle: "
        "the build plan computed from the history, or a reported failure; distinct by (tags, builds)")
QUICK, THOROUGH = 420, 9000
NEED = {"builds": 380, "dev_versions": 700, "release_versions": 360, "rebuilds": 170, "annotated": 270, "lightweight": 460, "on_cut_off_day": 50, "older_tags": 170,
        "other_projects": 200, "without_releases": 150, "stable_links": 240, "stable_moved": 12, "by_script": 150, "worktrees": 160, "out_of_order": 54,
        "stable_was_directory": 8, "roots": 60, "faults": 32, "failed_builds": 40, "branches": 20, "conflicts": 6}
MIN_NONTRIVIAL = 210
HANG_CPU = 120
AUX = os.path.join(env.VERIF, "checks", "aux")
PROJECTS = ["fluent.syntax", "fluent.pygments", "fluent.runtime"]
UID = 65534


def gen(r, i, tier):
    day0 = datetime.date(2020, 5, 1)
    def release(used, late=False):
        p = r.choice(PROJECTS + ["fluent.syntax", "fluent.docs", "other"])
        v = f"{r.randint(0, 2)}.{r.randint(0, 20)}" + r.choice(["", f".{r.randint(0, 12)}", "rc1"])
        d = day0 + datetime.timedelta(days=r.choice([-400, -30, -1, 0, 0, 1, 2, 30, 365, 366, 900, 901, 902]))
        if late and r.random() < .7:
            d = day0 + datetime.timedelta(days=r.randint(903, 1400))
            if r.random() < .7:
                p = r.choice(PROJECTS)
        t = r.choice([0, 3600, 43200, 86399, r.randrange(86400)])
        if (p, v) in used or (p, d, t) in used:
            return None
        used.add((p, v)); used.add((p, d, t))
        return {"project": p, "version": v, "day": d.isoformat(), "sec": t, "annotated": r.random() < .4, "commit_day": (d - datetime.timedelta(days=r.choice([1, 100, 1000]))).isoformat()}
    used = set()
    tags = [x for x in (release(used) for _ in range(r.choice([0, 1, 2, 4, 6, 9]))) if x]
    plain = r.sample(["v1.0", "release-2", "fluentx", "Fluent.syntax@9.9", "x/fluent.syntax@1.0", "syntax@3.0"], r.choice([0, 1, 2]))
    builds = []
    for k in range(r.choice([1, 1, 2, 2, 3])):
        script = r.random() < .45
        projects = r.sample(PROJECTS, r.choice([1, 2, 2, 3]))
        b = {"script": script, "name": r.choice(["python-fluent", "docs"]) if not builds else builds[0]["name"], "projects": projects, "options": []}
        if script:
            x = r.random()
            if x < .3:
                b["projects"] = list(PROJECTS)
                b["root"] = True
            else:
                b["root"] = r.random() < .3
                sel = (["."] if b["root"] else []) + projects
                r.shuffle(sel)
                b["projects"] = [p for p in sel if p != "."]
                b["options"] = [y for p in sel for y in ("--doc", p)]
            dev = r.random() < .2
            if dev:
                b["options"].insert(0, "--dev")
            b["cut"] = None if dev else "2020-05-01"
        else:
            b["root"] = False
            b["cut"] = None if r.random() < .12 else (day0 + datetime.timedelta(days=r.choice([-500, -1, 0, 0, 0, 1, 365, 900, 2000]))).isoformat()
        if builds and not script and r.random() < .6:
            b["cut"] = builds[-1]["cut"]
        b["new"] = [x for x in (release(used, True) for _ in range(r.choice([0, 1, 2]))) if x] if builds else []
        b["gone"] = r.random() if builds and r.random() < .15 else None
        b["stable_dir"] = r.random() < .12
        builds.append(b)
    if r.random() < .4:
        # one step of a build fails; the build is then repeated undisturbed
        k = r.randrange(len(builds))
        builds[k]["fault"] = r.choice(["git", "git", "sphinx"]) + ":" + str(r.choice([1, 1, 2, 2, 3, 4, 5, 6])) + ":" + r.choice(["before", "before", "after"])
        builds.insert(k + 1, {**builds[k], "fault": None, "new": [], "gone": None, "stable_dir": False})
    for t in tags + [t for b in builds for t in b["new"]]:
        t["tracked"] = r.random() < .04     # a release whose sources include a file the build writes
        t["branch"] = r.random() < .05      # a branch has the tag's name
    return {"tags": tags, "plain": plain, "builds": builds, "dirty": r.random() < .5, "space": r.random() < .2}


def fixed(tier):
    t = lambda p, v, day, sec=0, a=False: {"project": p, "version": v, "day": day, "sec": sec, "annotated": a, "commit_day": "2019-01-01"}
    b = lambda **k: {"script": False, "name": "python-fluent", "projects": ["fluent.syntax"], "options": [], "root": False, "cut": "2020-05-01", "new": [],
                     "gone": None, "stable_dir": False, **k}
    # annotated release tags (fixed: 4ce3b39)
    yield {"tags": [t("fluent.syntax", "0.18", "2021-01-01", a=True)], "plain": [], "builds": [b(), b(new=[t("fluent.syntax", "0.19", "2022-01-01")])], "dirty": True, "space": False}
    yield {"tags": [], "plain": [], "builds": [b(), b(projects=PROJECTS)], "dirty": False, "space": False}
    yield {"tags": [t("fluent.syntax", "0.18", "2021-01-01"), t("fluent.syntax", "0.17.5", "2021-01-01", 60), t("fluent.runtime", "0.3", "2021-01-01")], "plain": ["v1"],
           "builds": [b(), b(stable_dir=True), b(projects=PROJECTS)], "dirty": True, "space": True}
    # a release that cannot be checked out must not be published from another's sources (fixed)
    two = [t("fluent.syntax", "0.18", "2021-01-01"), t("fluent.syntax", "0.19", "2022-01-01")]
    for f in ("git:2:before", "git:3:before", "git:4:before", "sphinx:1:before", "sphinx:3:before", "sphinx:3:after", "git:1:before"):
        yield {"tags": two, "plain": [], "builds": [b(fault=f), b()], "dirty": False, "space": False}
    for key in ("tracked", "branch"):
        yield {"tags": [{**x, key: True} for x in two], "plain": [], "builds": [b()], "dirty": False, "space": False}


def sh(args, cwd, e, input=None):
    p = subprocess.run(args, cwd=cwd, env=e, input=input, capture_output=True, timeout=300, **AS)
    return p.returncode, p.stdout, p.stderr


AS = {}
GIT = """#!/bin/sh
# Passes on to git, except that the command VERIF_FAULT names fails.
case "$VERIF_FAULT" in
git:*)
    rest=${VERIF_FAULT#git:}
    echo "$@" >>"$VERIF_LOG.git"
    if [ "$(wc -l <"$VERIF_LOG.git")" -eq "${rest%%:*}" ]; then
        echo "$@" >"$VERIF_LOG.fault"
        [ "${rest#*:}" = before ] || 'REAL' "$@"
        echo "fatal: fault injected" >&2
        exit 128
    fi ;;
esac
exec 'REAL' "$@"
"""


def init(rng, tier):
    if os.geteuid() == 0:
        try:
            subprocess.run(["true"], user=UID, group=UID, extra_groups=[], check=True)
            AS.update(user=UID, group=UID, extra_groups=[])
        except (PermissionError, OSError):
            pass


def data(text):
    raw = text.encode()
    return b"data %d\n" % len(raw) + raw + b"\n"


def stamp(day, sec):
    return int(datetime.datetime.fromisoformat(day).replace(tzinfo=datetime.timezone.utc).timestamp()) + sec


class Repo:
    def __init__(self, d, e):
        self.d, self.e, self.n, self.content = d, e, 0, {}

    def commit(self, ref, when, tracked=False):
        self.n += 1
        mark = f"commit-{self.n}"
        out = b"commit %s\nmark :%d\ncommitter T <t@x> %d +0000\n" % (ref.encode(), self.n, when) + data(mark) + b"deleteall\n"
        files = {"docs/page.txt": f"root {mark}\n", "docs/conf.py": "", ".gitignore": "/_build/\n/fluent.*/docs/_templates/versions.html\n"}
        for p in PROJECTS:
            files[f"{p}/docs/page.txt"] = f"{p} {mark}\n"
            files[f"{p}/code.txt"] = f"{p} code {mark}\n"
            if tracked:
                files[f"{p}/docs/_templates/versions.html"] = f"as of {mark}\n"
        for f, c in files.items():
            out += b"M 100644 inline %s\n" % f.encode() + data(c)
        return out, mark

    def load(self, stream):
        code, o, err = sh(["git", "fast-import", "--quiet", "--force"], self.d, self.e, stream)
        if code:
            raise RuntimeError("fast-import: " + err.decode())

    def release(self, t, stream):
        when = stamp(t["day"], t["sec"])
        name = f"{t['project']}@{t['version']}"
        if t.get("branch"):
            stream += self.commit(f"refs/heads/{name}", stamp("2022-03-03", 0))[0]
        if t["annotated"]:
            c, mark = self.commit("refs/heads/rel", stamp(t["commit_day"], 0), t.get("tracked"))
            stream += c + b"tag %s\nfrom :%d\ntagger T <t@x> %d +0000\n" % (name.encode(), self.n, when) + data("release")
        else:
            c, mark = self.commit(f"refs/tags/{name}", when, t.get("tracked"))
            stream += c
        self.content[name] = mark
        return stream


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in (".git", "_build", "_templates")]
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def read(p, obs, ctx):
    if not os.path.isfile(p):
        raise Violation(f"missing in the built site: {p.split('/_build/')[-1]}", **ctx)
    with open(p, encoding="utf-8") as f:
        return f.read()


def run(case, obs):
    top = tempfile.mkdtemp(prefix="verif-c31-")
    try:
        go(case, obs, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def go(case, obs, top):
    d = os.path.join(top, "the work" if case["space"] else "work")
    for x in (d, os.path.join(top, "tmp"), os.path.join(top, "home"), os.path.join(top, "bin")):
        os.mkdir(x)
    shutil.copy(os.path.join(AUX, "sphinx-build"), os.path.join(top, "bin", "sphinx-build"))
    shutil.copy(os.path.join(AUX, "docs_driver.py"), os.path.join(top, "bin", "docs_driver.py"))
    with open(os.path.join(top, "bin", "git"), "w") as f:
        f.write(GIT.replace("REAL", shutil.which("git")))
    for x in ("sphinx-build", "git"):
        os.chmod(os.path.join(top, "bin", x), 0o755)
    if AS:
        for x in (top, d, os.path.join(top, "tmp"), os.path.join(top, "home")):
            os.chown(x, UID, UID)
    log = os.path.join(top, "home", "log")
    e = {"PATH": os.path.join(top, "bin") + os.pathsep + os.environ.get("PATH", ""), "HOME": os.path.join(top, "home"), "TMPDIR": os.path.join(top, "tmp"),
         "VERIF_LOG": log, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CEILING_DIRECTORIES": top, "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC"}
    sh(["git", "init", "-q", "-b", "main", "."], d, e)
    rp = Repo(d, e)
    stream, _ = rp.commit("refs/heads/main", stamp("2019-01-01", 0))
    for t in case["tags"]:
        stream = rp.release(t, stream)
    for name in case["plain"]:
        stream += rp.commit(f"refs/tags/{name}", stamp("2022-02-02", 0))[0]
    c, mark = rp.commit("refs/heads/main", stamp("2023-01-01", 0))
    rp.load(stream + c)
    sh(["git", "reset", "-q", "--hard", "main"], d, e)
    if case["dirty"]:
        mark = "uncommitted"
        for p in PROJECTS:
            for f, txt in (("docs/page.txt", f"{p} {mark}\n"), ("code.txt", f"{p} code {mark}\n")):
                with open(os.path.join(d, p, f), "w") as fh:
                    fh.write(txt)
        with open(os.path.join(d, "docs", "page.txt"), "w") as fh:
            fh.write(f"root {mark}\n")
    before = tree(d)
    head = sh(["git", "rev-parse", "HEAD"], d, e)[1]
    tags = list(case["tags"])
    for t in tags:
        obs.count("annotated" if t["annotated"] else "lightweight")
    last_stable = {}
    for k, b in enumerate(case["builds"]):
        if b["new"]:
            stream = b""
            for t in b["new"]:
                stream = rp.release(t, stream)
            rp.load(stream)
            tags += b["new"]
        if b["gone"] is not None and tags:
            t = tags.pop(int(b["gone"] * len(tags)))
            sh(["git", "tag", "-d", f"{t['project']}@{t['version']}"], d, e)
        site = os.path.join(d, "_build", b["name"])
        # ---- the plan
        rel = {}
        for p in b["projects"]:
            mine = [t for t in tags if t["project"] == p]
            new = [t for t in mine if b["cut"] and t["day"] > b["cut"]]
            obs.count("older_tags", sum(bool(b["cut"]) and t["day"] < b["cut"] for t in mine))
            obs.count("on_cut_off_day", sum(t["day"] == b["cut"] for t in mine))
            new.sort(key=lambda t: (t["day"], t["sec"]), reverse=True)
            rel[p] = [t["version"] for t in new]
            num = [[int(x) for x in re.findall(r"\d+", v)] for v in rel[p]]
            obs.count("out_of_order", num != sorted(num, reverse=True))
        obs.count("other_projects", sum(t["project"] not in b["projects"] and bool(b["cut"]) and t["day"] > b["cut"] for t in tags))
        if b["stable_dir"]:
            p = b["projects"][0]
            st = os.path.join(site, p, "stable")
            if not os.path.lexists(st):
                os.makedirs(st)
                with open(os.path.join(st, "old.html"), "w") as f:
                    f.write("old")
                if AS:
                    for root, _, files in os.walk(os.path.join(d, "_build")):
                        for x in [root] + [os.path.join(root, f) for f in files]:
                            os.chown(x, UID, UID)
                obs.count("stable_was_directory", bool(rel[p]))
        with open(log, "w"):
            pass
        if AS:
            os.chown(log, UID, UID)
        how = {x: b[x] for x in ("script", "name", "projects", "options", "cut")}
        fault = b.get("fault")
        for x in (".git", ".sphinx", ".fault"):
            if os.path.exists(log + x):
                os.unlink(log + x)
        kept = sorted(os.listdir(os.path.join(top, "tmp")))
        code, out, err = sh([sys.executable, "-B", os.path.join(top, "bin", "docs_driver.py"), env.REPO, json.dumps(how)], d, {**e, **({"VERIF_FAULT": fault} if fault else {})})
        hit = os.path.exists(log + ".fault")
        conflict = any(t.get("tracked") for t in tags)
        ctx = dict(build=k, plan=rel, how=how, tags=[(f"{t['project']}@{t['version']}", t["day"], t["sec"], t["annotated"]) for t in tags])
        obs.count("builds")
        obs.count("rebuilds", k > 0)
        obs.count("by_script", b["script"])
        obs.count("faults", hit)
        obs.count("branches", any(t.get("branch") and t["version"] in rel.get(t["project"], ()) for t in tags))
        if hit:
            with open(log + ".fault") as f:
                ctx["fault"] = f.read().strip()
        if code and (hit or conflict):
            # A build that could not do something says so; what it did build is right.
            obs.count("failed_builds")
            obs.count("conflicts", not hit)
            with open(log) as f:
                for l in f.read().splitlines():
                    p, v = os.path.split(os.path.relpath(os.path.join(d, l), site))
                    if p in rel and (v == "dev" or f"{p}@{v}" in rp.content):
                        m = mark if v == "dev" else rp.content[f"{p}@{v}"]
                        obs.eq(read(os.path.join(site, p, v, "page.txt"), obs, ctx), f"{p} {m}\n", f"{p} {v} is built from other pages", **ctx)
                        obs.eq(read(os.path.join(site, p, v, "code.txt"), obs, ctx), f"{p} code {m}\n", f"{p} {v} documents other code", **ctx)
                    else:
                        obs.check(b["root"] and (p, v) == ("", "."), "a version was built that there is not", version=(p, v), **ctx)
            now = tree(d)
            obs.check(now == before, "the failed build changed the working tree", changed=sorted(x for x in set(now) | set(before) if now.get(x) != before.get(x)), **ctx)
            obs.eq(sh(["git", "rev-parse", "HEAD"], d, e)[1], head, "the failed build moved the repository's HEAD", **ctx)
            continue
        if code:
            raise Violation("the build failed: " + err.decode("utf-8", "replace").strip()[-700:], **ctx)
        # ---- what was published
        with open(log) as f:
            built = [os.path.relpath(os.path.join(d, l), site) for l in f.read().splitlines()]
        want = sorted([os.path.join(p, v) for p in b["projects"] for v in ["dev"] + rel[p]] + (["."] if b["root"] else []))
        obs.eq(sorted(built), want, "other versions were built than the tags call for", **ctx)
        if b["root"]:
            obs.count("roots")
            obs.eq(read(os.path.join(site, "page.txt"), obs, ctx), f"root {mark}\n", "the top level is built from other sources", **ctx)
        obs.check(not b["script"] or os.path.exists(os.path.join(site, ".nojekyll")), "no .nojekyll", **ctx)
        for p in b["projects"]:
            offered = ["dev"] + (["stable"] + rel[p] if rel[p] else [])
            for v in ["dev"] + rel[p]:
                at = os.path.join(site, p, v)
                m = mark if v == "dev" else rp.content[f"{p}@{v}"]
                obs.count("dev_versions" if v == "dev" else "release_versions")
                obs.eq(read(os.path.join(at, "page.txt"), obs, ctx), f"{p} {m}\n", f"{p} {v} is built from other pages", **ctx)
                obs.eq(read(os.path.join(at, "code.txt"), obs, ctx), f"{p} code {m}\n", f"{p} {v} documents other code", **ctx)
                project, release, url = read(os.path.join(at, "settings.txt"), obs, ctx).split("\n")[:3]
                obs.eq((project, release if v != "dev" else v, url), (p, v, "/" + b["name"]), f"{p} {v} is labelled wrongly", **ctx)
                doc = read(os.path.join(at, "versions.html"), obs, ctx)
                links = re.findall(r'<a\b[^>]*href="([^"]*)"[^>]*>([^<]*)</a>', doc)
                obs.eq([html.unescape(h).rstrip("/") for h, _ in links], [f"/{b['name']}/{p}/{o}" for o in offered], f"{p} {v} links other versions", **ctx)
                obs.eq([html.unescape(t).strip() for _, t in links], offered, f"{p} {v} offers other versions", **ctx)
                cur = re.search(r'class="version"[^>]*>([^<]*)<', doc)
                obs.check(cur and cur.group(1).strip() == v, f"{p} {v} names another current version", html=doc, **ctx)
                obs.eq(os.listdir(os.path.join(at, "_static")), ["documentation_options.js"], f"{p} {v} keeps theme files of its own, or lost its options", **ctx)
            page = read(os.path.join(site, p, "index.html"), obs, ctx)
            to = re.search(r"url=([^\">\s]*)", page, re.I)
            obs.check(to and to.group(1).strip("./") == ("stable" if rel[p] else "dev"), f"{p} redirects elsewhere", html=page, **ctx)
            st = os.path.join(site, p, "stable")
            if rel[p]:
                obs.eq(os.path.realpath(st), os.path.realpath(os.path.join(site, p, rel[p][0])), f"stable of {p} is not the newest release", **ctx)
                obs.check(os.path.islink(st) and not os.path.isabs(os.readlink(st)), f"stable of {p} is not a link inside the site", **ctx)
                obs.eq(read(os.path.join(st, "page.txt"), obs, ctx), f"{p} {rp.content[p + '@' + rel[p][0]]}\n", f"stable of {p} shows another release", **ctx)
                obs.count("stable_links")
                obs.count("stable_moved", last_stable.get(p, rel[p][0]) != rel[p][0])
                last_stable[p] = rel[p][0]
            else:
                obs.count("without_releases")
                obs.check(k > 0 or b["stable_dir"] or not os.path.lexists(st), f"{p} has a stable version without a release", **ctx)
        if k == 0:
            for p in PROJECTS:
                extra = sorted(x for x in os.listdir(os.path.join(site, p)) if x not in ("index.html", "stable")) if os.path.isdir(os.path.join(site, p)) else []
                obs.eq(extra, sorted(["dev"] + rel[p]) if p in rel else [], f"other directories published for {p}", **ctx)
        # ---- what was left behind
        obs.eq(sorted(os.listdir(os.path.join(top, "tmp"))), kept, "temporary checkouts are left behind", **ctx)
        obs.count("worktrees", any(rel.values()))
        now = tree(d)
        obs.check(now == before, "the build changed the working tree", changed=sorted(x for x in set(now) | set(before) if now.get(x) != before.get(x)), **ctx)
        obs.eq(sh(["git", "rev-parse", "HEAD"], d, e)[1], head, "the build moved the repository's HEAD", **ctx)
    obs.nontrivial(repr(case))
    obs.sample({"tags": [(f"{t['project']}@{t['version']}", t["day"]) for t in tags], "plan": rel})
