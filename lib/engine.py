"""Case engine: forks workers, feeds them deterministic cases, aggregates what
the monitors observed, writes evidence and replay files, and gives the verdict.

A check module provides
    ID, RULE                     strings
    QUICK, THOROUGH              numbers of generated cases
    gen(rng, i, tier) -> case    JSON-able case
    run(case, obs)               raises Violation if the property is broken
and optionally
    fixed(tier) -> [case]        cases run every time (regressions, known findings)
    classify(case, violation)    -> name of a known finding or None
    finish(obs_dict, tier)       -> error string if the monitors saw too little
    MIN_NONTRIVIAL               least number of distinct non-trivial cases
    NEED                         {event: least count}
    SERIAL                       True: run in one worker (threads, subprocesses)
"""
import base64, collections, hashlib, json, os, pickle, random, resource, select
import signal, struct, sys, time, traceback
from . import env

TOOL_COV = 3
TOOL_STEP = 4


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class StepLimit(BaseException):
    """Raised inside the code under test when it exceeds a step budget."""


class Hang(BaseException):
    """CPU watchdog fired."""


def sig64(x):
    if not isinstance(x, (bytes, bytearray)):
        x = repr(x).encode("utf-8", "surrogatepass")
    return struct.unpack("<q", hashlib.blake2b(x, digest_size=8).digest())[0]


class Obs:
    """What the monitors of one worker observed."""
    def __init__(self, ID=""):
        self.n = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.cases = 0
        self.distinct = collections.defaultdict(set)
        self.ID = ID

    def count(self, name, k=1):
        self.n[name] += k

    def nontrivial(self, x):
        self.sigs.add(sig64(x))

    def state(self, name, x):
        s = self.distinct[name]
        if len(s) < 200000:
            s.add(sig64(x))

    def sample(self, x):
        if len(self.samples) < 3:
            s = x if isinstance(x, str) else json.dumps(x, default=repr)
            self.samples.append(s[:600])

    def check(self, cond, msg, **detail):
        self.n["assertions"] += 1
        if not cond:
            raise Violation(msg, **detail)

    def eq(self, got, want, msg, **detail):
        self.n["assertions"] += 1
        if got != want or type(got) is not type(want) and isinstance(got, (bool, str, bytes)) != isinstance(want, (bool, str, bytes)):
            raise Violation(msg, got=got, want=want, **detail)


# ---------------------------------------------------------------- coverage
class Coverage:
    """Which source lines of the anchored code ran (evidence only)."""
    def __init__(self):
        self.lines = set()
        self.on = False
        self.prefix = env.REPO.rstrip("/") + "/fluent."

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(TOOL_COV, "verif-cov")
        except ValueError:
            return
        self.on = True
        def line(code, ln, self=self, D=m.DISABLE):
            f = code.co_filename
            if f.startswith(self.prefix):
                self.lines.add((f, ln))
            return D
        m.register_callback(TOOL_COV, m.events.LINE, line)
        m.set_events(TOOL_COV, m.events.LINE)

    def stop(self):
        if self.on:
            sys.monitoring.set_events(TOOL_COV, 0)
            sys.monitoring.free_tool_id(TOOL_COV)
            self.on = False


class Steps:
    """Counts control-flow events (function starts, jumps, branches) in the code
    under test, and aborts it beyond a budget: a logical clock, not wall time."""
    def __init__(self, limit=None, prefixes=None, exc=None, calls=False):
        self.n = 0
        self.limit = limit
        # What to raise instead, as an injected fault: then only at the start or
        # resumption of functions, where an interpreter really handles signals.
        # (An exception raised at a jump appears at its target, which may be
        # outside of the with or try block it jumps from.)
        self.exc = exc
        self.calls = calls or exc is not None
        self.fired = False
        self.prefixes = prefixes or (env.REPO.rstrip("/") + "/fluent.",)

    def __enter__(self):
        m = sys.monitoring
        self.tool = next(t for t in (TOOL_STEP, 5, 1, 0) if m.get_tool(t) is None)     # may nest
        m.use_tool_id(self.tool, "verif-steps")
        E = m.events
        pre = self.prefixes
        D = m.DISABLE
        limit = self.limit if self.limit is not None else 1 << 62
        def ev(code, *a):
            if not code.co_filename.startswith(pre):
                return D
            self.n += 1
            if self.n > limit:
                m.set_events(self.tool, 0)
                self.fired = True
                if self.exc is not None:
                    raise self.exc
                raise StepLimit(f"more than {limit} steps")
        for e in (E.PY_START, E.PY_RESUME, E.JUMP, E.BRANCH):
            m.register_callback(self.tool, e, ev)
        m.restart_events()
        m.set_events(self.tool, E.PY_START | E.PY_RESUME | (E.JUMP | E.BRANCH if not self.calls else 0))
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.tool, 0)
        for e in (m.events.PY_START, m.events.PY_RESUME, m.events.JUMP, m.events.BRANCH):
            m.register_callback(self.tool, e, None)
        m.free_tool_id(self.tool)
        return False


# ---------------------------------------------------------------- one case
HANG_CPU = 40.0
HANG_STEPS = 60_000_000


def run_case(mod, case, obs):
    """Returns None, or (message, detail)."""
    def onalarm(s, f):
        raise Hang()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, "HANG_CPU", HANG_CPU))
    try:
        mod.run(case, obs)
        return None
    except Violation as v:
        return v.msg, v.detail
    except Hang:
        hung = True
    except StepLimit as e:
        return "step budget exceeded: " + str(e), {}
    except RecursionError as e:
        return "RecursionError escaped: " + tb_tail(e), {}
    except MemoryError as e:
        return "MemoryError escaped: " + tb_tail(e), {}
    except Exception as e:
        # An exception that escapes a check's run() was raised by the code
        # under test if its innermost frames are there; else it is our bug.
        if from_repo(e):
            return f"unexpected {type(e).__name__}: {e}: " + tb_tail(e), {}
        # The monitor could not digest what the code under test handed it
        # (wrong type, missing attribute ...): that too is an observation.
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)):
            return f"malformed observation: {type(e).__name__}: {e}: " + tb_tail(e), {}
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    # Confirm a suspected hang on the logical clock; a single call into C code
    # (a regular expression, say) that takes 25 s of CPU counts as hung, too.
    last, ticks = [-1], [0]
    def ontick(s, f):
        ticks[0] += 1
        if st.n == last[0] or ticks[0] >= 5:
            raise Hang()
        last[0] = st.n
    st = Steps(HANG_STEPS)
    old = signal.signal(signal.SIGVTALRM, ontick)
    try:
        with st:
            signal.setitimer(signal.ITIMER_VIRTUAL, 25, 25)
            mod.run(case, Obs())
    except StepLimit as e:
        return "does not terminate: " + str(e), {}
    except Hang:
        if ticks[0] >= 5:
            return f"does not terminate: {25 * ticks[0]} s of CPU and {st.n} steps", {}
        return f"does not terminate: 25 s of CPU without one step after {st.n} steps", {}
    except Violation as v:
        return v.msg, v.detail
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    obs.count("slow_case_confirmed_finite")
    return None


def from_repo(e):
    tb = e.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    pre = env.REPO.rstrip("/") + "/"
    return any(f.startswith(pre) for f in files)


def tb_tail(e, n=4):
    out = []
    for fs in traceback.extract_tb(e.__traceback__)[-n:]:
        out.append(f"{os.path.basename(fs.filename)}:{fs.name}")
    return "<".join(out)


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


# ---------------------------------------------------------------- known findings
def load_known(ID):
    known, fixed = {}, []
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and f"property={ID} " in line:
                rest = line.split(f"property={ID} ", 1)[1]
                key, _, what = rest.partition(" ")
                known[key.removeprefix("key=")] = what
    return known


# ---------------------------------------------------------------- workers
def worker(mod, wid, nw, seed, tier, ncases, deadline, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    obs = Obs(mod.ID)
    cov = Coverage()
    cov.start()
    out = {"violations": [], "error": None, "known": {}, "timeout": False}
    known = load_known(mod.ID)
    classify = getattr(mod, "classify", lambda c, m, d: None)
    try:
        if hasattr(mod, "init"):
            mod.init(random.Random(f"{seed}:{mod.ID}:init"), tier)
        fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
        # interleave: fixed cases first, spread over workers
        def cases():
            for j, c in enumerate(fixed):
                if j % nw == wid:
                    yield ("fixed", j, c)
            for i in range(wid, ncases, nw):
                rng = random.Random(f"{seed}:{mod.ID}:{i}")
                yield ("gen", i, mod.gen(rng, i, tier))
        fb = getattr(mod, "feedback", None)
        it = cases()
        while True:
            if time.monotonic() > deadline:
                out["timeout"] = True
                break
            try:
                kind, i, case = next(it)
            except StopIteration:
                break
            if case is None:
                continue
            obs.cases += 1
            before = len(cov.lines)
            r = run_case(mod, case, obs)
            if fb and len(cov.lines) > before:
                fb(case)
            if r is not None:
                key = classify(case, r[0], r[1])
                if key is not None and key in known:
                    out["known"].setdefault(key, 0)
                    out["known"][key] += 1
                    continue
                out["violations"].append(
                    {"kind": kind, "index": i, "case": case, "message": r[0],
                     "detail": {k: jsonable(v) for k, v in r[1].items()}})
                break
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(e))[-6000:]
        try:
            out["error"] += "\nCASE: " + repr(case)[:3000]
        except Exception:
            pass
    cov.stop()
    out["n"] = dict(obs.n)
    out["sigs"] = obs.sigs
    out["samples"] = obs.samples
    out["cases"] = obs.cases
    out["distinct"] = {k: v for k, v in obs.distinct.items()}
    out["lines"] = cov.lines
    data = pickle.dumps(out)
    with os.fdopen(wfd, "wb") as f:
        f.write(data)


def code_lines(path):
    """Lines carrying code in a source file, by compiling it."""
    lines = set()
    try:
        with open(path, encoding="utf-8") as f:
            co = compile(f.read(), path, "exec")
    except Exception:
        return lines
    st = [co]
    while st:
        c = st.pop()
        if c is not co:
            lines.update(l for _, _, l in c.co_lines() if l)
        st.extend(k for k in c.co_consts if hasattr(k, "co_code"))
    return lines


def main(mod, tier, seed, jobs=None, ncases=None, quiet=False):
    t0 = time.monotonic()
    ID = mod.ID
    nw = 1 if getattr(mod, "SERIAL", False) else (jobs or min(8, os.cpu_count() or 1))
    ncases = ncases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = getattr(mod, "CAP", {}).get(tier, 600 if tier == "quick" else 5400)
    deadline = t0 + cap
    kids = {}
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in kids:
                os.close(fd)
            code = 0
            try:
                worker(mod, w, nw, seed, tier, ncases, deadline, wfd)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids[r] = (pid, bytearray())
    outs, lost = [], 0
    hard = deadline + 180
    pending = dict(kids)
    stop_at = None
    while pending:
        now = time.monotonic()
        lim = min(hard, stop_at) if stop_at else hard
        if now > lim:
            for fd, (pid, _) in pending.items():
                os.kill(pid, signal.SIGKILL)
                if stop_at is None or now > hard:
                    lost += 1
            for fd, (pid, _) in pending.items():
                os.waitpid(pid, 0)
            break
        rl, _, _ = select.select(list(pending), [], [], 0.5)
        for fd in rl:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                pending[fd][1].extend(chunk)
                continue
            pid, buf = pending.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if buf:
                o = pickle.loads(bytes(buf))
                outs.append(o)
                if o["violations"] and stop_at is None:
                    stop_at = time.monotonic() + 10   # let the others be, briefly
            else:
                lost += 1
    n = collections.Counter()
    sigs, lines, samples, known = set(), set(), [], collections.Counter()
    distinct = collections.defaultdict(set)
    cases = 0
    viol, errs, timeouts = [], [], 0
    for o in outs:
        n.update(o["n"]); sigs |= o["sigs"]; lines |= o["lines"]
        samples += o["samples"]; cases += o["cases"]; viol += o["violations"]
        known.update(o["known"]); timeouts += o["timeout"]
        for k, v in o["distinct"].items():
            distinct[k] |= v
        if o["error"]:
            errs.append(o["error"])
    wall = time.monotonic() - t0
    cov = {}
    byfile = collections.defaultdict(set)
    for f, l in lines:
        byfile[f].add(l)
    for f in sorted(byfile):
        tot = code_lines(f)
        hit = byfile[f] & tot
        if hit:
            cov[os.path.relpath(f, env.REPO)] = f"{len(hit)}/{len(tot)}"
    ev = {"property": ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": len(sigs),
                       "rule": mod.RULE, "samples": samples[:6],
                       "monitor_events": {k: n[k] for k in sorted(n)},
                       "distinct_states": {k: len(v) for k, v in sorted(distinct.items())},
                       "function_body_lines_reached": cov,
                       "workers": nw, "workers_stopped_by_time_cap": timeouts,
                       "known_findings_seen": dict(known)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": len(viol)}
    evdir = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(env.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{ID}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
        f.write("\n")
    # --- verdict
    if viol:
        viol.sort(key=lambda v: len(repr(v["case"])))
        v = viol[0]
        rdir = os.environ.get("VERIF_REPLAY_DIR", os.path.join(env.VERIF, "replays"))
        os.makedirs(rdir, exist_ok=True)
        name = f"{ID}-{sig64(v['case']) & 0xffffffffff:010x}.json"
        rp = os.path.join(rdir, name)
        with open(rp, "w") as f:
            json.dump({"property": ID, "seed": seed, "tier": tier,
                       "pickle": base64.b64encode(pickle.dumps(v["case"])).decode(),
                       **v}, f, indent=1, default=repr)
        print(f"VIOLATION property={ID} replay={rp}")
        print("  " + v["message"][:1500])
        for k, x in v["detail"].items():
            print(f"  {k}: {x!r}"[:1500])
        print(f"  case: {v['case']!r}"[:1500])
        print(f"  ({len(viol)} violating worker(s), {cases} cases)")
        return 1
    for k, what in load_known(ID).items():
        if known.get(k):
            print(f"KNOWN-FINDING: property={ID} {what}")
    if errs or lost:
        print(f"ERROR property={ID}: {len(errs)} worker error(s), {lost} lost worker(s)")
        for e in errs[:1]:
            print(e)
        return 2
    need = dict(getattr(mod, "NEED", {}))
    minnt = getattr(mod, "MIN_NONTRIVIAL", 20)
    if len(sigs) < minnt:
        print(f"INCONCLUSIVE property={ID}: only {len(sigs)} distinct non-trivial cases (<{minnt})")
        return 2
    for k, least in need.items():
        if n.get(k, 0) < least:
            print(f"INCONCLUSIVE property={ID}: monitor event {k!r} seen {n.get(k,0)} times (<{least})")
            return 2
    msg = mod.finish(ev, tier) if hasattr(mod, "finish") else None
    if msg:
        print(f"INCONCLUSIVE property={ID}: {msg}")
        return 2
    if not quiet:
        print(f"HELD property={ID} tier={tier} seed={seed}: {cases} executions, "
              f"{len(sigs)} distinct non-trivial, {n.get('assertions', 0)} assertions, {wall:.1f}s")
    return 0
