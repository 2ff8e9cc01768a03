"""C27: a shared bundle or localization may be used from several threads."""
from .rt import *
from fluent.runtime import FluentLocalization, AbstractResourceLoader
from . import c26
import os, random, sys, threading, time, traceback

ID = "C27"
RULE = ("2 to 8 threads released together format through one shared localization or bundle that is still unloaded and uncompiled; the scheduler is driven "
        "by a tiny switch interval, delays in loader, bundle class and functions, and random yields at source lines of the library; oracle: each thread's "
        "results equal those of the same requests made alone, and the recorded loads are those of a single-threaded run; distinct by observed "
        "interleaving of library lines")
QUICK, THOROUGH = 2400, 60000
HANG_CPU = 120.0
NEED = {"histories": 1200, "thread_runs": 5500, "operations": 19000, "first_requests_together": 600, "loads_overlapped": 300, "thread_switches": 50000,
        "bundle_histories": 600, "with_errors": 3000}
MIN_NONTRIVIAL = 1200
TOOL = 5


class Scheduler:
    """Yields the interpreter at random lines of the code under test, and records
    which thread ran there."""
    def __init__(self, seed, p, packages=("fluent.runtime",)):
        self.rnd = random.Random(seed)
        self.packages = packages
        self.p = p
        self.trace = []
        self.switches = 0
        self.last = None

    def __enter__(self):
        from lib import env
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif-sched")
        pre = tuple(env.REPO.rstrip("/") + "/" + x for x in self.packages)
        D = m.DISABLE
        rnd, p = self.rnd.random, self.p

        def line(code, ln):
            if not code.co_filename.startswith(pre):
                return D
            me = threading.get_ident()
            if me != self.last:
                self.switches += 1
                self.last = me
                if len(self.trace) < 4000:
                    self.trace.append((me, code.co_name, ln))
            if rnd() < p:
                time.sleep(0 if rnd() < .9 else .0002)
        m.register_callback(TOOL, m.events.LINE, line)
        m.restart_events()
        m.set_events(TOOL, m.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        sys.setswitchinterval(self.old)
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.free_tool_id(TOOL)
        return False

    def signature(self, idents):
        return tuple((idents.get(t, -1), f, l) for t, f, l in self.trace)


def gen(r, i, tier):
    n = r.choice([2, 3, 4, 6, 8])
    if i % 2 == 0:
        c = c26.gen(r, i, tier)
        while not c["locs"] or not any(c["layout"].values()):
            c = c26.gen(r, i, tier)
        c["threads"] = [[(r.choice(c26.IDS * 3 + ["nope", "-a"]), r.choice([None, {"x": 1}, {"x": 5}])) for _ in range(r.randint(1, 6))] for _ in range(n)]
        if r.random() < .4:
            c["threads"] = [c["threads"][0]] * n           # all ask for the same
        c["delay"] = r.choice([0, .0005, .002])
        c["seed"], c["p"] = r.getrandbits(32), r.choice([.02, .1, .3])
        return ("loc", c)
    w = RT.world(r, cyclic=r.choice([0, .2]))
    labels = [l for l, _ in RT.patterns(w["tree"])]
    w["threads"] = [[(r.choice(labels), r.randrange(len(w["args"]))) for _ in range(r.randint(1, 6))] for _ in range(n)]
    if r.random() < .4:
        w["threads"] = [w["threads"][0]] * n
    w["seed"], w["p"] = r.getrandbits(32), r.choice([.02, .1, .3])
    w["delay"] = r.choice([0, .0003])
    w["get_first"] = r.random() < .3
    return ("bundle", w)


def together(obs, jobs, sched):
    """Runs one function per thread, all released at once. -> results, idents"""
    n = len(jobs)
    gate = threading.Barrier(n)
    out = [None] * n
    ids = {}

    def work(k):
        ids[threading.get_ident()] = k
        try:
            gate.wait(60)
            out[k] = ("ok", jobs[k]())
        except BaseException as e:
            out[k] = ("raised", type(e).__name__, str(e), traceback.format_exc()[-1500:])
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    with sched:
        for t in ts:
            t.start()
        end = time.monotonic() + 40
        for t in ts:
            t.join(max(0, end - time.monotonic()))
        alive = [t for t in ts if t.is_alive()]
        if alive:
            # No verdict by the clock alone: stuck means no thread moves at all.
            def where():
                f = sys._current_frames()
                return [(t.ident, f[t.ident].f_code.co_name, f[t.ident].f_lasti) for t in ts if t.is_alive() and t.ident in f]
            seen = {str(where()) for _ in range(10) if not time.sleep(.5)}
            alive = [t for t in ts if t.is_alive()]
            if alive and len(seen) == 1:
                raise Violation("threads are stuck: deadlock", at=seen.pop())
            for t in ts:
                t.join(60)
            if any(t.is_alive() for t in ts):
                raise RuntimeError("threads too slow")        # inconclusive
    obs.count("thread_runs", n)
    obs.n["thread_switches"] += sched.switches
    return out, ids


def run(case, obs):
    obs.count("histories")
    (run_loc if case[0] == "loc" else run_bundle)(case[1], obs)


def localization(c, log, delay, seed):
    rnd = random.Random(seed)
    lock = threading.Lock()
    busy = [0, 0]

    def nap():
        if delay:
            time.sleep(rnd.random() * delay)

    class Loader(AbstractResourceLoader):
        def resources(self, locale, ids):
            log.append(("ask", locale))
            nap()
            for k, texts in enumerate(c["layout"][locale]):
                with lock:
                    busy[0] += 1
                    busy[1] = max(busy)
                log.append(("load", locale, k))
                nap()
                rs = [FluentResource(t) for t in texts]
                nap()
                with lock:
                    busy[0] -= 1
                yield rs
                nap()

    class B(FluentBundle):
        def __init__(self, locales, *a, **k):
            super().__init__(locales, *a, **k)
            log.append(("bundle", list(locales)))
            nap()

        def add_resource(self, resource, *a, **k):
            log.append(("add",))
            nap()
            return super().add_resource(resource, *a, **k)

    def custom():
        nap()
        return "custom"
    kw = {"functions": {"F": custom}} if c["fn"] else {}
    return FluentLocalization(c["locs"], c["ids"], Loader(), bundle_class=B, use_isolating=bool(c["iso"]), **kw)


def run_loc(c, obs):
    ctx = dict(layout=c["layout"], locales=c["locs"], requests=c["threads"])
    # alone
    alog = []
    alone = localization(c, alog, 0, 0)
    want = {}
    for reqs in c["threads"]:
        for q in reqs:
            want[repr(q)] = alone.format_value(q[0], q[1])
    # together
    log = []
    shared = localization(c, log, c["delay"], c["seed"])
    jobs = [lambda reqs=reqs: [shared.format_value(m, a) for m, a in reqs] for reqs in c["threads"]]
    sched = Scheduler(c["seed"], c["p"])
    out, ids = together(obs, jobs, sched)
    obs.count("first_requests_together")
    for k, (o, reqs) in enumerate(zip(out, c["threads"])):
        obs.check(o is not None and o[0] == "ok", "a thread failed", thread=k, outcome=o, **ctx)
        obs.count("operations", len(reqs))
        obs.check(o[1] == [want[repr(q)] for q in reqs], "a thread got other texts than alone", thread=k, got=o[1], want=[want[repr(q)] for q in reqs], log=log, **ctx)
    for kind in ("load", "bundle", "add", "ask"):
        a, b = [e for e in alog if e[0] == kind], [e for e in log if e[0] == kind]
        if kind == "ask":
            # how early the next locale is asked for may differ, not the order
            n = min(len(a), len(b))
            obs.check(a[:n] == b[:n] and len(set(b)) == len(b) or len(set(c["locs"])) < len(c["locs"]), "the loader was asked twice or out of order", alone=a, together=b, **ctx)
            continue
        obs.check(a == b, f"{kind}: other loads than alone", alone=a, together=b, **ctx)
    if len(alog) > 3:
        obs.count("loads_overlapped")
    # later requests still agree
    for reqs in c["threads"][:2]:
        for q in reqs:
            obs.eq(shared.format_value(q[0], q[1]), want[repr(q)], "requests after the threads get another text", request=q, **ctx)
    sig = sched.signature(ids)
    obs.nontrivial(sig)
    obs.state("interleavings", sig)
    obs.state("switch_points", sig and {(f, l) for _, f, l in sig})
    if len(repr(c)) < 700:
        obs.sample({"threads": c["threads"], "switches": sched.switches, "first": sig[:4]})


def run_bundle(w, obs):
    obs.count("bundle_histories")
    ctx = dict(threads=w["threads"], source=w["src"], args=w["args"])
    args = [RT.nargs(a) for a in w["args"]]
    res = FluentResource(w["src"])

    def make(delay):
        rnd = random.Random(w["seed"])
        log = []
        fns = RT.fn_repo(log)

        def slow(f):
            def g(*a, **k):
                if delay:
                    time.sleep(rnd.random() * delay)
                x = f(*a, **k)
                if delay:
                    time.sleep(0)
                return x
            return g
        b = FluentBundle([w["locale"]], functions={n: slow(f) for n, f in fns.items()}, use_isolating=w["iso"])
        b.add_resource(res)
        return b

    def fmt(b, label, ai):
        got, errs = b.format_pattern(RT.get(b, label), args[ai])
        return (got if isinstance(got, str) else "???", [err_image(e) for e in errs])
    alone = make(0)
    want = {}
    for reqs in w["threads"]:
        for q in reqs:
            want[q] = fmt(alone, *q)
            obs.count("with_errors", bool(want[q][1]))
    shared = make(w["delay"])
    if w["get_first"]:
        for n in {q[0][0] for reqs in w["threads"] for q in reqs}:
            shared.get_message(n)
    jobs = [lambda reqs=reqs: [fmt(shared, *q) for q in reqs] for reqs in w["threads"]]
    sched = Scheduler(w["seed"], w["p"])
    out, ids = together(obs, jobs, sched)
    for k, (o, reqs) in enumerate(zip(out, w["threads"])):
        obs.check(o is not None and o[0] == "ok", "a thread failed", thread=k, outcome=o, **ctx)
        obs.count("operations", len(reqs))
        for got, q in zip(o[1], reqs):
            obs.check(got == want[q], "a thread got another text or other errors than alone", thread=k, got=got, want=want[q], request=q, **ctx)
    for q in list(want)[:6]:
        obs.check(fmt(shared, *q) == want[q], "after the threads the bundle answers differently", request=q, **ctx)
    sig = sched.signature(ids)
    obs.nontrivial(sig)
    obs.state("interleavings", sig)
