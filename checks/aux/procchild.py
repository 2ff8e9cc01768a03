"""Child process of C38: sets itself up as told, computes the items, prints the results."""
import json, os, sys
spec = json.loads(sys.stdin.buffer.read())
sys.path.insert(0, spec["verif"])
sys.dont_write_bytecode = True
from lib import env
env.setup(spec["imports"])
from lib import procwork
import random, threading, gc, decimal, warnings

on = set(spec["on"])
if spec["cwd"]:
    os.chdir(spec["cwd"])
if "decimal" in on:
    decimal.setcontext(decimal.Context(prec=7, rounding=decimal.ROUND_UP))
    decimal.DefaultContext.prec = 7
if "gc_off" in on:
    gc.disable()
if "gc_often" in on:
    gc.set_threshold(1, 1, 1)
if "locale" in on:
    import locale
    try:
        locale.setlocale(locale.LC_ALL, "")
    except locale.Error:
        pass
if "traced" in on:
    sys.settrace(lambda *a: None)
    threading.settrace(lambda *a: None)
if "random" in on:
    random.seed(7)
if "subclass" in on:
    class S(str):
        __slots__ = ()
if "noargv" in on:
    sys.argv[:] = [""]
if "recursion" in on:
    sys.setrecursionlimit(5000)
results = [None] * len(spec["items"])


def work(k):
    results[k] = procwork.do(spec["items"][k], os.path.join(spec["root"], str(k)))


def main():
    for k in spec["order"]:
        work(k)


if "errors" in on:
    warnings.simplefilter("error")
if "threads" in on:
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=lambda n=n: [work(k) for k in spec["order"][n::3]]) for n in range(3)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
elif "thread" in on:
    threading.stack_size(16 << 20)
    t = threading.Thread(target=main)
    t.start()
    t.join()
else:
    main()
out = sys.__stdout__.buffer
out.write(b"\nRESULTS:" + json.dumps(results).encode("ascii") + b"\n")
out.flush()
