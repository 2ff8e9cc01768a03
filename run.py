#!/opt/venv/bin/python -B
"""run.py ID [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import argparse, base64, importlib, json, os, pickle, sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
from lib import env
env.setup()
import warnings
warnings.simplefilter("ignore")
from lib import engine


sys.stdout.reconfigure(errors='backslashreplace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.id.lower())
    if a.replay:
        d = json.load(open(a.replay))
        case = pickle.loads(base64.b64decode(d["pickle"]))
        if hasattr(mod, "init"):
            import random
            mod.init(random.Random(f"{d['seed']}:{mod.ID}:init"), d["tier"])
        r = engine.run_case(mod, case, engine.Obs(mod.ID))
        if r is None:
            print("replay: property held on this case")
            return 0
        print(f"VIOLATION property={mod.ID} replay={a.replay}")
        print("  " + r[0])
        for k, v in r[1].items():
            print(f"  {k}: {v!r}")
        return 1
    return engine.main(mod, a.tier, a.seed, a.jobs, a.cases)


sys.exit(main())
