"""Runs one documentation build in the current directory (see checks/c31.py)."""
import datetime, json, os, runpy, sys

repo, how = sys.argv[1], json.loads(sys.argv[2])
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"
sys.path.insert(0, os.path.join(repo, "fluent.docs"))
import fluent
fluent.__path__ = [os.path.join(repo, "fluent.docs", "fluent")]
for m in [m for m in sys.modules if m.startswith("fluent.")]:
    del sys.modules[m]
from fluent import docs
assert os.path.realpath(docs.__file__).startswith(os.path.realpath(repo) + os.sep), docs.__file__
if how["script"]:
    sys.argv = ["build-docs", how["name"]] + how["options"]
    runpy.run_path(os.path.join(repo, "scripts", "build-docs"), run_name="__main__")
else:
    from fluent.docs.build import build
    cut = how["cut"]
    build(how["name"], how["projects"], cut and datetime.date.fromisoformat(cut))
