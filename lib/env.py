"""Locates the code under test and imports it from its sources, never from caches."""
import os, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKGS = ["fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs"]

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"   # never read stale bytecode either


def setup(first=()):
    for p in reversed(PKGS):
        d = os.path.join(REPO, p)
        if d in sys.path:
            sys.path.remove(d)
        sys.path.insert(0, d)
    # `fluent` is a namespace package spread over the four directories; make
    # sure ours come first whatever the editable-install hooks say.
    for m in [m for m in sys.modules if m == "fluent" or m.startswith("fluent.")]:
        del sys.modules[m]
    import importlib
    importlib.invalidate_caches()
    for m in first:
        importlib.import_module(m)
    import fluent.syntax, fluent.runtime
    for mod, pkg in ((fluent.syntax, "fluent.syntax"), (fluent.runtime, "fluent.runtime")):
        want = os.path.realpath(os.path.join(REPO, pkg)) + os.sep
        got = os.path.realpath(mod.__file__)
        if not got.startswith(want):
            raise SystemExit(f"ERROR: {mod.__name__} imported from {got}, expected under {want}")
