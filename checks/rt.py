"""Shared driver of the runtime checks: format everything in a world with the
repository and with the reference evaluator."""
from .common import *
from lib import rtgen as RT
from ref import resolver as RR
from fluent.runtime import FluentBundle, FluentResource
from fluent.runtime.types import FluentNone
import warnings

MATCH_ANY = object()


def err_image(e):
    return (type(e).__name__, str(e))


def same_errors(got, want):
    """Positions, classes and texts (text None: not prescribed)."""
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0]:
            return False
        if w[1] is not None and g[1] != w[1]:
            if w[1].startswith("Too many") and g[1].startswith(w[1].split(" (")[0]):
                continue
            return False
    return True


class Pair:
    """A repository bundle and the reference bundle with the same contents."""
    def __init__(self, w, iso=None, functions=True):
        self.log = []
        self.iso = w["iso"] if iso is None else iso
        self.bundle = FluentBundle([w["locale"]], functions=RT.fn_repo(self.log) if functions else None, use_isolating=self.iso)
        self.res = FluentResource(w["src"])
        self.bundle.add_resource(self.res)
        self.ref = RR.Bundle(w["locale"], self.iso, RT.fn_ref() if functions else None)
        self.ref.add(w["tree"])

    def both(self, label, pattern, args):
        del self.log[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, errs = self.bundle.format_pattern(RT.get(self.bundle, label), RT.nargs(args))
        self.errors = errs
        want, werrs, call = self.ref.format(pattern, RT.rargs(args))
        return got, [err_image(e) for e in errs], want, werrs, call
