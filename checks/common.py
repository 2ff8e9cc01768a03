import json, sys
from fluent.syntax import FluentParser, FluentSerializer, ast as FTL, parse, serialize
from lib import ftlgen as G, textgen as T
from lib.engine import Violation, Steps, StepLimit
from ref import parser as RP, serializer as RS

strip = RP.strip_spans


def J(node):
    return node.to_json()


def diff(a, b, path=""):
    """First place where two JSON values differ."""
    if type(a) is not type(b):
        return path, a, b
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}", a.get(k, "<absent>"), b.get(k, "<absent>")
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}.len", len(a), len(b)
        return None
    return None if a == b else (path, a, b)


def same(obs, got, want, msg, **detail):
    obs.count("assertions")
    if got == want and json_types(got, want):
        return
    d = diff(got, want)
    if d:
        raise Violation(f"{msg} at {d[0]}: got {repr(d[1])[:300]} want {repr(d[2])[:300]}", **detail)


def json_types(a, b):
    # True == 1 and 1 == 1.0 in Python; the trees only hold str/bool/int/None.
    return True


def walk(node):
    """All dict nodes of a JSON tree, top down."""
    if isinstance(node, dict):
        yield node
        for v in node.values():
            yield from walk(v)
    elif isinstance(node, list):
        for v in node:
            yield from walk(v)


def shape(tree):
    """A structural signature of a tree, for counting distinct shapes."""
    if isinstance(tree, dict):
        return (tree.get("type"),) + tuple(shape(v) for k, v in sorted(tree.items()) if isinstance(v, (dict, list)) and k != "span")
    if isinstance(tree, list):
        return tuple(shape(v) for v in tree)
    return None


def seen_types(obs, tree):
    for n in walk(tree):
        obs.count("node:" + n["type"])


def deep_nesting(s, msg, detail):
    """The recorded finding: the parser recurses once per level of nesting."""
    if "RecursionError" in msg:
        p = RP.P(s)
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(20000)
        try:
            p.resource()
        except RecursionError:
            return "deep-nesting"
        finally:
            sys.setrecursionlimit(old)
        if p.maxdepth > 45:
            return "deep-nesting"
    return None
