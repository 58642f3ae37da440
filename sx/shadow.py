"""Instrumented copies of pure-Python standard modules, used for symbolic
arguments only (concrete arguments go to the real functions)."""

import ast
import importlib
import inspect
import types

from . import engine as E
from . import rt
from .instrument import T, _codes
from .proxies import Lazy, PROXY_TYPES, force


def _any(v, depth=0):
    if type(v) in PROXY_TYPES:
        return True
    if depth < 2 and isinstance(v, (tuple, list)):
        return any(_any(x, depth + 1) for x in v)
    return False


def load(modname, names):
    """A rewritten copy of ``modname``; calls of ``names`` with a symbolic
    argument go to the copy."""
    real = importlib.import_module(modname)
    tree = ast.parse(inspect.getsource(real))
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef):
            node.decorator_list = [d for d in node.decorator_list if "lru_cache" not in ast.unparse(d)]
    tree = ast.fix_missing_locations(T().visit(tree))
    code = compile(tree, real.__file__, "exec", dont_inherit=True)
    _codes(code, rt.INSTRUMENTED, modname)
    shadow = types.ModuleType("sx_shadow_" + modname.replace(".", "_"))
    shadow.__dict__["sx__rt"] = rt
    shadow.__dict__["__file__"] = real.__file__
    exec(code, shadow.__dict__)
    for n in names:
        orig, copy = getattr(real, n), getattr(shadow, n)

        def model(*a, _orig=orig, _copy=copy, **k):
            if E.CURRENT is not None and (any(_any(x) for x in a) or any(_any(x) for x in k.values())):
                return _copy(*[force(x) if type(x) is Lazy else x for x in a], **k)
            return _orig(*a, **k)

        rt.MODELS[id(orig)] = (orig, model)
    return shadow


_urllib = None


def urllib_parse():
    global _urllib
    if _urllib is None:
        _urllib = load("urllib.parse", ["urlparse", "urlsplit", "urljoin", "urlunparse", "urlunsplit", "urldefrag"])
    return _urllib


def posixpath():
    """normpath, join, dirname and friends on symbolic text."""
    import posixpath as real
    shadow = load("posixpath", ["join", "dirname", "basename", "isabs", "split", "splitext"])

    def normpath(path):
        if not _any(path):
            return real.normpath(path)
        slashes = 0
        if path.startswith("/"):
            slashes = 1
            if path.startswith("//") and not path.startswith("///"):
                slashes = 2
        out = []
        for c in path.split("/"):
            if c == "" or c == ".":
                continue
            if not (c == "..") or (not slashes and not out) or (out and out[-1] == ".."):
                out.append(c)
            elif out:
                out.pop()
        r = "/"
        r = rt.callm(r, "join", out)
        r = "/" * slashes + r
        if r == "":
            return "."
        return r

    rt.MODELS[id(real.normpath)] = (real.normpath, normpath)
    return shadow


def _fspath():
    import os

    def fspath(p):
        return p if type(p) in PROXY_TYPES else os.fspath(p)

    rt.MODELS[id(os.fspath)] = (os.fspath, fspath)


_fspath()
