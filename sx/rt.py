"""Run-time helpers called by instrumented code."""

import collections
import copy
import logging
import json as _json
import operator
import re as _re
import types

import z3

from . import engine as E
from . import sregex
from .proxies import (
    PROXY_TYPES, Lazy, SymBool, SymDict, SymEnum, SymInt, SymStr, ceq, chars_of,
    class_ranges, cin, cclass, deep_realise, force, has_proxy, mkbool, mkint, mkstr, realise, zexpr_bool,
    zor,
)

_Builtin = (
    types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
    types.MethodWrapperType, types.ClassMethodDescriptorType,
)

# uninstrumented Python code that may be handed symbolic values as they are
PASS = {"cwl_utils", "props", "sx", "copy", "typing", "typing_extensions", "functools",
        "contextlib", "collections", "schema_salad", "unittest", "abc", "_collections_abc"}

MODELS = {}  # id(callable) -> (callable, model)


def model(f):
    def deco(m):
        MODELS[id(f)] = (f, m)
        return m
    return deco


def tick():
    g = E.CURRENT
    if g is not None:
        g.ticks += 1
        if g.ticks > g.max_ticks:
            raise E.Diverged()


def anyproxy(args, kw):
    for a in args:
        if type(a) in PROXY_TYPES:
            return True
    if kw:
        for a in kw.values():
            if type(a) in PROXY_TYPES:
                return True
    return False


_ALLOWED_C = {
    isinstance, issubclass, iter, next, any, all, getattr, setattr, hasattr, id,
    callable, enumerate, zip, map, filter, reversed, list, tuple, dict, set, frozenset,
    min, max, sum, sorted, super, object, property, staticmethod, classmethod, print, vars,
    copy.copy, copy.deepcopy,
}
_CONTAINERS = (list, dict, set, frozenset, tuple, collections.deque)


def call(f, /, *args, **kw):
    g = E.CURRENT
    if g is None:
        return f(*args, **kw)
    g.ticks += 1
    if g.ticks > g.max_ticks:
        raise E.Diverged()
    tf = type(f)
    if tf is Lazy:
        f = force(f)
        tf = type(f)
    try:
        m = MODELS.get(id(f))
    except TypeError:
        m = None
    if m is not None and m[0] is f:
        return m[1](*args, **kw)
    if tf is types.FunctionType or tf is types.MethodType:
        code = f.__code__ if tf is types.FunctionType else getattr(f.__func__, "__code__", None)
        if code is not None and code in INSTRUMENTED:
            g.funcs.add(INSTRUMENTED[code])
            return f(*args, **kw)
        if anyproxy(args, kw):
            mod = (getattr(f, "__module__", None) or "").split(".")[0]
            if mod == "logging" and f.__name__ in ("debug", "info") and isinstance(getattr(f, "__self__", None), logging.Logger):
                # nothing is observed of these messages; the text of the message was computed
                return None
            if mod not in PASS:
                return f(*[realise(a) for a in args], **{k: realise(v) for k, v in kw.items()})
        return f(*args, **kw)
    if tf in (type,) or isinstance(f, type):
        if f in _ALLOWED_C or f.__flags__ & (1 << 9) or issubclass(f, BaseException):
            return f(*args, **kw)
        if anyproxy(args, kw):
            return f(*[realise(a) for a in args], **{k: realise(v) for k, v in kw.items()})
        return f(*args, **kw)
    if isinstance(f, _Builtin) and anyproxy(args, kw):
        s = getattr(f, "__self__", None)
        if f in _ALLOWED_C if _hashable(f) else False:
            return f(*args, **kw)
        if s is not None and type(s) in PROXY_TYPES:
            return f(*args, **kw)
        if s is not None and isinstance(s, _CONTAINERS) and not isinstance(s, str):
            return f(*args, **kw)
        if s is not None and isinstance(s, types.ModuleType) is False and isinstance(s, type) and issubclass(s, _CONTAINERS):
            return f(*args, **kw)
        mod = getattr(f, "__module__", None)
        if mod in ("_operator", "operator", "_functools", "itertools", "_collections"):
            return f(*args, **kw)
        return f(*[realise(a) for a in args], **{k: realise(v) for k, v in kw.items()})
    return f(*args, **kw)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


INSTRUMENTED = {}  # code object -> qualified name


def callm(obj, name, /, *args, **kw):
    g = E.CURRENT
    if g is None:
        return getattr(obj, name)(*args, **kw)
    t = type(obj)
    if t is Lazy:
        if not (name in ("join",) or obj.thunk is None):
            pass
        obj = force(obj)
        t = type(obj)
    if t is str:
        if args or kw:
            if name == "join":
                seq = force(args[0])
                if not isinstance(seq, (list, tuple)):
                    seq = list(seq)
                if any(type(x) in PROXY_TYPES for x in seq):
                    return SymStr([ord(c) for c in obj]).join(seq)
                return obj.join(seq)
            if name == "format":
                if anyproxy(args, kw):
                    return Lazy(lambda: obj.format(*[realise(a) for a in args],
                                                   **{k: realise(v) for k, v in kw.items()}), str)
                return obj.format(*args, **kw)
            if anyproxy(args, kw) or (
                name in ("startswith", "endswith") and isinstance(args[0], tuple)
                and any(type(x) in PROXY_TYPES for x in args[0])
            ):
                args = tuple(
                    force(a) if type(a) is Lazy else a for a in args)
                if any(type(a) in (SymStr, SymEnum) for a in args) or isinstance(args[0], tuple):
                    return getattr(SymStr([ord(c) for c in obj]), name)(*args, **kw)
                return getattr(obj, name)(*[realise(a) for a in args],
                                          **{k: realise(v) for k, v in kw.items()})
        return getattr(obj, name)(*args, **kw)
    if t is _re.Pattern:
        if anyproxy(args, kw):
            return sregex.pattern_method(obj, name, *args, **kw)
        return getattr(obj, name)(*args, **kw)
    if isinstance(obj, dict) and args and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
        k = force(args[0])
        if type(k) in PROXY_TYPES:
            sym, k = k, dict_key(obj, k)
            if type(k) is _Absent and (name in ("setdefault", "__getitem__") or len(args) < 2):
                if name in ("pop", "__getitem__"):
                    raise KeyError(sym)
                if name == "setdefault":
                    k = realise(sym)
        args = (k,) + args[1:]
    return call(getattr(obj, name), *args, **kw)


class _Absent:
    """A key equal to none of the keys of the dict it was looked up in."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return repr(self.k)


def dict_key(d, k):
    """Which key of ``d`` the symbolic ``k`` equals (splits), or an absent key."""
    if isinstance(d, SymDict):
        for kk in list(dict.keys(d)) + list(d.maybe):
            if _same(kk, k):
                return kk
        return _Absent(k)
    for kk in list(d.keys()):
        if _same(kk, k):
            return kk
    return _Absent(k)


def _same(kk, k):
    r = k == kk
    if r is NotImplemented:
        return False
    return bool(r)


def getitem(obj, key):
    if E.CURRENT is None:
        return obj[key]
    obj = force(obj)
    tk = type(key)
    if tk in PROXY_TYPES:
        key = force(key)
        tk = type(key)
        if tk in PROXY_TYPES and isinstance(obj, dict):
            kk = dict_key(obj, key)
            if type(kk) is _Absent:
                raise KeyError(key)
            return obj[kk]
        if tk in PROXY_TYPES and type(obj) not in PROXY_TYPES:
            key = realise(key)
    elif tk is slice and type(obj) not in PROXY_TYPES and hasattr(obj, "__len__"):
        key = slice(realise(key.start), realise(key.stop), realise(key.step))
    return obj[key]


def contains(container, item):
    """``item in container`` without splitting where possible."""
    if E.CURRENT is None:
        return item in container
    container = force(container)
    item = force(item)
    tc, ti = type(container), type(item)
    if tc is SymStr or tc is SymEnum:
        return container.contains(item)
    if isinstance(container, SymDict):
        if ti in PROXY_TYPES:
            return type(dict_key(container, item)) is not _Absent
        return mkbool(zexpr_bool(container.has(item)))
    if ti in PROXY_TYPES:
        if tc is str:
            if ti in (SymStr, SymEnum):
                return SymStr([ord(c) for c in container]).contains(
                    item if ti is SymStr else realise(item))
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(container, (dict, set, frozenset, list, tuple, collections.deque)) or tc is type({}.keys()):
            out = []
            for x in container:
                x = force(x)
                r = item == x
                if r is NotImplemented:
                    continue
                out.append(zexpr_bool(r))
            return mkbool(zor(out))
    return item in container


def notcontains(container, item):
    r = contains(container, item)
    if type(r) is SymBool:
        return mkbool(z3.Not(r.e))
    return not r


def is_(a, b):
    if E.CURRENT is not None:
        if type(a) is Lazy:
            if a.kind is not None and b is None:
                return False
            a = force(a)
        if type(b) is Lazy:
            b = force(b)
        if (type(a) is SymBool and isinstance(b, bool)) or (type(b) is SymBool and isinstance(a, bool)):
            return a == b
    return a is b


def isnot(a, b):
    r = is_(a, b)
    if type(r) is SymBool:
        return mkbool(z3.Not(r.e))
    return not r


def subject(x):
    """A match subject: shapes must be real for structural patterns."""
    if E.CURRENT is None:
        return x
    return _shape(x, 0)


def _shape(x, d):
    x = force(x)
    if d < 4:
        if type(x) is tuple:
            return tuple(_shape(v, d + 1) for v in x)
        if type(x) is list:
            for i, v in enumerate(x):
                if type(v) is Lazy:
                    x[i] = _shape(v, d + 1)
        elif isinstance(x, dict):
            for k in list(dict.keys(x)):
                v = dict.__getitem__(x, k)
                if type(v) is Lazy or isinstance(v, (dict, list)):
                    dict.__setitem__(x, k, _shape(v, d + 1))
    return x


def fmt(v, conv, spec):
    if conv == "r":
        if has_proxy(v):
            return Lazy(lambda: repr(deep_realise(v)), str)
        v = repr(v)
    elif conv == "a":
        v = ascii(deep_realise(v))
    elif conv == "s":
        v = to_str(v)
    if type(v) in PROXY_TYPES:
        if not spec and (type(v) is SymStr):
            return v
        if not spec and type(v) is Lazy and v.kind is str:
            return v
        return Lazy(lambda: format(realise(v), realise(spec)), str)
    if type(v) in (list, dict, tuple) and has_proxy(v):
        return Lazy(lambda: format(deep_realise(v), realise(spec)), str)
    return format(v, spec)


def fstr(*parts):
    if any(type(p) is Lazy and p.thunk is not None for p in parts):
        return Lazy(lambda: fstr(*[force(p) for p in parts]), str)
    out = []
    sym = False
    for p in parts:
        p = force(p)
        if type(p) in PROXY_TYPES:
            sym = True
        out.append(p)
    if not sym:
        return "".join(out)
    cs = []
    for p in out:
        cs += chars_of(p)
    return mkstr(cs)


def mod(a, b):
    if E.CURRENT is None:
        return a % b
    a = force(a)
    if isinstance(a, str):
        if type(a) is str and has_proxy(b if isinstance(b, (tuple, dict)) else (b,)):
            # plain %s formatting of symbolic strings stays symbolic
            args = b if type(b) is tuple else (b,)
            parts = a.split("%s")
            if a.count("%") == len(parts) - 1 == len(args) and all(
                type(x) in (str, SymStr) or isinstance(x, str) for x in args
            ):
                out = [parts[0]]
                for x, p in zip(args, parts[1:]):
                    out += [x, p]
                return fstr(*[fmt(x, "s", "") if type(x) is not str else x for x in out])
            if isinstance(b, dict) and not isinstance(b, SymDict):
                return Lazy(lambda: a % deep_realise(b), str)
            return Lazy(lambda: a % (tuple(deep_realise(x) for x in b)
                                     if type(b) is tuple else deep_realise(b)), str)
        if type(a) in PROXY_TYPES:
            return realise(a) % (tuple(deep_realise(x) for x in b) if type(b) is tuple else deep_realise(b))
    return a % b


def to_str(v=""):
    v = v if type(v) is Lazy and v.kind is str else force(v)
    if type(v) is SymStr or type(v) is Lazy:
        return v
    if type(v) is SymEnum:
        return v
    if isinstance(v, BaseException):
        if type(v).__str__ in (BaseException.__str__, Exception.__str__) or len(v.args) == 1:
            if len(v.args) == 1 and type(v.args[0]) in PROXY_TYPES:
                return to_str(v.args[0])
        return str(v) if not has_proxy(v.args) else Lazy(lambda: str(type(v)(*deep_realise(v.args))), str)
    if type(v) in PROXY_TYPES or has_proxy(v):
        return Lazy(lambda: str(deep_realise(v)), str)
    return str(v)


# ------------------------------------------------------------------ builtins
@model(str)
def _str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and type(a[0]) in PROXY_TYPES and type(a[0]).__name__ == "Data":
        return a[0].decode(*a[1:], **k)
    return str(*[realise(x) for x in a], **k)


@model(repr)
def _repr(v):
    if has_proxy(v):
        return Lazy(lambda: repr(deep_realise(v)), str)
    return repr(v)


@model(len)
def _len(v):
    v = force(v)
    f = getattr(type(v), "__symlen__", None)
    if f is not None:
        return f(v)
    return len(v)


@model(type)
def _type(*a, **k):
    if len(a) == 1:
        v = force(a[0])
        if type(v) in PROXY_TYPES:
            return v.__class__
        if isinstance(v, SymDict):
            return dict
        return type(v)
    return type(*a, **k)


@model(int)
def _int(v=0, *a, **k):
    v = force(v)
    if type(v) is SymInt:
        return v
    if type(v) is SymBool:
        return v._int()
    if type(v) is SymStr and not a and not k:
        rng = [(48, 57)]
        if v.c and mkbool(zand_(cin(c, rng) for c in v.c)):
            e = z3.IntVal(0)
            for c in v.c:
                d = z3.IntVal(c) if type(c) is int else z3.BV2Int(c)
                e = e * 10 + (d - 48)
            return mkint(e)
    return int(realise(v), *[realise(x) for x in a], **k)


def zand_(xs):
    from .proxies import zand
    return zand(list(xs))


@model(bool)
def _bool(v=False):
    return bool(v)


@model(float)
def _float(v=0.0):
    return float(realise(v))


@model(ord)
def _ord(v):
    v = force(v)
    if type(v) is SymStr and len(v.c) == 1:
        return mkint(z3.BV2Int(v.c[0]))
    return ord(realise(v))


@model(chr)
def _chr(v):
    return chr(realise(v))


@model(isinstance)
def _isinstance(v, c):
    if type(v) is Lazy and v.kind is None:
        v = force(v)
    return isinstance(v, c)


@model(id)
def _id(v):
    return id(force(v))


@model(hash)
def _hash(v):
    return hash(force(v))


@model(range)
def _range(*a):
    return range(*[realise(x) for x in a])


@model(getattr)
def _getattr(o, n, *d):
    return getattr(force(o), realise(n), *d)


@model(hasattr)
def _hasattr(o, n):
    return hasattr(force(o), realise(n))


@model(setattr)
def _setattr(o, n, v):
    return setattr(force(o), realise(n), v)


@model(dict)
def _dict(*a, **k):
    a = tuple(force(x) for x in a)
    if len(a) == 1 and isinstance(a[0], SymDict):
        return dict(a[0].items(), **k)
    return dict(*a, **k)


@model(list)
def _list(*a):
    return list(*[force(x) for x in a])


@model(tuple)
def _tuple(*a):
    return tuple(*[force(x) for x in a])


@model(min)
def _min(*a, **k):
    return min(*[force(x) for x in a], **k)


@model(max)
def _max(*a, **k):
    return max(*[force(x) for x in a], **k)


@model(any)
def _any(it):
    for x in force(it):
        if x:
            return True
    return False


@model(all)
def _all(it):
    for x in force(it):
        if not x:
            return False
    return True


# methods of str used unbound, e.g. map(str.capitalize, ...)
def _unbound(name):
    real = getattr(str, name)

    def m(s, *a, **k):
        return callm(s, name, *a, **k)
    MODELS[id(real)] = (real, m)
    return m


for _n in dir(str):
    if not _n.startswith("__") and _n not in ("maketrans",):
        _unbound(_n)


@model(map)
def _map(f, *its):
    return (call(f, *xs) for xs in zip(*[force(i) for i in its]))


@model(filter)
def _filter(f, it):
    if f is None:
        return (x for x in force(it) if x)
    return (x for x in force(it) if call(f, x))


@model(sorted)
def _sorted(it, *, key=None, reverse=False):
    it = list(force(it))
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: call(key, x), reverse=reverse)


# ------------------------------------------------------------------ re
for _fn in ("match", "search", "fullmatch", "sub", "subn", "findall", "finditer", "split"):
    def _mkre(fn):
        real = getattr(_re, fn)

        def m(pattern, *a, **k):
            pattern = force(pattern)
            if anyproxy(a, k):
                flags = k.pop("flags", 0)
                p = pattern if isinstance(pattern, _re.Pattern) else _re.compile(realise(pattern), flags)
                return sregex.pattern_method(p, fn, *a, **k)
            return real(pattern, *a, **k)
        MODELS[id(real)] = (real, m)
    _mkre(_fn)


@model(_re.escape)
def _re_escape(s):
    return _re.escape(realise(s))


# ------------------------------------------------------------------ json
_ESC = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}


def json_str(s, ensure_ascii=True):
    """The JSON text of a (symbolic) string."""
    out = [34]
    plain = [(0x20, 0x21), (0x23, 0x5B), (0x5D, 0x7E)]
    if not ensure_ascii:
        plain = [(0x20, 0x21), (0x23, 0x5B), (0x5D, 0x10FFFF)]
    else:
        plain.append((0x7F, 0x7F))
    for c in chars_of(s):
        if type(c) is int:
            out += [ord(x) for x in _json.dumps(chr(c), ensure_ascii=ensure_ascii)[1:-1]]
        elif mkbool(cin(c, plain)):
            out.append(c)
        else:
            from .proxies import realise_char
            v = realise_char(c)
            out += [ord(x) for x in _json.dumps(chr(v), ensure_ascii=ensure_ascii)[1:-1]]
    out.append(34)
    return mkstr(out)


@model(_json.dumps)
def json_dumps(obj, **kw):
    if not has_proxy(obj):
        return _json.dumps(obj, **kw)
    obj = force(obj)
    if isinstance(obj, str):
        return json_str(obj, kw.get("ensure_ascii", True))
    if type(obj) in (SymInt, SymBool):
        return _json.dumps(realise(obj))
    # containers: symbolic strings are spliced into the text of the rest
    marks = {}
    base = "\ue000%d\ue001"

    def repl(x, d=0):
        x = force(x)
        if type(x) is SymStr:
            key = base % len(marks)
            marks[key] = x
            return key
        if isinstance(x, SymDict):
            x = dict(x.items())
        if isinstance(x, dict):
            return {realise(k): repl(v, d + 1) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [repl(v, d + 1) for v in x]
        return realise(x)

    text = _json.dumps(repl(obj), **kw)
    out = text
    for key, v in marks.items():
        k = _json.dumps(key, ensure_ascii=kw.get("ensure_ascii", True))
        i = [ord(c) for c in k]
        cs = chars_of(out)
        for p in range(len(cs) - len(i) + 1):
            if cs[p:p + len(i)] == i if all(type(c) is int for c in cs[p:p + len(i)]) else False:
                cs = list(cs[:p]) + list(chars_of(json_str(v, kw.get("ensure_ascii", True)))) + list(cs[p + len(i):])
                break
        out = mkstr(cs)
    return out


@model(_json.loads)
def json_loads(s, **kw):
    s = force(s)
    if type(s) is not SymStr:
        return _json.loads(realise(s), **kw)
    # a JSON string literal with symbolic characters, nothing else
    c = s.c
    if len(c) >= 2 and c[0] == 34 and c[-1] == 34:
        plain = [(0x20, 0x21), (0x23, 0x5B), (0x5D, 0x10FFFF)]
        out = []
        i = 1
        ok = True
        while i < len(c) - 1:
            x = c[i]
            if type(x) is not int:
                if not mkbool(cin(x, plain)):
                    ok = False
                    break
                out.append(x)
                i += 1
                continue
            if x != 92:
                if x == 34:
                    ok = False
                    break
                out.append(x)
                i += 1
                continue
            n = 6 if c[i + 1] == ord("u") else 2
            seg = c[i:i + n]
            if any(type(y) is not int for y in seg):
                ok = False
                break
            out += [ord(y) for y in _json.loads('"' + "".join(map(chr, seg)) + '"')]
            i += n
        if ok:
            return mkstr(out)
    return _json.loads(realise(s), **kw)
