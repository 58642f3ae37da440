"""Symbolic values that stand in for Python objects.

``type(x)`` is the proxy class, but ``x.__class__`` (hence ``isinstance`` and
``match``) reports the Python type it stands for.  C code that needs the real
object raises TypeError or goes through ``realise``.
"""

import copy
import re

import z3

from . import engine as E
from .engine import PathIncomplete, W

UNIVERSE = 0x250  # character-class predicates are tabulated below this point


def eng():
    return E.CURRENT


# ---------------------------------------------------------------- expressions
_bvcache = {}


def bv(code):
    r = _bvcache.get(code)
    if r is None:
        r = _bvcache[code] = z3.BitVecVal(code, W)
    return r


def zand(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(out)


def zor(xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(out)


def znot(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def mkbool(x):
    """z3 or Python boolean -> SymBool or bool."""
    if x is True or x is False:
        return x
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return SymBool(x)


def zexpr_bool(x):
    """SymBool/bool -> z3/Python boolean."""
    if isinstance(x, bool) and type(x) is bool:
        return x
    if type(x) is SymBool:
        return x.e
    return bool(x)


def ceq(a, b):
    """Equality of two characters (int or BitVec)."""
    if type(a) is int:
        if type(b) is int:
            return a == b
        return b == bv(a)
    if type(b) is int:
        return a == bv(b)
    if a is b or a.eq(b):
        return True
    return a == b


_ranges_cache = {}


def class_ranges(key, pred):
    r = _ranges_cache.get(key)
    if r is None:
        r = []
        start = None
        for i in range(UNIVERSE + 1):
            ok = i < UNIVERSE and bool(pred(chr(i)))
            if ok and start is None:
                start = i
            if not ok and start is not None:
                r.append((start, i - 1))
                start = None
        _ranges_cache[key] = r
    return r


def cin(c, ranges):
    """c within the inclusive ranges."""
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    ors = []
    for lo, hi in ranges:
        if lo == hi:
            ors.append(c == bv(lo))
        elif lo == 0:
            ors.append(z3.ULE(c, bv(hi)))
        else:
            ors.append(z3.And(z3.UGE(c, bv(lo)), z3.ULE(c, bv(hi))))
    return zor(ors)


def cclass(c, key, pred):
    if type(c) is int and c >= UNIVERSE:
        return bool(pred(chr(c)))
    return cin(c, class_ranges(key, pred))


# ---------------------------------------------------------------- base
class Proxy:
    __slots__ = ()


def is_proxy(x):
    return isinstance(x, Proxy) if type(x) in PROXY_TYPES else False


PROXY_TYPES = set()


def _reg(c):
    PROXY_TYPES.add(c)
    return c


def _spoof(pytype):
    return property(lambda self: pytype)


# ---------------------------------------------------------------- booleans
@_reg
class SymBool(Proxy):
    __slots__ = ("e",)
    __class__ = _spoof(bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.e))
        if type(o) is int or type(o) is SymInt:
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(znot(zexpr_bool(r)))

    def __and__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return mkbool(zand([self.e, zexpr_bool(o)]))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return mkbool(zor([self.e, zexpr_bool(o)]))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool or type(o) is SymBool:
            return self != o
        return NotImplemented

    __rxor__ = __xor__

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- integers
def _iz(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return x._int().e
    return None


def mkint(e):
    e = z3.simplify(e) if not z3.is_int_value(e) else e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


@_reg
class SymInt(Proxy):
    __slots__ = ("e",)
    __class__ = _spoof(int)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        z = _iz(o)
        if z is None:
            if type(o) is float:
                return NotImplemented
            return NotImplemented
        return f(z)

    def __add__(self, o):
        return self._bin(o, lambda z: mkint(self.e + z))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda z: mkint(self.e - z))

    def __rsub__(self, o):
        return self._bin(o, lambda z: mkint(z - self.e))

    def __mul__(self, o):
        if type(o) is str or type(o) is SymStr or isinstance(o, (list, tuple)):
            return o * realise(self)
        return self._bin(o, lambda z: mkint(self.e * z))

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e / z3.IntVal(o))
        return realise(self) // o

    def __rfloordiv__(self, o):
        return o // realise(self)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e % z3.IntVal(o))
        return realise(self) % o

    def __rmod__(self, o):
        return o % realise(self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        return realise(self) / o

    def __rtruediv__(self, o):
        return o / realise(self)

    def __pow__(self, o):
        return realise(self) ** o

    def __rpow__(self, o):
        return o ** realise(self)

    def __lshift__(self, o):
        return realise(self) << o

    def __rshift__(self, o):
        return realise(self) >> o

    def __and__(self, o):
        return realise(self) & realise(o)

    __rand__ = __and__

    def __or__(self, o):
        return realise(self) | realise(o)

    __ror__ = __or__

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _cmp(self, o, f):
        z = _iz(o)
        if z is None:
            if type(o) is float:
                return f(realise(self), o)
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, z)))

    def __eq__(self, o):
        z = _iz(o)
        if z is None:
            if type(o) is float:  # exact in Python, whatever the size
                return o.is_integer() and mkbool(z3.simplify(self.e == z3.IntVal(int(o))))
            return NotImplemented
        return mkbool(z3.simplify(self.e == z))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(znot(zexpr_bool(r)))

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return realise(self)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(realise(self))

    def __hash__(self):
        return hash(realise(self))

    def __repr__(self):
        return f"<SymInt {self.e}>"

    def __str__(self):
        return str(realise(self))

    def __format__(self, spec):
        return format(realise(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- strings
def chars_of(x):
    """Characters of a str or SymStr (forcing lazies); None otherwise."""
    t = type(x)
    if t is str:
        return [ord(c) for c in x]
    if t is SymStr:
        return x.c
    if t is Lazy:
        return chars_of(x._force())
    if t is SymEnum:
        return chars_of(realise(x))
    if isinstance(x, str) and t not in PROXY_TYPES:
        return [ord(c) for c in str.__str__(x)]
    return None


def mkstr(chars):
    for c in chars:
        if type(c) is not int:
            return SymStr(list(chars))
    return "".join(map(chr, chars))


def str_eq(a, b):
    """z3/Python boolean: two character lists are equal."""
    if len(a) != len(b):
        return False
    return zand([ceq(x, y) for x, y in zip(a, b)])


def _need(x, what="str"):
    c = chars_of(x)
    if c is None:
        raise TypeError(f"must be str, not {getattr(x, '__class__', type(x)).__name__}")
    return c


WS = ("ws", str.isspace)


@_reg
class SymStr(Proxy):
    """A string whose length is fixed on this path and whose characters are
    Z3 terms (or concrete code points)."""

    __slots__ = ("c",)
    __class__ = _spoof(str)

    def __init__(self, c):
        self.c = c

    # -- basics
    def __len__(self):
        return len(self.c)

    def __iter__(self):
        return iter([mkstr([x]) for x in self.c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[_cslice(i)])
        i = realise(i)
        if not isinstance(i, int):
            raise TypeError("string indices must be integers")
        return mkstr([self.c[i]])

    def __add__(self, o):
        c = chars_of(o)
        if c is None:
            return NotImplemented
        return mkstr(self.c + list(c))

    def __radd__(self, o):
        c = chars_of(o)
        if c is None:
            return NotImplemented
        return mkstr(list(c) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * realise(n))

    __rmul__ = __mul__

    def __mod__(self, a):
        return realise(self) % realise_args(a)

    def __eq__(self, o):
        c = chars_of(o)
        if c is None:
            return NotImplemented
        return mkbool(str_eq(self.c, c))

    def __ne__(self, o):
        c = chars_of(o)
        if c is None:
            return NotImplemented
        return mkbool(znot(str_eq(self.c, c)))

    def _lex(self, o, strict):
        c = chars_of(o)
        if c is None:
            return NotImplemented
        # self < o (strict) or self <= o
        a, b = self.c, c

        def rec(i):
            if i == len(a):
                return (len(b) > i) if strict else True
            if i == len(b):
                return False
            x = a[i] if type(a[i]) is not int else bv(a[i])
            y = b[i] if type(b[i]) is not int else bv(b[i])
            return zor([z3.ULT(x, y), zand([ceq(a[i], b[i]), rec(i + 1)])])

        return mkbool(z3.simplify(z3.And(True, rec(0))))

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else mkbool(znot(zexpr_bool(r)))

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else mkbool(znot(zexpr_bool(r)))

    def __hash__(self):
        return hash(realise(self))

    def __bool__(self):
        return len(self.c) > 0

    def __repr__(self):
        return "<SymStr:%d>" % len(self.c)

    def __str__(self):
        return realise(self)

    def __format__(self, spec):
        return format(realise(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- searching
    def _at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        return zand([ceq(self.c[i + k], sub[k]) for k in range(len(sub))])

    def contains(self, o):
        sub = _need(o)
        return mkbool(zor([self._at(sub, i) for i in range(len(self.c) - len(sub) + 1)]))

    def __contains__(self, o):
        return bool(self.contains(o))

    def startswith(self, p, start=0, end=None):
        s = self if (start in (0, None) and end is None) else self[start:end]
        if not isinstance(s, str) or type(s) is str:
            s = SymStr([ord(x) for x in s])
        if isinstance(p, tuple):
            return mkbool(zor([zexpr_bool(s.startswith(q)) for q in p]))
        return mkbool(s._at(_need(p), 0))

    def endswith(self, p, start=0, end=None):
        s = self if (start in (0, None) and end is None) else self[start:end]
        if type(s) is str:
            s = SymStr([ord(x) for x in s])
        if isinstance(p, tuple):
            return mkbool(zor([zexpr_bool(s.endswith(q)) for q in p]))
        sub = _need(p)
        return mkbool(s._at(sub, len(s.c) - len(sub)))

    def _bounds(self, start, end):
        start, end, _ = slice(realise(start), realise(end)).indices(len(self.c))
        return start, end

    def find(self, sub, start=None, end=None):
        sub = _need(sub)
        lo, hi = self._bounds(start, end)
        for i in range(lo, hi - len(sub) + 1):
            if mkbool(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = _need(sub)
        lo, hi = self._bounds(start, end)
        for i in range(hi - len(sub), lo - 1, -1):
            if mkbool(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def _occurrences(self, sub, maxn=-1):
        out = []
        i = 0
        while i + len(sub) <= len(self.c) and (maxn < 0 or len(out) < maxn):
            if mkbool(self._at(sub, i)):
                out.append(i)
                i += len(sub)
            else:
                i += 1
        return out

    def count(self, sub, *a):
        s = self[slice(*a)] if a else self
        if type(s) is str:
            s = SymStr([ord(x) for x in s])
        sub = _need(sub)
        if not sub:
            return len(s.c) + 1
        return len(s._occurrences(sub))

    def replace(self, old, new, count=-1):
        old, new = _need(old), list(_need(new))
        count = realise(count)
        if not old:
            out = []
            n = 0
            for ch in self.c:
                if count < 0 or n < count:
                    out += new
                    n += 1
                out.append(ch)
            if count < 0 or n < count:
                out += new
            return mkstr(out)
        out = []
        pos = 0
        for i in self._occurrences(old, count):
            out += self.c[pos:i] + new
            pos = i + len(old)
        return mkstr(out + self.c[pos:])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        sep = _need(sep)
        if not sep:
            raise ValueError("empty separator")
        out, pos = [], 0
        for i in self._occurrences(sep, maxsplit):
            out.append(mkstr(self.c[pos:i]))
            pos = i + len(sep)
        out.append(mkstr(self.c[pos:]))
        return out

    def _split_ws(self, maxsplit):
        out, cur = [], []
        i = 0
        n = len(self.c)
        while i < n:
            while i < n and mkbool(cclass(self.c[i], *WS)):
                i += 1
            if i == n:
                break
            if 0 <= maxsplit <= len(out):
                rest = self.c[i:]
                while rest and mkbool(cclass(rest[-1], *WS)):
                    rest = rest[:-1]
                out.append(mkstr(rest))
                return out
            cur = []
            while i < n and not mkbool(cclass(self.c[i], *WS)):
                cur.append(self.c[i])
                i += 1
            out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            return [mkstr(chars_of(x)) for x in realise(self).rsplit(None, maxsplit)]
        sep = _need(sep)
        if not sep:
            raise ValueError("empty separator")
        out = []
        end = len(self.c)
        i = end - len(sep)
        while i >= 0 and (maxsplit < 0 or len(out) < maxsplit):
            if mkbool(self._at(sep, i)):
                out.append(mkstr(self.c[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mkstr(self.c[:end]))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        out, cur = [], []
        i, n = 0, len(self.c)
        brk = class_ranges("lines", lambda ch: len(("a" + ch + "b").splitlines()) == 2)
        while i < n:
            ch = self.c[i]
            if mkbool(cin(ch, brk)):
                e = [ch]
                if i + 1 < n and mkbool(zand([ceq(ch, 13), ceq(self.c[i + 1], 10)])):
                    e.append(self.c[i + 1])
                    i += 1
                out.append(mkstr(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(ch)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def partition(self, sep):
        s = _need(sep)
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mkstr(self.c[:i]), mkstr(s), mkstr(self.c[i + len(s):]))

    def rpartition(self, sep):
        s = _need(sep)
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mkstr(self.c[:i]), mkstr(s), mkstr(self.c[i + len(s):]))

    def _stripset(self, chars):
        if chars is None:
            return lambda ch: cclass(ch, *WS)
        cs = _need(chars)
        return lambda ch: zor([ceq(ch, x) for x in cs])

    def lstrip(self, chars=None):
        p = self._stripset(chars)
        c = self.c
        while c and mkbool(p(c[0])):
            c = c[1:]
        return mkstr(c)

    def rstrip(self, chars=None):
        p = self._stripset(chars)
        c = self.c
        while c and mkbool(p(c[-1])):
            c = c[:-1]
        return mkstr(c)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return mkstr(self.c[len(_need(p)):])
        return self

    def removesuffix(self, p):
        n = len(_need(p))
        if n and self.endswith(p):
            return mkstr(self.c[:-n])
        return self

    # -- case (ASCII letters; other characters are realised)
    def _case(self, lo, hi, d, fn):
        out = []
        for ch in self.c:
            if type(ch) is int:
                out += [ord(x) for x in fn(chr(ch))]
            else:
                if mkbool(z3.UGE(ch, bv(128))):
                    out += [ord(x) for x in fn(chr(realise_char(ch)))]
                else:
                    out.append(z3.If(cin(ch, [(lo, hi)]), ch + bv(d % (1 << W)), ch))
        return mkstr(out)

    def lower(self):
        return self._case(65, 90, 32, str.lower)

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32, str.upper)

    def capitalize(self):
        if not self.c:
            return ""
        a = mkstr(self.c[:1])
        b = mkstr(self.c[1:])
        return a.upper() + b.lower()

    def swapcase(self):
        return realise(self).swapcase()

    def title(self):
        return realise(self).title()

    def _all(self, key, pred):
        if not self.c:
            return False
        return mkbool(zand([cclass(ch, key, pred) for ch in self.c]))

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isspace(self):
        return self._all("ws", str.isspace)

    def isascii(self):
        return mkbool(zand([cclass(ch, "ascii", str.isascii) for ch in self.c]))

    def isidentifier(self):
        if not self.c:
            return False
        return mkbool(zand(
            [cclass(self.c[0], "id0", str.isidentifier)]
            + [cclass(ch, "id1", lambda x: ("a" + x).isidentifier()) for ch in self.c[1:]]
        ))

    def isprintable(self):
        return mkbool(zand([cclass(ch, "print", str.isprintable) for ch in self.c]))

    def isupper(self):
        return realise(self).isupper()

    def islower(self):
        return realise(self).islower()

    def join(self, it):
        out = []
        first = True
        for x in it:
            c = chars_of(x)
            if c is None:
                raise TypeError("sequence item: expected str instance")
            if not first:
                out += self.c
            out += c
            first = False
        return mkstr(out)

    def format(self, *a, **k):
        return realise(self).format(*[realise(x) for x in a],
                                    **{n: realise(x) for n, x in k.items()})

    def encode(self, *a, **k):
        return realise(self).encode(*a, **k)

    def zfill(self, n):
        return realise(self).zfill(realise(n))

    def ljust(self, n, fill=" "):
        n = realise(n)
        return mkstr(self.c + [ord(fill)] * max(0, n - len(self.c)))

    def rjust(self, n, fill=" "):
        n = realise(n)
        return mkstr([ord(fill)] * max(0, n - len(self.c)) + self.c)

    def expandtabs(self, n=8):
        return realise(self).expandtabs(n)

    def translate(self, table):
        return realise(self).translate(table)

    def center(self, *a):
        return realise(self).center(*a)


def _cslice(s):
    return slice(realise(s.start), realise(s.stop), realise(s.step))


# ---------------------------------------------------------------- finite choice
@_reg
class SymEnum(Proxy):
    """A string drawn from a fixed list, compared lazily; any other operation
    splits the path on the alternatives."""

    __slots__ = ("e", "alts", "memo")
    __class__ = _spoof(str)

    def __init__(self, e, alts, memo=None):
        self.e = e
        self.alts = alts
        self.memo = memo if memo is not None else {}

    def _eqz(self, o):
        t = type(o)
        if t is str:
            return zor([self.e == i for i, a in enumerate(self.alts) if a == o])
        if t is SymEnum:
            return zor([
                z3.And(self.e == i, o.e == j)
                for i, a in enumerate(self.alts)
                for j, b in enumerate(o.alts) if a == b
            ])
        return None

    def __eq__(self, o):
        t = type(o)
        if t is Lazy:
            return o == self
        if t is str:
            key = o
        elif t is SymEnum:
            key = id(o.memo)  # memos live as long as the engine
        else:
            key = None
        if key is not None:
            r = self.memo.get(key)
            if r is None:
                r = self.memo[key] = mkbool(self._eqz(o))
            return r
        r = self._eqz(o)
        if r is None:
            if type(o) is SymStr:
                return realise(self) == o
            return NotImplemented
        return mkbool(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(o) is str:
            n = self.memo.get(("ne", o))
            if n is None:
                n = self.memo[("ne", o)] = mkbool(znot(zexpr_bool(r)))
            return n
        return mkbool(znot(zexpr_bool(r)))

    def _pred(self, f):
        return mkbool(zor([self.e == i for i, a in enumerate(self.alts) if f(a)]))

    def __bool__(self):
        return bool(self._pred(bool))

    def startswith(self, *a):
        if any(type(x) in PROXY_TYPES for x in a):
            return SymStr(chars_of(self)).startswith(*a)
        return self._pred(lambda s: s.startswith(*a))

    def endswith(self, *a):
        if any(type(x) in PROXY_TYPES for x in a):
            return SymStr(chars_of(self)).endswith(*a)
        return self._pred(lambda s: s.endswith(*a))

    def contains(self, o):
        if type(o) is str:
            return self._pred(lambda s: o in s)
        return o in realise(self)

    def __contains__(self, o):
        return bool(self.contains(o))

    def __hash__(self):
        return hash(realise(self))

    def __len__(self):
        return len(realise(self))

    def __iter__(self):
        return iter(realise(self))

    def __getitem__(self, i):
        return realise(self)[i]

    def __add__(self, o):
        return realise(self) + o

    def __radd__(self, o):
        return o + realise(self)

    def __mul__(self, o):
        return realise(self) * o

    def __mod__(self, o):
        return realise(self) % o

    def __lt__(self, o):
        return realise(self) < realise(o)

    def __le__(self, o):
        return realise(self) <= realise(o)

    def __gt__(self, o):
        return realise(self) > realise(o)

    def __ge__(self, o):
        return realise(self) >= realise(o)

    def __str__(self):
        return realise(self)

    def __repr__(self):
        return f"<SymEnum {self.alts}>"

    def __format__(self, spec):
        return format(realise(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        getattr("", name)
        return getattr(realise(self), name)


# ---------------------------------------------------------------- lazies
@_reg
class Lazy(Proxy):
    """A value whose shape is decided (by the solver) when it is inspected."""

    __slots__ = ("thunk", "v", "kind", "__weakref__")

    def __init__(self, thunk, kind=None):
        object.__setattr__(self, "thunk", thunk)
        object.__setattr__(self, "v", None)
        object.__setattr__(self, "kind", kind)

    def _force(self):
        th = self.thunk
        if th is not None:
            v = th()
            while type(v) is Lazy:
                v = v._force()
            object.__setattr__(self, "v", v)
            object.__setattr__(self, "thunk", None)
        return self.v

    @property
    def __class__(self):
        if self.thunk is not None and self.kind is not None:
            return self.kind
        v = self._force()
        return v.__class__

    def __getattr__(self, name):
        return getattr(self._force(), name)

    def __setattr__(self, name, val):
        setattr(self._force(), name, val)

    def __delattr__(self, name):
        delattr(self._force(), name)

    def __repr__(self):
        return "<Lazy>" if self.thunk is not None else f"<Lazy {self.v!r}>"

    def __copy__(self):
        return copy.copy(self._force())

    def __deepcopy__(self, memo):
        return copy.deepcopy(self._force(), memo)

    def __reduce_ex__(self, p):
        raise PathIncomplete()

    def __add__(self, o):
        if self.thunk is not None and self.kind is str:
            return Lazy(lambda: self._force() + force(o), str)
        return self._force() + o

    def __radd__(self, o):
        if self.thunk is not None and self.kind is str:
            return Lazy(lambda: o + self._force(), str)
        return o + self._force()

    def __instancecheck__(self, c):
        return isinstance(c, self._force())

    def __subclasscheck__(self, c):
        return issubclass(c, self._force())


def _mk(name):
    import operator

    def f(self, *a):
        return getattr(operator, name)(self._force(), *a)
    return f


def _mk2(fn):
    def f(self, *a):
        return fn(self._force(), *a)
    return f


for _n in ("eq ne lt le gt ge sub mul mod floordiv truediv and_ or_ xor neg "
           "pos abs contains getitem setitem delitem").split():
    setattr(Lazy, f"__{_n.rstrip('_')}__", _mk(_n))
for _n, _f in dict(
    rsub=lambda a, b: b - a, rmul=lambda a, b: b * a, rmod=lambda a, b: b % a,
    rand=lambda a, b: b & a, ror=lambda a, b: b | a,
    len=len, iter=iter, hash=hash, bool=bool, str=str, int=int, float=float,
    index=lambda a: a.__index__(), next=next, reversed=reversed,
    call=lambda f, *a: f(*a), format=format, enter=lambda s: s.__enter__(),
    exit=lambda s, *a: s.__exit__(*a), fspath=lambda s: s.__fspath__(),
).items():
    setattr(Lazy, f"__{_n}__", _mk2(_f))


def force(x):
    while type(x) is Lazy:
        x = x._force()
    return x


# ---------------------------------------------------------------- presence maps
class SymDict(dict):
    """A dict some of whose entries are present only under a condition.

    ``maybe`` maps key -> (SymBool, value) for entries not yet decided.  Any
    operation that needs to know decides (splits) the entry.  Being a real dict
    it also works with C code once settled.
    """

    def __init__(self, base=(), maybe=()):
        super().__init__(base)
        self.maybe = dict(maybe)
        self.order = list(dict(base)) + [k for k in self.maybe]

    def _decide(self, k):
        k = force(k)
        if type(k) in PROXY_TYPES:
            k = realise(k)
        if k in self.maybe:
            cond, v = self.maybe.pop(k)
            if cond:
                super().__setitem__(k, v)
        return k

    def settle(self):
        for k in list(self.maybe):
            self._decide(k)
        # restore the declared order
        items = {k: super(SymDict, self).__getitem__(k) for k in super().keys()}
        want = [k for k in self.order if k in items] + [k for k in items if k not in self.order]
        if list(items) != want:
            super().clear()
            for k in want:
                super().__setitem__(k, items[k])
        return self

    def has(self, k):
        """Presence as a SymBool (no split)."""
        if k in self.maybe:
            return self.maybe[k][0]
        return super().__contains__(k)

    def contains(self, k):
        k = force(k)
        if type(k) in PROXY_TYPES:
            k = realise(k)
        return self.has(k)

    def __contains__(self, k):
        k = self._decide(k)
        return super().__contains__(k)

    def __getitem__(self, k):
        k = self._decide(k)
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        k = self._decide(k)
        super().__setitem__(k, v)

    def __delitem__(self, k):
        k = self._decide(k)
        super().__delitem__(k)

    def get(self, k, d=None):
        k = self._decide(k)
        return super().get(k, d)

    def pop(self, k, *d):
        k = self._decide(k)
        return super().pop(k, *d)

    def setdefault(self, k, d=None):
        k = self._decide(k)
        return super().setdefault(k, d)

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def keys(self):
        self.settle()
        return super().keys()

    def values(self):
        self.settle()
        return super().values()

    def items(self):
        self.settle()
        return super().items()

    def __iter__(self):
        self.settle()
        return super().__iter__()

    def __reversed__(self):
        self.settle()
        return super().__reversed__()

    def __len__(self):
        self.settle()
        return super().__len__()

    def __bool__(self):
        if super().__len__():
            return True
        return len(self) > 0

    def __eq__(self, o):
        self.settle()
        return dict(self) == o

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __or__(self, o):
        return dict(self.items()) | o

    def __ror__(self, o):
        return o | dict(self.items())

    def copy(self):
        return dict(self.items())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = SymDict()
        memo[id(self)] = r
        for k in super().keys():
            dict.__setitem__(r, k, copy.deepcopy(super().__getitem__(k), memo))
        r.maybe = {k: (c, copy.deepcopy(v, memo)) for k, (c, v) in self.maybe.items()}
        r.order = list(self.order)
        return r

    def __repr__(self):
        return f"<SymDict {dict.__repr__(self)} maybe={list(self.maybe)}>"


def pending(x):
    """Is this a value that nobody has looked at yet?"""
    return type(x) is Lazy


# ---------------------------------------------------------------- realising
def realise_char(c):
    if type(c) is int:
        return c
    return _enumerate(c, lambda m: m.eval(c, model_completion=True).as_long(),
                      lambda v: c == bv(v))


def _enumerate(e, value, eq, cap=None):
    """Split the path on the value of a term: complete when the domain within
    the bounds has at most ``cap`` values, otherwise the rest is recorded as
    undecided."""
    g = eng()
    cap = cap or g.realise_cap
    g.stats["realised"] += 1
    for _ in range(cap):
        i = g.pos
        # replaying: recover the value from the recorded decision
        if i < len(g.trail):
            node = g.trail[i]
            if node.kind != "v":
                raise E.Nondeterminism("realise")
            g.pos += 1
            v = node.expr
        else:
            v = g.prefix[i][1] if i < len(g.prefix) else value(g._ensure_model())
            g.trail.append(E.Node("v", v, True, False, False))
            g.pos += 1
        if g.branch(eq(v)):
            return v
    g.note_incomplete(f"more than {cap} concrete values needed")
    raise PathIncomplete()


def unsupported(why):
    """The encoding stops here: this path stays undecided."""
    E.CURRENT.note_incomplete(why)
    raise PathIncomplete()


def realise(x):
    """The concrete value of ``x`` on this path (splitting as needed)."""
    t = type(x)
    if t not in PROXY_TYPES:
        return x
    if t is Lazy:
        return realise(x._force())
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        e = x.e
        return _enumerate(e, lambda m: m.eval(e, model_completion=True).as_long(),
                          lambda v: e == v)
    if t is SymEnum:
        n = len(x.alts)
        g = eng()
        for i in range(n - 1):
            if g.branch(x.e == i):
                return x.alts[i]
        return x.alts[n - 1]
    if t is SymStr:
        syms = [c for c in x.c if type(c) is not int]
        if not syms:
            return "".join(map(chr, x.c))

        def value(m):
            return "".join(
                chr(c if type(c) is int else m.eval(c, model_completion=True).as_long())
                for c in x.c
            )

        return _enumerate(x, value,
                          lambda v: z3.And([c == bv(ord(ch)) for c, ch in zip(x.c, v)
                                            if type(c) is not int]))
    return x.__realise__()


def realise_args(a):
    if isinstance(a, tuple):
        return tuple(realise(x) for x in a)
    return realise(a)


def deep_realise(x, depth=0):
    x = realise(x)
    if depth > 40:
        return x
    if isinstance(x, SymDict):
        x = x.settle()
    if type(x) is dict or isinstance(x, SymDict):
        return {realise(k): deep_realise(v, depth + 1) for k, v in x.items()}
    if type(x) is list:
        return [deep_realise(v, depth + 1) for v in x]
    if type(x) is tuple:
        return tuple(deep_realise(v, depth + 1) for v in x)
    return x


def has_proxy(x, depth=0):
    if type(x) in PROXY_TYPES:
        return True
    if depth > 12:
        return False
    if isinstance(x, SymDict) and x.maybe:
        return True
    if isinstance(x, dict):
        return any(has_proxy(k, depth + 1) or has_proxy(v, depth + 1)
                   for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return any(has_proxy(v, depth + 1) for v in x)
    return False


# ---------------------------------------------------------------- deep equality
def deep_eq(a, b, depth=0):
    """z3/Python boolean: a and b are equal as JSON-like data (bool, int and
    float are kept apart).  Splits only on shapes."""
    a, b = force(a), force(b)
    ta, tb = type(a), type(b)
    if ta in PROXY_TYPES or tb in PROXY_TYPES:
        ca, cb = a.__class__, b.__class__
        if ca is not cb:
            sa = isinstance(a, str) and isinstance(b, str)
            if not sa:
                return False
        r = a == b if ta in PROXY_TYPES else b == a
        if r is NotImplemented:
            return False
        return zexpr_bool(r)
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if len(ka) != len(kb):
            return False
        out = []
        for k in ka:
            if k not in b:
                return False
            out.append(deep_eq(a[k], b[k], depth + 1))
        return zand(out)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or (isinstance(a, list) != isinstance(b, list)):
            return False
        return zand([deep_eq(x, y, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return type(a) is type(b) and a == b
    if a is None or b is None:
        return a is b
    r = a == b
    return zexpr_bool(r) if type(r) is SymBool else bool(r)
