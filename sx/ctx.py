"""What a harness sees.  The same harness runs symbolically (SymCtx) and, to
replay a counterexample on the unmodified code, concretely (ConcCtx)."""

import z3

from . import engine as E
from . import rt
from .engine import PathAbort, W
from .proxies import (
    Lazy, SymBool, SymDict, SymEnum, SymInt, SymStr, bv, cin, deep_eq, force,
    mkbool, zand, zexpr_bool, znot, zor,
)

ASCII = ((0, 127),)
PRINT = ((32, 126),)


class Violation(Exception):
    def __init__(self, label, info=None):
        super().__init__(label)
        self.label = label
        self.info = info


class Skip(BaseException):
    """Concrete replay left the assumed input space."""


class Base:
    symbolic = False

    def call(self, fn, *a, **k):
        """('ok', value) or ('exc', exception) of the code under test."""
        try:
            return "ok", (rt.call(fn, *a, **k) if self.symbolic else fn(*a, **k))
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            x = e
            while x is not None:
                if isinstance(x, E.Signal):  # wrapped by the code under test
                    raise x
                x = x.__cause__ or x.__context__
            return "exc", e

    def eq(self, a, b):
        raise NotImplementedError

    def put(self, obj, name, value):
        """Replace obj.name only, not its copies."""
        setattr(obj, name, value)

    def check_eq(self, got, want, label, info=None):
        self.check(self.eq(got, want), label, info)


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, config=None):
        self.g = eng
        self.config = config

    def _name(self, name, getter):
        if name in self.g.names:
            raise RuntimeError(f"duplicate symbol {name}")
        self.g.names[name] = getter

    def _fresh_int(self, name, lo, hi):
        hit = self.g.cache.get((name, lo, hi))
        if hit is None:
            v = z3.Int(name)
            hit = self.g.cache[(name, lo, hi)] = (v, z3.And(v >= lo, v <= hi))
        self.g.assume(hit[1], fresh=True)
        return hit[0]

    def bool(self, name):
        v = self.g.cache.get(name)
        if v is None:
            v = self.g.cache[name] = z3.Bool(name)
        self._name(name, lambda m: z3.is_true(m.eval(v, model_completion=True)))
        return SymBool(v)

    def int(self, name, lo, hi):
        v = self._fresh_int(name, lo, hi)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        return SymInt(v)

    def pick(self, name, n):
        """A concrete index below n (splits at once)."""
        if n == 1:
            return 0
        v = self._fresh_int(name, 0, n - 1)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        tests = self.g.cache.get((name, n))
        if tests is None:
            tests = self.g.cache[(name, n)] = [v == i for i in range(n - 1)]
        for i in range(n - 1):
            if self.g.branch(tests[i]):
                return i
        return n - 1

    def one(self, name, values):
        return values[self.pick(name, len(values))]

    def enum(self, name, values):
        """A string from the list, compared lazily."""
        values = list(values)
        v = self._fresh_int(name, 0, len(values) - 1)
        self._name(name, lambda m: m.eval(v, model_completion=True).as_long())
        memo = self.g.cache.setdefault((name, tuple(values)), {})
        return SymEnum(v, values, memo)

    def lazy(self, name, alts):
        """A value whose alternative (a thunk) is chosen when it is inspected."""
        alts = list(alts)
        return Lazy(lambda: alts[self.pick(name, len(alts))]())

    def str(self, name, maxlen, alphabet=PRINT, minlen=0, length=None):
        n = length if length is not None else minlen + self.pick(name + "#len", maxlen - minlen + 1)
        cs = []
        for i in range(n):
            c = z3.BitVec(f"{name}[{i}]", W)
            r = cin(c, alphabet)
            if r is not True:
                self.g.assume(r, fresh=True)
            cs.append(c)
        self._name(name, lambda m: [m.eval(c, model_completion=True).as_long() for c in cs])
        return SymStr(cs) if cs else ""

    def maybe(self, name, base, maybe):
        """A dict: ``base`` plus the entries of ``maybe`` present or not."""
        m = {}
        for k, v in maybe.items():
            m[k] = (self.bool(f"{name}.{k}?"), v)
        return SymDict(base, m)

    def assume(self, cond):
        c = zexpr_bool(cond)
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.g.assume(c)

    def check(self, cond, label, info=None):
        self.g.check(zexpr_bool(cond), label, info)

    def eq(self, a, b):
        return mkbool(deep_eq(a, b))

    def all(self, conds):
        return mkbool(zand([zexpr_bool(c) for c in conds]))

    def any(self, conds):
        return mkbool(zor([zexpr_bool(c) for c in conds]))

    def no(self, cond):
        return mkbool(znot(zexpr_bool(cond)))

    def fail(self, label, info=None):
        self.g.check(False, label, info)

    def reach(self, label):
        self.g.reached[label] = self.g.reached.get(label, 0) + 1

    def patch(self, obj, name, value):
        _patch(self, obj, name, value)


class ConcCtx(Base):
    def __init__(self, values, config=None):
        self.values = values
        self.config = config

    def bool(self, name):
        return bool(self.values.get(name, False))

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def pick(self, name, n):
        return int(self.values.get(name, 0)) if n > 1 else 0

    def one(self, name, values):
        return values[self.pick(name, len(values))]

    def enum(self, name, values):
        return list(values)[int(self.values.get(name, 0))]

    def lazy(self, name, alts):
        return list(alts)[self.pick(name, len(list(alts)))]()

    def str(self, name, maxlen, alphabet=PRINT, minlen=0, length=None):
        v = self.values.get(name)
        if v is None:
            return chr(alphabet[0][0]) * (length if length is not None else minlen)
        return "".join(map(chr, v))

    def maybe(self, name, base, maybe):
        d = dict(base)
        for k, v in maybe.items():
            if self.bool(f"{name}.{k}?"):
                d[k] = v
        return d

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, info=None):
        if not cond:
            raise Violation(label, info)

    def eq(self, a, b):
        return deep_eq(a, b)

    def all(self, conds):
        return all(conds)

    def any(self, conds):
        return any(conds)

    def no(self, cond):
        return not cond

    def fail(self, label, info=None):
        raise Violation(label, info)

    def reach(self, label):
        pass

    def patch(self, obj, name, value):
        _patch(self, obj, name, value)


_ORIG = {}


def _patch(ctx, obj, name, value):
    """Replace obj.name, and every copy of it imported into cwl_utils."""
    import sys
    key = (id(obj), name)
    hit = _ORIG.get(key)
    if hit is None:
        old = getattr(obj, name)
        places = [(obj, name)]
        for mname, m in list(sys.modules.items()):
            if mname.startswith("cwl_utils") and m is not None and m is not obj:
                places += [(m, k) for k, v in list(vars(m).items()) if v is old]
        hit = _ORIG[key] = (obj, places)
    for m, k in hit[1]:
        setattr(m, k, value)
