"""Python's backtracking regular-expression semantics over symbolic strings."""

import re
import re._constants as C
import re._parser as P

from .proxies import (
    PROXY_TYPES, SymStr, ceq, chars_of, cin, class_ranges, cclass, force, mkbool,
    mkstr, realise, zand, znot, zor,
)

_parsed = {}


def parse(pattern):
    key = (pattern.pattern, pattern.flags)
    r = _parsed.get(key)
    if r is None:
        r = _parsed[key] = P.parse(pattern.pattern, pattern.flags & ~re.DEBUG & (
            re.I | re.M | re.S | re.X | re.A | re.U))
    return r


def _word(ch):
    return ch.isalnum() or ch == "_"


_CATS = {
    C.CATEGORY_DIGIT: ("re_d", str.isdecimal, False),
    C.CATEGORY_NOT_DIGIT: ("re_d", str.isdecimal, True),
    C.CATEGORY_SPACE: ("ws", str.isspace, False),
    C.CATEGORY_NOT_SPACE: ("ws", str.isspace, True),
    C.CATEGORY_WORD: ("re_w", _word, False),
    C.CATEGORY_NOT_WORD: ("re_w", _word, True),
}


class Unsupported(Exception):
    pass


class M:
    def __init__(self, pattern, s):
        self.flags = pattern.flags
        self.tree = parse(pattern)
        self.s = s  # char list
        self.n = len(s)

    def cat(self, cat, ch):
        key, pred, neg = _CATS[cat]
        if self.flags & re.A:
            p0 = pred
            key, pred = key + "a", (lambda c: ord(c) < 128 and p0(c))
        r = cclass(ch, key, pred)
        return znot(r) if neg else r

    def lit(self, code, ch):
        if self.flags & re.I:
            vs = {code} | {ord(x) for x in (chr(code).lower(), chr(code).upper()) if len(x) == 1}
            return zor([ceq(ch, v) for v in sorted(vs)])
        return ceq(ch, code)

    def inset(self, items, ch):
        neg = False
        ors = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                ors.append(self.lit(av, ch))
            elif op is C.RANGE:
                if self.flags & re.I:
                    for code in range(av[0], min(av[1], 0x250) + 1):
                        ors.append(self.lit(code, ch))
                else:
                    ors.append(cin(ch, [av]))
            elif op is C.CATEGORY:
                ors.append(self.cat(av, ch))
            else:
                raise Unsupported(str(op))
        r = zor(ors)
        return znot(r) if neg else r

    def single(self, op, av, ch):
        """Character test of a one-character node, or None."""
        if op is C.LITERAL:
            return self.lit(av, ch)
        if op is C.NOT_LITERAL:
            return znot(self.lit(av, ch))
        if op is C.ANY:
            return True if self.flags & re.S else znot(ceq(ch, 10))
        if op is C.IN:
            return self.inset(av, ch)
        if op is C.CATEGORY:
            return self.cat(av, ch)
        return None

    def seq(self, nodes, k, i, groups, cont):
        """Match nodes[k:] at i, then the continuation; returns its result or None."""
        if k == len(nodes):
            return cont(i, groups)
        op, av = nodes[k]

        def rest(j, g):
            return self.seq(nodes, k + 1, j, g, cont)

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
            if i >= self.n:
                return None
            if not mkbool(self.single(op, av, self.s[i])):
                return None
            return rest(i + 1, groups)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, groups, rest)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline flags")

            def after(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return rest(j, g)
            return self.seq(list(sub), 0, i, groups, after)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = self.n + 1 if hi is C.MAXREPEAT else hi
            sub = list(sub)

            def rep(count, j, g, last):
                def more():
                    if count >= hi or (count >= lo and j == last):
                        return None
                    return self.seq(sub, 0, j, g, lambda jj, gg: rep(count + 1, jj, gg, j))
                if count < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    if r is not None:
                        return r
                    return rest(j, g)
                r = rest(j, g)
                if r is not None:
                    return r
                return more()
            return rep(0, i, groups, -1)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = i == 0
                if av is C.AT_BEGINNING and self.flags & re.M and i > 0:
                    ok = bool(mkbool(ceq(self.s[i - 1], 10)))
            elif av is C.AT_END_STRING:
                ok = i == self.n
            elif av is C.AT_END:
                ok = i == self.n
                if not ok and (i == self.n - 1 or self.flags & re.M):
                    ok = bool(mkbool(ceq(self.s[i], 10)))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = bool(mkbool(self.cat(C.CATEGORY_WORD, self.s[i - 1]))) if i > 0 else False
                b = bool(mkbool(self.cat(C.CATEGORY_WORD, self.s[i]))) if i < self.n else False
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(str(av))
            return rest(i, groups) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                lo, hi = P.SubPattern.getwidth(sub)
                found = None
                if lo == hi and i - lo >= 0:
                    found = self.seq(list(sub), 0, i - lo, groups,
                                     lambda j, g: (j, g) if j == i else None)
            else:
                found = self.seq(list(sub), 0, i, groups, lambda j, g: (j, g))
            if op is C.ASSERT:
                return rest(i, found[1]) if found is not None else None
            return rest(i, groups) if found is None else None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            if i + (b - a) > self.n:
                return None
            if not mkbool(zand([ceq(self.s[a + x], self.s[i + x]) for x in range(b - a)])):
                return None
            return rest(i + (b - a), groups)
        raise Unsupported(str(op))

    def match_at(self, i, full=False):
        def done(j, g):
            if full and j != self.n:
                return None
            return (j, g)
        return self.seq(list(self.tree), 0, i, {}, done)


class SymMatch:
    def __init__(self, pattern, string, chars, start, end, groups):
        self.re = pattern
        self.string = string
        self._c = chars
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.pos = 0
        self.endpos = len(chars)

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return realise(g)

    def span(self, g=0):
        g = self._gid(g)
        if g > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        if a < 0:
            return default
        return mkstr(self._c[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}

    @property
    def lastindex(self):
        ends = [(v[1], k) for k, v in self._g.items() if k]
        return max(ends)[1] if ends else None

    def __bool__(self):
        return True

    def expand(self, template):
        out = []
        for part in P.parse_template(template, self.re):
            if isinstance(part, int):
                out.append(self._one(part, ""))
            else:
                out.append(part)
        cs = []
        for p in out:
            cs += chars_of(p)
        return mkstr(cs)


def _iter(pattern, m, string):
    i = 0
    last_end = -1
    while i <= m.n:
        r = m.match_at(i)
        if r is None:
            i += 1
            continue
        j, g = r
        if j == i and i == last_end:
            # empty match adjacent to a previous one is allowed only once
            i += 1
            continue
        yield SymMatch(pattern, string, m.s, i, j, g)
        last_end = j
        i = j if j > i else i + 1


def pattern_method(pattern, name, *args, **kw):
    """pattern.<name>(...) where some argument is symbolic."""
    args = [force(a) for a in args]
    kw = {k: force(v) for k, v in kw.items()}
    if name in ("sub", "subn"):
        repl = args[0] if args else kw["repl"]
        string = args[1] if len(args) > 1 else kw["string"]
        count = args[2] if len(args) > 2 else kw.get("count", 0)
        cs = chars_of(string)
        out, pos, n = [], 0, 0
        for m in _iter(pattern, M(pattern, cs), string):
            if count and n >= count:
                break
            n += 1
            a, b = m.span()
            out += cs[pos:a]
            if callable(repl):
                out += chars_of(repl(m))
            elif type(repl) in PROXY_TYPES:
                rc = chars_of(repl)
                out += chars_of(m.expand(realise(repl))) if any(
                    c == 92 or type(c) is not int for c in rc) else rc
            else:
                out += chars_of(m.expand(repl)) if "\\" in repl else [ord(c) for c in repl]
            pos = b
        out += cs[pos:]
        r = mkstr(out)
        return r if name == "sub" else (r, n)
    string = args[0] if args else kw["string"]
    cs = chars_of(string)
    if cs is None:
        raise TypeError("expected string or bytes-like object")
    if name in ("match", "search", "fullmatch"):
        start = args[1] if len(args) > 1 else kw.get("pos", 0)
        end = args[2] if len(args) > 2 else kw.get("endpos", len(cs))
        start, end = realise(start), min(realise(end), len(cs))
        m = M(pattern, cs[:end])
        rng = range(start, end + 1) if name == "search" else [start]
        for i in rng:
            r = m.match_at(i, full=name == "fullmatch")
            if r is not None:
                return SymMatch(pattern, string, cs[:end], i, r[0], r[1])
        return None
    if name == "finditer":
        return _iter(pattern, M(pattern, cs), string)
    if name == "findall":
        out = []
        for m in _iter(pattern, M(pattern, cs), string):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out
    if name == "split":
        maxsplit = args[1] if len(args) > 1 else kw.get("maxsplit", 0)
        out, pos, n = [], 0, 0
        for m in _iter(pattern, M(pattern, cs), string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(mkstr(cs[pos:a]))
            out += list(m.groups())
            pos = b
            n += 1
        out.append(mkstr(cs[pos:]))
        return out
    raise Unsupported(name)
