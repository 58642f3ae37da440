"""C01: text with embedded expressions.  `interpolate` runs on a fully symbolic
string (every character a Z3 term) with a recording JavaScript engine, and its
outcome is compared with a reference reading of the CWL string-interpolation
rules that runs on the same symbolic string."""

import json

from cwl_utils import expression
from cwl_utils.errors import SubstitutionError, WorkflowException

ASSUMPTIONS = [
    "characters are ASCII (0..127)",
    "the JavaScript engine is a stub that records the text it is given and returns a value of the "
    "stated shapes; JavaScript itself is outside the claim",
    "the wording of error messages is outside the claim",
]


def BOUNDS(tier):
    return {
        "text": "all ASCII strings of length 0..%d (0..%d with whitespace stripping); every continuation of "
                "'$(' and '${' by up to %d characters; up to %d characters in each gap around two fixed expressions" % (
            (5, 3, 6, 1) if tier == "quick" else (6, 5, 7, 2)),
        "values": "string of 0..1 symbolic characters (printable ASCII, newline, e-acute), int, float, bool, null, list, object",
    }


class Bad(Exception):
    pass


def close(s, i, op, cl):
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == op:
            depth += 1
        elif c == cl:
            depth -= 1
            if depth == 0:
                return i + 1
        elif c == "'" or c == '"':
            j = i + 1
            while True:
                if j >= n:
                    raise Bad()
                if s[j] == "\\":
                    j += 2
                    continue
                if s[j] == c:
                    break
                j += 1
            i = j
        i += 1
    raise Bad()


def expected(s, old, value_of):
    """Reference result; ``value_of(k, text)`` gives the k-th expression's value."""
    i = 0
    n = len(s)
    nex = 0
    parts = []
    while i < n:
        c = s[i]
        if c == "\\" and i + 1 < n:
            d = s[i + 1]
            if old:
                parts.append(d)
                i += 2
            elif d == "\\":
                parts.append("\\")
                i += 2
            elif d == "$" and i + 2 < n and (s[i + 2] == "(" or s[i + 2] == "{"):
                parts.append("$")
                parts.append(s[i + 2])
                i += 3
            else:
                parts.append("\\")
                parts.append(d)
                i += 2
            continue
        if c == "$" and i + 1 < n and (s[i + 1] == "(" or s[i + 1] == "{"):
            e = close(s, i + 1, s[i + 1], ")" if s[i + 1] == "(" else "}")
            if s[i + 1:e] == "(null)":
                v = None  # the one expression that needs no evaluation
            else:
                v = value_of(nex, s[i + 1:e])
                nex += 1
            if i == 0 and e == n:
                return v
            if isinstance(v, str):
                parts.append(v)
            else:
                parts.append(json.dumps(v, sort_keys=True))
            i = e
            continue
        parts.append(c)
        i += 1
    return "".join(parts)


class Engine:
    """Records what it is asked to evaluate."""

    def __init__(self, ctx, values):
        self.ctx = ctx
        self.values = values
        self.asked = []

    def eval(self, scan, jslib="", **kw):
        self.asked.append(scan)
        return self.values[len(self.asked) - 1]

    def regex_eval(self, parsed, remaining, current, **kw):
        self.asked.append("(" + parsed + remaining + ")")
        return self.values[len(self.asked) - 1]


def values(ctx, n, simple=False):
    def val(k):
        if simple:
            return [12, "v", {"k": 1}, None][k]
        return ctx.lazy(f"v{k}", [
            lambda: ctx.str(f"v{k}s", 1, ((10, 10), (32, 126), (233, 233))),
            lambda: 12,
            lambda: None,
            lambda: {"b": [1, "x"], "a": True},
            lambda: 1.5,
            lambda: [],
            lambda: False,
        ])
    return [val(k) for k in range(n)]


def outcome(ctx, fn, *a, **k):
    kind, v = ctx.call(fn, *a, **k)
    if kind == "exc":
        return ("error",) if isinstance(v, (WorkflowException, SubstitutionError)) else ("crash", type(v).__name__)
    return ("ok", v)


def run(ctx, s, strip, esc, simple=False):
    vals = values(ctx, 4, simple)
    eng = Engine(ctx, vals)
    got = outcome(ctx, expression.interpolate, s,
                  {"inputs": {"a": 1}, "self": None, "runtime": {}}, fullJS=True,
                  strip_whitespace=strip, escaping_behavior=esc, js_engine=eng)
    asked = []

    def value_of(k, text):
        asked.append(text)
        return vals[k] if k < len(vals) else None

    try:
        want = ("ok", expected(s.strip() if strip else s, esc == 1, value_of))
    except Bad:
        want = ("error",)
    if want[0] == "error":
        ctx.reach("rejected")
        ctx.check(got[0] == "error", "unterminated expression must be rejected")
        return
    ctx.check(got[0] == "ok", "well-formed text must be evaluated", got)
    ctx.reach("text" if not asked else "expression")
    ctx.check(len(asked) == len(eng.asked), "number of expressions evaluated")
    ctx.check_eq(eng.asked, asked, "the expressions handed to the engine")
    ctx.check_eq(got[1], want[1], "the interpolated value")


def h_free(ctx):
    strip, esc, n = ctx.config
    s = ctx.str("s", n, ((0, 127),), length=n)
    run(ctx, s, strip, esc)


def h_inside(ctx):
    """Everything that can follow the start of an expression."""
    head, esc, n = ctx.config
    s = head + ctx.str("s", n, ((0, 127),), length=n)
    run(ctx, s, False, esc, simple=True)


def h_around(ctx):
    strip, esc, n = ctx.config
    A = ((0, 127),)
    s = ctx.str("p", n, A) + "$(inputs.a)" + ctx.str("m", n, A) + "${ return '}'; }" + ctx.str("t", n, A)
    run(ctx, s, strip, esc, simple=ctx.config[0])


def free_cfg(tier):
    big, small = (5, 3) if tier == "quick" else (6, 5)
    return [(False, e, n) for n in range(big, -1, -1) for e in (1, 2)] + [
        (True, e, n) for n in range(small, -1, -1) for e in (1, 2)]


def inside_cfg(tier):
    n = 6 if tier == "quick" else 7
    return [(h, e, k) for k in range(n, n - 2, -1) for h in ("$(", "${") for e in (1, 2)] + [
        (h, e, 4) for h in ("$$(", "\\$(", "\\\\$(", "\\\\${", "\\${", "x\\", "$('\\", "${\"\\") for e in (1, 2)]


def around_cfg(tier):
    return [(s, e, 1 if tier == "quick" else 2) for s in (True, False) for e in (1, 2)]


HARNESSES = [
    {"name": "free", "fn": h_free, "configs": free_cfg, "reach": ("rejected", "text", "expression")},
    {"name": "inside", "fn": h_inside, "configs": inside_cfg, "reach": ("rejected", "text", "expression")},
    {"name": "around", "fn": h_around, "configs": around_cfg, "reach": ("expression",)},
]
