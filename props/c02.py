"""C02: parameter references.  The reference text (symbolic characters, solver-chosen
segment forms) is evaluated through `interpolate` with the real NodeJSEngine's
reference walk against a symbolic context; the outcome is compared with a reference
walk.  JavaScript evaluation itself is a recording stub."""

from cwl_utils import expression
from cwl_utils.errors import JavascriptException, WorkflowException
from cwl_utils.sandboxjs import NodeJSEngine

ASSUMPTIONS = [
    "symbol characters are ASCII word characters plus e-acute; quoted keys are printable ASCII without "
    "backslash, or contain an escaped quote at a fixed place",
    "the JavaScript engine's eval is a stub returning a marker value; JavaScript itself is outside the claim",
    "the wording of error messages is outside the claim",
]


def BOUNDS(tier):
    return {
        "segments": 2 if tier == "quick" else 3,
        "key text": "1..2 symbolic characters, or one of length/class/basename/listing",
        "quoted keys": "every text of 1..%d pieces out of a, escaped and other quotes, [ . and space" % (3 if tier == "quick" else 4),
        "index text": "1..2 symbolic digits",
        "context": "lists of 0..2 items, objects with any subset of a, b, length, class, a'b; File and Directory "
                   "objects; null, bool, int, float and string leaves; depth 3",
        "free text": "every %d-character text after (inputs or (self" % (4 if tier == "quick" else 5),
    }


WORD = ((48, 57), (65, 90), (95, 95), (97, 122), (233, 233))
MARK = {"js": "result"}


class Engine(NodeJSEngine):
    def __init__(self):
        super().__init__()
        self.asked = []

    def eval(self, scan, jslib="", **kw):
        self.asked.append(scan)
        return MARK


def value(ctx, name, depth):
    leaves = [
        lambda: "leaf " + name,
        lambda: None,
        lambda: 7,
    ]
    if depth == 0:
        return ctx.lazy(name, leaves)

    def sub(s):
        return value(ctx, name + s, depth - 1)

    return ctx.lazy(name, leaves + [
        lambda: [],
        lambda: [sub(".0")],
        lambda: [sub(".0"), sub(".1")],
        lambda: ctx.maybe(name, {}, {"a": sub(".a"), "b": sub(".b"), "length": sub(".l"), "a'b": sub(".q"), 'a"b': sub(".Q")}),
        lambda: ctx.maybe(name + "F", {"class": "File", "basename": "f " + name}, {"a": sub(".fa"), "size": sub(".fs")}),
        lambda: ctx.maybe(name + "D", {"class": "Directory", "listing": [sub(".d0")]}, {"b": sub(".db")}),
        lambda: False,
        lambda: 2.5,
    ])


def segment(ctx, name):
    """-> (text, kind, key): kind 's' string key, 'i' integer index."""
    form = ctx.pick(name + ".form", 6)
    if form == 0:
        k = ctx.str(name + ".k", 2, WORD, minlen=1)
        return "." + k, "s", k
    if form == 1:
        k = ctx.one(name + ".n", ["length", "class", "basename", "listing", "size"])
        if ctx.pick(name + ".q", 2):
            return "['" + k + "']", "s", k
        return "." + k, "s", k
    if form == 2:
        k = ctx.str(name + ".k", 2, ((32, 38), (40, 91), (93, 126)), minlen=1)
        return "['" + k + "']", "s", k
    if form == 3:
        k = ctx.str(name + ".k", 2, ((32, 33), (35, 91), (93, 126)), minlen=1)
        return '["' + k + '"]', "s", k
    if form == 4:
        d = ctx.str(name + ".i", 2, ((48, 57),), minlen=1)
        return "[" + d + "]", "i", int(d)
    if ctx.pick(name + ".e", 2):
        return "['a\\'b']", "s", "a'b"
    return '["a\\"b"]', "s", 'a"b'


class Err(Exception):
    pass


def walk(v, segs):
    for i, (kind, key) in enumerate(segs):
        if kind == "i":
            if not isinstance(v, list):
                raise Err()
            if key >= len(v):
                raise Err()
            v = v[key]
        elif isinstance(v, list):
            if key == "length" and i == len(segs) - 1:
                return len(v)
            raise Err()
        elif isinstance(v, dict):
            if key not in v:
                raise Err()
            v = v[key]
        else:
            raise Err()
    return v


def judge(ctx, text, context, js, segs, root):
    """``segs`` None: not a parameter reference."""
    eng = Engine()
    kind, got = ctx.call(expression.interpolate, text, context, fullJS=js, js_engine=eng,
                         strip_whitespace=False)
    try:
        if segs is None:
            raise Err()
        want = walk(context[root], segs)
    except Err:
        ctx.reach("unresolved")
        if js:
            ctx.check(kind == "ok", "with JavaScript an unresolvable reference must go to the engine", got)
            ctx.check(len(eng.asked) == 1, "the engine is asked once")
            ctx.check_eq(eng.asked[0], text[1:], "the engine is given the reference text")
            ctx.check(got is MARK or got == MARK, "the engine's answer is the result")
        else:
            ctx.check(kind == "exc", "an unresolvable reference must be an error", got)
            ctx.check(isinstance(got, (WorkflowException, JavascriptException)), "the error must be an expression error", got)
        return
    ctx.reach("resolved")
    ctx.check(kind == "ok", "a resolvable reference must be resolved", got)
    ctx.check(len(eng.asked) == 0, "a resolvable reference needs no JavaScript")
    ctx.check_eq(got, want, "the value of the reference")


def h_walk(ctx):
    root, n, js = ctx.config
    depth = n if n < 3 else 2
    context = {"inputs": {"wrong": "inputs"}, "self": "wrong self", "runtime": {"wrong": "runtime"}}
    context[root] = value(ctx, "v", depth)
    segs = []
    text = "$(" + root
    for i in range(n):
        t, kind, key = segment(ctx, f"s{i}")
        text = text + t
        segs.append((kind, key))
    judge(ctx, text + ")", context, js, segs, root)


def parse(text):
    """Reference parser of the part between the root name and the final ')'."""
    segs = []
    i = 0
    n = len(text)

    def word(c):
        return c.isalnum() or c == "_"

    while i < n:
        if text[i] == ".":
            j = i + 1
            while j < n and word(text[j]):
                j += 1
            if j == i + 1:
                return None
            segs.append(("s", text[i + 1:j]))
            i = j
        elif text[i] == "[":
            if i + 1 >= n:
                return None
            q = text[i + 1]
            if q == "'" or q == '"':
                j = i + 2
                while j < n and text[j] != q:
                    j += 1
                if j == i + 2 or j + 1 >= n or text[j + 1] != "]":
                    return None
                segs.append(("s", text[i + 2:j]))
                i = j + 2
            else:
                j = i + 1
                while j < n and "0" <= text[j] <= "9":
                    j += 1
                if j == i + 1 or j >= n or text[j] != "]":
                    return None
                segs.append(("i", int(text[i + 1:j])))
                i = j + 1
        else:
            return None
    return segs


def h_free(ctx):
    """Any text after the root name, against a fixed context."""
    root, n, js = ctx.config
    ctx_value = {"a": [1, [2, 3]], "b": {"a": 4, "0": 5}, "é": 6, "length": 7, "": 8, "1": [9]}
    context = {"inputs": {}, "self": [], "runtime": {}}
    context[root] = ctx_value if root != "self" else [ctx_value, [10, "x"]]
    # characters that cannot end the expression early or start an escape
    tail = ctx.str("t", n, ((32, 39), (42, 91), (93, 122), (124, 124), (126, 126), (233, 233)), length=n)
    text = "$(" + root + tail + ")"
    # unbalanced quotes leave the expression unterminated: C01's subject
    quote = None
    for c in tail:
        if quote is None:
            if c == "'" or c == '"':
                quote = c
        elif c == quote:
            quote = None
    if quote is not None:
        return
    # the root is the longest word: 'inputsx' is not 'inputs'
    if n and (tail[0].isalnum() or tail[0] == "_"):
        segs = None
    else:
        segs = parse(tail)
    judge(ctx, text, context, js, segs, root)


def h_roots(ctx):
    """Every root symbol, alone."""
    js, n = ctx.config
    k = ctx.str("k", n, WORD, length=n)
    context = {"inputs": {"x": 1}, "self": "S", "runtime": {"y": 2}}
    if k == "null":
        kind, got = ctx.call(expression.interpolate, "$(" + k + ")", context, fullJS=js,
                             js_engine=Engine(), strip_whitespace=False)
        ctx.reach("null")
        ctx.check(kind == "ok" and got is None, "(null) is null", got)
        return
    for root in ("inputs", "self", "runtime"):
        if k == root:
            ctx.reach(root)
            judge(ctx, "$(" + k + ")", context, js, [], root)
            return
    judge(ctx, "$(" + k + ")", context, js, None, None)


def h_quoted(ctx):
    """A quoted key of several characters, some of them quotes and brackets."""
    q, n, js = ctx.config
    other = '"' if q == "'" else "'"
    text, key = "", ""
    for i in range(n):
        t, k = ctx.one("t%d" % i, [("a", "a"), ("\\'", "'"), ('\\"', '"'), (other, other), ("[", "["), (".", "."), (" ", " ")])
        text, key = text + t, key + k
    if text.replace("\\" + other, "").count(other) % 2:
        return  # the scanner's subject: the other quote opens nothing within quotes
    inputs = ctx.maybe("in", {"a": "wrong a", text: "wrong text"}, {})
    if ctx.bool("there"):
        inputs[key] = 7
    context = {"inputs": inputs, "self": None, "runtime": {}}
    judge(ctx, "$(inputs[" + q + text + q + "])", context, js, [("s", key)], "inputs")


def walk_cfg(tier):
    out = []
    for n in (2, 1, 0) if tier == "quick" else (3, 2, 1, 0):
        for js in (False, True):
            for root in ("inputs", "self", "runtime") if n < 2 else ("inputs",):
                out.append((root, n, js))
    return out


def free_cfg(tier):
    N = 4 if tier == "quick" else 5
    return [(r, n, js) for n in range(N, -1, -1) for r in ("inputs", "self") for js in (False, True)]


HARNESSES = [
    {"name": "walk", "fn": h_walk, "configs": walk_cfg, "reach": ("resolved", "unresolved")},
    {"name": "free", "fn": h_free, "configs": free_cfg, "reach": ("resolved", "unresolved")},
    {"name": "quoted", "fn": h_quoted, "configs": lambda tier: [(q, n, js) for q in "'\"" for n in range(1, 4 if tier == "quick" else 5) for js in (False, True)],
     "reach": ("resolved", "unresolved")},
    {"name": "roots", "fn": h_roots, "configs": {"quick": [(False, 4), (False, 6), (False, 7), (True, 4), (True, 1)]},
     "reach": ("null", "inputs", "runtime", "self")},
]
