"""C03: set-up and gating of expression evaluation.  `do_eval` runs with a real
NodeJSEngine whose only replaced part is the process exchange (a recorder with a
solver-chosen answer); requirement list, version, job, context, resources, options
and the answer of the process are symbolic."""

import json

from cwl_utils import expression, sandboxjs, utils
from cwl_utils.errors import WorkflowException

ASSUMPTIONS = [
    "the exchange with the JavaScript process (C15) is a recorder returning a chosen status, output and error text",
    "the values put into the JavaScript variables are compared as JSON written by json.dumps with indent 4",
]


def BOUNDS(tier):
    return {
        "requirements": "lists of 0..%d, each InlineJavascriptRequirement (without library, empty, one or two "
                        "snippets), ShellCommandRequirement or SchemaDefRequirement" % (2 if tier == "quick" else 3),
        "versions": "v1.0, v1.1, v1.2, v1.3.0-dev1, all v1.1/v1.2 development versions, empty, 'v1'",
        "values": "job, context and resources with bytes, text, numbers and null at depth up to 3",
        "answers": "status 0, 1, 2, -1; output: JSON string (1 symbolic character), number, null, object, "
                   "broken JSON, empty",
    }


OLD = ["v1.0", "v1.1.0-dev1", "v1.1", "v1.2.0-dev1", "v1.2.0-dev2", "v1.2.0-dev3"]
NEW = ["v1.2", "v1.2.0-dev4", "v1.2.0-dev5", "v1.3.0-dev1", "", "v1"]


class Node(sandboxjs.NodeJSEngine):
    def __init__(self, answer):
        super().__init__()
        self.choose = answer
        self.answer = None
        self.calls = []

    def exec_js_process(self, js_text, timeout=None, js_console=False, context=None,
                        force_docker_pull=False, container_engine="docker"):
        self.calls.append((js_text, timeout, js_console, force_docker_pull, container_engine))
        if self.answer is None:
            self.answer = self.choose()
        return self.answer


def plain(v):
    """Reference conversion: bytes become text, everything else stays."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, bytes):
        return v.decode("utf-8")
    return v


def leaf(ctx, n):
    return ctx.lazy(n, [lambda: b"b" + n.encode(), lambda: "\u00e9", lambda: 3, lambda: None])


def tree(ctx, n, depth, width):
    if depth == 0:
        return leaf(ctx, n)
    alts = [lambda: b"\xc3\xa9 " + n.encode(), lambda: "t", lambda: 2.5, lambda: []]
    alts += [lambda k=k: [tree(ctx, f"{n}.{i}", depth - 1, width) for i in range(k)]
             for k in range(1, width + 1)]
    alts += [lambda: {"p": tree(ctx, n + ".p", depth - 1, width), "q": tree(ctx, n + ".q", 0, width)}, lambda: {}]
    return ctx.lazy(n, alts)


def h_bytes(ctx):
    depth, width = ctx.config
    v = tree(ctx, "v", depth, width)
    kind, got = ctx.call(utils.bytes2str_in_dicts, _copy(v))
    ctx.check(kind == "ok", "conversion must not fail", got)
    ctx.check_eq(got, plain(v), "every byte string becomes text, nothing else changes")
    ctx.reach("converted")


def _copy(v):
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


def requirements(ctx, n):
    out = []
    for i in range(n):
        out.append(ctx.lazy(f"r{i}", [
            lambda: {"class": "InlineJavascriptRequirement"},
            lambda i=i: {"class": "InlineJavascriptRequirement", "expressionLib": ["var lib%d = 1;" % i]},
            lambda i=i: {"class": "InlineJavascriptRequirement", "expressionLib": ["// a%d" % i, "function f%d() {}" % i]},
            lambda: {"class": "InlineJavascriptRequirement", "expressionLib": []},
            lambda: {"class": "ShellCommandRequirement"},
            lambda: {"class": "SchemaDefRequirement", "types": []},
        ]))
    return out


def h_gate(ctx):
    """Texts with one expression at the start: who evaluates it, with what."""
    nreq, which = ctx.config
    reqs = requirements(ctx, nreq)
    version = ctx.enum("version", OLD + NEW) if which == "esc" else ctx.one("version", ["v1.0", "v1.2"])
    texts = {
        "js": ("$(1 + 1)", "(1 + 1)"),
        "body": ("${ return 7; }", "{ return 7; }"),
        "ref": ("$(inputs.f)", None),
        "miss": ("$(inputs.g)", "(inputs.g)"),
        "run": ("$(runtime.outdir)", None),
        "self": ("$(self)", None),
        "esc": ("\\\\$(self.k)\\a", None),
    }
    text, js = texts[which]
    eng = Node(lambda: ctx.one("answer", [(0, "[4, \"x\"]", ""), (1, "9", "bad"), (-1, "9", ""), (0, "oops", ""),
                                          (0, "", "")]))
    fval = ctx.lazy("f", [lambda: [1, {"z": b"\xc3\xa9"}, [b"a", "b"]], lambda: b"bytes", lambda: "t"])
    job = {"f": fval, "h": 1}
    self_ = {"k": "K"} if which == "esc" else ctx.lazy(
        "c", [lambda: [b"u", {"v": [b"x", b"y"]}], lambda: None])
    outdir = ctx.one("outdir", ["/out", "", None]) if which in ("run", "js") else "/o"
    timeout = ctx.one("timeout", [20, 0.5]) if which in ("body",) else 3
    kind, got = ctx.call(
        expression.do_eval, text, {"f": _copy(fval), "h": 1}, reqs, outdir, "/tmp", {"cores": 2},
        context=_copy(self_), timeout=timeout, strip_whitespace=True, cwlVersion=version,
        js_engine=eng)
    last = None
    for r in reqs:
        if r["class"] == "InlineJavascriptRequirement":
            last = r
    if js is None:
        ctx.check(kind == "ok", "a parameter reference is resolved without JavaScript", got)
        ctx.check(len(eng.calls) == 0, "no JavaScript for a parameter reference")
        if which == "esc":
            old = False
            for v in OLD:
                if version == v:
                    old = True
            ctx.check_eq(got, "\\Ka" if old else "\\K\\a", "the escape rule of the document's version")
            ctx.reach("escape old" if old else "escape new")
        else:
            want = {"ref": plain(fval), "run": outdir or None, "self": plain(self_)}[which]
            ctx.check_eq(got, want, "the value the reference denotes, as text")
            ctx.reach("reference")
        return
    if last is None:
        ctx.check(kind == "exc", "without InlineJavascriptRequirement JavaScript is an error", got)
        ctx.check(isinstance(got, WorkflowException), "the failure is a workflow error", got)
        ctx.check(len(eng.calls) == 0, "without InlineJavascriptRequirement nothing is executed")
        ctx.reach("gated")
        return
    ctx.reach("evaluated")
    ctx.check(len(eng.calls) == 1, "one expression, one evaluation")
    code, tmo = eng.calls[0][0], eng.calls[0][1]
    ctx.check_eq(tmo, timeout, "the caller's timeout is passed on")
    rootvars = {"inputs": plain(job), "self": plain(self_),
                "runtime": {"cores": 2, "tmpdir": "/tmp", "outdir": outdir or None}}
    lib = list(last["expressionLib"]) if "expressionLib" in last else []
    for k in ("inputs", "self", "runtime"):
        lib.append("var " + k + " = " + json.dumps(rootvars[k], indent=4) + ";")
    body = "{return (" + js + ");}" if js[0] == "(" else js
    ctx.check_eq(code, "\"use strict\";\n" + "\n".join(lib) + "\n(function()" + body + ")()",
                 "the code given to the engine")
    if eng.answer[0] == 0 and eng.answer[1] not in ("", "oops"):
        ctx.check(kind == "ok", "a successful evaluation gives a value", got)
        ctx.check_eq(got, [4, "x"], "the value is the one the process printed")
        ctx.reach("value")
    else:
        ctx.check(kind == "exc", "a failed evaluation never gives a value", got)
        ctx.check(isinstance(got, WorkflowException), "a failed evaluation is a workflow error", got)
        ctx.reach("failed")


def h_plain(ctx):
    """Values without an expression come back unchanged, with no evaluation."""
    n = ctx.config
    v = ctx.lazy("v", [
        lambda: None, lambda: 0, lambda: 1.5, lambda: True, lambda: ["$(inputs.f)"],
        lambda: {"a": "${return 1}"},
        lambda: ctx.str("s", n, ((32, 126), (10, 10))),
    ])
    eng = Node(lambda: (0, "1", ""))
    js = ctx.pick("js", 2)
    reqs = [{"class": "InlineJavascriptRequirement"}] if js else []
    strip = ctx.pick("strip", 2)
    if isinstance(v, str):
        if "$(" in v or "${" in v:
            return
    kind, got = ctx.call(expression.do_eval, v, {"f": 1}, reqs, "/o", "/t", {}, strip_whitespace=bool(strip),
                         js_engine=eng)
    ctx.check(kind == "ok", "a value without expressions needs no evaluation", got)
    ctx.check_eq(got, v, "a value without expressions is unchanged")
    ctx.check(len(eng.calls) == 0, "a value without expressions runs no JavaScript")
    ctx.reach("unchanged")


def h_answer(ctx):
    """The value of an expression is what the process printed, whatever it is."""
    out = ctx.lazy("out", [
        lambda: json.dumps(ctx.str("s", 1, ((32, 126), (10, 10), (233, 233)))),
        lambda: "null", lambda: "true", lambda: "-12", lambda: "1.5", lambda: "[]",
        lambda: "{\"a\": [null]}", lambda: "{", lambda: "", lambda: "undefined"])
    status = ctx.one("status", [0, 1, -1, 2, -9])
    err = ctx.one("err", ["", "x\n[log] 1\n"])
    console = ctx.pick("console", 2)
    debug = ctx.pick("debug", 2)
    force = ctx.pick("force", 2)
    engine = ctx.one("engine", ["docker", "podman", "singularity"])
    eng = Node(lambda: (status, out, err))
    kind, got = ctx.call(
        expression.do_eval, "$(1+1)", {"f": 1}, [{"class": "InlineJavascriptRequirement"}], "/o", "/t", {},
        js_engine=eng, js_console=bool(console), debug=bool(debug), force_docker_pull=bool(force),
        container_engine=engine)
    try:
        want = json.loads(out)
        ok = status == 0
    except ValueError:
        ok = False
    if ok:
        ctx.check(kind == "ok", "a successful evaluation gives a value", got)
        ctx.check_eq(got, want, "the value is the one the process printed")
        ctx.reach("value")
    else:
        ctx.check(kind == "exc", "a failed evaluation never gives a value", got)
        ctx.check(isinstance(got, WorkflowException), "a failed evaluation is a workflow error", got)
        ctx.reach("failed")
    ctx.check(len(eng.calls) == 1, "one expression, one evaluation")
    ctx.check(eng.calls[0][2] == bool(console) and eng.calls[0][3] == bool(force) and eng.calls[0][4] == engine,
              "options reach the engine")


def gate_cfg(tier):
    return [(n, w) for n in range(2 if tier == "quick" else 3, -1, -1)
            for w in ("js", "body", "ref", "miss", "run", "self", "esc")]


HARNESSES = [
    {"name": "gate", "fn": h_gate, "configs": gate_cfg,
     "reach": ("gated", "evaluated", "value", "failed", "reference", "escape old", "escape new")},
    {"name": "bytes", "fn": h_bytes, "configs": {"quick": [(2, 2), (1, 3)], "thorough": [(2, 3), (3, 1)]},
     "reach": ("converted",)},
    {"name": "plain", "fn": h_plain, "configs": {"quick": [4], "thorough": [5]}, "reach": ("unchanged",)},
    {"name": "answer", "fn": h_answer, "configs": {"quick": [None]}, "reach": ("value", "failed")},
]
