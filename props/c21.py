"""C21: the code that takes the place of an expression.  The text (symbolic characters
around and between expressions), the body of the code, the library and the name of the
self input are symbolic; the text returned by the real functions is read by a small
reader and must contain the same expressions, the same literal text and the same body.
Code of another shape than the reader knows is judged, on a concrete instance, by
running it and the original expression in node."""

import copy
import functools
import json
import logging
import subprocess

from cwl_utils import (
    cwl_v1_0_expression_refactor,
    cwl_v1_1_expression_refactor,
    cwl_v1_2_expression_refactor,
    expression,
    expression_refactor,
)
from cwl_utils.errors import JavascriptException, SubstitutionError, WorkflowException
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
from schema_salad.runtime import LoadingOptions

from .c01 import Bad, close

logging.getLogger("cwl_utils").setLevel(100)

ASSUMPTIONS = [
    "white space around the whole text is not part of it",
    "a reference to something that the example values do not have may be reported as an expression or not",
    "lists and objects put into text are written by JSON.stringify, whose spacing is outside the claim",
    "the JavaScript engine that runs the code is outside the claim",
]


def BOUNDS(tier):
    q = tier == "quick"
    return {
        "text": "all texts of 0..%d characters out of a $ ( ) { } \\ \" ' space newline; up to %d such characters in each "
                "gap before, between and after two expressions or references" % ((4, 1) if q else (5, 2)),
        "expressions": "12 of the forms $(...) and ${...}, with brackets in strings, line breaks, commas, references",
        "body, library": "0..%d characters, any ASCII" % (3 if q else 4),
        "levels": "the library given by any subset of workflow, step and tool, as requirement or not at all",
        "parameters": "present or absent label, doc, format, streamable, secondaryFiles, default, loadContents, loadListing",
        "versions": "v1.0, v1.1, v1.2",
    }


OUTSIDE = "the connection of the new steps to the workflow (C22)"

MODS = {
    "v1.0": (cwl_v1_0_expression_refactor, cwl_v1_0),
    "v1.1": (cwl_v1_1_expression_refactor, cwl_v1_1),
    "v1.2": (cwl_v1_2_expression_refactor, cwl_v1_2),
}
REFUSED = (WorkflowException, SubstitutionError, JavascriptException)
INPUTS = {"x": 1, "s": "t", "l": [1, 2]}
TEXT = ((10, 10), (32, 32), (34, 34), (36, 36), (39, 41), (92, 92), (97, 97), (123, 123), (125, 125))

# text -> needs JavaScript: True, False or None (either)
PIECES = [
    ("$(inputs.x + 1)", True),
    ("$(inputs.x)", False),
    ("${ return \"}\" + '$('; }", True),
    ("$(\")\" + inputs.s)", True),
    ("$(runtime.cores)", False),
    ("$(\n inputs.x + 1)", True),
    ("$(inputs.nothing)", None),
    ("${if (inputs.x) {return inputs.l}}", True),
    ("$(1, 2)", True),
    ("$(self)", False),
    ("$(null)", False),
    ("$([inputs.x, '\\''][1])", True),
]
KNOWN = dict(PIECES)
for _n in ("outdir", "tmpdir", "ram", "outdirSize", "tmpdirSize"):
    KNOWN["$(runtime.%s)" % _n] = False


# ------------------------------------------------------------- the CWL reading
def split(s, old):
    """The text as a list of ("lit", text) and ("code", text without the $)."""
    i = 0
    n = len(s)
    parts = []
    lit = ""
    while i < n:
        c = s[i]
        if c == "\\" and i + 1 < n:
            d = s[i + 1]
            if old:
                lit = lit + d
                i += 2
            elif d == "\\":
                lit = lit + "\\"
                i += 2
            elif d == "$" and i + 2 < n and (s[i + 2] == "(" or s[i + 2] == "{"):
                lit = lit + "$" + s[i + 2]
                i += 3
            else:
                lit = lit + "\\" + d
                i += 2
            continue
        if c == "$" and i + 1 < n and (s[i + 1] == "(" or s[i + 1] == "{"):
            e = close(s, i + 1, s[i + 1], ")" if s[i + 1] == "(" else "}")
            if len(lit):
                parts.append(("lit", lit))
            lit = ""
            parts.append(("code", s[i + 1:e]))
            i = e
            continue
        lit = lit + c
        i += 1
    if len(lit):
        parts.append(("lit", lit))
    return parts


# ------------------------------------------------------------ reading the code
class Unknown(Exception):
    """The code has a shape that the reader does not know."""


class Reader:
    def __init__(self, text):
        self.t = text
        self.i = 0

    def space(self):
        while self.i < len(self.t) and self.t[self.i] in " \n\t\r":
            self.i += 1

    def at(self, text):
        """Skip the text, white space between its words and signs being free."""
        save = self.i
        for word in text.split():
            self.space()
            if self.t[self.i:self.i + len(word)] == word:
                self.i += len(word)
            else:
                self.i = save
                return False
        return True

    def want(self, text):
        if not self.at(text):
            raise Unknown(text)

    def end(self):
        self.space()
        if self.i < len(self.t):
            raise Unknown("end")

    def block(self):
        """The text of (...) or {...} that begins here."""
        try:
            e = close(self.t, self.i, self.t[self.i], ")" if self.t[self.i] == "(" else "}")
        except Bad:
            raise Unknown("block") from None
        out = self.t[self.i:e]
        self.i = e
        return out

    def string(self):
        i = self.i + 1
        n = len(self.t)
        out = ""
        while True:
            if i >= n:
                raise Unknown("string")
            c = self.t[i]
            if c == '"':
                break
            if c == "\n":
                raise Unknown("line break in a string")
            if c == "\\":
                d = self.t[i + 1]
                if d == "n":
                    out = out + "\n"
                elif d == "t":
                    out = out + "\t"
                elif d == "r":
                    out = out + "\r"
                elif d == "b":
                    out = out + "\b"
                elif d == "f":
                    out = out + "\f"
                elif d == "u":
                    out = out + chr(int(self.t[i + 2:i + 6], 16))
                    i += 4
                else:
                    out = out + d
                i += 2
                continue
            out = out + c
            i += 1
        self.i = i + 1
        return out


def read_concat(code):
    """The parts of "${return "text" + function(){...}() + ...;}", adjacent texts joined."""
    r = Reader(code)
    r.want("${ return")
    parts = []
    while True:
        r.space()
        if r.t[r.i:r.i + 1] == '"':
            s = r.string()
            if len(s):
                if parts and parts[-1][0] == "lit":
                    s = parts.pop()[1] + s
                parts.append(("lit", s))
        else:
            r.want("function ( ) { var item =")
            r.space()
            if r.at("function ( )"):
                r.space()
                if r.t[r.i:r.i + 1] != "{":
                    raise Unknown("body")
                parts.append(("code", r.block()))
                r.want("( )")
            else:
                if r.t[r.i:r.i + 1] != "(":
                    raise Unknown("value")
                parts.append(("code", r.block()))
            r.want('; if ( typeof ( item ) === "string" ) { return item ; } else { return JSON . stringify ( item ) ; } } ( )')
        if r.at("+"):
            continue
        r.want("; }")
        r.end()
        return parts


def read_body(code):
    """("body", text) of a ${} block, or ("value", text) of "${return (text);}"."""
    code = code.strip()
    if code[:2] != "${" or code[-1:] != "}":
        raise Unknown("block")
    return code[2:-1]


def same_body(ctx, body, piece):
    """Is ``body`` a function body with the value of the expression piece (without $)?"""
    if piece[:1] == "{":
        return ctx.eq(body, piece[1:-1])
    inner = piece[1:-1]
    r = Reader(body)
    if not r.at("return"):
        return False
    rest = body[r.i:].strip()
    if rest[-1:] == ";":
        rest = rest[:-1]
    first = inner.strip(" \t")[:1]
    if ctx.eq(rest.strip(), piece):
        return True
    return False if first == "\n" or first == "" else ctx.eq(rest.strip(), inner.strip())


# ---------------------------------------------------------------- node's verdict
HEAD = ('"use strict"; var inputs = %s, self = inputs.l ? null : null, runtime = {cores: 0, ram: 0, outdir: "o", tmpdir: "t", '
        'outdirSize: 0, tmpdirSize: 0}, a = "A!";' % json.dumps(INPUTS))


def node(code):
    p = subprocess.run(["node", "--eval", "try { var v = (function(){%s\n return (%s);})(); process.stdout.write("
                        "JSON.stringify([v === undefined ? null : v])) } catch (e) { process.stdout.write('error') }" % (HEAD, code)],
                       capture_output=True, text=True, timeout=60)
    return p.stdout if p.returncode == 0 and p.stdout else "error"


def as_code(piece):
    return "(function()" + piece + ")()" if piece[0] == "{" else piece


def node_text(parts):
    out = []
    for kind, text in parts:
        if kind == "lit":
            out.append(json.dumps(text))
        else:
            out.append("(function(){var v = %s; return typeof v === 'string' ? v : JSON.stringify(v)})()" % as_code(text))
    return " + ".join(['""'] + out)


def settle(ctx, ok, label, got, by_node):
    """The reader's verdict; on a concrete replay node decides what it rejects."""
    if ctx.symbolic:
        ctx.check(ok, label, got)
    elif not ok:
        ctx.check(by_node(), label, got)


def attempt(fn, *a):
    try:
        return fn(*a)
    except Unknown:
        return None


# ------------------------------------------------------------------ detection
def judge(ctx, version, text):
    mod = MODS[version][0]
    kind, got = ctx.call(mod.get_expression, text, INPUTS, None)
    s = text.strip()
    try:
        parts = split(s, version != "v1.2")
    except Bad:
        ctx.reach("refused")
        ctx.check(kind == "exc" and isinstance(got, REFUSED), "an unfinished expression must be refused", got)
        return
    needs = False
    for k, t in parts:
        if k == "code":
            w = True
            for known in KNOWN:
                if len(known) == len(t) + 1 and t == known[1:]:
                    w = KNOWN[known]
                    break
            if w:
                needs = True
            elif w is None and needs is False:
                needs = None
    ctx.check(kind == "ok", "text of well-formed parts must be accepted", got)
    if needs is False:
        ctx.reach("plain")
        ctx.check(got is None, "text without JavaScript must not be reported", got)
        return
    if got is None:
        ctx.check(needs is None, "an expression was overlooked")
        return
    if len(parts) == 1:
        ctx.reach("single")
        piece = parts[0][1]
        body = attempt(read_body, got)
        ok = body is not None and same_body(ctx, body, piece)
        settle(ctx, ok, "the code must compute the value of the expression", got,
               lambda: body is not None and node("(function(){" + body + "})()") == node(as_code(piece)))
        return
    ctx.reach("interpolated")
    found = attempt(read_concat, got)
    ok = found is not None and len(found) == len(parts) and ctx.all(
        [k == kk and len(t) == len(tt) and ctx.eq(t, tt) for (k, t), (kk, tt) in zip(found, parts)])
    settle(ctx, ok, "the code must compute the interpolated text", got,
           lambda: attempt(read_body, got) is not None
           and node("(function(){" + read_body(got) + "})()") == node(node_text(parts)))


def h_text(ctx):
    version, n = ctx.config
    judge(ctx, version, ctx.str("s", n, TEXT, length=n))


def h_around(ctx):
    version, n, first, few = ctx.config
    text = ctx.str("a", n, TEXT) + PIECES[first][0] + ctx.str("b", n, TEXT)
    second = ctx.one("second", FEW if few else [None, *range(len(PIECES))])
    if second is not None:
        text = text + PIECES[second][0] + ctx.str("c", n, TEXT)
    judge(ctx, version, text)


def h_runtime(ctx):
    version, = ctx.config
    name = ctx.one("name", ["cores", "ram", "outdir", "tmpdir", "outdirSize", "tmpdirSize"])
    text = ctx.str("a", 1, TEXT) + "$(runtime." + name + ")" + ctx.str("b", 1, TEXT)
    judge(ctx, version, text)


# ------------------------------------------------------- the tools put in place
BODY = ((0, 127),)


def field(ctx, name, value):
    return ctx.lazy(name, [lambda: value, lambda: None])


OPTIONAL = ["label", "doc", "format", "streamable", "secondaryFiles"]


def optional(ctx, n):
    """The descriptive fields: all, none, or all but one."""
    k = {"label": "L " + n, "doc": "D " + n, "format": "file:///f#" + n, "streamable": True, "secondaryFiles": ["." + n]}
    drop = ctx.one(n + ".without", [(), tuple(OPTIONAL)] + [(f,) for f in OPTIONAL])
    return {f: v for f, v in k.items() if f not in drop}


def parameter(ctx, cwl, cls, n, version):
    """An input parameter with solver-chosen fields."""
    k = optional(ctx, n)
    k.update(id="file:///d/w.cwl#" + n, type_=ctx.one(n + ".type", ["File", "string"]), loadingOptions=LoadingOptions())
    k["default"] = ctx.lazy(n + ".def", [lambda: "d", lambda: None, lambda: ""])
    mode = ctx.pick(n + ".load", 3)
    if version == "v1.0":
        k["inputBinding"] = (None, cwl.CommandLineBinding(loadContents=True), cwl.CommandLineBinding(position=3))[mode]
    else:
        k["loadContents"] = (None, True, None)[mode]
        k["inputBinding"] = (None, None, cwl.CommandLineBinding(loadContents=True))[mode]
        k["loadListing"] = field(ctx, n + ".list", "deep_listing")
    return cls(**k)


COPIED = ["label", "doc", "format", "streamable", "secondaryFiles", "type_"]


def contents(p):
    b = getattr(p, "inputBinding", None)
    if b is not None and b.loadContents:
        return True
    return bool(getattr(p, "loadContents", None))


def same_parameter(ctx, got, want, loads, default=False):
    out = [ctx.eq(getattr(got, f), getattr(want, f)) for f in COPIED]
    if default:
        out.append(ctx.eq(getattr(got, "default"), getattr(want, "default")))
    if loads:
        out.append(contents(got) == contents(want))
        out.append(ctx.eq(getattr(got, "loadListing", None), getattr(want, "loadListing", None)))
    return ctx.all(out)


def last(ident):
    return ident.split("#")[-1].split("/")[-1]


def requirement(ctx, cwl, n):
    """None, or a JavaScript requirement with or without a library -> (requirements, library)."""
    what = ctx.pick(n, 4)
    if what == 0:
        return None, False
    if what == 1:
        return [cwl.ResourceRequirement(coresMin=1)], False
    lib = None if what == 2 else ["var " + n + " = 1;"]
    return [cwl.ResourceRequirement(coresMin=1), cwl.InlineJavascriptRequirement(lib)], lib


def nearest(libs):
    """Of the farthest to the nearest level."""
    for lib in reversed(libs):
        if lib is not False:
            return lib
    return None


def libs_of(reqs):
    """What the last JavaScript requirement says."""
    for r in reversed(reqs or []):
        if type(r).__name__ == "InlineJavascriptRequirement":
            return r.expressionLib
    return False


VALID = ["$([typeof self == 'undefined' || self, inputs.x])", "${return [typeof self == 'undefined' || self, inputs.x, {'a': ')'}]; // end\n}",
         "${ if (inputs.x) { return {result: '}'} } }"]


def expr_text(ctx, n):
    """-> (the expression, the piece after its $)"""
    form = ctx.pick("form", 7)
    if form > 3:  # valid JavaScript, on which node can always decide
        text = VALID[form - 4]
        return text, text[1:]
    body = ctx.str("body", n, BODY)
    if form == 0:
        return "${" + body + "}", "{" + body + "}"
    if form == 1:
        return "\n ${" + body + "return 1}\n", "{" + body + "return 1}"
    if form == 2:
        return "$(" + body + "1)", "(" + body + "1)"
    return " $(1" + body + ")\n", "(1" + body + ")"


def read_tool(ctx, code, piece, self_name):
    """Does the code of the expression tool give the value of the expression as its result?"""
    r = Reader(code.strip())
    r.want("${")
    if self_name is not None:
        r.want("var self = inputs")
        if r.at("["):
            r.space()
            ok = ctx.eq(r.string(), self_name)
            r.want("]")
        else:
            r.want(".")
            i = r.i
            while r.t[r.i:r.i + 1] != ";":
                r.i += 1
                if r.i > len(r.t):
                    raise Unknown("self")
            name = r.t[i:r.i]
            ok = ctx.eq(name, self_name) if all(c.isalnum() or c == "_" for c in name) else False
        r.want(";")
    else:
        ok = True
    r.want('return { "result" : function ( ) {')
    end = "}()};\n }"
    # what follows the body: white space aside, always the same signs
    i = len(r.t)
    for c in reversed("}();}}".replace(";}}", "};}")):
        while r.t[i - 1:i].isspace():
            i -= 1
        if r.t[i - 1:i] != c:
            raise Unknown("end")
        i -= 1
    if i < r.i:
        raise Unknown("end")
    return ctx.all([ok, same_body(ctx, r.t[r.i:i], piece)])


def node_tool(code, self_name):
    return node("(function(){inputs = Object.assign({self: 5}, inputs, %s); return (function()%s)().result})()" % (
        json.dumps({self_name: 5} if self_name else {}), code.strip()[1:]))


def check_tool(ctx, tool, piece, self_name):
    code = tool.expression
    ok = attempt(read_tool, ctx, code, piece, self_name) or False
    settle(ctx, ok, "the code of the tool must give the value of the expression", code,
           lambda: node_tool(code, self_name) == node(
               "(function(){%s return %s})()" % ("var self = 5;" if self_name is not None else "", as_code(piece))))


def h_standalone(ctx):
    """The tool for an expression of the workflow itself."""
    version, n = ctx.config
    mod, cwl = MODS[version]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    text, piece = expr_text(ctx, n)
    target = cls(id="file:///d/w.cwl#t", type_="string", **optional(ctx, "t"))
    no_inputs = ctx.pick("alone", 2) == 1
    others = ctx.pick("other", 3)
    other = cls(id="file:///d/w.cwl#u", type_="File", format="g") if others else None
    if others == 2:
        other = [other, cls(id="file:///d/w.cwl#v", type_="string", label="V")]
    kind, tool = ctx.call(mod.generate_etool_from_expr, text, target, no_inputs, other)
    ctx.check(kind == "ok", "the expression must become a tool", tool)
    check_tool(ctx, tool, piece, None if no_inputs else "self")
    ctx.check(len(tool.outputs) == 1 and last(tool.outputs[0].id) == "result", "the tool has the one output result")
    ctx.check(same_parameter(ctx, tool.outputs[0], target, False), "the output is described as what it replaces")
    ctx.check([last(i.id) for i in tool.inputs] == ([] if no_inputs else ["self"]), "the input is self, if there is one")
    if not no_inputs:
        ctx.reach("self")
        want = other or target
        if others == 2:
            want = cls(id="self", type_=[x.type_ for x in other])
        ctx.check(same_parameter(ctx, tool.inputs[0], want, False), "the input is described as its source")
    ctx.check(libs_of(tool.requirements) is not False, "the tool may use JavaScript")
    ctx.check(tool.cwlVersion == version, "the tool is of the version of the document")


def type_of(ctx, cwl, n, depth=2):
    """A type of an input, with the names that loading gives to records."""
    array = getattr(cwl, "InputArraySchema", None)
    shape = ctx.pick(n, 5 if depth else 2)
    if shape == 0:
        return ctx.one(n + ".plain", ["string", "File", "Any"])
    if shape == 1:
        return ["null", "int"]
    if shape == 2:
        return array(items=type_of(ctx, cwl, n + "i", 0 if depth > 1 else None) if ctx.pick(n + ".nest", 2) else "File", type_="array")
    record = cwl.InputRecordSchema(type_="record", name=ctx.one(n + ".name", ["file:///d/w.cwl#t/rec", None]), fields=ctx.lazy(n + ".fields", [
        lambda: [cwl.InputRecordField(name="file:///d/w.cwl#t/rec/" + f, type_=t) for f, t in (("f", "int"), ("g", "File"))], lambda: None]))
    return record if shape == 3 else array(items=record, type_="array")


def same_type(ctx, got, want):
    """Names may lose their address."""
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and ctx.all([same_type(ctx, g, w) for g, w in zip(got, want)])
    if isinstance(want, str) or want is None:
        return ctx.eq(got, want)
    if type(got) is not type(want):
        return False
    if hasattr(want, "items"):
        return same_type(ctx, got.items, want.items)
    if (got.name is None) != (want.name is None) or want.name is not None and last(got.name) != last(want.name):
        return False
    if not want.fields:
        return not got.fields
    return len(got.fields) == len(want.fields) and ctx.all(
        [ctx.all([last(g.name) == last(w.name), same_type(ctx, g.type_, w.type_)]) for g, w in zip(got.fields, want.fields)])


def h_types(ctx):
    """The type of self is that of its source, which stays as it is."""
    version, = ctx.config
    mod, cwl = MODS[version]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    target = cls(id="file:///d/w.cwl#t", type_=type_of(ctx, cwl, "type"))
    other = cls(id="file:///d/w.cwl#u", type_=type_of(ctx, cwl, "other", 0)) if ctx.pick("which", 2) else None
    before = copy.deepcopy((target, other))
    kind, tool = ctx.call(mod.generate_etool_from_expr, "$(self)", target, False, other)
    ctx.check(kind == "ok", "the expression must become a tool", tool)
    ctx.check(same_type(ctx, tool.inputs[0].type_, before[1].type_ if other else before[0].type_), "the type of self is that of its source", tool.inputs)
    ctx.check(same_type(ctx, tool.outputs[0].type_, before[0].type_), "the type of the result is that of what it replaces", tool.outputs)
    ctx.check(ctx.eq(target, before[0]) and (other is None or ctx.eq(other, before[1])), "the document's own types stay as they are", target)
    ctx.reach("types")


def h_levels(ctx):
    """The library of the tool is the nearest one."""
    version, which = ctx.config
    mod, cwl = MODS[version]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    reqs, libs = {}, {}
    for level in ("workflow", "step", "tool"):
        reqs[level], libs[level] = requirement(ctx, cwl, level)
    tool = cwl.CommandLineTool(inputs=[], outputs=[], id="file:///d/w.cwl#s/run", requirements=reqs["tool"], cwlVersion=version)
    step = cwl.WorkflowStep(id="file:///d/w.cwl#s", in_=[], out=[], run=tool, requirements=reqs["step"])
    wf = cwl.Workflow(inputs=[], outputs=[], steps=[step], id="file:///d/w.cwl", requirements=reqs["workflow"], cwlVersion=version)
    target = cls(id="file:///d/w.cwl#t", type_="string")
    as_tool = ctx.pick("cltool", 2) == 1
    if which == "workflow":
        extra = ctx.pick("extra", 2) == 1
        kind, r = ctx.call(mod.replace_expr_with_etool, "${return 1;}", "new", wf, target, None, as_tool, step if extra else None)
        want = [libs["workflow"]] + ([libs["step"]] if extra else [])
    elif which == "tool":
        kind, r = ctx.call(mod.replace_step_clt_expr_with_etool, "${return 1;}", "new", wf, target, step, as_tool)
        want = [libs["workflow"], libs["step"], libs["tool"]]
    elif which == "requirement":
        kind, r = ctx.call(mod.replace_clt_hintreq_expr_with_etool, "${return 1;}", "new", wf, target, step, as_tool)
        want = [libs["workflow"], libs["step"], libs["tool"]]
    else:
        step.in_ = [cwl.WorkflowStepInput(id="file:///d/w.cwl#s/a", valueFrom="${return 1;}")]
        kind, r = ctx.call(mod.replace_step_valueFrom_expr_with_etool, "${return 1;}", "new", wf, target, step, step.in_[0], tool,
                           step.in_, None, as_tool)
        want = [libs["workflow"], libs["step"]]
        ctx.assume(libs["workflow"] is not False or libs["step"] is not False)  # else it is no expression
    ctx.check(kind == "ok", "the expression must become a step", r)
    new = [s for s in wf.steps if s is not step]
    ctx.check(len(new) == 1, "there is one new step")
    run = new[0].run
    want = nearest(want)
    ctx.reach("library" if want else "none")
    if as_tool:
        script = run.requirements[0].listing[0].entry
        for level in ("workflow", "step", "tool"):
            line = "var " + level + " = 1;"
            ctx.check((line in script) == (want is not None and want == [line]), "the script has the nearest library")
    else:
        ctx.check(ctx.eq(libs_of(run.requirements) or None, want), "the tool has the nearest library")


def h_inputs(ctx):
    """The inputs of the tool for an expression of a command line tool."""
    version, = ctx.config
    mod, cwl = MODS[version]
    inp = parameter(ctx, cwl, cwl.CommandInputParameter, "i", version)
    tool = cwl.CommandLineTool(inputs=[inp, cwl.CommandInputParameter(id="file:///d/w.cwl#_extra", type_="int")], outputs=[],
                               id="file:///d/w.cwl")
    kind, got = ctx.call(mod.cltool_inputs_to_etool_inputs, tool)
    ctx.check(kind == "ok", "the inputs must be copied", got)
    ctx.check([last(i.id) for i in got] == ["i"], "the inputs of the tool, without those added by the refactoring")
    ctx.check(same_parameter(ctx, got[0], inp, True, True), "the code must see the same inputs")
    ctx.reach("copied")


def h_script(ctx):
    """An expression tool as a command line tool."""
    version, n = ctx.config
    mod, cwl = MODS[version]
    text, piece = expr_text(ctx, n)
    lib = ctx.lazy("lib", [lambda: None, lambda: ["var q;", "/* " + ctx.str("q", 2, BODY) + " */"]])
    given = ctx.pick("given", 2) == 1
    tool = cwl.ExpressionTool(
        inputs=[], outputs=[cwl.ExpressionToolOutputParameter(id="file:///d/w.cwl#o", type_="string", label="O")],
        id="file:///d/w.cwl", expression=text, cwlVersion=version,
        requirements=[cwl.InlineJavascriptRequirement(None if given else lib)])
    kind, got = ctx.call(mod.etool_to_cltool, tool, *([lib] if given else []))
    ctx.check(kind == "ok", "the tool must be converted", got)
    files = [r for r in got.requirements if type(r).__name__ == "InitialWorkDirRequirement"]
    ctx.check(len(files) == 1 and len(files[0].listing) == 1, "the script is the one file of the tool")
    entry = files[0].listing[0]
    ctx.check(not isinstance(got.baseCommand, str) and got.baseCommand[-1] == entry.entryname, "the command runs the script")
    ctx.check(got.stdout == "cwl.output.json", "the output object is what the script writes")
    ctx.check(libs_of(got.requirements) is False, "the new tool needs no JavaScript of CWL")
    kind, script = ctx.call(expression.interpolate, entry.entry, {"inputs": {"x": 1}, "self": None, "runtime": {"cores": 2}}, "", False,
                            False, 2 if version == "v1.2" else 1)
    ctx.check(kind == "ok", "the script must need no JavaScript to be written", script)
    ok = attempt(read_script, ctx, script, piece, lib) or False
    settle(ctx, ok, "the script must write the value of the expression", script, lambda: run_script(script, piece, lib))
    ctx.reach("script")


def h_ports(ctx):
    """The parameters of an expression tool that becomes a command line tool."""
    version, = ctx.config
    mod, cwl = MODS[version]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    inp = parameter(ctx, cwl, cls, "i", version)
    out = cwl.ExpressionToolOutputParameter(id="file:///d/w.cwl#o", type_=ctx.one("o.type", ["string", "File"]), **optional(ctx, "o"))
    tool = cwl.ExpressionTool(inputs=[inp], outputs=[out], id="file:///d/w.cwl", expression="${return {};}", cwlVersion=version,
                              label=field(ctx, "label", "T"), doc=field(ctx, "doc", "D"))
    kind, got = ctx.call(mod.etool_to_cltool, tool)
    ctx.check(kind == "ok", "the tool must be converted", got)
    ctx.check([last(i.id) for i in got.inputs] == ["i"] and [last(o.id) for o in got.outputs] == ["o"], "the parameters keep their names")
    ctx.check(same_parameter(ctx, got.inputs[0], inp, True, True), "the code must see the same inputs")
    ctx.check(same_parameter(ctx, got.outputs[0], out, False), "the outputs are described as before")
    ctx.check(ctx.eq(got.label, tool.label) and ctx.eq(got.doc, tool.doc) and got.id == tool.id and got.cwlVersion == version,
              "the tool is described as before")
    ctx.reach("ports")


def h_convert(ctx):
    """A whole document that is an expression tool."""
    version, n = ctx.config
    mod, cwl = MODS[version]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    text, piece = expr_text(ctx, n)
    try:
        parts = split(text.strip(), version != "v1.2")
    except Bad:
        return
    if len(parts) != 1 or parts[0][0] != "code":
        return
    lib = ctx.one("lib", [None, ["var q;"]])
    tool = cwl.ExpressionTool(
        inputs=[cls(id="file:///d/w.cwl#x", type_="int")], outputs=[cwl.ExpressionToolOutputParameter(id="file:///d/w.cwl#o", type_="string")],
        id="file:///d/w.cwl", expression=text, cwlVersion=version, requirements=[cwl.InlineJavascriptRequirement(lib)])
    inside = ctx.pick("inside", 3)
    if inside == 2:
        step = cwl.WorkflowStep(id="file:///d/w.cwl#s", in_=[cwl.WorkflowStepInput(id="file:///d/w.cwl#s/x", default=1)], out=["file:///d/w.cwl#s/o"], run=tool)
        tool.requirements = None
        doc = cwl.Workflow(inputs=[], outputs=[], steps=[step], id="file:///d/w.cwl", cwlVersion=version,
                           requirements=[cwl.InlineJavascriptRequirement(lib)])
        kind, got = ctx.call(mod.traverse, doc, True, False, False, False)
        ctx.check(kind == "ok" and got[1] is True, "the tool must be converted", got)
        got = got[0].steps[0].run
    else:
        kind, got = ctx.call(mod.traverse, tool, True, inside == 1, False, False)
        ctx.check(kind == "ok" and got[1] is True, "the tool must be converted", got)
        got = got[0]
    entry = [r for r in got.requirements if type(r).__name__ == "InitialWorkDirRequirement"][0].listing[0]
    kind, script = ctx.call(expression.interpolate, entry.entry, {"inputs": {"x": 1}, "self": None, "runtime": {"cores": 2}}, "", False,
                            False, 2 if version == "v1.2" else 1)
    ctx.check(kind == "ok", "the script must need no JavaScript to be written", script)
    ok = attempt(read_script, ctx, script, piece, lib) or False
    settle(ctx, ok, "the script must write the value of the expression", script, lambda: run_script(script, piece, lib))
    ctx.reach("workflow" if inside == 2 else "tool")


def read_script(ctx, script, piece, lib):
    r = Reader(script)
    r.want('"use strict" ; var inputs =')
    r.space()
    ok = [ctx.eq(json.loads(r.block()), {"x": 1})]
    r.want("; var runtime =")
    r.space()
    ok.append(ctx.eq(json.loads(r.block()), {"cores": 2}))
    r.want(";")
    r.space()
    for line in lib or []:
        ok.append(ctx.eq(r.t[r.i:r.i + len(line)], line))
        r.i += len(line)
        r.space()
    r.want("var ret = function ( ) {")
    tail = "}();\nprocess.stdout.write(JSON.stringify(ret));"
    if r.t[len(r.t) - len(tail):] != tail:
        raise Unknown("tail")
    ok.append(same_body(ctx, r.t[r.i:len(r.t) - len(tail)], piece))
    return ctx.all(ok)


def run_script(script, piece, lib):
    want = node_value("\n".join(lib or []), as_code(piece))
    p = subprocess.run(["node", "--eval", script], capture_output=True, text=True, timeout=60)
    got = p.stdout if p.returncode == 0 else "error"
    return got == want


def node_value(lib, code):
    p = subprocess.run(["node", "--eval", '"use strict"; var inputs = {x: 1}, runtime = {cores: 2};\n' + lib +
                        "\nprocess.stdout.write(JSON.stringify((function(){return (" + code + ");})()))"],
                       capture_output=True, text=True, timeout=60)
    return p.stdout if p.returncode == 0 else "error"


def h_named(ctx):
    """The tool for an expression of a step or tool, with self under any name."""
    version, n, m = ctx.config
    cwl = MODS[version][1]
    cls = cwl.InputParameter if version == "v1.0" else cwl.WorkflowInputParameter
    text, piece = expr_text(ctx, n)
    name = "in" + ctx.str("n", m, ((33, 126),)) if ctx.pick("named", 2) else None
    target = cls(id="file:///d/w.cwl#t", type_="string", **optional(ctx, "t"))
    inputs = [cls(id="a", type_="int")]
    kind, tool = ctx.call(expression_refactor.generate_etool_from_expr2, text, version, target, inputs, name)
    ctx.check(kind == "ok", "the expression must become a tool", tool)
    check_tool(ctx, tool, piece, name)
    ctx.check(tool.inputs is inputs or ctx.eq([i.id for i in tool.inputs], ["a"]), "the tool has the inputs")
    ctx.check(len(tool.outputs) == 1 and last(tool.outputs[0].id) == "result", "the tool has the one output result")
    ctx.check(same_parameter(ctx, tool.outputs[0], target, False), "the output is described as what it replaces")
    ctx.reach("named" if name is not None else "unnamed")


# the second of two expressions
FEW = [None, 0, 1, 2]
SMALL = lambda tier: 3 if tier == "quick" else 4  # noqa: E731
HARNESSES = [
    {"name": "text", "fn": h_text, "reach": ("refused", "plain", "single"),
     "configs": lambda tier: [(v, n) for n in range(4 if tier == "quick" else 5, -1, -1) for v in MODS]},
    {"name": "around", "fn": h_around, "reach": ("refused", "plain", "single", "interpolated"),
     "configs": lambda tier: [(v, 1, p, tier == "quick") for v in MODS for p in range(len(PIECES))]},
    {"name": "runtime", "fn": h_runtime, "reach": ("plain",), "configs": lambda tier: [(v,) for v in MODS]},
    {"name": "standalone", "fn": h_standalone, "reach": ("self",), "configs": lambda tier: [(v, SMALL(tier)) for v in MODS]},
    {"name": "types", "fn": h_types, "reach": ("types",), "configs": lambda tier: [(v,) for v in MODS]},
    {"name": "named", "fn": h_named, "reach": ("named", "unnamed"),
     "configs": lambda tier: [(v, n, m) for v in MODS for n, m in ((0, 2), (SMALL(tier), 0))]},
    {"name": "ports", "fn": h_ports, "reach": ("ports",), "configs": lambda tier: [(v,) for v in MODS]},
    {"name": "convert", "fn": h_convert, "reach": ("tool", "workflow"), "configs": lambda tier: [(v, SMALL(tier) - 1) for v in MODS]},
    {"name": "script", "fn": h_script, "reach": ("script",), "configs": lambda tier: [(v, SMALL(tier) - 1) for v in MODS]},
    {"name": "inputs", "fn": h_inputs, "reach": ("copied",), "configs": lambda tier: [(v,) for v in MODS]},
    {"name": "levels", "fn": h_levels, "reach": ("library", "none"),
     "configs": lambda tier: [(v, w) for v in MODS for w in ("workflow", "tool", "requirement", "step")]},
]
