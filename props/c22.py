"""C22: what a refactored workflow computes.  Workflows with expressions in the places
where CWL allows them are built from solver-chosen parts (names are symbolic text); the
real traversal rewrites them, and an abstract reader of CWL follows every value through
the workflow before and after: the calls of the tools, with what they are given in each
place, and the outputs must be the same."""

import copy
import logging
import urllib.parse

from cwl_utils import (
    cwl_v1_0_expression_refactor,
    cwl_v1_1_expression_refactor,
    cwl_v1_2_expression_refactor,
    expression_refactor,
)
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2, cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils
from cwl_utils.parser import utils as parser_utils
from schema_salad.metaschema import ArraySchema
from schema_salad.runtime import LoadingOptions
from schema_salad.sourceline import cmap

from .c21 import Reader, Unknown, as_code, attempt, node, node_text, read_concat, read_tool, split
from .model import OPTS

logging.getLogger("cwl_utils").setLevel(100)
MODS = {
    "v1.0": (cwl_v1_0_expression_refactor, cwl_v1_0),
    "v1.1": (cwl_v1_1_expression_refactor, cwl_v1_1),
    "v1.2": (cwl_v1_2_expression_refactor, cwl_v1_2),
}
DOC = "file:///d/w.cwl#"
ASSUMPTIONS = [
    "equal JavaScript on equal inputs computes equal values; the code of an expression is recognised by a tag in it (C21 judges that the generated code computes what the expression does)",
    "CWL's order within a step: sources are linked (linkMerge, then pickValue), then defaults, then valueFrom, then when",
    "names of inputs do not begin with an underscore (the refactoring keeps those to itself)",
]


def BOUNDS(tier):
    return {
        "versions": "v1.0, v1.1, v1.2",
        "workflows": "one or two steps running command line tools or expression tools, two inputs per tool (one name is symbolic text of 1 to 2 characters), two outputs per tool",
        "places": ", ".join(PLACES),
        "pairs of places": len(pairs(tier)) // 3,
        "place with a feature of the step": len(mixes(tier)),
        "expression forms": "$(...) code, ${...} body, text around $(...); a reference without JavaScript where it matters",
        "written documents": "loaded, refactored, saved and loaded again from another address",
    }


OUTSIDE = ("scattered steps; expressions in requirements and hints of the workflow itself; sub-workflows and $graph documents (not traversed); "
           "the JavaScript in stdin (stays) and of the constants for pickValue; names that begin with an underscore; three or more steps")


def short(ident):
    return ident.split("#")[-1]


def last(ident):
    return ident.split("#")[-1].split("/")[-1]


class Broken(Exception):
    """The document means nothing."""


# --------------------------------------------------------------- a reader of CWL
NULL = ("null",)


def get(env, name):
    for n, v in env:
        if n == name:
            return v
    return None


def is_null(v):
    return v is NULL or v == NULL


def defaulted(v, default):
    """The value, or the default where it is null."""
    if is_null(v):
        return ("val", default)
    return v if v[0] in ("or", "val") else ("or", v, default)


ALWAYS = ("val", None)


def conjunction(a, b):
    return b if a is ALWAYS else a if b is ALWAYS else ("and", a, b)


def loaded(v):
    return v if v[0] == "contents" else ("contents", v)


class Reading:
    """The values of a workflow, as terms."""

    def __init__(self, ctx, texts):
        self.ctx = ctx
        self.texts = texts
        self.calls = []
        self.when = ALWAYS
        self.replaced = False

    # expressions
    def tag(self, text):
        found = [t for t in self.texts if t in text]
        return found[0] if found else None

    def ev(self, text, env, own, libs):
        if not isinstance(text, str):
            if isinstance(text, (list, tuple)) and not isinstance(text, tuple):
                return ("list", [self.ev(t, env, own, libs) for t in text])
            if text is None or isinstance(text, (int, float, bool)):
                return ("val", text)
            raise Broken("a value of type %s" % type(text).__name__)
        if "$(" not in text and "${" not in text:
            return ("val", text)
        t = self.tag(text)
        if t is not None:
            if all(x is None for x in libs):
                raise Broken("JavaScript without a requirement for it")
            return ("js", t, env, own, nearest(libs))
        return self.reference(text, env, own)

    def reference(self, text, env, own):
        r = Reader(text)
        if not r.at("$("):
            raise Broken("text with a reference")
        inner = text[2:-1]
        if text[-1:] != ")":
            raise Broken("no reference: it does not end")
        if inner == "self":
            return own
        if inner == "self.basename":
            return ("basename", own)
        if inner[-5:] == ".path":
            return ("path", self.reference("$(" + inner[:-5] + ")", env, own))
        if inner[:7] == "inputs.":
            name = inner[7:]
        elif inner[:8] in ('inputs["', "inputs['") and inner[-2:] in ('"]', "']"):
            name = inner[8:-2]
        else:
            raise Broken("no known reference")
        v = get(env, name)
        if v is None:
            raise Broken("reference to no input")
        return v

    # workflows
    def workflow(self, wf, env, libs):
        """-> the outputs"""
        libs = libs + [lib_of(wf)]
        shortcuts(wf)
        done = {}
        prefix = wf.id.split("#", 1)[1] + "/" if wf.id and "#" in wf.id and wf.id[:2] != "_:" else ""

        def short(uri):
            frag = uri.split("#")[-1]
            return frag[len(prefix):] if frag.startswith(prefix) else frag

        names = [short(s.id) for s in wf.steps]
        for i, n in enumerate(names):
            if n in names[:i]:
                raise Broken("two steps of one name")

        def source(ref, seen=[]):
            r = short(ref)
            if "/" not in r:
                v = get(env, r)
                if v is None:
                    raise Broken("a source is no input")
                return v
            s, o = r.split("/", 1)
            for k, step in enumerate(wf.steps):
                if names[k] == s:
                    if k in seen:
                        raise Broken("a cycle")
                    if k not in done:
                        done[k] = self.step(step, lambda x: source(x, seen + [k]), libs)
                    if o not in [last(x if isinstance(x, str) else x.id) for x in step.out]:
                        raise Broken("a source is no output of its step")
                    v = get(done[k], o)
                    if v is None:
                        raise Broken("a source is no output of its process")
                    return v
            raise Broken("a source is no step")

        outs = []
        for o in wf.outputs:
            v = self.merged(o.outputSource, o, source)
            outs.append((last(o.id), v))
        for k, step in enumerate(wf.steps):
            if k not in done:
                done[k] = self.step(step, lambda x: source(x, [k]), libs)
        return outs

    def merged(self, refs, port, source):
        if refs is None:
            return NULL
        merge = getattr(port, "linkMerge", None)
        pick = getattr(port, "pickValue", None)
        if isinstance(refs, str):
            v = source(refs)
            v = ("list", [v]) if merge == "merge_nested" else ("flat", [v]) if merge == "merge_flattened" else v
            return ("pick", pick, v) if pick else v
        vs = [source(x) for x in refs]
        v = ("flat" if merge == "merge_flattened" else "list", vs)
        if len(refs) == 1 and merge is None:
            v = vs[0]
        return ("pick", pick, v) if pick else v

    def step(self, step, source, libs):
        libs = libs + [lib_of(step)]
        raw = []
        for i in step.in_:
            v = self.merged(i.source, i, source)
            if i.default is not None:
                v = defaulted(v, i.default)
            if get(raw, last(i.id)) is not None:
                raise Broken("two inputs of one name")
            raw.append((last(i.id), v))
        env = []
        for i, (n, v) in zip(step.in_, raw):
            env.append((n, self.ev(i.valueFrom, raw, v, libs) if i.valueFrom is not None else v))
        when = getattr(step, "when", None)
        when = ALWAYS if when is None else self.ev(when, env, NULL, libs)
        return self.process(step.run, env, when, libs)

    # processes
    def process(self, run, env, when, libs):
        inner = []
        for p in run.inputs:
            n = last(p.id)
            if get(inner, n) is not None:
                raise Broken("a process has two inputs of one name")
            if hasattr(p, "outputBinding"):
                raise Broken("an input is an output")
            v = get(env, n)
            v = NULL if v is None else v
            if p.default is not None:
                v = defaulted(v, p.default)
            if contents(p):
                v = loaded(v)
            inner.append((n, v))
        libs = libs + [lib_of(run)]
        kind = type(run).__name__
        if kind != "CommandLineTool":
            shortcuts(run)
        if kind == "Workflow":
            outer, self.when = self.when, conjunction(self.when, when)
            outs = self.workflow(run, inner, libs[:-1])
            self.when = outer
            return outs
        if kind == "ExpressionTool":
            t = self.tag(run.expression)
            if t is None:
                raise Unknown("expression tool")
            if all(x is None for x in libs):
                raise Broken("JavaScript without a requirement for it")
            if '"result"' not in run.expression:
                return [(last(o.id), ("js", t, inner, NULL, nearest(libs))) for o in run.outputs]
            return [(last(o.id), self.code(run.expression, inner, libs)) for o in run.outputs]
        return self.tool(run, inner, when, libs)

    def code(self, text, env, libs):
        """The result of a tool that stands for an expression."""
        own, name = NULL, None
        r = Reader(text.strip())
        if r.at("${") and r.at("var self = inputs"):
            r.space()
            if r.at("["):
                r.space()
                name = r.string()
            else:
                name = "self"
                if not r.at(".self;"):
                    raise Unknown("self")
            own = get(env, name)
            if own is None:
                raise Broken("self is no input of the tool")
        elif "self=" in text or "self =" in text:
            raise Unknown("self")
        t = self.tag(text)
        if t is None:
            raise Unknown("code")
        if not attempt(self.whole, text, t, name):
            if self.ctx.symbolic or not self.by_node(text, t, name):
                raise Differ("the code computes something else than " + t)
        return ("js", t, env, own, nearest(libs))

    def whole(self, text, t, name):
        """Is it the whole expression?"""
        parts = split(self.texts[t].strip(), True)
        if len(parts) == 1:
            return read_tool(self.ctx, text, parts[0][1], name)
        i = text.find("function(){")
        j = text.rfind("}()}")
        if i < 0 or j < 0:
            raise Unknown("shape")
        return read_concat("${" + text[i + len("function(){"):j] + "}") == parts

    def by_node(self, text, t, name):
        parts = split(self.texts[t].strip(), True)
        want = as_code(parts[0][1]) if len(parts) == 1 else node_text(parts)
        return node("(function()" + text.strip()[1:] + ")().result") == node(want)

    def tool(self, run, env, when, libs):
        reqs = {}
        for r in run.requirements or []:
            reqs[type(r).__name__] = r
        script = reqs.get("InitialWorkDirRequirement")
        if run.baseCommand == ["nodejs", "expression.js"]:
            text = script.listing[0].entry
            t = self.tag(text)
            own = NULL
            if t is None:
                raise Unknown("script")
            head, tail = "var ret = function(){", "}();\nprocess.stdout.write"
            i, j = text.find(head), text.rfind(tail)
            if i < 0 or j < 0:
                raise Unknown("script")
            libs = [[x for x in LIBS if x in text[:i]]]
            text = "${" + text[i + len(head):j] + "}"
            if '"result"' not in text:
                return [(last(o.id), ("js", t, env, own, nearest(libs))) for o in run.outputs]
            return [(last(o.id), self.code(text, env, libs)) for o in run.outputs]

        def e(x, own=NULL, may=False):
            if self.replaced and isinstance(x, str) and self.tag(x) and not may:
                raise Differ("an expression remains")
            return self.ev(x, env, own, libs)

        call = [("label", run.label), ("when", conjunction(self.when, when)), ("given", env), ("command", run.baseCommand)]
        args = []
        for a in run.arguments or []:
            if isinstance(a, str):
                args.append((None, None, e(a)))
            else:
                args.append((a.position, a.prefix, e(a.valueFrom)))
        call.append(("arguments", args))
        bound = []
        for p in run.inputs:
            b = p.inputBinding
            if b is not None:
                own = get(env, last(p.id))
                bound.append((last(p.id), b.position, b.prefix, own if b.valueFrom is None else e(b.valueFrom, own)))
        call.append(("inputs", bound))
        streams = {s: e(getattr(run, s), NULL, s == "stdin") for s in ("stdin", "stdout", "stderr")}
        for s in streams:
            if [o for o in run.outputs if o.type_ == s] and getattr(run, s) is None or invented(getattr(run, s)):
                streams[s] = ("any name", s)
            if s == "stdin" and run.stdin is None:
                streams[s] = ([("path", get(env, last(p.id))) for p in run.inputs if p.type_ == "stdin"] or [streams[s]])[0]
            call.append((s, streams[s]))
        r = reqs.get("EnvVarRequirement")
        call.append(("environment", [(d.envName, e(d.envValue)) for d in r.envDef] if r else []))
        r = reqs.get("ResourceRequirement")
        call.append(("resources", [(f, e(getattr(r, f, None))) for f in RESOURCES] if r else []))
        r = reqs.get("InitialWorkDirRequirement")
        call.append(("files", self.listing(r.listing, e) if r else NULL))
        self.calls.append(("call", call))
        outs = []
        for o in run.outputs:
            b = o.outputBinding
            glob = e(b.glob) if b else NULL
            for s in ("stdout", "stderr"):
                if o.type_ == s or b and b.glob == getattr(run, s) and invented(b.glob):
                    glob = streams[s]
            files = ("files", len(self.calls) - 1, call, glob)
            if b and b.loadContents:
                files = loaded(files)
            if b and b.outputEval is not None:
                v = e(b.outputEval, files)
            else:
                v = files if isinstance(o.type_, ArraySchema) else ("single", files)
            outs.append((last(o.id), v))
        return outs

    def listing(self, listing, e):
        if isinstance(listing, str):
            return e(listing)
        if isinstance(listing, tuple):
            raise Broken("a listing of type tuple")
        out = []
        for x in listing:
            if isinstance(x, str):
                out.append(("dirent", ("val", None), e(x), None))
            else:
                out.append(("dirent", e(x.entryname), e(x.entry), x.writable))
        return ("list", out)


def invented(name):
    """Is it a name that was made up for a stream?"""
    return isinstance(name, str) and len(name) == 40 and all(c in "0123456789abcdef" for c in name)


def shortcuts(run):
    for p in list(run.inputs) + list(run.outputs):
        if p.type_ in ("stdin", "stdout", "stderr"):
            raise Broken("the type %s outside of a command line tool" % p.type_)


RESOURCES = ("coresMin", "coresMax", "ramMin", "ramMax", "tmpdirMin", "tmpdirMax", "outdirMin", "outdirMax")


def contents(p):
    b = getattr(p, "inputBinding", None)
    if b is not None and b.loadContents:
        return True
    if getattr(b or p.type_, "loadContents", None) or getattr(getattr(p.type_, "inputBinding", None), "loadContents", None):
        return True
    return bool(getattr(p, "loadContents", None))


def lib_of(x):
    for r in reversed(x.requirements or []):
        if type(r).__name__ == "InlineJavascriptRequirement":
            return r.expressionLib or []
    return None


LIBS = ["// LIB0", "// LIB1", "// LIB2"]


def nearest(libs):
    """The library that expressions see."""
    found = [x for x in libs if x is not None]
    return found[-1] if found else []


# --------------------------------------------------------------- comparing terms
class Differ(Exception):
    pass


def same(a, b, where=""):
    """Does the value b after the refactoring stand for the value a before it?"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("pick",) and b[:1] == ("js",):
        if b[1] != PICKS[a[1]][1]:
            raise Differ("%s: another choice" % where)
        return same(a[2], b[3], where + ".sources")
    if isinstance(a, tuple) and a and a[0] == "js" and isinstance(b, tuple):
        if b[:1] != ("js",) or a[1] != b[1]:
            raise Differ("%s: not the expression %s but %s" % (where, a[1], b[:2]))
        within(a[2], b[2], where + "." + str(a[1]))
        if a[4] != b[4]:
            raise Differ("%s: %s with another library" % (where, a[1]))
        if not is_null(a[3]):
            same(a[3], b[3], where + ".self")
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("files",) and b[:1] == ("files",):
        a, b = (a[0],) + a[2:], (b[0],) + b[2:]
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("given",) and b[:1] == ("given",):
        return within(a[1], b[1], where + ".given")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Differ("%s: %d, not %d" % (where, len(b), len(a)))
        for i, (x, y) in enumerate(zip(a, b)):
            w = where
            if isinstance(a, tuple) and i == 1 and isinstance(a[0], str) and len(a) == 2:
                w = where + "/" + a[0]
            same(x, y, w)
        return
    if type(a) is not type(b) and not (isinstance(a, str) and isinstance(b, str)):
        raise Differ("%s: %r, not %r" % (where, b, a))
    if not a == b:
        raise Differ("%s: %r, not %r" % (where, b, a))


def within(a, b, where):
    """All inputs of a, and perhaps more, with their values."""
    for n, v in a:
        w = get(b, n)
        if w is None:
            raise Differ("%s: lacks an input" % where)
        same(v, w, where)


def compare(ctx, texts, before, after, inputs, replaced):
    """Both workflows on the same inputs."""
    env = [(n, ("wf", n)) for n in inputs]
    one, two = Reading(ctx, texts), Reading(ctx, texts)
    two.replaced = replaced
    outs = one.workflow(before, env, []) if hasattr(before, "steps") else one.process(before, env, ALWAYS, [])
    try:
        got = two.workflow(after, env, [])
        if len(one.calls) != len(two.calls):
            raise Differ("number of calls")
        for n, v in outs:
            w = get(got, n)
            if w is None:
                raise Differ("an output is missing")
            same(v, w, "output")
        rest = list(two.calls)
        for c in one.calls:
            for d in rest:
                if c[1][0] == d[1][0]:
                    same(c, d, "call")
                    rest.remove(d)
                    break
            else:
                raise Differ("a call is missing")
    except (Broken, Differ) as x:
        ctx.fail(str(x), after)
    except Unknown:
        ctx.reach("unknown")


TAGS = ["'T%02d'" % i for i in range(20)]


# ------------------------------------------------------------------- the documents
def js(ctx, tag, n, forms=3):
    """An expression with the tag k, in one of its forms."""
    form = ctx.pick(n + ".form", forms)
    if form == 0:
        return "$(inputs + " + tag + ")"
    if form == 1:
        return "${return inputs + " + tag + ";}"
    return "x$(inputs + " + tag + ")y"


NAME = ((97, 98),)


def inputs_class(cwl):
    return getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter


class Maker:
    def __init__(self, ctx, version, forms=3):
        self.ctx, self.version, self.forms = ctx, version, forms
        self.mod, self.cwl = MODS[version]
        self.plain = forms == 1
        self.n = [ctx.one("n0", ["b", "x"]) if self.plain else ctx.str("n0", 2, NAME, 1), "ab"]
        ctx.assume(self.n[0] != self.n[1])
        self.texts = {}

    def js(self, n):
        tag = TAGS[len(self.texts)]
        self.texts[tag] = js(self.ctx, tag, n, self.forms)
        return self.texts[tag]

    def tool(self, n, place):
        cwl, ctx = self.cwl, self.ctx
        bases = ["file:///d/%s.cwl#" % n, "_:" + n + "#", DOC + n + "/run/"]
        base = bases[0] if place == "none" else ctx.one(n + ".base", bases[::2]) if self.plain else ctx.one(n + ".base", bases)
        ins = [cwl.CommandInputParameter(id=base + x, type_=t, loadingOptions=OPTS) for x, t in zip(self.n, ("File", "string"))]
        out = cwl.CommandOutputParameter(id=base + "o", type_="File", outputBinding=cwl.CommandOutputBinding(glob="g"), loadingOptions=OPTS)
        more = cwl.CommandOutputParameter(id=base + "oo", type_="File", outputBinding=cwl.CommandOutputBinding(glob="h"), loadingOptions=OPTS)
        tool = cwl.CommandLineTool(
            inputs=ins, outputs=[out, more], id=base.rstrip("#/"), label="tool " + n, baseCommand="echo", loadingOptions=OPTS,
            cwlVersion=None if base is bases[2] else self.version,
            requirements=None if place == "none" else ctx.lazy(n + ".js", [
                lambda: [cwl.InlineJavascriptRequirement(["// LIB2"])], lambda: [], lambda: [cwl.InlineJavascriptRequirement()]]))
        for x in place.split("+"):
            self.put(x, tool, ins, out, more)
        return tool

    def put(self, place, tool, ins, out, more):
        cwl, ctx = self.cwl, self.ctx
        if place == "argument":
            tool.arguments = ["first", self.js("a0")] + (["third"] if ctx.pick("third", 2) else [])
        elif place == "binding":
            tool.arguments = [cwl.CommandLineBinding(valueFrom=self.js("a0"), prefix="-p", position=4)]
        elif place in ("stdin", "stdout", "stderr"):
            setattr(tool, place, self.js("s"))
        elif place == "input":
            ins[0].inputBinding = cwl.CommandLineBinding(valueFrom=self.js("i0"), prefix="-i", position=1)
        elif place == "glob":
            out.outputBinding.glob = self.js("g")
        elif place == "eval":
            out.outputBinding.outputEval = self.js("e")
            out.outputBinding.loadContents = ctx.one("e.contents", [None, True])
        elif place == "eval2":
            more.outputBinding.outputEval = self.js("e2")
        elif place == "glob2":
            more.outputBinding.glob = self.js("g2")
        elif place == "resource":
            tool.requirements.append(cwl.ResourceRequirement(**{ctx.one("resource", ["ramMin", "coresMax"]): self.js("r")}))
        elif place == "environment":
            tool.requirements.append(cwl.EnvVarRequirement(envDef=[
                cwl.EnvironmentDef(envName="A", envValue="plain"), cwl.EnvironmentDef(envName="B", envValue=self.js("v"))]))
        elif place == "listing":
            tool.requirements.append(cwl.InitialWorkDirRequirement(listing=self.js("l")))
        elif place == "item":
            tool.requirements.append(cwl.InitialWorkDirRequirement(listing=["plain", self.js("l")]))
        elif place == "entry":
            tool.requirements.append(cwl.InitialWorkDirRequirement(listing=[cwl.Dirent(
                entryname=ctx.lazy("l.name", [lambda: None, lambda: "it's", lambda: self.js("ln")]), entry=self.js("l"))]))
        elif place == "entryname":
            tool.requirements.append(cwl.InitialWorkDirRequirement(listing=[cwl.Dirent(entryname=self.js("l"), entry="$(inputs." + self.n[0] + ")")]))

    def step(self, n, run, sources):
        cwl, ctx = self.cwl, self.ctx
        ins = [cwl.WorkflowStepInput(id=DOC + n + "/" + x, source=s, loadingOptions=OPTS) for x, s in zip(self.n, sources)]
        return cwl.WorkflowStep(id=DOC + n, in_=ins, out=[DOC + n + "/" + o for o in ("o", "oo")], run=run, loadingOptions=OPTS)

    def workflow(self, steps, outputs):
        cwl = self.cwl
        I = inputs_class(cwl)
        ins = [I(id=DOC + x, type_=t, loadingOptions=OPTS) for x, t in (("wa", "File"), ("wb", "string"))]
        outs = [cwl.WorkflowOutputParameter(id=DOC + "out%d" % i, type_="File", outputSource=s, loadingOptions=OPTS) for i, s in enumerate(outputs)]
        return cwl.Workflow(inputs=ins, outputs=outs, steps=steps, id="file:///d/w.cwl", cwlVersion=self.version, loadingOptions=OPTS,
                            requirements=[cwl.InlineJavascriptRequirement(["// LIB0"]), cwl.StepInputExpressionRequirement()])


def refactor(ctx, m, wf, skip=(False, False)):
    before = copy.deepcopy(wf)
    kind, got = ctx.call(m.mod.traverse, wf, ctx.pick("cltool", 2) == 1, False, *skip)
    ctx.check(kind == "ok", "the workflow must be refactored", got)
    compare(ctx, m.texts, before, got[0], ["wa", "wb"], not any(skip))


def h_tool(ctx):
    """An expression in a tool of a step."""
    version, place = ctx.config
    m = Maker(ctx, version)
    tool = m.tool("s", place)
    step = m.step("s", tool, [DOC + "wa", DOC + "wb"])
    wf = m.workflow([step], [DOC + "s/o", DOC + "s/oo"])
    refactor(ctx, m, wf)
    ctx.reach("refactored")


def h_step(ctx):
    """An expression in an input of a step."""
    version, shape = ctx.config
    m = Maker(ctx, version)
    cwl = m.cwl
    step = m.step("s", m.tool("s", "none"), [DOC + "wa", DOC + "wb"])
    inp = step.in_[ctx.pick("which", 2)]
    inp.valueFrom = m.js("v")
    if shape == "list":
        inp.source = [DOC + "wa", DOC + "wb"]
    elif shape == "merge":
        inp.source = [DOC + "wa", DOC + "wb"]
        inp.linkMerge = ctx.one("merge", ["merge_nested", "merge_flattened"])
    elif shape == "none":
        inp.source = None
    elif shape == "default":
        inp.source = ctx.one("source", [DOC + "wa", None])
        inp.default = "fallback"
    elif shape == "other default":
        for i in step.in_:
            if i is not inp:
                i.source = ctx.one("source", [DOC + "wa", None])
                i.default = "fallback"
    elif shape == "two":
        for i in step.in_:
            if i is not inp:
                i.valueFrom = m.js("w")
    wf = m.workflow([step], [DOC + "s/o", DOC + "s/oo"])
    refactor(ctx, m, wf)
    ctx.reach("refactored")


def h_when(ctx):
    """The condition of a step."""
    m = Maker(ctx, "v1.2")
    step = m.step("s", m.tool("s", "none"), [DOC + "wa", DOC + "wb"])
    step.when = m.js("w")
    if ctx.config[0] == "default":
        step.in_[0].default = "fallback"
        step.in_[0].source = ctx.one("source", [DOC + "wa", None])
    elif ctx.config[0] == "list":
        step.in_[0].source = [DOC + "wa", DOC + "wb"]
    elif ctx.config[0] == "valueFrom":
        step.in_[ctx.pick("which", 2)].valueFrom = m.js("v")
    wf = m.workflow([step], [DOC + "s/o", DOC + "s/oo"])
    refactor(ctx, m, wf)
    ctx.reach("refactored")


def h_steps(ctx):
    """A second step takes the outputs of the first."""
    version, place, outs = ctx.config
    m = Maker(ctx, version, 1)
    one = m.step("s", m.tool("s", place), [DOC + "wa", DOC + "wb"])
    src = ctx.lazy("sources", [lambda: [DOC + "s/o", DOC + "s/oo"], lambda: [[DOC + "s/oo", DOC + "s/o"], DOC + "wb"]])
    two = m.step("ss", m.tool("ss", "none"), src)
    steps = ctx.lazy("order", [lambda: [one, two], lambda: [two, one]])
    outs = {"single": ["s/o", "ss/o"], "list": [["s/o", "ss/oo"], "s/oo"], "input": ["wa", "s/o"]}[outs]
    wf = m.workflow(steps, [[DOC + x for x in o] if isinstance(o, list) else DOC + o for o in outs])
    refactor(ctx, m, wf)
    ctx.reach("refactored")


def h_mixed(ctx):
    """An expression in a tool, and the step has its own."""
    version, place, feature = ctx.config
    m = Maker(ctx, version, 1)
    step = m.step("s", m.tool("s", place), [DOC + "wa", DOC + "wb"])
    inp = step.in_[ctx.pick("which", 2)]
    if feature == "js":
        inp.valueFrom = m.js("v")
    elif feature == "text":
        inp.valueFrom = ctx.one("text", ["plain", "$(self.basename)", "$(inputs.ab)"])
    elif feature == "default":
        inp.source, inp.default = ctx.one("source", [DOC + "wa", None]), "fallback"
    elif feature == "merge":
        inp.source, inp.linkMerge = [DOC + "wa", DOC + "wb"], ctx.one("merge", [None, "merge_nested", "merge_flattened"])
    elif feature == "when":
        step.when = ctx.lazy("when", [lambda: m.js("w"), lambda: "$(inputs.ab)"])
    elif feature == "pick":
        inp.source, inp.pickValue = [DOC + "wa", DOC + "wb"], "first_non_null"
    elif feature == "out":
        step.out = [m.cwl.WorkflowStepOutput(x) for x in step.out]
    elif feature == "tool default":
        p = step.run.inputs[ctx.pick("which tool", 2)]
        p.default = "tool default"
        inp.source = ctx.one("source", [DOC + "wa", None])
    elif feature == "extra":
        step.in_.append(m.cwl.WorkflowStepInput(id=DOC + "s/more", source=DOC + "wb", loadingOptions=OPTS))
    elif feature == "contents":
        p = step.run.inputs[0]
        p.inputBinding = p.inputBinding or m.cwl.CommandLineBinding(position=7)
        p.inputBinding.loadContents = True
    wf = m.workflow([step], [DOC + "s/o", DOC + "s/oo"])
    refactor(ctx, m, wf)
    ctx.reach("refactored")


def h_shortcut(ctx):
    """Types that stand for a standard stream, in a step or in a tool by itself."""
    version, stream, place, alone = ctx.config
    m = Maker(ctx, version, 1)
    tool = m.tool("s", place)
    if stream == "stdin":
        tool.inputs[0].type_ = "stdin"
    else:
        tool.outputs[0].type_, tool.outputs[0].outputBinding = stream, None
        setattr(tool, stream, (lambda: None, lambda: "it.txt", lambda: m.js("n"))[ctx.pick("name", 3)]())
    tool.requirements = [m.cwl.InlineJavascriptRequirement(["// LIB2"])] + [
        x for x in tool.requirements or [] if type(x).__name__ != "InlineJavascriptRequirement"]
    if alone:
        tool.cwlVersion = version
        for p in (tool.inputs[0], tool.outputs[1]):
            more = [m.cwl.SecondaryFileSchema(".x")] if hasattr(m.cwl, "SecondaryFileSchema") else [".x"]
            p.label, p.doc, p.format, p.streamable, p.secondaryFiles = "L", "D", "file:///f#1", True, more
        tool.inputs[1].default = "d"
        before = copy.deepcopy(tool)
        kind, got = ctx.call(m.mod.traverse, tool, ctx.pick("cltool", 2) == 1, False, False, False)
        ctx.check(kind == "ok", "the tool must be refactored", got)
        if got[1]:
            compare(ctx, m.texts, before, got[0], m.n, True)
            described(ctx, before, got[0])
        else:
            ctx.check(not m.texts, "an expression was overlooked", got)
    else:
        refactor(ctx, m, m.workflow([m.step("s", tool, [DOC + "wa", DOC + "wb"])], [DOC + "s/o", DOC + "s/oo"]))
    ctx.reach("refactored")


DESCRIBED = ("label", "doc", "format", "streamable", "secondaryFiles", "default")


def described(ctx, before, after):
    """The inputs and outputs of the whole are described as before."""
    for kind in ("inputs", "outputs"):
        for p in getattr(before, kind):
            found = [q for q in getattr(after, kind) if last(q.id) == last(p.id)]
            ctx.check(len(found) == 1, "one port for each", found)
            want = "File" if p.type_ in ("stdin", "stdout", "stderr") else p.type_
            ctx.check(found[0].type_ == want, "the type of a port must be as before", found[0].type_)
            for f in DESCRIBED:
                ctx.check(getattr(found[0], f, None) == getattr(p, f, None), "a port must be described as before", f)


def h_pair(ctx):
    """Two expressions in a tool."""
    version, place, other = ctx.config
    m = Maker(ctx, version, 1)
    step = m.step("s", m.tool("s", place + "+" + other), [DOC + "wa", DOC + "wb"])
    refactor(ctx, m, m.workflow([step], [DOC + "s/o", DOC + "s/oo"]))
    ctx.reach("refactored")


def h_skip(ctx):
    """Some expressions of a tool are to stay."""
    version, place, other = ctx.config
    m = Maker(ctx, version, 1)
    step = m.step("s", m.tool("s", place + "+" + other), [DOC + "wa", DOC + "wb"])
    skip = ctx.one("skip", [(True, False), (False, True), (True, True)])
    refactor(ctx, m, m.workflow([step], [DOC + "s/o", DOC + "s/oo"]), skip)
    ctx.reach("refactored")


def h_etool(ctx):
    """A step runs an ExpressionTool."""
    version, feature = ctx.config
    m = Maker(ctx, version)
    cwl = m.cwl
    I = inputs_class(cwl)
    base = "file:///d/e.cwl#"
    expr = m.js("e")
    ctx.assume(not expr.startswith("x"))
    tool = cwl.ExpressionTool(
        id=base[:-1], inputs=[I(id=base + x, type_="File", loadingOptions=OPTS) for x in m.n], expression=expr, loadingOptions=OPTS,
        outputs=[cwl.ExpressionToolOutputParameter(id=base + "o", type_="Any", loadingOptions=OPTS)],
        requirements=ctx.lazy("js", [lambda: [cwl.InlineJavascriptRequirement(["// LIB2"])], lambda: [cwl.InlineJavascriptRequirement()],
                                     lambda: [], lambda: None]))
    step = m.step("s", tool, [DOC + "wa", DOC + "wb"])
    step.out = [DOC + "s/o"]
    step.requirements = ctx.lazy("step js", [lambda: None, lambda: [cwl.InlineJavascriptRequirement(["// LIB1"])]])
    inp = step.in_[ctx.pick("which", 2)]
    if feature == "valueFrom":
        inp.valueFrom = m.js("v")
    elif feature == "default":
        inp.source, inp.default = ctx.one("source", [DOC + "wa", None]), "fallback"
    elif feature == "when":
        step.when = m.js("w")
    refactor(ctx, m, m.workflow([step], [DOC + "s/o"]))
    ctx.reach("refactored")


PICKS = {"first_non_null": ("FIRST_NON_NULL", "let i = 0"), "the_only_non_null": ("THE_ONLY_NON_NULL", "multiple non-null"),
         "all_non_null": ("ALL_NON_NULL", "results.push")}


def h_pick(ctx):
    """An output picks among its sources."""
    pick, merge = ctx.config
    m = Maker(ctx, "v1.2", 1)
    name, tag = PICKS[pick]
    text = getattr(m.mod, "PICKVALUE_%s_EXPR" % name, "")
    if tag in text:
        m.texts[tag] = text
    one = m.step("s", m.tool("s", ctx.one("place", ["none", "eval"])), [DOC + "wa", DOC + "wb"])
    two = m.step("ss", m.tool("ss", "none"), [DOC + "wa", DOC + "wb"])
    source = ctx.one("sources", [["s/o", "ss/o"], ["s/o", "wa", "ss/oo"], ["wb", "wa"], ["ss/o"]])
    wf = m.workflow([one, two], [DOC + "ss/oo", [DOC + x for x in source]])
    wf.outputs[1].pickValue = pick
    wf.outputs[1].linkMerge = merge
    wf.outputs[1].type_ = ctx.one("type", ["File", "Any"]) if pick != "all_non_null" else m.cwl.OutputArraySchema(items="File", type_="array")
    refactor(ctx, m, wf)
    ctx.reach("refactored")


NAMES = {"anonymous": {}, "named": {"id": "main"}}
TEXTS = {
    "arguments": lambda e: {"arguments": ["one", e]},
    "stdout": lambda e: {"stdout": e},
    "environment": lambda e: {"requirements": [{"class": "InlineJavascriptRequirement"},
                                               {"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": e}]}]},
    "eval": lambda e: {"outputs": [{"id": "o", "type": "File", "outputBinding": {"glob": "g", "outputEval": e}}]},
    "none": lambda e: {},
}


def written(place, m, name):
    out = {"class": "CommandLineTool", "baseCommand": "echo", "label": "tool s", "inputs": [{"id": "a", "type": "File"}, {"id": "ab", "type": "string"}],
           "requirements": [{"class": "InlineJavascriptRequirement"}],
           "outputs": [{"id": "o", "type": "File", "outputBinding": {"glob": "g"}}]}
    out.update(TEXTS[place](m.js("e") if place != "none" else None))
    out.update({"id": name} if name else {})
    return out


class Fetcher:
    """Finds every reference: no file is looked up."""

    def __init__(self):
        self.cache = {}

    def urljoin(self, base, ref):
        return urllib.parse.urljoin(base, ref)

    def check_exists(self, uri):
        return True

    def supported_schemes(self):
        return ["file", "http", "https"]


def listed(x):
    return x if isinstance(x, list) else [] if x is None else [x]


def load(cwl, doc, uri):
    return cwl.load_document_by_yaml(cmap(doc), uri, LoadingOptions(fetcher=Fetcher(), fileuri=uri))


def h_written(ctx):
    """A document as it is written, refactored, saved and read again."""
    version, kind, place = ctx.config
    m = Maker(ctx, version, 1)
    tool = written(place, m, ctx.one("tool name", [None, "tt", "s"]))
    if kind == "tool":
        doc = dict(tool, cwlVersion=version)
    else:
        doc = {"class": "Workflow", "cwlVersion": version, "inputs": [{"id": "wa", "type": "File"}, {"id": "wb", "type": "string"}],
               "requirements": [{"class": "InlineJavascriptRequirement"}, {"class": "StepInputExpressionRequirement"}],
               "outputs": [{"id": "out0", "type": "File", "outputSource": ctx.one("source", ["s/o", "ss/o", ["s/o", "wa"]])}],
               "steps": [{"id": "s", "in": [{"id": "a", "source": "wa"}, {"id": "ab", "source": ctx.one("ab", ["wb", ["wa", "wb"]])}], "out": ["o"], "run": tool},
                         {"id": "ss", "in": [{"id": "a", "source": "s/o"}, {"id": "ab", "source": "wb"}], "out": [{"id": "o"}],
                          "run": written("none", m, None)}]}
        doc.update(NAMES[kind])
        feature = ctx.one("feature", [None, "valueFrom", "pickValue"])
        if feature == "valueFrom":
            doc["steps"][ctx.pick("which", 2)]["in"][0]["valueFrom"] = m.js("v")
        elif feature == "pickValue":
            ctx.assume(version == "v1.2" and place in ("none", "eval"))
            m.texts["let i = 0"] = m.mod.PICKVALUE_FIRST_NON_NULL_EXPR
            doc["outputs"][0].update(outputSource=["s/o", "ss/o"], pickValue="first_non_null")
    before, read = (load(m.cwl, copy.deepcopy(doc), "file:///d/w.cwl") for _ in range(2))
    got, modified = m.mod.traverse(read, ctx.pick("cltool", 2) == 1, False, False, False)
    if not modified:
        return
    text = expression_refactor.save(got, base_url=got.loadingOptions.fileuri or "")
    after = load(m.cwl, text, "file:///e/other.cwl")
    ctx.check(after.cwlVersion == version, "the document must keep its version", after)
    refs = [y for x in after.outputs for y in listed(x.outputSource)] + [y for t in after.steps for x in t.in_ for y in listed(x.source)]
    ids = [x.id for x in after.inputs] + [x if isinstance(x, str) else x.id for t in after.steps for x in t.out]
    ctx.check(all(x in ids for x in refs), "a reference must be to a part of the document", (refs, ids))
    compare(ctx, m.texts, before, after, ["a", "ab"] if kind == "tool" else ["wa", "wb"], True)
    ctx.reach("written")


def pairs(tier):
    if tier == "thorough":
        return [(v, p, q) for i, p in enumerate(PLACES) for q in PLACES[:i]
                if not {p, q} <= DIRECTORY and {p, q} != {"argument", "binding"} for v in MODS]
    return [(v, p, q) for p, q in PAIRS for v in MODS]


FEATURES = ["js", "text", "default", "merge", "when", "pick", "out", "tool default", "contents", "extra"]


def mixes(tier):
    out = []
    for p in PLACES if tier == "thorough" else ("eval", "argument", "stdin", "environment"):
        for f in FEATURES:
            for v in ["v1.2"] if f in ("when", "pick") else MODS:
                out.append((v, p, f))
    return out


PAIRS = [("eval", "argument"), ("eval", "input"), ("eval", "glob"), ("eval", "environment"), ("eval", "eval2"), ("eval", "glob2"), ("argument", "input"), ("argument", "glob"), ("argument", "entry"), ("eval", "stdin"), ("argument", "stdin"), ("input", "stdout"),
         ("resource", "environment"), ("entry", "environment"), ("item", "resource"), ("argument", "entryname"), ("binding", "stderr")]
PLACES = ["argument", "binding", "stdin", "stdout", "stderr", "input", "glob", "eval", "resource", "environment", "listing", "item", "entry",
          "entryname", "eval2", "glob2"]
DIRECTORY = {"listing", "item", "entry", "entryname"}  # one requirement of a class
SHAPES = ["one", "list", "merge", "none", "default", "other default", "two"]
HARNESSES = [
    {"name": "tool", "fn": h_tool, "reach": ("refactored",), "configs": lambda tier: [(v, p) for p in PLACES for v in MODS]},
    {"name": "shortcut", "fn": h_shortcut, "reach": ("refactored",), "configs": lambda tier: [
        (v, s, p, alone) for v in MODS for s in ("stdout", "stderr", "stdin") if s != "stdin" or v != "v1.0"
        for p in (["none", "argument", "eval2"] if tier == "quick" else ["none", "argument", "eval2", "glob2", "input", "entry", "environment"])
        for alone in (False, True)]},
    {"name": "pair", "fn": h_pair, "reach": ("refactored",), "configs": pairs},
    {"name": "skip", "fn": h_skip, "reach": ("refactored",), "configs": pairs},
    {"name": "etool", "fn": h_etool, "reach": ("refactored",), "configs": lambda tier: [
        (v, f) for v in MODS for f in ("plain", "valueFrom", "default", "when") if f != "when" or v == "v1.2"]},
    {"name": "pick", "fn": h_pick, "reach": ("refactored",), "configs": lambda tier: [
        (p, m) for p in PICKS for m in (None, "merge_nested", "merge_flattened")]},
    {"name": "written", "fn": h_written, "reach": ("written",), "configs": lambda tier: [
        (v, k, p) for v in MODS for k in ("anonymous", "named", "tool") for p in TEXTS if k != "tool" or p != "none"]},
    {"name": "step", "fn": h_step, "reach": ("refactored",), "configs": lambda tier: [(v, p) for p in SHAPES for v in MODS]},
    {"name": "when", "fn": h_when, "reach": ("refactored",), "configs": lambda tier: [(p,) for p in ("plain", "default", "list", "valueFrom")]},
    {"name": "mixed", "fn": h_mixed, "reach": ("refactored",), "configs": mixes},
    {"name": "steps", "fn": h_steps, "reach": ("refactored",), "configs": lambda tier: [(v, p, o) for p in ("none", "eval", "argument") for o in ("single", "list", "input") for v in MODS]},
]
