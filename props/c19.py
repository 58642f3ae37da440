"""C19: stream shortcuts.  A command line tool with a few parameters, whose types,
bindings and stream names are symbolic choices, is converted by the real code; the
result is compared with the equivalent spelled out by the CWL specification.  The name
of the input fed to standard input is symbolic text."""

import copy
import re

import cwl_utils.parser.cwl_v1_0_utils as u0
import cwl_utils.parser.cwl_v1_1_utils as u1
import cwl_utils.parser.cwl_v1_2_utils as u2
import cwl_utils.parser.utils as utils
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
from schema_salad.exceptions import ValidationException

from .model import OPTS

ASSUMPTIONS = [
    "names of inputs contain no quotes, backslashes or brackets; a fragment names the input in its last segment",
    "the outputs hold one shortcut per stream or several; generated names are judged by being the same for all outputs of a stream, plain file names and different for the two streams",
]
NS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
UTILS = {"v1.0": u0, "v1.1": u1, "v1.2": u2}


def BOUNDS(tier):
    return {"outputs": "up to %d, types stdout, stderr, File, string, an array, with and without outputBinding" % outs(tier),
            "inputs": "up to 2, types stdin, File, a union, with and without inputBinding",
            "streams": "stdout, stderr and stdin not given, given as a name or as an expression",
            "input names": "1..%d characters (letters, digits, - . _ and a space)" % (4 if tier == "quick" else 6)}


def outs(tier):
    return 2 if tier == "quick" else 3


def types_of(ns):
    return ["stdout", "stderr", "File", ns.CommandOutputArraySchema(type_="array", items="File", loadingOptions=OPTS)]


def make(ctx, version, n_out, n_in):
    ns = NS[version]
    outputs = []
    for i in range(n_out):
        t = types_of(ns)[ctx.pick("output type %d" % i, 4)]
        b = None
        if ctx.pick("output binding %d" % i, 2):
            b = ns.CommandOutputBinding(glob="*.txt", loadingOptions=OPTS)
        outputs.append(ns.CommandOutputParameter(id="file:///t.cwl#o%d" % i, type_=t, outputBinding=b, loadingOptions=OPTS))
    inputs = []
    for i in range(n_in):
        t = (["stdin"] if version != "v1.0" else []) + ["File", ["null", "string"]]
        t = t[ctx.pick("input type %d" % i, len(t))]
        b = None
        if ctx.pick("input binding %d" % i, 2):
            b = ns.CommandLineBinding(position=1, loadingOptions=OPTS)
        inputs.append(ns.CommandInputParameter(id="file:///t.cwl#" + ["main/a", "b"][i], type_=t, inputBinding=b, loadingOptions=OPTS))
    streams = [None, "log.txt", "$(inputs.b).txt"]
    return ns.CommandLineTool(
        id="file:///t.cwl", inputs=inputs, outputs=outputs, baseCommand="cat",
        stdout=ctx.one("stdout", streams), stderr=ctx.one("stderr", streams) if n_out else None,
        stdin=ctx.one("stdin", [None, "x.txt"]), loadingOptions=OPTS)


def convert(ctx, version, clt):
    how = utils.convert_stdstreams_to_files if ctx.config[3] else UTILS[version].convert_stdstreams_to_files
    return ctx.call(how, clt)


def reads(text, name):
    """Does the text refer to the path of the input?"""
    if text == "$(inputs." + name + ".path)":
        return re.fullmatch(r"\w+", name) is not None
    return text in ['$(inputs["' + name + '"].path)', "$(inputs['" + name + "'].path)",
                    '$(inputs["' + name + '"]["path"])', "$(inputs['" + name + "']['path'])"]


def h_convert(ctx):
    version, n_out, n_in, _ = ctx.config
    clt = make(ctx, version, n_out, n_in)
    was = copy.deepcopy(clt)
    again = copy.deepcopy(clt)
    kind, got = convert(ctx, version, clt)
    outs = [o for o in was.outputs if o.type_ in ("stdout", "stderr")]
    stdin = [i for i in was.inputs if i.type_ == "stdin"]
    bad = any(o.outputBinding is not None for o in outs) or any(i.inputBinding is not None for i in stdin)
    bad = bad or bool(stdin) and was.stdin is not None or len(stdin) > 1
    if bad:
        ctx.check(kind == "exc" and isinstance(got, ValidationException), "a shortcut with an explicit binding is rejected", got)
        ctx.reach("rejected")
        return
    ctx.check(kind == "ok", "every other tool is converted", got)
    for s in ("stdout", "stderr"):
        name, given = getattr(clt, s), getattr(was, s)
        used = [o for o in outs if o.type_ == s]
        if given is not None or not used:
            ctx.check(name == given, "the tool names the file of the stream", (s, name))
        else:
            ctx.check(isinstance(name, str) and re.fullmatch(r"[\w.-]+", name) is not None, "a generated name is a plain file name", name)
            ctx.reach("generated")
    if was.stdout is None and was.stderr is None and clt.stdout is not None and clt.stderr is not None:
        ctx.check(clt.stdout != clt.stderr, "the streams are kept apart")
        ctx.reach("both")
    ctx.check(len(clt.outputs) == len(was.outputs) and len(clt.inputs) == len(was.inputs), "no parameter is added or lost")
    for o, w in zip(clt.outputs, was.outputs):
        if w.type_ in ("stdout", "stderr"):
            ctx.check(o.type_ == "File", "the output becomes a file", o.type_)
            ctx.check(o.outputBinding is not None and o.outputBinding.save() == {"glob": getattr(clt, w.type_)},
                      "the output is the file the stream is redirected to", o.save())
            o.type_, o.outputBinding = w.type_, None
            ctx.reach("output")
        ctx.check(o.save() == w.save(), "everything else stays as it was", o.save())
    for i, w in zip(clt.inputs, was.inputs):
        if w.type_ == "stdin":
            ctx.check(i.type_ == "File", "the input becomes a file", i.type_)
            ctx.check(reads(clt.stdin, w.id.split("#")[1].split("/")[-1]), "the input is fed to standard input", clt.stdin)
            i.type_ = w.type_
            ctx.reach("input")
        ctx.check(i.save() == w.save(), "everything else stays as it was", i.save())
    if not stdin:
        ctx.check(clt.stdin == was.stdin, "everything else stays as it was", clt.stdin)
    kind, got = convert(ctx, version, again)
    ctx.check((again.stdout, again.stderr, again.stdin) == (clt.stdout, clt.stderr, clt.stdin), "the same tool gets the same names")
    clt.stdout, clt.stderr, clt.stdin = was.stdout, was.stderr, was.stdin
    ctx.check(clt.save() == was.save(), "everything else stays as it was", clt.save())


def h_name(ctx):
    """The name of the input, for every text."""
    version, size, prefix, _ = ctx.config
    ns = NS[version]
    name = ctx.str("name", size, ((32, 32), (45, 46), (48, 57), (95, 95), (97, 122)), minlen=1)
    i = ns.CommandInputParameter(id=prefix + name, type_="stdin", loadingOptions=OPTS)
    other = ns.CommandInputParameter(id="file:///t.cwl#a", type_="File", loadingOptions=OPTS)
    clt = ns.CommandLineTool(id="file:///t.cwl", inputs=[other, i], outputs=[], loadingOptions=OPTS)
    kind, got = convert(ctx, version, clt)
    ctx.check(kind == "ok", "every tool is converted", got)
    ctx.check(reads(clt.stdin, name), "the input is fed to standard input", clt.stdin)
    ctx.check_eq(i.id, prefix + name, "everything else stays as it was")
    ctx.reach("fed")


def h_other(ctx):
    """Processes that are no tools."""
    version = ctx.config[0]
    ns = NS[version]
    out = ns.ExpressionToolOutputParameter(id="file:///t.cwl#o", type_="File", loadingOptions=OPTS)
    procs = [ns.ExpressionTool(id="file:///t.cwl", inputs=[], outputs=[out], expression="$(1)", loadingOptions=OPTS),
             ns.Workflow(id="file:///t.cwl", inputs=[], outputs=[], steps=[], loadingOptions=OPTS)]
    p = procs[ctx.pick("process", 2)]
    was = p.save()
    kind, got = ctx.call(utils.convert_stdstreams_to_files, p)
    ctx.check(kind == "ok" and p.save() == was, "processes that are no tools stay as they were", got)
    ctx.reach("untouched")


def cfg(tier):
    n = outs(tier)
    return [(v, a, b, h) for v in NS for a, b, h in ((n, 0, 0), (1, 1, 1), (0, 2, 0)) + (((2, 2, 1),) if tier != "quick" else ())]


def name_cfg(tier):
    n = 4 if tier == "quick" else 6
    return [("v1.1", n, "file:///t.cwl#", 1), ("v1.2", n, "file:///t.cwl#main/", 0), ("v1.2", n - 1, "", 1)]


HARNESSES = [
    {"name": "convert", "fn": h_convert, "configs": cfg, "reach": ("rejected", "generated", "both", "output", "input")},
    {"name": "name", "fn": h_name, "configs": name_cfg, "reach": ("fed",)},
    {"name": "other", "fn": h_other, "configs": {"quick": [(v,) for v in NS], "thorough": [(v,) for v in NS]}, "reach": ("untouched",)},
]
