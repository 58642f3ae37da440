"""C05: inferred types of sources and step ports.  Workflow, step and tool objects of
all three versions are built with solver-chosen types, scatters, identifiers and
source lists; `type_for_source`, `type_for_step_input` and `type_for_step_output`
run symbolically and are compared with a reference derivation."""

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema, RecordSchema

import cwl_utils.parser.cwl_v1_0 as cwl0
import cwl_utils.parser.cwl_v1_1 as cwl1
import cwl_utils.parser.cwl_v1_2 as cwl2
from cwl_utils.errors import WorkflowException
from props.model import OPTS
from cwl_utils.parser import utils
import cwl_utils.utils
from cwl_utils.parser import cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils

UTILS = (utils, cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils)
VERSIONS = {"v1.0": cwl0, "v1.1": cwl1, "v1.2": cwl2}
ASSUMPTIONS = [
    "parameter names are unique within a process and the members of a union differ, as CWL requires",
    "the processes run by steps are embedded or handed over by a stub of the file loader",
    "the order of the members of a union and their number of mentions are not part of the claim",
]


def BOUNDS(tier):
    return {
        "sources": "1..%d, from two workflow inputs, three step outputs (two steps) and an unknown name" % (2 if tier == "quick" else 3),
        "types": "int, string, File, null, Any symbolic; arrays, 2-member unions, records of 1 or 2 fields; depth 1",
        "scatter": "none, one name, a list of 1 or 2 names (3 on single steps, nested_crossproduct); dotproduct, flat_crossproduct, nested_crossproduct or absent",
        "merge": "linkMerge none, merge_nested, merge_flattened; pickValue (v1.2) none and the three methods",
    }


ATOMS = ["int", "string", "File", "null", "Any"]


def typ(ctx, n, cwl, deep):
    a = lambda s="": ctx.enum(n + s, ATOMS)  # noqa: E731
    if not deep:
        return ctx.enum(n, ATOMS)

    def rec(k):
        F, R = cwl.CommandOutputRecordField, cwl.CommandOutputRecordSchema
        return R(type_="record", fields=[F(name="file:///%s#r/%s" % (n, f), type_=a("f" + f)) for f in ("x", "y")[:k]])

    def union():
        u0, u1 = a("u0"), a("u1")
        ctx.assume(u0 != u1)
        return [u0, u1]

    return ctx.lazy(n + "?", [
        lambda: a(),
        lambda: ArraySchema(items=a("i"), type_="array"),
        union,
    ] + ([] if deep == "short" else [
        lambda: ArraySchema(items=ArraySchema(items=a("ii"), type_="array"), type_="array"),
        lambda: rec(1),
        lambda: rec(2),
    ]))


def same(a, b):
    """Equal types: unions as sets, records by their fields' short names."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        for x in a:
            if not member(x, b):
                return False
        for x in b:
            if not member(x, a):
                return False
        return True
    if isinstance(a, list) or isinstance(b, list):
        return False
    if isinstance(a, ArraySchema) or isinstance(b, ArraySchema):
        return isinstance(a, ArraySchema) and isinstance(b, ArraySchema) and same(a.items, b.items)
    if isinstance(a, RecordSchema) or isinstance(b, RecordSchema):
        if not (isinstance(a, RecordSchema) and isinstance(b, RecordSchema)):
            return False
        fa = {f.name.split("/")[-1]: f.type_ for f in a.fields or []}
        fb = {f.name.split("/")[-1]: f.type_ for f in b.fields or []}
        if sorted(fa) != sorted(fb):
            return False
        for k, t in fa.items():
            if not same(t, fb[k]):
                return False
        return True
    return bool(a == b)


def member(x, ts):
    for t in ts:
        if same(x, t):
            return True
    return False


def array(t, times=1):
    for _ in range(times):
        t = ArraySchema(items=t, type_="array")
    return t


def flat(t):
    if isinstance(t, list):
        return [flat(x) for x in t]
    return t if isinstance(t, ArraySchema) else array(t)


def scattered(t, scatter, method):
    if scatter is None:
        return t
    if method == "nested_crossproduct":
        return array(t, 1 if isinstance(scatter, str) else len(scatter))
    return array(t)


BASE = "file:///w.cwl#"


def scatter_of(ctx, n, sid, three=False):
    k = ctx.pick(n + "#s", 5 if three else 4)
    names = [BASE + sid + "/a", BASE + sid + "/b", BASE + sid + "/c"]
    scatter = [None, names[0], names[:1], names[:2], names][k]
    method = ctx.one(n + "#m", [None, "dotproduct", "flat_crossproduct", "nested_crossproduct"]) if k in (1, 3) else "nested_crossproduct" if k == 4 else \
        ctx.one(n + "#m", [None, "nested_crossproduct"]) if k == 2 else None
    return scatter, method


def tool(cwl, tid, inputs, outputs, kind):
    """A process whose parameters have the given types, in the ways ids are written."""
    if kind == "Workflow":
        P = getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter
        return cwl.Workflow(loadingOptions=OPTS, id=tid, inputs=[P(loadingOptions=OPTS, id=tid + "/" + k, type_=t) for k, t in inputs.items()],
                            outputs=[cwl.WorkflowOutputParameter(loadingOptions=OPTS, id=tid + "/" + k, type_=t) for k, t in outputs.items()],
                            steps=[])
    sep = "/" if "#" in tid else "#"
    if kind == "ExpressionTool":
        P = getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter
        O = getattr(cwl, "ExpressionToolOutputParameter")
        return cwl.ExpressionTool(loadingOptions=OPTS, id=tid, expression="$(null)", inputs=[P(loadingOptions=OPTS, id=tid + sep + k, type_=t) for k, t in inputs.items()],
                                  outputs=[O(loadingOptions=OPTS, id=tid + sep + k, type_=t) for k, t in outputs.items()])
    return cwl.CommandLineTool(loadingOptions=OPTS,
        id=tid,
        inputs=[cwl.CommandInputParameter(loadingOptions=OPTS, id=tid + sep + k, type_=t) for k, t in inputs.items()],
        outputs=[cwl.CommandOutputParameter(loadingOptions=OPTS, id=tid + sep + k, type_=t) for k, t in outputs.items()])


def step(cwl, sid, run, ins, outs, scatter, method, as_objects):
    return cwl.WorkflowStep(loadingOptions=OPTS,
        id=BASE + sid, run=run, scatter=scatter, scatterMethod=method,
        in_=[cwl.WorkflowStepInput(loadingOptions=OPTS, id=BASE + sid + "/" + k) for k in ins],
        out=[cwl.WorkflowStepOutput(loadingOptions=OPTS, id=BASE + sid + "/" + k) if as_objects else BASE + sid + "/" + k for k in outs])


def merged(types, nsources, merge, pick):
    """Reference: the type of a sink fed by sources of these (deduplicated) types."""
    distinct = []
    for t in types:
        if not member(t, distinct):
            distinct.append(t)
    t = distinct[0] if len(distinct) == 1 else distinct
    if merge == "merge_nested":
        t = array(t)
    elif merge == "merge_flattened":
        t = flat(t)
    elif nsources > 1:
        t = array(t)
    if pick in ("first_non_null", "the_only_non_null") and isinstance(t, ArraySchema):
        t = t.items
    return t


def quiet(ctx):
    # the text of error messages is no part of the claim
    ctx.patch(cwl_utils.utils, "yaml_dumps", lambda obj: "...")
    for m in UTILS:
        if hasattr(m, "save"):
            ctx.put(m, "save", lambda *a, **k: {})


def h_source(ctx):
    quiet(ctx)
    version, n, deep, merge = ctx.config
    cwl = VERSIONS[version]
    objs = ctx.pick("objs", 2) if n == 1 and not deep else 1
    kind = ctx.one("kind", ["CommandLineTool", "Workflow", "ExpressionTool"]) if n == 1 and not deep else "CommandLineTool"
    T = {k: typ(ctx, k, cwl, deep) for k in ("i0", "s1o", "s11o")}
    T["o"] = typ(ctx, "o", cwl, False)
    T["s1oo"] = "string"
    P = getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter
    names = []
    cands = ["i0", "s1/o", "s11/o", "o", "s1/oo", "nope"]
    k = ctx.pick("src0", len(cands) if n == 1 else 3)
    names.append(cands[k])
    for i in range(1, n):
        names.append(ctx.one("src%d" % i, [c for c in cands if c not in names]))
    sc = {}
    for sid in ("s1", "s11"):
        used = [x for x in names if x.startswith(sid + "/")]
        sc[sid] = scatter_of(ctx, sid, sid) if used else (None, None)
    s1 = step(cwl, "s1", tool(cwl, BASE + "s1/run", {"a": "Any", "b": "Any"}, {"o": T["s1o"], "oo": T["s1oo"]}, kind),
              ["a", "b"], ["o", "oo"], *sc["s1"], objs)
    s2 = step(cwl, "s11", tool(cwl, BASE + "s11/run/tool", {"a": "Any", "b": "Any"}, {"o": T["s11o"]}, "CommandLineTool"),
              ["a", "b"], ["o"], *sc["s11"], 1 - objs)
    wf = cwl.Workflow(loadingOptions=OPTS, id="file:///w.cwl", inputs=[P(loadingOptions=OPTS, id=BASE + "i0", type_=T["i0"]), P(loadingOptions=OPTS, id=BASE + "o", type_=T["o"])],
                      outputs=[], steps=[s1, s2], cwlVersion=version)
    order = ctx.pick("order", 2) if n > 1 else 0
    if order:
        wf.steps.reverse()
    sources = [BASE + x for x in names]
    arg = sources if n > 1 or ctx.pick("list", 2) else sources[0]
    pick = ctx.one("pick", [None, "first_non_null", "the_only_non_null", "all_non_null"]) if version == "v1.2" else None
    kind, got = ctx.call(utils.type_for_source, wf, version, arg, None, merge, pick)
    if "nope" in names and len(names) == 1:
        ctx.check(kind == "exc" and isinstance(got, WorkflowException), "a name that denotes nothing is an error", got)
        ctx.reach("unknown")
        return
    if "nope" in names:
        return
    ctx.check(kind == "ok", "the type can be inferred", got)
    types = []
    for x in names:
        t = T[x.replace("/", "")]
        if "/" in x:
            t = scattered(t, *sc[x.split("/")[0]])
        types.append(t)
    ctx.check(same(got, merged(types, n, merge, pick)), "the type of the sources")
    ctx.reach("inferred")


def h_tool(ctx):
    """A source seen from a step's own process: its inputs, then the workflow around it."""
    quiet(ctx)
    version = ctx.config
    cwl = VERSIONS[version]
    T = {k: typ(ctx, k, cwl, False) for k in ("ta", "i0", "s1o")}
    scatter, method = scatter_of(ctx, "s1", "s1")
    t = tool(cwl, "file:///t.cwl", {"ta": T["ta"]}, {"o": T["s1o"]}, ctx.one("kind", ["CommandLineTool", "ExpressionTool"]))
    P = getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter
    wf = cwl.Workflow(loadingOptions=OPTS, id="file:///w.cwl", inputs=[P(loadingOptions=OPTS, id=BASE + "i0", type_=T["i0"])], outputs=[],
                      steps=[step(cwl, "s1", t, ["a", "b"], ["o"], scatter, method, 0)], cwlVersion=version)
    if ctx.pick("v", 2):
        t.cwlVersion = version
    name, want = ctx.one("name", [("file:///t.cwl#ta", "ta"), (BASE + "i0", "i0"), (BASE + "s1/o", "s1o"), (BASE + "s9/o", None)])
    kind, got = ctx.call(utils.type_for_source, t, version, name, wf)
    if want is None:
        ctx.check(kind == "exc" and isinstance(got, WorkflowException), "a name that denotes nothing is an error", got)
        return
    ctx.check(kind == "ok", "the type can be inferred", got)
    w = T[want]
    ctx.check(same(got, scattered(w, scatter, method) if want == "s1o" else w), "the type of the source")
    ctx.reach("inferred")


def h_ports(ctx):
    quiet(ctx)
    version, linked, deep = ctx.config
    cwl = VERSIONS[version]
    T = {k: typ(ctx, k, cwl, deep) for k in ("a", "o")}
    kind = ctx.one("kind", ["CommandLineTool", "Workflow", "ExpressionTool"]) if not deep else "CommandLineTool"
    tid = ctx.one("tid", ["file:///t.cwl", BASE + "s1/run", BASE + "s1/run/t"]) if kind == "CommandLineTool" and not deep else "file:///t.cwl#t"
    run = tool(cwl, tid, {"ab": "Any", "a": T["a"], "b": "File"}, {"ao": "Any", "o": T["o"]}, kind)
    scatter, method = scatter_of(ctx, "s1", "s1", True)
    s = step(cwl, "s1", run, ["a", "b", "c"], ["o"], scatter, method, 1)
    if linked:
        ctx.patch(utils, "load_document_by_uri", lambda path, loadingOptions=None, **k: run)
        s.run = "file:///t.cwl"
    port = ctx.pick("port", 5)
    if port == 3:
        k, got = ctx.call(utils.type_for_step_output, s, BASE + "s1/o", version)
        ctx.check(k == "ok", "the type of a step output can be inferred", got)
        ctx.check(same(got, scattered(T["o"], scatter, method)), "the type of the step output")
        ctx.reach("output")
    elif port == 4:
        k, got = ctx.call(utils.type_for_step_output, s, BASE + "s1/none", version)
        ctx.check(k == "exc" and isinstance(got, ValidationException), "an output that does not exist is an error", got)
        ctx.reach("missing")
    else:
        name = "abc"[port]
        in_ = s.in_[port]
        vf = ctx.pick("vf", 2)
        if vf:
            in_.valueFrom = ctx.one("vft", ["$(self)", ""])
        k, got = ctx.call(utils.type_for_step_input, s, in_, version)
        ctx.check(k == "ok", "the type of a step input can be inferred", got)
        if vf or name == "c":
            ctx.check_eq(got, "Any", "a step input with valueFrom, or not used by the process, takes anything")
            ctx.reach("any")
            return
        t = T["a"] if name == "a" else "File"
        ids = [scatter] if isinstance(scatter, str) else scatter or []
        if in_.id in ids:
            t = array(t)
        ctx.check(same(got, t), "the type of the step input")
        ctx.reach("input")


def source_cfg(tier):
    out = []
    for v in VERSIONS:
        for m in (None, "merge_nested", "merge_flattened"):
            out += [(v, 1, True, m), (v, 1, False, m), (v, 2, False, m)]
            if tier != "quick" and m != "merge_nested":
                out += [(v, 3, False, m)]
    if tier != "quick":
        out += [("v1.2", 2, "short", None)]
    return out


HARNESSES = [
    {"name": "source", "fn": h_source, "configs": source_cfg, "reach": ("inferred", "unknown")},
    {"name": "tool", "fn": h_tool, "configs": {"quick": list(VERSIONS)}, "reach": ("inferred",)},
    {"name": "ports", "fn": h_ports, "configs": {"quick": [(v, l, d) for v in VERSIONS for l in (0, 1) for d in (0, 1) if not (l and d)]},
     "reach": ("input", "output", "any", "missing")},
]
