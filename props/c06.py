"""C06: static checking of workflows.  Whole workflow objects of all three versions
(steps with embedded tools, scatter, conditions, loops, merges, pick methods, shared
sources, unknown sources, listing order) are built from solver-chosen parts;
`static_checker` runs symbolically and its verdict is compared with a reference that
judges every link on its own."""

import logging
import re

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema

import cwl_utils.parser.cwl_v1_0 as cwl0
import cwl_utils.parser.cwl_v1_1 as cwl1
import cwl_utils.parser.cwl_v1_2 as cwl2
import cwl_utils.utils
from props.model import OPTS
from cwl_utils.parser import cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils, utils

from props.c04 import fits, flat

UTILS = (utils, cwl_v1_0_utils, cwl_v1_1_utils, cwl_v1_2_utils)
VERSIONS = {"v1.0": cwl0, "v1.1": cwl1, "v1.2": cwl2}
ASSUMPTIONS = [
    "identifiers are unique and the ports of a step have different names",
    "the processes run by steps are embedded; every step input without source takes null",
    "the text of messages is not part of the claim, except that the ports of every incompatible link are named",
]


def BOUNDS(tier):
    return {
        "workflow": "two inputs, two steps with two inputs and one output each, two outputs",
        "links": "1..2 sinks with 1..%d sources each, sources shared or not, one may be unknown" % (2 if tier == "quick" else 3),
        "types": "null, Any, int%s symbolic; on single links also arrays and 2-member unions of them" % (
            "" if tier == "quick" else ", File"),
        "scatter": "none, dotproduct and nested_crossproduct over one or two inputs",
        "v1.2": "when on either step, loop with both output methods, pickValue none and the three methods",
    }


ATOMS = ["null", "Any", "int", "File"]
BASE = "file:///w.cwl#"


def typ(ctx, n, deep):
    a = lambda s="": ctx.enum(n + s, ATOMS if deep in (1, 4) else ATOMS[:3])  # noqa: E731
    if deep < 2:
        return a()

    def union():
        u0, u1 = a("u0"), a("u1")
        ctx.assume(u0 != u1)
        return [u0, u1]

    return ctx.lazy(n + "?", [lambda: a(), lambda: ArraySchema(items=a("i"), type_="array"), union])


def array(t, times=1):
    for _ in range(times):
        t = ArraySchema(items=t, type_="array")
    return t


class Step:
    """What the reference knows of a step."""

    def __init__(self, ctx, cwl, sid, types, feature, free):
        self.id, self.types = sid, types
        self.scatter, self.method, self.when, self.loop = [], None, False, None
        reqs = None
        feature = feature or ""
        if "scatter" in feature:
            k = ctx.pick(sid + "#scatter", 3) if free else 1
            self.scatter = [[], ["a"], ["a", "b"]][k]
            self.method = ctx.one(sid + "#method", ["dotproduct", "nested_crossproduct"]) if k == 2 else None
        if "when" in feature:
            self.when = bool(ctx.pick(sid + "#when", 2)) if free and feature == "when" else True
        if "loop" in feature:
            self.loop = ctx.one(sid + "#loop", ["all", "last"])
            reqs = [cwl.Loop(loop=[], loopWhen="$(true)", outputMethod=self.loop)]
        tid = BASE + sid + "/run"
        tool = cwl.CommandLineTool(loadingOptions=OPTS,
            id=tid, inputs=[cwl.CommandInputParameter(loadingOptions=OPTS, id=tid + "/" + k, type_=types[k]) for k in "ab"],
            outputs=[cwl.CommandOutputParameter(loadingOptions=OPTS, id=tid + "/o", type_=types["o"])])
        kw = {}
        if self.when:
            kw["when"] = "$(inputs.b)"
        ids = [BASE + sid + "/" + k for k in self.scatter]
        self.obj = cwl.WorkflowStep(loadingOptions=OPTS,
            id=BASE + sid, run=tool, out=[BASE + sid + "/o"], requirements=reqs,
            scatter=(ids[0] if len(ids) == 1 and free else ids) or None, scatterMethod=self.method,
            in_=[cwl.WorkflowStepInput(loadingOptions=OPTS, id=BASE + sid + "/" + k) for k in "ab"], **kw)

    def out_type(self):
        t = self.types["o"]
        return array(t, len(self.scatter) if self.method == "nested_crossproduct" else 1) if self.scatter else t

    def in_type(self, k):
        return array(self.types[k]) if k in self.scatter else self.types[k]


def link_verdict(src_type, sink_type, nsources, merge, pick, when, loop, value_from, scattered=False):
    """pass, warning or exception, for one link on its own."""
    if value_from:
        return "pass"
    t = src_type
    inside = None
    if when and scattered:
        # a condition is evaluated within a scatter: where null in the items and
        # null instead of the array are judged differently, no claim is made
        inside = link_verdict(null_inside(src_type), sink_type, nsources, merge, pick, False, loop, None)
    v = _link_verdict(t, sink_type, nsources, merge, pick, when, loop)
    return v if inside is None or v == inside or v == "exception" else "either"


def null_inside(t):
    if isinstance(t, ArraySchema):
        return array(null_inside(t.items))
    if isinstance(t, list):
        return ["null"] + t
    return ["null", t]


def _link_verdict(t, sink_type, nsources, merge, pick, when, loop):
    if when and (nsources == 1 or pick is None):
        if isinstance(t, list):
            has = False
            for x in t:
                if x == "null":
                    has = True
            t = t if has else ["null"] + t
        elif not bool(t == "null"):
            t = ["null", t]
        else:
            t = ["null"]
    if loop == "all":
        t = array(t)
    if merge is None and nsources > 1:
        merge = "merge_nested"
    if pick in ("first_non_null", "the_only_non_null"):
        merge = None
    if merge == "merge_nested":
        t = array(t)
    elif merge == "merge_flattened":
        t = flat(t)
    if fits(t, sink_type, True):
        return "pass"
    return "warning" if fits(t, sink_type, False) else "exception"


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__()
        self.count = 0

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.count += 1


def run(ctx, wf):
    ctx.patch(cwl_utils.utils, "yaml_dumps", lambda obj: "...")
    for m in UTILS:
        if hasattr(m, "save"):
            ctx.put(m, "save", lambda *a, **k: {})
    log = logging.getLogger("cwl_utils")
    for h in list(log.handlers):
        log.removeHandler(h)
    rec = Recorder()
    log.addHandler(rec)
    log.propagate = False
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        kind, got = ctx.call(utils.static_checker, wf)
    finally:
        logging.disable(old)
        log.removeHandler(rec)
    return kind, got, rec.count


def build(ctx, version, features, deep, ports, free=True):
    """Only the linked ports have symbolic types; every other input takes null."""
    cwl = VERSIONS[version]

    def port(name, rest, deep=deep):
        return typ(ctx, name.replace("/", ""), deep) if name in ports else rest
    steps = {}
    for sid, f in zip(("s1", "s2"), features):
        types = {"a": port(sid + "/a", ["null", "Any"]), "b": ["null", "Any"], "o": port(sid + "/o", "int")}
        steps[sid] = Step(ctx, cwl, sid, types, f, free)
    P = getattr(cwl, "WorkflowInputParameter", None) or cwl.InputParameter
    ins = {"i0": port("i0", "int"), "i1": port("i1", "File")}
    outs = {"w0": port("w0", "Any"), "w1": port("w1", "Any")}
    wf = cwl.Workflow(loadingOptions=OPTS,
        id="file:///w.cwl", cwlVersion=version, inputs=[P(loadingOptions=OPTS, id=BASE + k, type_=t) for k, t in ins.items()],
        outputs=[cwl.WorkflowOutputParameter(loadingOptions=OPTS, id=BASE + k, type_=t) for k, t in outs.items()],
        steps=[s.obj for s in steps.values()])
    return wf, steps, ins, outs


def attach(wf, steps, sink, sources, merge=None, pick=None, value_from=None, as_list=True):
    field = [BASE + s for s in sources] if len(sources) > 1 or as_list else BASE + sources[0]
    if "/" in sink:
        obj = [x for x in steps[sink.split("/")[0]].obj.in_ if x.id == BASE + sink][0]
        obj.source, obj.linkMerge, obj.valueFrom = field, merge, value_from
    else:
        obj = [x for x in wf.outputs if x.id == BASE + sink][0]
        obj.outputSource, obj.linkMerge = field, merge
    if pick is not None:
        obj.pickValue = pick


def judge(ctx, wf, steps, ins, outs, links):
    """links: (sink, sources, merge, pick, valueFrom)."""
    unknown = False
    worst = "pass"
    either = False
    bad = []
    for sink, sources, merge, pick, vf in links:
        if "/" in sink:
            sid, k = sink.split("/")
            sink_t = steps[sid].in_type(k)
        else:
            sink_t = outs[sink]
        for s in sources:
            if s == "nope" or s == "s1/nope":
                unknown = True
                continue
            if "/" in s:
                st = steps[s.split("/")[0]]
                t, when, loop = st.out_type(), st.when, st.loop
            else:
                t, when, loop = ins[s], False, None
            v = link_verdict(t, sink_t, len(sources), merge, pick, when, loop, vf, "/" in s and bool(steps[s.split("/")[0]].scatter))
            either = either or v == "either"
            if v == "exception":
                bad += [s, sink]
            if v == "exception" or (v == "warning" and worst == "pass"):
                worst = v
    kind, got, warnings = run(ctx, wf)
    if unknown:
        ctx.check(kind == "exc" and isinstance(got, ValidationException), "an unknown source is reported", got)
        ctx.reach("unknown")
    elif worst == "exception":
        ctx.check(kind == "exc", "an incompatible link is reported")
        ctx.check(isinstance(got, ValidationException), "an incompatible link is a validation error", got)
        said = re.findall(r"\w+", str(got))
        names = [x.split("/")[-1] for x in bad]
        ctx.check(all(said.count(x) >= names.count(x) for x in names), "every incompatible link is named", " / ".join(str(got).split("\n")))
        ctx.reach("incompatible")
    else:
        ctx.check(kind == "ok", "compatible links are accepted", got)
        if worst == "warning":
            ctx.check(warnings > 0, "a partly compatible link gives a warning")
            ctx.reach("warning")
        elif not either:
            plain = True
            for s in steps.values():
                plain = plain and not s.when
            for link in links:
                plain = plain and link[3] is None
            if plain:
                ctx.check(warnings == 0, "compatible links give no warning")
            ctx.reach("accepted")


MERGES = [None, "merge_nested", "merge_flattened"]
PICKS = [None, "first_non_null", "the_only_non_null", "all_non_null"]


def h_single(ctx):
    """One link, all its options, types with structure."""
    version, source, sink, feature, deep = ctx.config
    wf, steps, ins, outs = build(ctx, version, (feature, feature if sink == "s2/a" and feature in ("scatter", "scatter+when") else None), deep,
                                   (source, sink))
    merge = ctx.one("merge", MERGES)
    pick = ctx.one("pickValue", PICKS) if version == "v1.2" else None
    vf = ctx.one("valueFrom", [None, "$(self)"]) if "/" in sink and pick is None else None
    as_list = merge == "merge_nested"
    attach(wf, steps, sink, [source], merge, pick, vf, as_list)
    judge(ctx, wf, steps, ins, outs, [(sink, [source], merge, pick, vf)])


def h_shared(ctx):
    """Two links; sources shared between sinks, in every listing order."""
    version, f1, f2, n, deep = ctx.config
    cands = ["s1/o", "i0"] + (["s2/o"] if n == 1 else [])
    links = []
    for i, sinks in enumerate((["s2/a", "w0"], ["w1"])):
        sink = ctx.one("sink%d" % i, sinks)
        sources = [ctx.one("src%d" % i, [c for c in cands if not (c[:2] == sink[:2] and "/" in sink)])]
        if n == 2 and i == 0:
            sources += [ctx.one("src%db" % i, [c for c in ["s1/o", "i0", "i1"] if c not in sources])]
        pick = ctx.one("pick%d" % i, PICKS[:2] + PICKS[3:]) if version == "v1.2" and i == 0 else None
        links.append((sink, sources, None, pick, None))
    ports = {x for l in links for x in [l[0]] + l[1]}
    wf, steps, ins, outs = build(ctx, version, (f1, f2), deep, ports, free=False)
    for sink, sources, merge, pick, vf in links:
        attach(wf, steps, sink, sources, merge, pick, vf)
    if ctx.pick("order", 2):
        wf.steps.reverse()
        wf.outputs.reverse()
        wf.inputs.reverse()
        for s in wf.steps:
            s.in_.reverse()
    judge(ctx, wf, steps, ins, outs, links)


def h_many(ctx):
    """One sink with several sources, some perhaps unknown."""
    version, n, f1, deep = ctx.config
    sink = ctx.one("sink", ["s2/a", "w0"])
    cands = ["s1/o", "i0", "nope", "i1", "s1/nope"]
    sources = []
    for i in range(n):
        sources.append(ctx.one("src%d" % i, [c for c in cands if c not in sources]))
    merge = ctx.one("merge", MERGES)
    pick = ctx.one("pickValue", PICKS) if version == "v1.2" else None
    vf = ctx.one("valueFrom", [None, "$(self)"]) if "/" in sink else None
    wf, steps, ins, outs = build(ctx, version, (f1, None), deep, [sink] + sources, free=False)
    attach(wf, steps, sink, sources, merge, pick, vf)
    judge(ctx, wf, steps, ins, outs, [(sink, sources, merge, pick, vf)])


def single_cfg(tier):
    out = []
    for v in VERSIONS:
        feats = ["scatter"] + (["when", "loop", "scatter+when", "scatter+loop"] if v == "v1.2" else [])
        for f in feats:
            for sink in ("s2/a", "w0"):
                out.append((v, "s1/o", sink, f))
        out += [(v, "i0", "s2/a", None), (v, "i0", "s2/a", "scatter"), (v, "i0", "w0", None)]
    return [c + (3 if tier == "quick" else 4,) for c in out]


def shared_cfg(tier):
    out = []
    for v in VERSIONS:
        feats = [None, "scatter"] + (["when", "loop", "scatter+when"] if v == "v1.2" else [])
        out += [(v, f, None, n) for f in feats for n in (1, 2) if tier != "quick" or v == "v1.2" or (f is None) == (n == 2)]
        if v == "v1.2":
            out += [(v, "when", "loop", 1), (v, "loop", "scatter", 1)]
    return [c + (0 if tier == "quick" else 1,) for c in out]


def many_cfg(tier):
    out = []
    for v in VERSIONS:
        feats = [None] + (["when", "loop"] if v == "v1.2" else ["scatter"])
        out += [(v, 2, f) for f in feats]
        if tier != "quick":
            out += [(v, 3, f) for f in feats]
    return [c + (0 if tier == "quick" else 1,) for c in out]


HARNESSES = [
    {"name": "single", "fn": h_single, "configs": single_cfg, "reach": ("incompatible", "warning", "accepted")},
    {"name": "shared", "fn": h_shared, "configs": shared_cfg, "reach": ("incompatible", "warning", "accepted")},
    {"name": "many", "fn": h_many, "configs": many_cfg, "reach": ("incompatible", "accepted", "unknown")},
]
