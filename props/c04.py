"""C04: type assignability.  Source and sink types are built lazily from
solver-chosen shapes (names are symbols, arrays, records and unions grow only where
the code looks), and the verdict of `check_types` is compared with a reference
relation that runs on the same symbolic types."""

from schema_salad.exceptions import ValidationException
from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema

import cwl_utils.parser.cwl_v1_0 as cwl0
import cwl_utils.parser.cwl_v1_1 as cwl1
import cwl_utils.parser.cwl_v1_2 as cwl2
from cwl_utils.parser import utils

ASSUMPTIONS = [
    "type objects are the ones of the cwl-utils object model; unions are non-empty lists",
    "once inside a union the members are compared leniently (as cwltool does)",
]


def BOUNDS(tier):
    return {
        "names": "null, Any, int, string, File and one URI name, symbolic",
        "shapes": "arrays, enums of 1..2 of two symbols, unions of 1..%d members, records with any subset of two fields, depth %d" % (
            (2, 2) if tier == "quick" else (3, 2)),
        "linkMerge": "none, merge_nested, merge_flattened and an unknown word", "valueFrom": "present or not",
    }


ATOMS = ["null", "Any", "int", "string", "File", "file:///d.cwl#name"]


def typ(ctx, n, depth, side, ver, members, records=True):
    a = lambda: ctx.enum(n, ATOMS)  # noqa: E731
    if depth == 0:
        return a()
    cwl = (cwl0, cwl1, cwl2)[ver]

    def sub(s, d=1):
        return typ(ctx, n + s, depth - d, side, ver, members, records)

    def array():
        return (cwl.CommandOutputArraySchema if side == "src" else cwl.CommandInputArraySchema)(
            items=sub("i"), type_="array")

    def record():
        R = cwl.CommandOutputRecordSchema if side == "src" else cwl.CommandInputRecordSchema
        F = cwl.CommandOutputRecordField if side == "src" else cwl.CommandInputRecordField
        names = ["a", "b"]
        have = ctx.pick(n + "#r", 4)
        base = "file:///%s.cwl#%s/rec/" % (side, n)
        fields = [F(name=base + k, type_=sub("r" + k)) for i, k in enumerate(names) if have >> i & 1]
        return R(type_="record", fields=fields if fields else None)

    def enum():
        E = cwl.CommandOutputEnumSchema if side == "src" else cwl.CommandInputEnumSchema
        have = 1 + ctx.pick(n + "#e", 3)
        return E(symbols=["file:///%s.cwl#%s/e/%s" % (side, n, k) for i, k in enumerate(["x", "y"]) if have >> i & 1],
                 type_="enum", name="file:///%s.cwl#%s/e" % (side, n))

    alts = [a, array]
    if records:
        alts += [record, enum]
    alts += [lambda k=k: [sub("u%d" % i) for i in range(k)] for k in range(1, members + 1)]
    return ctx.lazy(n + "?", alts)


def is_any(t):
    return isinstance(t, str) and t == "Any"


def fields(r):
    out = {}
    for f in r.fields or []:
        out[f.name.split("/")[-1]] = f.type_
    return out


def fits(src, sink, strict):
    """The assignability relation, from the CWL specification."""
    if is_any(src) or is_any(sink):
        return True
    if isinstance(src, list):
        if strict:
            for s in src:
                if not fits(s, sink, False):
                    return False
            return True
        for s in src:
            if isinstance(s, str) and s == "null":
                continue
            if fits(s, sink, False):
                return True
        return False
    if isinstance(sink, list):
        for t in sink:
            if fits(src, t, False):
                return True
        return False
    if isinstance(src, ArraySchema):
        return isinstance(sink, ArraySchema) and fits(src.items, sink.items, strict)
    if isinstance(src, RecordSchema):
        if not isinstance(sink, RecordSchema):
            return False
        have = fields(src)
        for k, t in fields(sink).items():
            if not fits(have[k] if k in have else "null", t, strict):
                return False
        return True
    if isinstance(src, EnumSchema):
        if not isinstance(sink, EnumSchema):
            return False
        a = {x.split("/")[-1] for x in src.symbols}
        b = {x.split("/")[-1] for x in sink.symbols}
        return a <= b if strict else bool(a & b)
    if isinstance(sink, (ArraySchema, RecordSchema, EnumSchema)):
        return False
    return bool(src == sink)


def flat(t):
    if isinstance(t, list):
        return [flat(x) for x in t]
    if isinstance(t, ArraySchema):
        return t
    return ArraySchema(items=t, type_="array")


def verdict(src, sink):
    if fits(src, sink, True):
        return "pass"
    return "warning" if fits(src, sink, False) else "exception"


def h_verdict(ctx):
    merge, ds, dk, ver, members, records = ctx.config
    src = typ(ctx, "s", ds, "src", ver, members, records)
    sink = typ(ctx, "k", dk, "sink", ver, members, records)
    kind, got = ctx.call(utils.check_types, src, sink, merge, None)
    ctx.check(kind == "ok", "the types can always be compared", got)
    if merge == "merge_nested":
        src = ArraySchema(items=src, type_="array")
    elif merge == "merge_flattened":
        src = flat(src)
    want = verdict(src, sink)
    ctx.reach(want)
    ctx.check_eq(got, want, "the verdict on the two types")


def h_special(ctx):
    src = typ(ctx, "s", 1, "src", 2, 2)
    sink = typ(ctx, "k", 1, "sink", 2, 2)
    merge = ctx.one("m", [None, "merge_nested", "merge_flattened", "merge", ""])
    if ctx.pick("v", 2):
        kind, got = ctx.call(utils.check_types, src, sink, merge, ctx.one("vf", ["$(self)", ""]))
        ctx.check(kind == "ok" and got == "pass", "a sink with valueFrom passes", got)
        ctx.reach("valueFrom")
    elif merge in ("merge", ""):
        kind, got = ctx.call(utils.check_types, src, sink, merge, None)
        ctx.check(kind == "exc" and isinstance(got, ValidationException), "an unknown linkMerge is rejected", got)
        ctx.reach("rejected")


def h_flat(ctx):
    depth, members = ctx.config
    src = typ(ctx, "s", depth, "src", 2, members)
    kind, got = ctx.call(utils.merge_flatten_type, src)
    ctx.check(kind == "ok", "every type can be flattened", got)
    ctx.check(same(got, flat(src)), "the flattened type")
    ctx.reach("flattened")


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if isinstance(a, ArraySchema) and isinstance(b, ArraySchema) and a is not b:
        return same(a.items, b.items)
    return bool(a == b) if isinstance(a, str) else a is b


def cfg(tier):
    out = []
    for merge in (None, "merge_nested", "merge_flattened"):
        if tier == "quick":
            out += [(merge, 2, 1, 2, 1, True), (merge, 1, 2, 2, 1, True), (merge, 2, 2, 2, 1, False), (merge, 2, 1, 2, 2, False), (merge, 1, 2, 2, 2, False),
                    (merge, 1, 1, 0, 2, True), (merge, 1, 1, 1, 2, True)]
        else:
            out += [(merge, 2, 1, 2, 2, True), (merge, 1, 2, 2, 2, True), (merge, 2, 2, 2, 1, True),
                    (merge, 1, 1, 0, 3, True), (merge, 1, 1, 1, 3, True)]
    return out


HARNESSES = [
    {"name": "verdict", "fn": h_verdict, "configs": cfg, "reach": ("pass", "warning", "exception")},
    {"name": "special", "fn": h_special, "configs": {"quick": [None]}, "reach": ("valueFrom", "rejected")},
    {"name": "flat", "fn": h_flat, "configs": {"quick": [(2, 2)], "thorough": [(2, 3)]}, "reach": ("flattened",)},
]
