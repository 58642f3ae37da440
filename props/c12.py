"""C12: JSON schema generation.

closure: the reference graph between definitions is symbolic; `slim_definitions` runs on
it and what it keeps is compared with the reachability formula.
types: processes with symbolic inputs and type definitions go through
`cwl_to_jsonschema`, and an independent JSON schema validator and an independent CWL
type checker have to agree on every job value (also symbolic)."""

import copy

from schema_salad.runtime import LoadingOptions

from cwl_utils import inputs_schema_gen as isg
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2

from . import model  # noqa: F401

ASSUMPTIONS = [
    "types are as the parser leaves them: array and optional shorthands expanded, names absolute; a union has a member besides null",
    "the names of the type definitions stay different after conversion to PascalCase and are none of the predefined ones",
    "the fields of File and Directory objects and numeric ranges are not part of the claim",
]

BASE = "file:///w/p.cwl#"


def BOUNDS(tier):
    return {
        "definitions": "every reference graph over %d definitions and two properties" % (3 if tier == "quick" else 4),
        "types": "primitive, enum, array, record (one optional and one required field), union, named; nested %d deep" % (2 if tier == "quick" else 3),
        "named types": "a record, a record without fields, an enum, an array and a record using another named type",
        "job values": "absent, null, boolean, integer, fraction, string (an enum symbol or not), File, Directory, other object, array of up to one item; "
                      "records with each field absent or present, and a foreign field",
    }


# ------------------------------------------------------------------ closure
def h_closure(ctx):
    n = ctx.config
    names = ["D" + "ab"[:i] if i < 3 else "Dab%d" % i for i in range(n)]  # one part of another
    edge = {}

    def ref(i):
        return {"$ref": "#/definitions/" + names[i]}

    def body(tag, form):
        for i in range(n):
            edge[tag, i] = ctx.bool("%s>%d" % (tag, i))
        out = []
        for i in range(n):
            if edge[tag, i]:
                out.append(ref(i))
        if form == 0:
            return {"type": "object", "properties": {"p%d" % k: r for k, r in enumerate(out)}, "required": []}
        if form == 1:
            return {"anyOf": [{"type": "null"}] + out}
        return {"type": "array", "items": {"anyOf": [{"type": "array", "items": r} for r in out]}}

    schema = {"title": "x", "definitions": {}}
    for i in range(n):
        schema["definitions"][names[i]] = body(str(i), i % 3)
    props = {"a": body("a", ctx.pick("form", 3)), "b": {"type": "string"}}
    schema["properties"] = props
    want = copy.deepcopy(schema)
    kind, got = ctx.call(isg.slim_definitions, schema)
    ctx.check(kind == "ok", "slimming does not fail", got)
    deps_kind, deps = ctx.call(isg.get_property_dependencies, schema["properties"], schema)
    ctx.check(deps_kind == "ok", "the dependencies of a property can be listed", deps)
    r = [[ctx.any([edge[str(i), j]]) for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [[ctx.any([r[i][j], ctx.all([r[i][k], r[k][j]])]) for j in range(n)] for i in range(n)]
    for j in range(n):
        reach = ctx.any([edge["a", j]] + [ctx.all([edge["a", i], r[i][j]]) for i in range(n)])
        ctx.check_eq(names[j] in got["definitions"], reach, "a definition is kept exactly when it is reachable")
        ctx.check(len([d for d in deps if d == names[j]]) == (1 if names[j] in got["definitions"] else 0),
                  "each dependency is listed once", deps)
    for name, d in got["definitions"].items():
        ctx.check_eq(d, want["definitions"][name], "definitions stay as they were")
    ctx.check_eq({k: v for k, v in got.items() if k != "definitions"}, {k: v for k, v in want.items() if k != "definitions"},
                 "the rest of the schema stays as it was")
    ctx.reach("slimmed")


# ------------------------------------------------------------------ the two readings of a type
def json_ok(ctx, v, s, defs):
    """JSON schema (draft 7, the keywords in use) says v is valid."""
    if s is True:
        return True
    if "$ref" in s:
        name = s["$ref"][len("#/definitions/"):]
        if name in ("File", "Directory"):
            # the predefined object types
            return isinstance(v, dict) and v.get("class") == name and name in defs
        if name == "Any":
            return v is not None and name in defs
        ctx.check(name in defs, "no reference of the schema dangles", name)
        return json_ok(ctx, v, defs[name], defs)
    for k in s:
        if k not in ("type", "anyOf", "oneOf", "allOf", "items", "properties", "required", "enum", "description"):
            ctx.fail("a keyword of the schema the check knows", k)
    if "type" in s:
        ts = s["type"] if isinstance(s["type"], list) else [s["type"]]
        if not any(json_type(v, t) for t in ts):
            return False
    if "enum" in s and not any(v == x for x in s["enum"]):
        return False
    if "anyOf" in s and not any([json_ok(ctx, v, x, defs) for x in s["anyOf"]]):
        return False
    if "allOf" in s and not all([json_ok(ctx, v, x, defs) for x in s["allOf"]]):
        return False
    if "oneOf" in s and sum([1 for x in s["oneOf"] if json_ok(ctx, v, x, defs)]) != 1:
        return False
    if "items" in s and isinstance(v, list) and not all([json_ok(ctx, x, s["items"], defs) for x in v]):
        return False
    if isinstance(v, dict):
        for k, x in s.get("properties", {}).items():
            if k in v and not json_ok(ctx, v[k], x, defs):
                return False
        for k in s.get("required", []):
            if k not in v:
                return False
    return True


def json_type(v, t):
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "string":
        return isinstance(v, str)
    if t == "array":
        return isinstance(v, list)
    return isinstance(v, dict)


def cwl_ok(v, t, named):
    """t: ('prim', name) ('enum', symbols) ('array', t) ('record', [(name, t)]) ('union', ts) ('name', n)"""
    k = t[0]
    if k == "prim":
        n = t[1]
        if n == "null":
            return v is None
        if n == "boolean":
            return isinstance(v, bool)
        if n in ("int", "long"):
            return isinstance(v, int) and not isinstance(v, bool)
        if n in ("float", "double"):
            return isinstance(v, (int, float)) and not isinstance(v, bool)
        if n == "string":
            return isinstance(v, str)
        if n == "Any":
            return v is not None
        if n == "stdin":
            n = "File"
        return isinstance(v, dict) and v.get("class") == n
    if k == "enum":
        return isinstance(v, str) and any(v == x for x in t[1])
    if k == "array":
        return isinstance(v, list) and all([cwl_ok(x, t[1], named) for x in v])
    if k == "union":
        return any([cwl_ok(v, x, named) for x in t[1]])
    if k == "name":
        return cwl_ok(v, named[t[1]], named)
    return isinstance(v, dict) and all([cwl_ok(v.get(n), x, named) for n, x in t[1]])


PRIMS = ["int", "string", "float", "boolean", "long", "double", "File", "Directory", "Any"]


def some_type(ctx, n, depth, short=False):
    prims = ["int", "string", "float"] if short else PRIMS
    i = ctx.pick(n, len(prims) + (2 if short else 8) + (4 if depth else 0))
    if i < len(prims):
        return ("prim", prims[i])
    i -= len(prims)
    if short:
        return (("enum", ["x", "y"]), ("name", "RecRef"))[i]
    if i < 8:
        return [("union", [("prim", "int"), ("prim", "string")]), ("union", [("prim", "null"), ("prim", "string")]), ("enum", ["x", "y"]), ("name", "RecPlain"), ("name", "RecEmpty"), ("name", "EnumType"), ("name", "ArrType"), ("name", "RecRef")][i]
    i -= 8
    if i == 0:
        return ("array", some_type(ctx, n + "i", depth - 1))
    if i == 1:
        return ("record", [("f", some_type(ctx, n + "f", depth - 1)), ("g", ("union", [("prim", "null"), ("prim", "string")]))])
    if i == 2:
        return ("union", [("prim", "null"), some_type(ctx, n + "o", depth - 1)])
    return ("union", [some_type(ctx, n + "u", 0, True), some_type(ctx, n + "w", 0)])


NAMED = {
    "RecPlain": ("record", [("a", ("prim", "int")), ("b", ("union", [("prim", "null"), ("prim", "string")])),
                            ("c", ("union", [("prim", "int"), ("prim", "float")]))]),
    "RecEmpty": ("record", []),
    "EnumType": ("enum", ["p", "q"]),
    "ArrType": ("array", ("prim", "int")),
    "RecRef": ("record", [("r", ("union", [("prim", "null"), ("name", "EnumType")])), ("s", ("array", ("name", "ArrType")))]),
}
SPELLING = {"RecPlain": "rec-plain", "RecEmpty": "rec_empty", "EnumType": "enum_type", "ArrType": "arr-type", "RecRef": "rec_ref"}


def to_cwl(t, cls, where):
    k = t[0]
    if k == "prim":
        return t[1]
    if k == "enum":
        return cls.InputEnumSchema(type_="enum", symbols=[where + "/" + x for x in t[1]])
    if k == "array":
        return cls.InputArraySchema(type_="array", items=to_cwl(t[1], cls, where))
    if k == "union":
        return [to_cwl(x, cls, where) for x in t[1]]
    if k == "name":
        return BASE + SPELLING[t[1]]
    return cls.InputRecordSchema(type_="record", fields=[
        cls.InputRecordField(name=where + "/" + n, type_=to_cwl(x, cls, where + "/" + n)) for n, x in t[1]])


def definition(n, cls):
    t = NAMED[n]
    name = BASE + SPELLING[n]
    s = to_cwl(t, cls, name)
    s.name = name
    if n == "RecEmpty":
        s.fields = None
    return s


def some_value(ctx, n, t, named):
    """A job value: of every kind, with the members the type talks about."""
    kind = ctx.one(n, ["null", "bool", "int", "frac", "str", "File", "Directory", "list", "object"])
    if kind == "null":
        return None
    if kind == "bool":
        return True
    if kind == "int":
        return 3
    if kind == "frac":
        return 1.5
    if kind == "str":
        return ctx.enum(n + "s", ["x", "y", "p", "q", "z"])
    if kind in ("File", "Directory"):
        return {"class": kind, "location": "l"}
    if kind == "list":
        items = inner(t, "array", named)
        if not items:
            return [3]
        return [some_value(ctx, n + "i", items[0][1], named)] if ctx.pick(n + "n", 2) else []
    # one field is absent, foreign or of another kind; the others are right
    out = {}
    fields = inner(t, "record", named)
    if not fields:
        return {"z": 1} if ctx.pick(n + "z", 2) else {}
    fields = fields[0][1]
    which = ctx.pick(n + "which", len(fields) + 1)
    for i, (f, ft) in enumerate(fields):
        if i != which:
            out[f] = good_value(ft, named)
        elif ctx.pick(n + "there", 2):
            out[f] = small_value(ctx, n + "." + f)
    if which == len(fields):
        out["z"] = 1
    return out


def small_value(ctx, n):
    kind = ctx.pick(n, 8)
    if kind < 6:
        return [None, 3, 1.5, "x", "p", True][kind]
    if kind == 6:
        return [[3]] if ctx.pick(n + "d", 2) else [3]
    return {"f": 3, "a": 1, "c": 2, "s": [], "class": "File"}


def good_value(t, named):
    k = t[0]
    if k == "prim":
        return {"null": None, "boolean": True, "int": 3, "long": 3, "float": 1.5, "double": 3, "string": "t", "Any": 3}.get(t[1], {"class": t[1], "location": "l"})
    if k == "enum":
        return t[1][-1]
    if k == "array":
        return [good_value(t[1], named)]
    if k == "union":
        return good_value(t[1][-1], named)
    if k == "name":
        return good_value(named[t[1]], named)
    return {n: good_value(x, named) for n, x in t[1]}


def inner(t, kind, named):
    """The types of that kind among what t admits."""
    if t[0] == kind:
        return [t]
    if t[0] == "union":
        return [y for x in t[1] for y in inner(x, kind, named)]
    if t[0] == "name":
        return inner(named[t[1]], kind, named)
    return []


def h_types(ctx):
    version, depth = ctx.config
    cls = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}[version]
    t = some_type(ctx, "t", depth)
    if version != "v1.0" and t == ("prim", "File") and ctx.pick("stdin", 2):
        t = ("prim", "stdin")
    default = ctx.one("default", [None, 7, 0, False, ""] if t[0] == "prim" else [None, 7 if t[0] == "name" else 0]) if t[0] in ("prim", "name") or depth == 1 else None
    has_default = default is not None
    defs = [definition(n, cls) for n in NAMED]
    idx = {}
    for d in defs:
        if isinstance(d, cls.InputRecordSchema):
            idx[d.name] = (d, None)
    opts = LoadingOptions(fileuri="file:///w/p.cwl", idx=idx)
    wf = ctx.pick("workflow", 2) if t[0] == "prim" and t[1] != "stdin" else t[0] in ("name", "array")
    port = cls.CommandInputParameter if not wf else cls.InputParameter if version == "v1.0" else cls.WorkflowInputParameter
    inputs = [port(id=BASE + "main/in", type_=to_cwl(t, cls, BASE + "main/in"), doc="text", default=default),
              port(id=BASE + "main/other", type_="string")]
    reqs = [cls.InlineJavascriptRequirement(), cls.SchemaDefRequirement(types=defs)]
    proc = (cls.Workflow(id=BASE + "main", inputs=inputs, outputs=[], steps=[], requirements=reqs, loadingOptions=opts) if wf else
            cls.CommandLineTool(id=BASE + "main", inputs=inputs, outputs=[], requirements=reqs, loadingOptions=opts))
    kind, schema = ctx.call(isg.cwl_to_jsonschema, proc)
    ctx.check(kind == "ok", "every process has a schema", schema)
    dfs = schema["definitions"]
    # what is there is used
    used = references(t, NAMED)
    for n in NAMED:
        ctx.check((n in dfs) == (n in used), "a type is defined exactly when it is used", sorted(dfs))
    nullable = t[0] == "union" and ("prim", "null") in t[1]
    ctx.check_eq(sorted(schema["required"]), ["other"] if nullable or has_default else ["in", "other"],
                 "an input is required exactly when it may not be null and has no default")
    ctx.check_eq(sorted(schema["properties"]), ["in", "other"], "every input is a property")
    ctx.check_eq(schema["type"], "object", "a job is an object")
    if default is not None and default != 7:
        return
    # the job values
    v = some_value(ctx, "v", t, NAMED)
    said = json_ok(ctx, v, schema["properties"]["in"], dfs)
    want = cwl_ok(v, t, NAMED)
    if has_default and v is None:
        want = True
    ctx.check_eq(said, want, "the schema admits exactly the values of the type")
    ctx.reach("valid" if want else "invalid")


def references(t, named):
    if t[0] == "name":
        return {t[1]} | references(named[t[1]], named)
    if t[0] == "prim" or t[0] == "enum":
        return set()
    if t[0] == "array":
        return references(t[1], named)
    if t[0] == "union":
        return set().union(*[references(x, named) for x in t[1]])
    return set().union(*[references(x, named) for _, x in t[1]])


def types_cfg(tier):
    if tier == "quick":
        return [("v1.0", 1), ("v1.1", 1), ("v1.2", 1)]
    return [("v1.0", 2), ("v1.1", 2), ("v1.2", 2)]


HARNESSES = [
    {"name": "closure", "fn": h_closure, "configs": {"quick": [3], "thorough": [3, 4]}, "reach": ("slimmed",)},
    {"name": "types", "fn": h_types, "configs": types_cfg, "reach": ("valid", "invalid")},
]
