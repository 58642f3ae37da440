"""C20: user-defined types are replaced by their definitions.  Documents with type
definitions (in the document, in imported files, in an imported requirement) and types
that use them are built from solver-chosen parts; the real code collects the
definitions and inlines them, and an independent reader compares what the types mean
before and after.  Imported files come from an in-memory store keyed by the URL that
the code computes."""

import contextlib
import copy
import functools
import io
import urllib.parse

from cwl_utils import errors, pack, schemadef, utils

from sx import shadow

from . import state

shadow.urllib_parse()
ASSUMPTIONS = [
    "definitions are not recursive and are records, arrays or enums; names are unique within a file",
    "imported files are in a store keyed by their URL; reading and parsing them is not part of the claim",
    "types written in place have no name that a definition also has; names of definitions carry no #",
]
BUILTIN = ["null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any"]
state.snapshot(schemadef)


def BOUNDS(tier):
    return {"types": "nesting depth %d: built-in and defined names with ?, [], []?, [][], ?[]; unions, arrays, records, enums, imports" % (2 if tier == "quick" else 3),
            "definitions": "3 in up to 3 files (the document, an imported file, an imported requirement), each using the earlier ones",
            "ports": "1..2 per section, listed or imported, in list or map form",
            "text": "type texts of 1..%d characters out of a b # ? [ ] and a dot" % (5 if tier == "quick" else 6)}


class Store:
    def __init__(self, files):
        self.files = files

    def load_linked_file(self, base_url, link, is_import=False):
        url = utils.resolved_path(base_url, link)
        text = url.geturl()
        if text not in self.files:
            raise OSError("no such file: " + text)
        return copy.deepcopy(self.files[text]), url


def use(ctx, files):
    state.fresh(schemadef)
    ctx.patch(utils, "load_linked_file", Store(files).load_linked_file)


def quiet(fn):
    @functools.wraps(fn)
    def run(ctx):
        with contextlib.redirect_stderr(io.StringIO()):
            return fn(ctx)
    return run


# ------------------------------------------------------------ what a type means
class Undefined(Exception):
    pass


class Named(Exception):
    """A name where none should be left."""


def meaning(t, here, defs, files):
    if isinstance(t, str):
        if t.endswith("[]"):
            return ("array", meaning(t[:-2], here, defs, files), {})
        if t.endswith("?"):
            return union([("name", "null"), meaning(t[:-1], here, defs, files)])
        for b in BUILTIN:
            if t == b:
                return ("name", b)
        if here is None:
            raise Named(t)
        url, _, name = t.partition("#")
        where = urllib.parse.urljoin(here, url) if "#" in t and url else here
        name = name if "#" in t else t
        for (file, n), d in defs:
            if file == where and n == name:
                return meaning(d, file, defs, files)
        raise Undefined(t)
    if isinstance(t, list):
        return union([meaning(x, here, defs, files) for x in t])
    if list(t) == ["$import"]:
        if here is None:
            raise Named(t)
        where = urllib.parse.urljoin(here, t["$import"])
        return meaning(files[where], where, defs, files)
    kind = t["type"]
    rest = {k: v for k, v in t.items() if k not in ("type", "name", "items", "fields", "symbols")}
    if isinstance(kind, str):
        if kind == "array":
            return ("array", meaning(t["items"], here, defs, files), rest)
        if kind == "enum":
            return ("enum", t["symbols"], rest)
        if kind == "record":
            fields = t["fields"]
            if isinstance(fields, dict) and "$import" in fields:
                here = urllib.parse.urljoin(here, fields["$import"])
                fields = files[here]
            return ("record", [(n, meaning(f, here, defs, files), r) for n, f, r in listed(fields)], rest)
    return meaning(kind, here, defs, files)


def listed(fields):
    if isinstance(fields, dict):
        fields = [dict(v, name=k) if isinstance(v, dict) and "type" in v else {"name": k, "type": v} for k, v in fields.items()]
    return [(f["name"], f["type"] if simple(f) else {k: v for k, v in f.items() if k != "name"},
             {k: v for k, v in f.items() if k not in ("name", "type")} if simple(f) else {}) for f in fields]


def simple(f):
    """Does the entry carry its type (or is it itself written like one)?"""
    return not (isinstance(f["type"], str) and f["type"] in ("array", "record", "enum"))


def union(members):
    out = []
    for m in members:
        if m[0] == "union":
            out.extend(m[1])
        else:
            out.append(m)
    return ("union", out) if len(out) != 1 else out[0]


def same(ctx, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "union":
        return ctx.all([ctx.any([same(ctx, x, y) for y in b[1]]) for x in a[1]]
                       + [ctx.any([same(ctx, x, y) for x in a[1]]) for y in b[1]])
    if a[0] == "array":
        return ctx.all([same(ctx, a[1], b[1]), ctx.eq(a[2], b[2])])
    if a[0] == "record":
        if len(a[1]) != len(b[1]):
            return False
        return ctx.all([ctx.eq(a[2], b[2])] + [ctx.all([ctx.eq(x[0], y[0]), same(ctx, x[1], y[1]), ctx.eq(x[2], y[2])]) for x, y in zip(a[1], b[1])])
    return ctx.eq(list(a[1:]), list(b[1:]))


# ------------------------------------------------------------ documents
BASE = "file:///d/main.cwl"
LIB = "file:///d/sub/lib.yml"
OTHER = "file:///d/sub/other.yml"
REQ = "file:///d/req/req.yml"


def ref(file, name, here):
    """The ways to write the name of a definition in a file."""
    way = {BASE: "main.cwl", LIB: "sub/lib.yml", OTHER: "sub/other.yml", REQ: "req/req.yml"}[file]
    if file == here:
        return [name, "#" + name, file + "#" + name]
    if here != BASE:
        way = "../" + way
    return [way + "#" + name, file + "#" + name]


SUFFIX = ["", "?", "[]", "[]?", "[][]", "?[]"]


def leaf(ctx, n, names):
    """A built-in or defined name, with a shorthand."""
    alts = [lambda: ctx.enum(n + "b", ["int", "string", "File"])]
    for i, ws in enumerate(names):
        alts.append(lambda ws=ws, i=i: ws[ctx.pick(n + "w%d" % i, len(ws))])
    t = ctx.lazy(n + "n", alts)
    return t + ctx.one(n + "s", SUFFIX)


def plain(ctx, n, names):
    ws = ["int"] + [w[0] for w in names]
    return ctx.one(n, ws + ["string?"] + ([names[-1][0] + "[]"] if names else []))


def tree(ctx, n, names, depth, part=None):
    """A type; names: spellings of the definitions it can use."""
    if depth == 0:
        return plain(ctx, n, names)
    sub = depth - 1
    alts = [
        lambda: leaf(ctx, n, names),
        lambda: [tree(ctx, n + "0", names, sub), tree(ctx, n + "1", names, 0)],
        lambda: ctx.maybe(n + "a", {"type": "array", "items": tree(ctx, n + "i", names, sub)}, {"inputBinding": {"position": 1}}),
        lambda: {"type": "record", "fields": fields(ctx, n, names, sub)},
        lambda: {"type": "enum", "symbols": ["x", "y"]},
        lambda: [{"type": "array", "items": [tree(ctx, n + "j", names, 0), "null"]}, tree(ctx, n + "k", names, sub)],
    ]
    if part is not None:
        return alts[part]()
    return ctx.lazy(n, alts)


def fields(ctx, n, names, depth):
    f, g = tree(ctx, n + "f", names, depth), plain(ctx, n + "g", names)
    form = ctx.pick(n + "form", 3)
    if form == 0:
        return [{"name": "f", "type": f, "doc": "the f"}, {"name": "g", "type": g}]
    if form == 1:
        return {"f": {"type": f, "doc": "the f"}, "g": g}
    return {"g": g, "f": f}


def definition(ctx, n, name, names):
    used = ["int"] + [w[0] for w in names] + [w[1] + "?" for w in names]
    return ctx.lazy(n, [
        lambda: {"name": name, "type": "record", "fields": [{"name": "f", "type": ctx.one(n + "f", used), "doc": "x"}]},
        lambda: {"name": name, "type": "array", "items": ctx.one(n + "i", used)},
        lambda: {"name": name, "type": "enum", "symbols": ["p", "q"], "doc": "e"},
    ])


def run(ctx, doc, ports, defs, files, check=True):
    """Collect and inline; what every port means is unchanged."""
    url = urllib.parse.urlparse(BASE)
    was = copy.deepcopy(doc)
    kind, types = ctx.call(schemadef.build_user_defined_type_dict, doc, url)
    ctx.check(kind == "ok", "the definitions are collected", types)
    kept = copy.deepcopy(types)
    for port, entries in ports:
        wanted, undefined = [], False
        for n, t, r in entries:
            try:
                wanted.append((n, meaning(t[1], t[0], defs, files), r))
            except Undefined:
                undefined = True
        kind, got = ctx.call(schemadef.inline_types, doc, port, url, types)
        if undefined:
            ctx.check(kind == "exc" and isinstance(got, RuntimeError), "an undefined name is an error", got)
            ctx.reach("undefined")
            return
        ctx.check(kind == "ok", "the types are inlined", got)
        ctx.check(len(got[port]) == len(wanted), "every parameter is kept", got[port])
        for g, (n, m, r) in zip(got[port], wanted):
            ctx.check_eq(g.get("id"), n, "a parameter keeps its name")
            try:
                now = meaning(g["type"], None, [], {})
            except Named as e:
                ctx.fail("no name of a definition is left", e)
            ctx.check(same(ctx, now, m), "the type means the same", (g["type"], m))
            ctx.check_eq({k: v for k, v in g.items() if k not in ("id", "type")}, r, "everything else of the parameter is kept")
        ctx.reach("inlined")
    ctx.check_eq(types, kept, "the definitions stay as they were")
    ctx.check_eq({k: v for k, v in doc.items() if k not in ("inputs", "outputs", "requirements")},
                 {k: v for k, v in was.items() if k not in ("inputs", "outputs", "requirements")}, "the rest of the document stays")


def tool(inputs, outputs, requirements):
    return {"class": "CommandLineTool", "inputs": inputs, "outputs": outputs, "requirements": requirements}


@quiet
def h_type(ctx):
    """Every type over a fixed set of definitions."""
    depth, part = ctx.config
    lib = [{"name": "L", "type": "record", "fields": {"a": "int", "b": "#M?"}}, {"name": "M", "type": "enum", "symbols": ["x", "y"]}]
    own = {"name": "T", "type": "array", "items": "sub/lib.yml#L"}
    files = {LIB: lib}
    defs = [((LIB, "L"), lib[0]), ((LIB, "M"), lib[1]), ((BASE, "T"), own)]
    names = [ref(LIB, "L", BASE), ref(BASE, "T", BASE), ["#L", "T2", "sub/lib.yml#T", "#"]]
    t = tree(ctx, "t", names[:2] if part else names, depth, part)
    use(ctx, files)
    doc = tool([{"id": "x", "type": t, "doc": "d"}], [{"id": "o", "type": "sub/lib.yml#L"}],
               [{"class": "SchemaDefRequirement", "types": [{"$import": "sub/lib.yml"}, own]}])
    want = copy.deepcopy(t)
    run(ctx, doc, [("inputs", [("x", (BASE, want), {"doc": "d"})]), ("outputs", [("o", (BASE, "sub/lib.yml#L"), {})])],
        copy.deepcopy(defs), files)


@quiet
def h_defs(ctx):
    """Where the definitions are."""
    place = ctx.config[0]
    files, types = {}, []
    d0_file = {"own": BASE, "list": LIB, "single": LIB, "requirement": REQ, "nested": OTHER, "requirement import": LIB}[place]
    d0 = definition(ctx, "d0", "D0", [])
    d1 = definition(ctx, "d1", "D1", [ref(d0_file, "D0", d0_file)] if place != "single" and place != "nested" else [])
    d2 = definition(ctx, "d2", "D2", [ref(d0_file, "D0", BASE), ref(d0_file, "D1", BASE)][:1 if place == "single" else 2])
    defs = [((d0_file, "D0"), d0), ((BASE, "D2"), d2)]
    names = [ref(d0_file, "D0", BASE)]
    reqs = [{"class": "ShellCommandRequirement"}]
    if place == "own":
        types = [d0, d1, d2]
        defs.append(((BASE, "D1"), d1))
        reqs.append({"class": "SchemaDefRequirement", "types": types})
    elif place == "list":
        files[LIB] = [d0, d1]
        defs.append(((LIB, "D1"), d1))
        reqs.append({"class": "SchemaDefRequirement", "types": [{"$import": "sub/lib.yml"}, d2]})
    elif place == "single":
        files[LIB] = d0
        reqs.append({"class": "SchemaDefRequirement", "types": [d2, {"$import": "sub/lib.yml"}]})
    elif place == "nested":
        files[OTHER] = d0
        files[LIB] = [{"$import": "other.yml"}, d1]
        defs.append(((LIB, "D1"), d1))
        d2 = definition(ctx, "d2'", "D2", [ref(OTHER, "D0", BASE), ref(LIB, "D1", BASE)])
        defs[1] = ((BASE, "D2"), d2)
        reqs.append({"class": "SchemaDefRequirement", "types": [{"$import": "sub/lib.yml"}, d2]})
    elif place == "requirement":
        files[REQ] = {"class": "SchemaDefRequirement", "types": [d0, d1]}
        defs = [((REQ, "D0"), d0), ((REQ, "D1"), d1)]
        reqs.insert(ctx.pick("order", 2), {"$import": "req/req.yml"})
    else:
        files[REQ] = {"class": "SchemaDefRequirement", "types": [{"$import": "../sub/lib.yml"}]}
        files[LIB] = [d0, d1]
        defs = [((LIB, "D0"), d0), ((LIB, "D1"), d1)]
        reqs.insert(ctx.pick("order", 2), {"$import": "req/req.yml"})
    names = [ref(f, n, BASE) for (f, n), _ in defs]
    k = ctx.pick("used", len(names))
    t = names[k][ctx.pick("way", len(names[k]))]
    u = ctx.one("u", ["int", names[0][-1] + "?", names[-1][0]])
    use(ctx, files)
    doc = tool([{"id": "x", "type": t}, {"id": "y", "type": {"type": "array", "items": u}}], [{"id": "o", "type": [t, "null"]}], reqs)
    run(ctx, doc, [("inputs", [("x", (BASE, t), {}), ("y", (BASE, {"type": "array", "items": copy.deepcopy(u)}), {})]),
                   ("outputs", [("o", (BASE, [t, "null"]), {})])], copy.deepcopy(defs), copy.deepcopy(files))
    ctx.check(not any(isinstance(r, dict) and list(r) == ["$import"] for r in doc["requirements"]), "an imported requirement is put in place", doc["requirements"])


@quiet
def h_ports(ctx):
    """How the parameters and the types are given."""
    port = ctx.config[0]
    lib = [{"name": "L", "type": "record", "fields": {"a": "int?"}}]
    t_lib, t_main = ctx.one("type", [("#L", "sub/lib.yml#L"), ("L[]", "sub/lib.yml#L[]"), ("string?", "string?"), (["null", "lib.yml#L"], ["null", "sub/lib.yml#L"])])
    files = {LIB: lib, OTHER: None}
    form = ctx.pick("form", 9)
    a_lib, b_lib = {"id": "a", "type": t_lib, "doc": "x"}, {"id": "b", "type": "File"}
    t_other = [x.replace("#", "lib.yml#") if x.startswith("#") else "lib.yml#" + x if x == "L[]" else x for x in [t_lib]][0] if isinstance(t_lib, str) else t_lib
    a_lib["type"] = t_other
    a_main = {"id": "a", "type": t_main, "doc": "x"}
    wanted = [("a", (BASE, t_main), {"doc": "x"}), ("b", (BASE, "File"), {})]
    if form == 0:
        section = [a_main, b_lib]
    elif form == 1:  # the map {$import: file} in list form
        files[OTHER] = [a_lib, b_lib]
        section = [{"id": "$import", "type": "sub/other.yml"}]
    elif form == 2:
        files[OTHER] = {"a": {"type": t_other, "doc": "x"}, "b": "File"}
        section = [{"id": "$import", "type": "sub/other.yml"}]
    elif form == 3:
        files[OTHER] = a_lib
        section = [{"$import": "sub/other.yml"}, b_lib]
    elif form == 4:
        files[OTHER] = a_lib
        section = [{"$import": "sub/other.yml"}]
        wanted = wanted[:1]
    elif form == 5:  # the type itself is imported
        files[OTHER] = {"type": "array", "items": t_other}
        section = [{"id": "a", "type": {"$import": "sub/other.yml"}, "doc": "x"}, b_lib]
        wanted[0] = ("a", (BASE, {"type": "array", "items": t_main}), {"doc": "x"})
    elif form == 6:
        files[OTHER] = [t_other, "null"]
        section = [{"id": "a", "type": ["int", {"$import": "sub/other.yml"}], "doc": "x"}, b_lib]
        wanted[0] = ("a", (BASE, ["int", t_main, "null"]), {"doc": "x"})
    elif form == 7:
        files[OTHER] = {"name": "f", "type": t_other}
        section = [{"id": "a", "type": {"type": "record", "fields": [{"$import": "sub/other.yml"}, {"name": "g", "type": "int"}]}, "doc": "x"}, b_lib]
        wanted[0] = ("a", (BASE, {"type": "record", "fields": {"f": t_main, "g": "int"}}), {"doc": "x"})
    else:
        files[OTHER] = ctx.one("fields", [{"f": t_other, "g": "int"}, [{"name": "f", "type": t_other}, {"name": "g", "type": "int"}]])
        section = [{"id": "a", "type": {"type": "record", "fields": {"$import": "sub/other.yml"}}, "doc": "x"}, b_lib]
        wanted[0] = ("a", (BASE, {"type": "record", "fields": {"f": t_main, "g": "int"}}), {"doc": "x"})
    use(ctx, files)
    doc = tool([], [], [{"class": "SchemaDefRequirement", "types": [{"$import": "sub/lib.yml"}]}])
    doc[port] = section
    run(ctx, doc, [(port, copy.deepcopy(wanted))], [((LIB, "L"), lib[0])], copy.deepcopy(files))


@quiet
def h_text(ctx):
    """The text of a type, for every text."""
    size, base = ctx.config
    t = ctx.str("type", size, ((35, 35), (46, 46), (63, 63), (91, 91), (93, 93), (97, 98)), minlen=1)
    ctx.assume(ctx.no(ctx.eq(t, "?")))
    ctx.assume(ctx.no(ctx.eq(t, "[]")))
    # more than one #, or names that are only shorthands, denote nothing
    use(ctx, {})
    a, b = {"name": "a", "type": "enum", "symbols": ["A"]}, {"name": "b", "type": "enum", "symbols": ["B"]}
    c = {"name": "a", "type": "enum", "symbols": ["C"]}
    types = {base + "#a": a, base + "#b": b, "file:///d/b#a": c}
    defs = [((base, "a"), copy.deepcopy(a)), ((base, "b"), copy.deepcopy(b)), (("file:///d/b", "a"), copy.deepcopy(c))]
    ctx.assume(t.count("#") < 2)
    doc = tool([{"id": "x", "type": t}], [], [])
    try:
        want = meaning(t, base, defs, {})
    except Undefined:
        want = None
    kind, got = ctx.call(schemadef.inline_types, doc, "inputs", urllib.parse.urlparse(base), types)
    if want is None:
        ctx.check(kind == "exc" and isinstance(got, RuntimeError), "an undefined name is an error", got)
        ctx.reach("undefined")
        return
    ctx.check(kind == "ok", "the types are inlined", got)
    try:
        now = meaning(got["inputs"][0]["type"], None, [], {})
    except Named as e:
        ctx.fail("no name of a definition is left", e)
    ctx.check(same(ctx, now, want), "the type means the same", got)
    ctx.reach("inlined")


def names_in(t):
    if isinstance(t, list):
        return [n for x in t for n in names_in(x)]
    if isinstance(t, dict):
        own = [t["name"]] if t.get("type") in ("record", "array", "enum") and "name" in t else []
        return own + [n for k, x in t.items() if k in ("type", "items", "fields") for n in names_in(x)]
    return []


@quiet
def h_names(ctx):
    """Two types of the result never have the same name."""
    uses = ctx.config[0]
    # names as another document could have them
    other = ctx.one("name", ["R_%d" % i for i in range(1, 8 * uses)] + ["S"])
    use(ctx, {})
    r = {"name": "R", "type": "record", "fields": [{"name": "f", "type": "int"}]}
    s = {"name": other, "type": "enum", "symbols": ["x"]}
    types = {BASE + "#R": r, BASE + "#S": s}
    ports = []
    for i in range(uses):
        ports.append({"id": "p%d" % i, "type": ctx.one("u%d" % i, ["R", "S", ["R", "S"], {"type": "array", "items": "R"}])})
    doc = tool(ports, [], [])
    kind, got = ctx.call(schemadef.inline_types, doc, "inputs", urllib.parse.urlparse(BASE), types)
    ctx.check(kind == "ok", "the types are inlined", got)
    names = [n for p in got["inputs"] for n in names_in(p["type"])]
    for i, n in enumerate(names):
        for m in names[:i]:
            ctx.check(ctx.no(ctx.eq(n, m)), "no two types have the same name", (n, m))
    ctx.reach("named")


@quiet
def h_bad(ctx):
    """Malformed types are errors, at any depth."""
    bad, error = ctx.one("what", [
        ({"name": "x"}, errors.MissingTypeName), ({"type": "array"}, errors.ArrayMissingItems),
        ({"type": "array", "name": "x"}, errors.ArrayMissingItems), ({"type": "record"}, errors.RecordMissingFields),
        ({"type": "record", "name": "x"}, errors.RecordMissingFields), ({"type": "NoSuch[]"}, RuntimeError)])
    t = ctx.one("where", [lambda b: b, lambda b: ["null", b], lambda b: {"type": "array", "items": b},
                          lambda b: {"type": "record", "fields": {"f": {"type": b}}}, lambda b: {"type": "array", "items": ["int", b]}])(bad)
    use(ctx, {})
    doc = tool([{"id": "x", "type": "int"}, {"id": "y", "type": t}], [], [])
    try:
        kind, got = ctx.call(schemadef.inline_types, doc, "inputs", urllib.parse.urlparse(BASE), {})
    except (errors.MissingTypeName, errors.ArrayMissingItems, errors.RecordMissingFields) as e:
        kind, got = "exc", e
    ctx.check(kind == "exc" and isinstance(got, error), "a malformed type is an error", got)
    ctx.reach("rejected")


@quiet
def h_pack(ctx):
    """Packing: the types of a process, of those embedded in it and of those it links."""
    lib = [{"name": "L", "type": "record", "fields": {"a": "#M[]", "b": "#M?"}}, {"name": "M", "type": "enum", "symbols": ["x", "y"]}]
    own = {"name": "T", "type": "array", "items": "sub/lib.yml#L"}
    step_own = {"name": "U", "type": "record", "fields": [{"name": "u", "type": ["null", "#T"]}]}
    where = ctx.one("run", ["embedded", "nested", "linked", "own"])
    suffix = ctx.one("suffix", SUFFIX[:4])
    names = ["sub/lib.yml#M", "#T", "File"]
    here, linked = BASE, "file:///d/sub/tool.cwl"
    if where == "linked":
        names, here = ["lib.yml#L", "#U", "File"], linked
        step_own["fields"][0]["type"] = "lib.yml#M"
    elif where == "own":
        names.append("#U")
    t = names[ctx.pick("name", len(names))] + suffix
    own_req = [{"class": "SchemaDefRequirement", "types": [{"$import": "lib.yml"}, step_own] if where == "linked" else [step_own]}]
    inner = tool([{"id": "x", "type": t}] if ctx.pick("form", 2) else {"x": {"type": t}}, {"o": ["null", t]}, own_req if where in ("linked", "own") else [])
    files = {LIB: lib}
    run_ = inner
    if where == "nested":
        run_ = {"class": "Workflow", "inputs": {}, "outputs": {}, "steps": {"s": {"run": inner, "in": {}, "out": []}}}
    elif where == "linked":
        files[linked] = inner
        run_ = "sub/tool.cwl"
    doc = {"class": "Workflow", "cwlVersion": "v1.2", "inputs": {"w": "T?"}, "outputs": {}, "steps": {"s": {"run": run_, "in": {}, "out": []}},
           "requirements": {"SchemaDefRequirement": {"types": [{"$import": "sub/lib.yml"}, own]}}}
    defs = [((LIB, "L"), lib[0]), ((LIB, "M"), lib[1]), ((BASE, "T"), own), ((here, "U"), step_own)]
    use(ctx, files)
    defs, files = copy.deepcopy(defs), copy.deepcopy(files)
    kind, got = ctx.call(pack.pack_process, doc, urllib.parse.urlparse(BASE), "v1.2")
    ctx.check(kind == "ok", "the process is packed", got)
    step = got["steps"][0]["run"]
    if where == "nested":
        step = step["steps"][0]["run"]
    for now, want, at in ((got["inputs"][0], "T?", BASE), (step["inputs"][0], t, here), (step["outputs"][0], ["null", t], here)):
        try:
            m = meaning(now["type"], None, [], {})
        except Named as e:
            ctx.fail("no name of a definition is left", e)
        ctx.check(same(ctx, m, meaning(want, at, defs, files)), "the type means the same", now)
    for p in (got, step):
        ctx.check(all(r["class"] != "SchemaDefRequirement" for r in p["requirements"]), "the definitions are in place only", p["requirements"])
    ctx.reach(where)


PLACES = [("own",), ("list",), ("single",), ("requirement",), ("nested",), ("requirement import",)]
HARNESSES = [
    {"name": "type", "fn": h_type, "configs": lambda tier: [(1, None)] + [(2 if tier == "quick" else 3, i) for i in (1, 2, 3, 5)], "reach": ("inlined", "undefined")},
    {"name": "defs", "fn": h_defs, "configs": lambda tier: PLACES, "reach": ("inlined",)},
    {"name": "ports", "fn": h_ports, "configs": lambda tier: [("inputs",), ("outputs",)], "reach": ("inlined",)},
    {"name": "text", "fn": h_text, "configs": lambda tier: [(5 if tier == "quick" else 6, BASE)], "reach": ("inlined", "undefined")},
    {"name": "names", "fn": h_names, "configs": lambda tier: [(2,), (3,)], "reach": ("named",)},
    {"name": "pack", "fn": h_pack, "configs": lambda tier: [()], "reach": ("embedded", "nested", "linked", "own")},
    {"name": "bad", "fn": h_bad, "configs": lambda tier: [()], "reach": ("rejected",)},
]
