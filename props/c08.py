"""C08: packing.  Process documents are built from solver-chosen parts (which sections
exist, in map or list form, shorthand or full entries, links, imports, requirements);
`pack_process` and the list/map conversions run on them and the result is compared
with a reference packer.  Linked files come from an in-memory store keyed by the URL
that the code computes."""

import copy
import urllib.parse

from cwl_utils import pack, schemadef, utils

ASSUMPTIONS = [
    "ids are unique within a section; documents follow the CWL map and list forms",
    "linked files are in a store keyed by their URL; reading and parsing them is not part of the claim",
]


def BOUNDS(tier):
    return {
        "conversion": "sections of 0..3 entries: object with any subset of 2 fields and possibly its own key, "
                      "string, list, null; aliases of one another",
        "tool": "1..2 inputs and outputs per section, requirements and hints of 0..2 entries, $import and $include",
        "workflow": "1..2 steps with 1..2 ports; run linked, embedded, imported or a nested workflow; depth 2",
        "text": "sources: symbolic strings of 1..%d characters out of #, /, a, b" % (2 if tier == "quick" else 3),
    }


class Store:
    def __init__(self, files):
        self.files = files
        self.loads = []

    def load_linked_file(self, base_url, link, is_import=False):
        url = utils.resolved_path(base_url, link)
        text = url.geturl()
        self.loads.append((text, bool(is_import)))
        if text not in self.files:
            raise RuntimeError("no such file: " + text)
        return copy.deepcopy(self.files[text]), url


def use(ctx, files):
    store = Store(files)
    ctx.patch(utils, "load_linked_file", store.load_linked_file)
    for name in ("_inline_type_names",):
        getattr(schemadef, name, set()).clear()
    return store


# ------------------------------------------------------------- conversions
def entry(ctx, n, key_field):
    """(value in map form, fields of the entry or None when it is a shorthand)."""
    def full():
        return ctx.maybe(n, {}, {"doc": "d" + n, "type": ctx.enum(n + "t", ["int", "File"])})

    return ctx.lazy(n, [full, lambda: ctx.enum(n + "s", ["int", "x", ""]), lambda: ["null", ctx.enum(n + "l", ["int", "x"])],
                        lambda: None, lambda: {key_field: "other", "doc": "d"}])


def h_convert(ctx):
    key_field, value_field, n, alias = ctx.config
    keys = ["k0", "k1", "k2"][:n]
    doc = {k: entry(ctx, k, key_field) for k in keys}
    if alias and n > 1:
        doc[keys[-1]] = doc[keys[0]]
    want = []
    bad = False
    for k in keys:
        v = doc[k]
        if isinstance(v, dict):
            e = {f: copy.deepcopy(x) for f, x in v.items() if f != key_field}
        elif value_field is None:
            bad = True
            e = {}
        else:
            e = {value_field: copy.deepcopy(v)}
        e[key_field] = k
        want.append(e)
    kind, got = ctx.call(utils.normalize_to_list, doc, key_field, value_field)
    if bad:
        ctx.check(kind == "exc" and isinstance(got, RuntimeError), "a shorthand where none is allowed is rejected", got)
        ctx.reach("rejected")
        return
    ctx.check(kind == "ok", "a map can be turned into a list", got)
    ctx.check_eq(got, want, "each entry of the map is in the list, with its key, in order")
    kind, again = ctx.call(utils.normalize_to_list, got, key_field, value_field)
    ctx.check(kind == "ok", "a list stays a list", again)
    ctx.check_eq(again, want, "a list is unchanged")
    kind, back = ctx.call(utils.normalize_to_map, again, key_field)
    ctx.check(kind == "ok", "the list can be turned back into a map", back)
    ctx.check_eq(back, {e[key_field]: {f: x for f, x in e.items() if f != key_field} for e in want},
                 "back in map form nothing is lost")
    ctx.check_eq(list(back), keys, "the order is kept")
    kind, again = ctx.call(utils.normalize_to_map, copy.deepcopy(back), key_field)
    ctx.check(kind == "ok", "a map stays a map", again)
    ctx.check_eq(again, back, "a map is unchanged")
    ctx.reach("converted")


# ------------------------------------------------------------- tools
BASE = "file:///d/main.cwl"
LIB = "file:///d/sub/lib.js"
REQ = "file:///d/sub/req.yml"
FILES = {
    "file:///d/lib.js": "var a;", LIB: "var b;",
    REQ: {"class": "InlineJavascriptRequirement", "expressionLib": [{"$include": "lib.js"}, "x"]},
    "file:///d/req.yml": {"class": "ShellCommandRequirement"},
    "file:///d/note.txt": "note",
}


def as_form(ctx, n, entries, key):
    """entries: list of (id, map value, list entry); in map or list form."""
    if ctx.pick(n + "#form", 2):
        return [copy.deepcopy(e) for _, _, e in entries]
    return {k: copy.deepcopy(v) for k, v, _ in entries}


def ports(ctx, n, count):
    out = []
    for i in range(count):
        k = "%s%d" % (n, i)
        alts = [("File", {"type": "File"}), ({"type": "int", "doc": "x"},) * 2,
                (["null", "string"], {"type": ["null", "string"]})]
        m, full = ctx.one(k, alts)
        e = dict(full)
        e["id"] = k
        out.append((k, m, e))
    return out


def requirements(ctx, n, count):
    """(document value, expected list after packing)."""
    choices = [
        ({"class": "InlineJavascriptRequirement"}, {"class": "InlineJavascriptRequirement"}),
        ({"class": "InlineJavascriptRequirement", "expressionLib": [{"$include": "lib.js"}]},
         {"class": "InlineJavascriptRequirement", "expressionLib": ["var a;"]}),
        ({"class": "SubworkflowFeatureRequirement"},) * 2,
        ({"$import": "req.yml"}, {"class": "ShellCommandRequirement"}),
        ({"$import": "sub/req.yml"}, {"class": "InlineJavascriptRequirement", "expressionLib": ["var b;", "x"]}),
        ({"class": "SchemaDefRequirement", "types": [{"name": "R", "type": "enum", "symbols": ["a"]}]}, None),
    ]
    form = ctx.pick(n + "#form", 3)
    if form == 0:
        return None, []
    picked = []
    for i in range(count):
        c = choices[ctx.pick("%s%d" % (n, i), len(choices))]
        if any(c[0].get("class", 1) == p[0].get("class", 2) for p in picked):
            return None, []
        picked.append(c)
    if form == 1:
        if any("$import" in p[0] for p in picked):
            return None, []
        return {p[0]["class"]: {k: v for k, v in p[0].items() if k != "class"} for p in picked}, \
            [p[1] for p in picked if p[1] is not None]
    return [p[0] for p in picked], [p[1] for p in picked if p[1] is not None]


def h_tool(ctx):
    part, count = ctx.config
    doc = {"class": "CommandLineTool", "cwlVersion": "v1.2", "baseCommand": ["echo"]}
    want = copy.deepcopy(doc)
    ins = ports(ctx, "i", count if part == "ports" else 1)
    doc["inputs"] = as_form(ctx, "inputs", ins, "id")
    want["inputs"] = [e for _, _, e in ins]
    if part == "ports" and ctx.pick("outputs?", 2):
        outs = ports(ctx, "o", 1)
        doc["outputs"] = as_form(ctx, "outputs", outs, "id")
        want["outputs"] = [e for _, _, e in outs]
    else:
        want["outputs"] = []
    reqs, expected = requirements(ctx, "r", count if part == "reqs" else 1)
    if reqs is not None:
        doc["requirements"] = reqs
    want["requirements"] = expected
    if part == "rest":
        k = ctx.pick("hints", 3)
        if k:
            h = [{"ResourceRequirement": {"coresMin": 2}}, [{"class": "ResourceRequirement", "coresMin": 2}]][k - 1]
            doc["hints"] = h
            want["hints"] = copy.deepcopy(h)
        k = ctx.pick("doc", 3)
        if k:
            doc["doc"] = [{"$include": "note.txt"}, ["x", {"$include": "note.txt"}]][k - 1]
            want["doc"] = ["note", ["x", "note"]][k - 1]
        if ctx.pick("import", 2):
            doc["successCodes"] = {"a": {"b": [{"$import": "req.yml"}]}}
            want["successCodes"] = {"a": {"b": [{"class": "ShellCommandRequirement"}]}}
    use(ctx, FILES)
    kind, got = ctx.call(pack.pack_process, copy.deepcopy(doc), urllib.parse.urlparse(BASE), "v1.2")
    ctx.check(kind == "ok", "a tool can be packed", got)
    ctx.check_eq(got, want, "the packed tool")
    ctx.reach("packed")


# ------------------------------------------------------------- workflows
def strip(s):
    if s.startswith("#"):
        return s[1:]
    return s


def sources(ctx, n, size):
    """A source in one of its spellings: (value, expected value)."""
    def text(k):
        return ctx.str(n + k, size, ((35, 35), (47, 47), (97, 98)), minlen=1)

    k = ctx.pick(n + "#src", 3)
    if k == 0:
        s = text("a")
        return s, strip(s)
    if k == 1:
        s = text("a")
        return [s], [strip(s)]
    s, t = text("a"), "#t"
    return [s, t], [strip(s), "t"]


def h_sources(ctx):
    size, where = ctx.config
    src, want = sources(ctx, "s", size)
    wf = {"class": "Workflow", "cwlVersion": "v1.0", "inputs": {"t": "int"}, "outputs": [], "steps": []}
    if where == "out":
        wf["outputs"] = as_form(ctx, "outputs", [("o", {"type": "int", "outputSource": src}, {"id": "o", "type": "int", "outputSource": src})], "id")
    else:
        tool = {"class": "ExpressionTool", "inputs": [], "outputs": [], "expression": "$(1)"}
        short = ctx.pick("short", 2)
        e = {"id": "p", "source": src}
        port = {"p": src if short else {"source": src, "default": 1}}
        if not short:
            e["default"] = 1
        form = ctx.pick("port#form", 2)
        step = {"run": tool, "in": [e] if form else port, "out": ["r"]}
        sform = ctx.pick("steps#form", 2)
        if sform:
            step["id"] = "s"
        wf["steps"] = [step] if sform else {"s": step}
    kind, got = ctx.call(pack.pack_process, copy.deepcopy(wf), urllib.parse.urlparse(BASE), "v1.0")
    ctx.check(kind == "ok", "a workflow can be packed", got)
    if where == "out":
        ctx.check_eq(got["outputs"], [{"id": "o", "type": "int", "outputSource": want}], "the source of an output")
    else:
        w = {"id": "p", "source": want}
        if not short:
            w["default"] = 1
        ctx.check_eq(got["steps"][0]["in"], [w], "the source of a step input")
        ctx.check_eq(got["steps"][0]["id"], "s", "the id of the step")
    ctx.reach("packed")


VERSIONS = ["v1.0", "v1.1", "v1.2.0-dev3", "v1.2", "v1.10"]
RANK = {"v1.0": 0, "v1.1": 1, "v1.2.0-dev3": 2, "v1.2": 3, "v1.10": 4}


def tool_doc(v):
    d = {"class": "CommandLineTool", "inputs": {"x": "File"}, "outputs": [], "requirements":
         [{"class": "InlineJavascriptRequirement", "expressionLib": [{"$include": "lib.js"}]}]}
    if v is not None:
        d["cwlVersion"] = v
    return d


def tool_packed(v, lib):
    d = {"class": "CommandLineTool", "inputs": [{"id": "x", "type": "File"}], "outputs": [], "requirements":
         [{"class": "InlineJavascriptRequirement", "expressionLib": [lib]}]}
    if v is not None:
        d["cwlVersion"] = v
    return d


def newest(a, b):
    if b is None or RANK[a] >= RANK[b]:
        return a
    return b


def run_of(ctx, n, files, base, depth, lib, version_of_parent):
    """(value of run, expected packed process, its version or None)."""
    kind = ctx.one(n + "#run", ["file", "embedded", "subdir"] + (["workflow", "linked workflow"] if depth else []))
    v = ctx.one(n + "#v", [None] + VERSIONS) if depth else ctx.one(n + "#v", [None, "v1.2", "v1.10"])
    if kind == "file":
        url = urllib.parse.urljoin(base, n + ".cwl")
        files[url] = tool_doc(v)
        return n + ".cwl", tool_packed(v, lib), v
    if kind == "subdir":
        url = urllib.parse.urljoin(base, "sub/" + n + ".cwl")
        files[url] = tool_doc(v)
        return "sub/" + n + ".cwl", tool_packed(v, "var b;" if lib == "var a;" else "var c;"), v
    if kind == "embedded":
        return tool_doc(v), tool_packed(v, lib), v
    inner_base = base
    if kind == "linked workflow":
        inner_base = urllib.parse.urljoin(base, "sub/" + n + ".cwl")
        lib = "var b;"
    run, packed, inner = run_of(ctx, n + "i", files, inner_base, 0, lib, v)
    doc = {"class": "Workflow", "inputs": [], "outputs": {}, "steps": {n + "s": {"run": run, "in": {}, "out": []}}}
    want = {"class": "Workflow", "inputs": [], "outputs": [], "requirements": [],
            "steps": [{"id": n + "s", "run": packed, "in": [], "out": []}]}
    mine = v if v is not None else version_of_parent
    if v is not None:
        doc["cwlVersion"] = want["cwlVersion"] = v
    if inner is not None and RANK[inner] > RANK[mine]:
        want["cwlVersion"] = inner
    if kind == "linked workflow":
        files[inner_base] = doc
        return "sub/" + n + ".cwl", want, want.get("cwlVersion")
    return doc, want, want.get("cwlVersion")


def h_runs(ctx):
    """Linked, embedded and nested processes; versions; the requirement added."""
    nsteps, top = ctx.config
    files = {"file:///d/lib.js": "var a;", "file:///d/sub/lib.js": "var b;", "file:///d/sub/sub/lib.js": "var c;"}
    form = ctx.pick("steps#form", 2)
    steps, want_steps = [], []
    version = top
    nested = False
    for i in range(nsteps):
        n = "s%d" % i
        run, packed, v = run_of(ctx, n, files, BASE, 1 if i == 0 else 0, "var a;", version)
        steps.append((n, {"run": run, "in": {}, "out": []}))
        want_steps.append({"id": n, "run": packed, "in": [], "out": []})
        version = newest(version, v)
        nested = nested or packed["class"] == "Workflow"
    have = ctx.pick("have", 2)
    reqs = [{"class": "SubworkflowFeatureRequirement"}] if have else []
    doc = {"class": "Workflow", "cwlVersion": top, "inputs": [], "outputs": [],
           "steps": [dict(s, id=n) for n, s in steps] if form else dict(steps)}
    if have:
        doc["requirements"] = copy.deepcopy(reqs)
    want = {"class": "Workflow", "cwlVersion": version, "inputs": [], "outputs": [], "steps": want_steps,
            "requirements": reqs + ([{"class": "SubworkflowFeatureRequirement"}] if nested and not have else [])}
    store = use(ctx, files)
    kind, got = ctx.call(pack.pack_process, copy.deepcopy(doc), urllib.parse.urlparse(BASE), top)
    ctx.check(kind == "ok", "a workflow can be packed", got)
    ctx.check_eq(got, want, "the packed workflow")
    linked = [u for u in files if u.endswith(".cwl")]
    for u in linked:
        ctx.check(store.loads.count((u, True)) == 1, "each linked process is loaded once")
    ctx.reach("nested" if nested else "packed")


def h_pack(ctx):
    """The entry point: a packed document is returned as it is."""
    graph = ctx.pick("graph", 2)
    v = ctx.one("v", ["v1.0", "v1.2"])
    doc = {"cwlVersion": v, "$graph": [{"class": "ExpressionTool", "id": "main", "inputs": {"a": "int"}}]} if graph else \
        {"cwlVersion": v, "class": "ExpressionTool", "inputs": {"a": "int"}, "outputs": {}, "expression": "$(1)"}
    path = ctx.one("path", ["/d/main.cwl", "file:///d/main.cwl", "http://h/d/main.cwl"])
    store = use(ctx, {path: doc})
    kind, got = ctx.call(pack.pack, path)
    ctx.check(kind == "ok", "a document can be packed", got)
    want = doc if graph else {"cwlVersion": v, "class": "ExpressionTool", "inputs": [{"id": "a", "type": "int"}],
                              "outputs": [], "requirements": [], "expression": "$(1)"}
    ctx.check_eq(got, want, "the packed document")
    ctx.check(len(store.loads) == 1, "the document is loaded once")
    ctx.reach("graph" if graph else "process")


def convert_cfg(tier):
    out = []
    for kf, vf in (("id", "type"), ("id", "source"), ("class", None), ("id", None)):
        out += [(kf, vf, n, 0) for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3))]
        out.append((kf, vf, 2, 1))
    out.append(("id", "type", 3, 1))
    return out


HARNESSES = [
    {"name": "convert", "fn": h_convert, "configs": convert_cfg, "reach": ("converted", "rejected")},
    {"name": "tool", "fn": h_tool, "configs": {"quick": [("ports", 1), ("reqs", 2), ("rest", 1)], "thorough": [("ports", 2), ("reqs", 2), ("rest", 1)]},
     "reach": ("packed",)},
    {"name": "sources", "fn": h_sources, "configs": {"quick": [(2, "out"), (2, "in")], "thorough": [(3, "out"), (3, "in")]}, "reach": ("packed",)},
    {"name": "runs", "fn": h_runs, "configs": {"quick": [(1, "v1.0"), (1, "v1.2"), (2, "v1.1")], "thorough": [(n, v) for n in (1, 2) for v in VERSIONS] + [(3, "v1.1")]},
     "reach": ("packed", "nested")},
    {"name": "pack", "fn": h_pack, "configs": {"quick": [None]}, "reach": ("graph", "process")},
]
