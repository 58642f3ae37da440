"""C10: splitting a packed graph.  Packed documents (a workflow and a tool, shared and
own types) are built with symbolic identifiers, so that identifiers can be prefixes of
one another and contain the extension; `graph_split` runs on them and every reference
of the files it writes is resolved, by an independent reader, to what it denoted in
the packed document.  Reading the input and writing the files are stand-ins that hand
over and record the documents; counterexamples are replayed with real files."""

import copy
import io
import json
import os
import pathlib
import re
import tempfile

import ruamel.yaml.main
from ruamel.yaml import YAML

from cwl_utils import graph_split as gs

ASSUMPTIONS = [
    "identifiers are as a packer writes them: #document, #document/name, #document/step/name; unique, without further slashes",
    "no two documents of the graph have the same file name, and no process runs the main one",
    "YAML and JSON reading and writing are not part of the claim; they are real when a counterexample is replayed",
]


def BOUNDS(tier):
    n = 2 if tier == "quick" else 3
    return {
        "graph": "a workflow (one input, one or two steps, one output) and a tool, in either order",
        "identifiers": "1..%d characters out of a, m and dot, followed by nothing, cwl, .cwl or ain; the main process also #main; parameters 1 character" % n,
        "references": "source, outputSource and scatter as text or list, run, out as text or object",
        "types": "2 types in 1 or 2 files (or belonging to the process), records and arrays; mentioned directly, in unions, in arrays, "
                 "in nested arrays; defined, defined twice or imported; list and map form",
    }


# ------------------------------------------------------------------ stand-ins
class Handle:
    def __init__(self, node):
        self.node = node
        self.name = "out"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, text):
        self.node.append(("text", text))

    def close(self):
        pass

    def flush(self):
        pass


class Out:
    """The output directory: [name, [what was written]] per file."""

    def __init__(self):
        self.files = []
        self.made = False

    @property
    def parent(self):
        return self

    def is_dir(self):
        return True

    def exists(self):
        return True

    def mkdir(self, *a, **k):
        self.made = True

    def __truediv__(self, name):
        return Entry(self, name)

    def joinpath(self, name):
        return Entry(self, name)

    def node(self, name):
        for n, content in self.files:
            if n == name:
                return content
        content = []
        self.files.append((name, content))
        return content


class Entry:
    def __init__(self, out, name):
        self.out, self.name = out, name

    def exists(self):
        for n, _ in self.out.files:
            if n == self.name:
                return True
        return False

    is_file = exists

    def unlink(self, missing_ok=False):
        self.out.node(self.name).clear()

    def open(self, mode="r", *a, **k):
        node = self.out.node(self.name)
        if "w" in mode:
            node.clear()
        return Handle(node)


class Source:
    def __init__(self, doc, name):
        self.doc, self.name = doc, name


class FakeYAML:
    def __init__(self, *a, **k):
        pass

    def load(self, stream):
        return stream.doc

    def dump(self, obj, handle):
        handle.node.append(("yaml", copy.deepcopy(obj)))


def fake_dump(obj, handle, *a, **k):
    handle.node.append(("json", copy.deepcopy(obj)))


def split(ctx, doc, fmt, mainfile, name="x.cwl"):
    """('ok', {file name: document}) or what went wrong."""
    if ctx.symbolic:
        ctx.patch(ruamel.yaml.main, "YAML", FakeYAML)
        ctx.patch(json, "dump", fake_dump)
        out = Out()
        kind, got = ctx.call(gs.graph_split, Source(doc, name), out, fmt, mainfile, False)
        if kind != "ok":
            return kind, got
        files = []
        for n, content in out.files:
            docs = [c[1] for c in content]
            if len(docs) == 1:
                files.append((n, docs[0]))
            elif docs and all(isinstance(d, list) for d in docs):
                files.append((n, [x for d in docs for x in d]))
            else:
                return "bad", "several documents in one file"
        return "ok", files
    with tempfile.TemporaryDirectory() as d:
        f = io.StringIO(json.dumps(doc))
        f.name = name
        kind, got = ctx.call(gs.graph_split, f, pathlib.Path(d) / "out", fmt, mainfile, False)
        if kind != "ok":
            return kind, got
        files = []
        for n in sorted(os.listdir(d + "/out")):
            with open(d + "/out/" + n) as fh:
                try:
                    files.append((n, YAML(typ="safe", pure=True).load(fh)))
                except Exception as e:  # noqa: BLE001
                    return "bad", "%s is not readable: %s" % (n, str(e)[:200])
        return "ok", files


def find(ctx, files, name, label):
    hit = [d for n, d in files if n == name]
    ctx.check(len(hit) == 1, label, [n for n, _ in files])
    return hit[0]


# ------------------------------------------------------------------ references
def target(text, own):
    """(file, path) that a reference in file ``own`` denotes."""
    k = text.find("#")
    if k < 0:
        return own, text
    return (text[:k] if k > 0 else own), text[k + 1:]


def same_ref(ctx, got, own, file, path, label):
    ctx.check(isinstance(got, str), label, got)
    f, p = target(got, own)
    ctx.check(ctx.all([ctx.eq(f, file), ctx.eq(p, path)]), label)


def last(text):
    k = text.rfind("/")
    t = text[k + 1:]
    return t[1:] if t[:1] == "#" else t


def file_of(name):
    return name if name.endswith(".cwl") else name + ".cwl"


def ident(ctx, n, size):
    s = ctx.str(n, size, ((46, 46), (97, 97), (109, 109)), minlen=1)
    return s + ctx.one(n + "x", ["", ".cwl", "cwl", "ain"])


def several(k, refs):
    """A reference field: text, or a list of one or two."""
    return refs[0] if k == 0 else refs[:k]


def norm(x):
    return x if isinstance(x, list) else [x]


LETTER = ((97, 97), (109, 109))


def h_refs(ctx):
    main, order, fmt, size = ctx.config
    w = "main" if main else ident(ctx, "w", size)
    t = ident(ctx, "t", size)
    ctx.assume(t != "main" and file_of(t) != file_of(w))
    if not main:
        ctx.assume(w != "main")
    names = [ctx.str("n%d" % i, 1, LETTER, minlen=1) for i in range(3)]
    p, s, x = names
    o, o2 = "o", "r"
    W, T = "#" + w + "/", "#" + t + "/"
    S = W + s + "/"
    # every field in every form, not every combination of forms
    k = ctx.pick("form", 4)
    src = several(k % 3, [W + p, W + "z/" + o2])
    osrc = several((k + 1) % 3, [S + o2, W + p])
    scat = several((k + 2) % 3, [S + x, S + "y"]) if k < 3 else None
    out = [{"id": S + o2}] if k % 2 else [S + o2]
    remark = W + p if k > 1 else "text"
    step = {"id": W + s, "run": "#" + t, "in": [{"id": S + x, "source": src, "default": {"a": [remark]}}, {"id": S + "y"}], "out": out}
    if scat is not None:
        step["scatter"] = scat
    wf = {"id": "#" + w, "class": "Workflow", "label": remark,
          "inputs": [{"id": W + p, "type": "string"}],
          "outputs": [{"id": W + o, "type": "File", "outputSource": osrc, "format": "http://x/y"}],
          "steps": [step]}
    tool = {"id": "#" + t, "class": "CommandLineTool", "inputs": [{"id": T + x, "type": ["null", "string"]}],
            "outputs": [{"id": T + o2, "type": "File"}], "stdout": remark}
    doc = {"cwlVersion": "v1.2", "$graph": [wf, tool] if order else [tool, wf]}
    wcopy, tcopy = copy.deepcopy(wf), copy.deepcopy(tool)
    mainfile = ctx.one("mainfile", [None, "top", "top.cwl"]) if main else None
    kind, files = split(ctx, doc, fmt, mainfile)
    ctx.check(kind == "ok", "a packed document can be split", files)
    wname = ("unpacked_x.cwl" if mainfile is None else "top.cwl") if main else file_of(w)
    got = find(ctx, files, wname, "the workflow is in its file, once")
    tgot = find(ctx, files, file_of(t), "the tool is in its file, once")
    ctx.check(len(files) == 2, "nothing else is written")
    # the references
    for e, orig in ((got["inputs"][0], p), (got["outputs"][0], o), (got["steps"][0], s)):
        same_ref(ctx, e["id"], wname, wname, orig, "the id of a parameter or step")
    st = got["steps"][0]
    f, frag = target(st["run"], wname)
    run_ok = (st["run"] == file_of(t)) if st["run"].find("#") < 0 else (f == file_of(t) and frag == t)
    ctx.check(run_ok, "the step runs the same process")
    for field, want in ((st["in"][0]["source"], src), (got["outputs"][0]["outputSource"], osrc)) + (((st["scatter"], scat),) if scat is not None else ()):
        ctx.check(isinstance(field, list) == isinstance(want, list), "a reference stays a text or a list")
        field, want = norm(field), norm(want)
        ctx.check(len(field) == len(want), "no reference is lost")
        for a, b in zip(field, want):
            same_ref(ctx, a, wname, wname, b[len(W):], "a reference to a parameter")
    for a, b in zip(st["in"], (x, "y")):
        ctx.check_eq(last(a["id"]), b, "the id of a step input")
    ro = st["out"][0]
    ctx.check(isinstance(ro, dict) == isinstance(out[0], dict), "an output stays a text or an object")
    ctx.check_eq(last(ro["id"] if isinstance(ro, dict) else ro), o2, "the id of a step output")
    same_ref(ctx, tgot["inputs"][0]["id"], file_of(t), file_of(t), x, "the id of a parameter")
    same_ref(ctx, tgot["outputs"][0]["id"], file_of(t), file_of(t), o2, "the id of a parameter")
    # everything else
    for d, orig, name in ((got, wcopy, wname), (tgot, tcopy, file_of(t))):
        ctx.check_eq(d["cwlVersion"], "v1.2", "the version is added to each file")
        for k, v in orig.items():
            if k in ("class", "label", "stdout"):
                ctx.check_eq(d[k], v, "what is no reference stays as it was")
        ctx.check(not [k for k in d if k not in orig and k != "cwlVersion"], "nothing else is added")
        for sec in ("inputs", "outputs"):
            ctx.check(len(d[sec]) == len(orig[sec]), "no parameter is lost")
            for a, b in zip(d[sec], orig[sec]):
                ctx.check_eq(sorted(a), sorted(b), "the fields of a parameter")
                ctx.check_eq(a["type"], b["type"], "the type of a parameter")
                if "format" in b:
                    ctx.check_eq(a["format"], b["format"], "the format of a parameter")
    ctx.check_eq(sorted(st), sorted(step), "the fields of a step")
    ctx.check_eq(st["in"][0]["default"], {"a": [remark]}, "what is no reference stays as it was")
    ctx.reach("split")


# ------------------------------------------------------------------ shared types
def mention(k, ref):
    """A type that mentions ref."""
    return [
        lambda: ref,
        lambda: ["null", ref],
        lambda: {"type": "array", "items": ref},
        lambda: {"type": "array", "items": ["null", ref]},
        lambda: ["null", {"type": "array", "items": {"type": "array", "items": ref}}],
        lambda: {"type": "array", "items": [{"type": "array", "items": ref}, "string"]},
    ][k % 6]()


def compare_types(ctx, got, want, own, deref, label):
    """want: the type in the packed document; deref(text) -> (file, name) of a mention."""
    if isinstance(want, list):
        ctx.check(isinstance(got, list) and len(got) == len(want), label, got)
        for a, b in zip(got, want):
            compare_types(ctx, a, b, own, deref, label)
    elif isinstance(want, dict):
        ctx.check(isinstance(got, dict), label, got)
        ctx.check_eq(sorted(got), sorted(want), label)
        for k, v in want.items():
            if k in ("type", "items"):
                compare_types(ctx, got[k], v, own, deref, label)
            elif k == "fields":
                ctx.check(len(got[k]) == len(v), label)
                for a, b in zip(got[k], v):
                    compare_types(ctx, a, b, own, deref, label)
            elif k == "name":
                ctx.check_eq(last(got[k]), last(v), label)
            elif k == "symbols":
                ctx.check_eq([last(x) for x in got[k]], [last(x) for x in v], label)
            else:
                ctx.check_eq(got[k], v, label)
    elif isinstance(want, str) and want[:1] == "#":
        file, name = deref(want)
        same_ref(ctx, got, own, file, name, label)
    else:
        ctx.check_eq(got, want, label)


def h_types(ctx):
    second, form, fmt, how = ctx.config
    w, t = "main", ctx.one("t", ["a", "am.cwl"])
    fa = ctx.str("fa", 1 if how else 2, LETTER, minlen=1) + ctx.one("fax", ["", ".yml"])
    fb = t if second == "own" else fa if second == "same" else "m.yml"
    if second == "other":
        ctx.assume(fa != fb)
    ctx.assume(fa != t and fa != "main" and fa != file_of(t) and fa != "top.cwl")
    a, b = "#" + fa + "/A", "#" + fb + "/B"
    A = {"name": a, "type": "record", "fields": [{"name": a + "/f", "type": "int" if second == "own" else mention(ctx.pick("Af", 6), b) if how else b}, {"name": a + "/g", "type": "string", "doc": "d"}]}
    B = ctx.one("B", [{"name": b, "type": "enum", "symbols": [b + "/x", b + "/y"], "label": "l"},
                      {"name": b, "type": "array", "items": "string"}, {"name": b, "type": "array", "items": a},
                      {"name": b, "type": "array", "items": ["null", {"type": "array", "items": a}]}])
    defs = {a: copy.deepcopy(A), b: copy.deepcopy(B)}
    types = [A, B] if how and ctx.pick("deforder", 2) else [B, A]
    again = ctx.pick("main uses", 3)  # not, by import, by definition
    mtypes = [] if again == 0 else [{"$import": a}] if again == 1 else [copy.deepcopy(A)]
    if again and fb != t:
        mtypes.append({"$import": b} if again == 1 else copy.deepcopy(B))

    def reqs(ts):
        if not ts:
            return [] if form == "list" else {}
        r = {"types": ts}
        if form == "map":
            return {"SchemaDefRequirement": r}
        return [{"class": "SchemaDefRequirement", **r} if how else {**r, "class": "SchemaDefRequirement"}]

    k = 0 if how else ctx.pick("mention", 6)
    t1 = mention(k, a)
    t2 = mention(k + 3, b)
    m1 = mention(k + 1, a) if again else "string"
    tool = {"id": "#" + t, "class": "CommandLineTool", "requirements": reqs(types),
            "inputs": [{"id": "#" + t + "/x", "type": t1}], "outputs": [{"id": "#" + t + "/y", "type": t2}]}
    wf = {"id": "#main", "class": "Workflow", "requirements": [{"class": "SchemaDefRequirement", "types": mtypes}] if mtypes else [],
          "inputs": [{"id": "#main/p", "type": m1}], "outputs": [], "steps": []}
    if again != 1:
        tool["requirements"] = tool.pop("requirements")
    t1, t2, m1 = copy.deepcopy(t1), copy.deepcopy(t2), copy.deepcopy(m1)
    doc = {"cwlVersion": "v1.2", "$graph": [tool, wf] if again == 0 or ctx.pick("order", 2) else [wf, tool] if again == 2 else [tool, wf]}
    kind, files = split(ctx, doc, fmt, "top")
    ctx.check(kind == "ok", "a packed document with shared types can be split", files)
    tfile = file_of(t)
    tgot = find(ctx, files, tfile, "the tool is in its file, once")
    mgot = find(ctx, files, "top.cwl", "the workflow is in its file, once")

    def deref(text):
        file, name = text[1:text.find("/")], text[text.find("/") + 1:]
        return (tfile if file == t else file), name

    def definitions(d, own):
        """(file, name, definition) of the types a process knows."""
        r = d["requirements"]
        if isinstance(r, dict):
            ts = r.get("SchemaDefRequirement", {}).get("types", [])
        else:
            ts = [y for x in r if x["class"] == "SchemaDefRequirement" for y in x["types"]]
        out = []
        for e in ts:
            if "$import" in e:
                ctx.check_eq(sorted(e), ["$import"], "an import has no other field")
                f = find(ctx, files, e["$import"], "an imported file of types exists, once")
                for x in norm(f):
                    out.append((e["$import"], x["name"], x))
            else:
                out.append((own, e["name"], e))
        return out

    for d, own, texts in ((tgot, tfile, [a, b]), (mgot, "top.cwl", ([a] + ([b] if fb != t else [])) if again else [])):
        have = definitions(d, own)
        for text in texts:
            file, name = deref(text)
            hits = []
            for f, n, x in have:
                if f == file and last(n) == name:
                    hits.append(x)
            ctx.check(len(hits) == 1, "a process knows each type it mentions, once")
            compare_types(ctx, hits[0], defs[text], file, deref, "the definition of a shared type")
    compare_types(ctx, tgot["inputs"][0]["type"], t1, tfile, deref, "a type mentioned by a parameter")
    compare_types(ctx, tgot["outputs"][0]["type"], t2, tfile, deref, "a type mentioned by a parameter")
    compare_types(ctx, mgot["inputs"][0]["type"], m1, "top.cwl", deref, "a type mentioned by a parameter")
    ctx.reach("split")


def h_other(ctx):
    """Documents that are no graph, and names of parameters that are also keywords."""
    if ctx.pick("graph", 2) == 0:
        doc = {"cwlVersion": "v1.2", "class": "CommandLineTool", "id": "#main"}
        kind, files = split(ctx, doc, "json", None) if ctx.symbolic else ("ok", [])
        ctx.check(kind == "ok" and not files, "a document that is no graph is left alone", files)
        return
    key = ctx.one("key", ["id", "run", "out", "source", "scatter", "items", "type", "format", "in"])
    val = ctx.one("val", ["File", {"type": "File"}, ["null", "File"], {"type": {"type": "array", "items": "File"}}])
    ns = bool(ctx.pick("ns", 2))
    tool = {"id": "#t", "class": "CommandLineTool", "inputs": {key: val, "plain": "int"}, "outputs": []}
    doc = {"cwlVersion": "v1.1", "$graph": [tool]}
    if ns:
        doc["$namespaces"] = {"e": "http://e/"}
    want = copy.deepcopy(tool)
    kind, files = split(ctx, doc, "json", None)
    ctx.check(kind == "ok", "a parameter can have any name", files)
    got = find(ctx, files, "t.cwl", "the tool is in its file, once")
    ctx.check_eq(got["inputs"], want["inputs"], "parameters in map form stay as they were")
    ctx.check_eq(got["cwlVersion"], "v1.1", "the version is added to each file")
    ctx.check_eq(got.get("$namespaces"), {"e": "http://e/"} if ns else None, "the namespaces apply to each file")
    ctx.reach("split")


def refs_cfg(tier):
    n = 2 if tier == "quick" else 3
    return [(m, o, "json", n) for m in (0, 1) for o in (0, 1)] + [(0, 0, "yaml", 1)]


def types_cfg(tier):
    return [(s, f, "json" if f == "list" else "yaml", h) for s in ("same", "other", "own") for f in ("list", "map") for h in (0, 1)]


HARNESSES = [
    {"name": "refs", "fn": h_refs, "configs": refs_cfg, "reach": ("split",)},
    {"name": "types", "fn": h_types, "configs": types_cfg, "reach": ("split",)},
    {"name": "other", "fn": h_other, "configs": {"quick": [None]}, "reach": ("split",)},
]
