"""C17: loading and saving the CWL object model.  For every class of the three object
models, documents are built from the fields that the CWL schema gives it (taken from the
schema, props/c17_schema.json, not from the generated code); which fields are present
and what is in them is symbolic.  The real fromDoc, save, __eq__ and __hash__ run on
them."""

import copy
import inspect
import json
import os
import urllib.parse

import schema_salad.runtime
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions

from sx import shadow

shadow.urllib_parse()
INSTRUMENT = ("cwl_utils.parser.cwl_v1_0", "cwl_utils.parser.cwl_v1_1", "cwl_utils.parser.cwl_v1_2", "schema_salad.runtime")
ASSUMPTIONS = [
    "every object that can have an identifier or a name has one (others get a random one)",
    "documents are in list form with relative identifiers, as the parser itself writes them; the shorthands of CWL have harnesses of their own",
    "fetching and link checking are a stand-in that finds every file; the fields of a class are those of the CWL schemas, and written down by hand for the extension classes",
]
NS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
for _m in NS.values():
    vars(_m).setdefault("hash", hash)  # what is hashed is looked at instead of its number
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c17_schema.json")) as _h:
    SCHEMA = json.load(_h)
BASE = "file:///d/doc.cwl"


def classes(v):
    return [c for c in SCHEMA[v] if inspect.isclass(getattr(NS[v], c, None)) and not inspect.isabstract(getattr(NS[v], c))]


def BOUNDS(tier):
    return {"classes": {v: len(classes(v)) for v in NS},
            "fields": "of each class: one%s given, missing or changed, all the others missing or all given" % ("" if tier == "quick" else " or two"),
            "values": "text of 1..2 characters, integers of 32 bits, booleans, every symbol of an enumeration, arrays of 0..1 items, nested objects with their required or with all fields, references",
            "text": "types, secondaryFiles patterns and references of up to %d characters" % (4 if tier == "quick" else 6)}


class Fetch:
    """Finds every file, reads none."""

    def __init__(self, files=()):
        self.cache = {}
        self.files = dict(files)

    def urljoin(self, base, url):
        return urllib.parse.urljoin(base, url)

    def check_exists(self, url):
        return True

    def supported_schemes(self):
        return ["file", "http", "https", "mailto"]

    def fetch_text(self, url, content_types=None):
        return self.files[url]


class Index(dict):
    """What was loaded, by identifiers that may be symbolic."""

    def __init__(self):
        dict.__init__(self)
        self.entries = []

    def __setitem__(self, k, x):
        self.entries.insert(0, (k, x))

    def __contains__(self, k):
        return any(k == e[0] for e in self.entries)

    def __getitem__(self, k):
        for e in self.entries:
            if e[0] == k:
                return e[1]
        raise KeyError(k)


def options(files=(), **k):
    return LoadingOptions(fetcher=Fetch(files), fileuri=BASE, idx=Index(), **k)


# ------------------------------------------------------------ documents
REFS = {"id": "x", "name": "x", "source": "w.cwl#s1/o", "outputSource": "w.cwl#s1/o", "loopSource": "w.cwl#s1/o", "format": "http://f.org/1", "scatter": "x",
        "run": "t.cwl", "location": "l.txt", "path": "p.txt", "secrets": "x", "intent": "http://f.org/i", "specs": "http://f.org/s", "type": "file:///d/types.cwl#T",
        "items": "file:///d/types.cwl#T"}
# references that are texts of their own kind, and fields whose text names something
TEXT = {"symbols": "sym", "out": "o"}


def sample(v, field, ts, depth, n=0):
    """A plain value of one of the types."""
    for t in ts[n:] + ts[:n]:
        if t == "null" or (t == "string" and field in ("type", "items") and len(ts) > 1):
            continue
        if isinstance(t, dict) and "record" in t and depth > 2:
            continue
        return sample1(v, field, t, depth)
    raise AssertionError(ts)


def sample1(v, field, t, depth):
    if t == "string":
        return REFS.get(field, TEXT.get(field, "text"))
    if t == "Expression":
        return "$(inputs.x)"
    if t in ("int", "long"):
        return 3
    if t in ("float", "double"):
        return 1.5
    if t == "boolean":
        return True
    if t == "Any":
        return {"k": [1, "a"]}
    if "enum" in t:
        return t["enum"][-1]
    if "record" in t:
        return document(v, t["record"], False, depth + 1)
    items = t["array"] if isinstance(t["array"], list) else [t["array"]]
    if not items or depth > 1:
        return []
    return [sample(v, field, items, depth)]


def document(v, cls, full, depth=0):
    doc = {}
    for f, ts in SCHEMA[v][cls].items():
        if full or "null" not in ts or f in ("id", "name"):
            doc[f] = sample(v, f, ts, depth)
    return doc


LETTERS = ((97, 122),)


def alternatives(ctx, v, n, field, ts):
    """Ways to fill a field."""
    out = []
    for i, t in enumerate(ts):
        m = "%s.%d" % (n, i)
        if t == "null":
            continue
        if t == "string":
            if field in REFS or field in TEXT:
                out.append(lambda: REFS.get(field, TEXT.get(field)))
            else:
                out.append(lambda m=m: ctx.str(m, 2, LETTERS, minlen=1))
        elif t == "Expression":
            out.append(lambda: "$(inputs.x)")
        elif t in ("int", "long"):
            out.append(lambda m=m: ctx.int(m, -(1 << 31), (1 << 31) - 1))
        elif t in ("float", "double"):
            out.append(lambda: 1.5)
        elif t == "boolean":
            out.append(lambda m=m: ctx.bool(m))
        elif t == "Any":
            out.append(lambda m=m: {"k": ctx.enum(m, [1, "s"])})
            out.append(lambda m=m: ctx.int(m + "n", 0, 9))
            out.append(lambda: {"class": "File", "location": "l.txt"})
        elif "enum" in t:
            out.append(lambda m=m, t=t: ctx.enum(m, t["enum"]))
        elif "record" in t:
            out.append(lambda t=t: document(v, t["record"], False, 1))
            out.append(lambda t=t: document(v, t["record"], True, 1))
        else:
            items = t["array"] if isinstance(t["array"], list) else [t["array"]]
            items = [x for x in items if x != "null" and not (isinstance(x, dict) and "array" in x)]
            if field not in ("type", "items"):
                out.append(lambda: [])
            if items and field in ("type", "items"):
                out.append(lambda m=m, items=items: ["null", sample(v, field, items[1:], 1, ctx.pick(m, len(items) - 1))])
            elif items:
                out.append(lambda m=m, items=items: [ctx.lazy(m, [a for a in alternatives(ctx, v, m, field, items)])])
                if len(items) == 1 and items[0] in ("string", "int", "long"):
                    out.append(lambda m=m, items=items: [alternatives(ctx, v, m + "a", field, items)[0](), sample1(v, field, items[0], 0)])
    return out


def load(ctx, v, cls, doc, **k):
    return ctx.call(getattr(NS[v], cls).fromDoc, copy.deepcopy(doc), BASE, options(**k))


def digest(obj):
    """What the hash is computed from (lists have none, but are the same or not)."""
    return obj.__hash__()


def shape(doc, v, cls):
    """Secondary files are always a list when they are saved."""
    if isinstance(doc, list):
        return [shape(x, v, cls) for x in doc]
    if not isinstance(doc, dict):
        return doc
    doc = {k: shape(x, v, cls) for k, x in doc.items()}
    for k in ("type", "items"):  # the reference may be relative to the document
        if isinstance(doc.get(k), str) and doc[k] == "types.cwl#T":
            doc[k] = REFS[k]
    s = doc.get("secondaryFiles")
    if isinstance(s, dict) and "pattern" in s:
        doc["secondaryFiles"] = [s]
    return doc


def h_field(ctx):
    """Every field of every class: what is given comes back, and nothing else."""
    v, cls = ctx.config[:2]
    spec = SCHEMA[v][cls]
    ctx.patch(NS[v], "hash", lambda x: x)
    doc = document(v, cls, ctx.pick("others", 2) == 1)
    names = sorted(f for f in spec if f != "class")
    if len(ctx.config) > 2 and names:  # a second field
        f = names.pop(ctx.config[2])
        alts = alternatives(ctx, v, "second", f, spec[f])
        doc.pop(f, None)
        doc[f] = alts[ctx.pick("second", len(alts))]()
        names = names[ctx.config[2]:]
    if names:
        f = names[ctx.pick("field", len(names))]
        alts = alternatives(ctx, v, "value", f, spec[f])
        optional = "null" in spec[f] and f not in ("id", "name")
        was = doc.pop(f, None)
        k = ctx.pick("which", len(alts) + (1 if optional else 0))
        if k < len(alts):
            doc[f] = alts[k]()
    kind, obj = load(ctx, v, cls, doc)
    ctx.check(kind == "ok", "the document is loaded", obj)
    kind, saved = ctx.call(obj.save, base_url=BASE)
    ctx.check(kind == "ok", "the object is saved", saved)
    ctx.check_eq(shape(saved, v, cls), shape(doc, v, cls), "saving gives back every field and no other")
    kind, again = load(ctx, v, cls, saved)
    ctx.check(kind == "ok", "the saved form is loaded", again)
    ctx.check(again == obj, "loading the saved form gives an equal object")
    ctx.check(not again != obj, "loading the saved form gives an equal object")
    ctx.check(ctx.eq(digest(obj), digest(again)), "equal objects have the same hash")
    ctx.reach("hashed")
    kind, absolute = ctx.call(obj.save, relative_uris=False)
    ctx.check(kind == "ok", "the object is saved", absolute)
    kind, third = load(ctx, v, cls, absolute)
    ctx.check(kind == "ok", "the saved form with full identifiers is loaded", third)
    ctx.check(third == obj, "loading the saved form with full identifiers gives an equal object")
    ctx.check(obj != saved and not obj == None and obj != "x", "an object equals objects only")  # noqa: E711
    if names:
        other = dict(doc)
        if f in doc and optional:
            del other[f]
        elif was is not None and f not in REFS:
            other[f] = was
        elif f not in doc:
            other[f] = sample(v, f, spec[f], 0)
        elif f in ("id", "name"):
            other[f] = "y"
        else:
            return
        kind, third = load(ctx, v, cls, other)
        ctx.check(kind == "ok", "the document is loaded", third)
        ctx.check(ctx.any([ctx.eq(shape(other, v, cls)[f], shape(doc, v, cls)[f]), ctx.no(third == obj)]) if f in other and f in doc else third != obj,
                  "objects that differ in a field are unequal", f)
        ctx.reach("different")


def h_equal(ctx):
    """Objects are equal exactly when each of their fields is."""
    v, cls = ctx.config
    spec = SCHEMA[v][cls]
    ctx.patch(NS[v], "hash", lambda x: x)
    docs = [document(v, cls, False), document(v, cls, False)]
    names = sorted(f for f in spec if f != "class")
    if not names:
        return
    f = names[ctx.pick("field", len(names))]
    k = None
    for n, doc in zip("ab", docs):
        alts = alternatives(ctx, v, n, f, spec[f])
        k = ctx.pick(n + "which", len(alts)) if k is None else (k + ctx.pick("next", min(2, len(alts)))) % len(alts)
        doc[f] = alts[k]()
    objs = []
    for doc in docs:
        kind, obj = load(ctx, v, cls, doc)
        ctx.check(kind == "ok", "the document is loaded", obj)
        objs.append(obj)
    same = ctx.eq(shape(docs[0], v, cls), shape(docs[1], v, cls))
    ctx.check(ctx.any([same, ctx.no(objs[0] == objs[1])]), "objects that differ in a field are unequal", f)
    ctx.check(ctx.any([ctx.no(same), objs[0] == objs[1]]), "objects with equal fields are equal", f)
    ctx.check(ctx.any([ctx.no(same), ctx.eq(digest(objs[0]), digest(objs[1]))]), "equal objects have the same hash", f)
    ctx.reach("compared")


KINDS = {"number": 2.5, "text": "text", "map": {"zz": 2.5}, "list": [{"zz": 2.5}], "flag": False}


# shorthands: a pattern, the name of a type, requirements by their class
SHORT = {("secondaryFiles", "text"), ("type", "text"), ("items", "text"), ("hints", "map")}


def takes(ts, kind):
    for t in ts:
        if t == "Any":
            return True
        if kind == "number" and t in ("float", "double"):
            return True
        if kind == "text" and (t in ("string", "Expression") or isinstance(t, dict) and "enum" in t and "text" in t["enum"]):
            return True
        if kind == "flag" and t in ("boolean", "int", "long"):  # Python's flags are integers
            return True
        if kind == "list" and isinstance(t, dict) and "array" in t and takes(t["array"] if isinstance(t["array"], list) else [t["array"]], "map"):
            return True
    return False


def h_reject(ctx):
    """Unknown fields, missing fields and values of the wrong kind."""
    v, cls = ctx.config
    spec = SCHEMA[v][cls]
    full = ctx.pick("others", 2) == 1
    doc = document(v, cls, full)
    names = sorted(spec)
    how = ctx.pick("how", 3)
    if how == 0:
        name = ctx.one("unknown", ["zz", "Id", "labels", "extra", "in_", "type_"])
        doc[name] = 1
        if name in spec:
            return
    elif how == 1:
        required = [f for f in names if "null" not in spec[f]]
        if not required:
            return
        f = required[ctx.pick("missing", len(required))]
        if ctx.pick("null", 2):
            doc[f] = None
        else:
            del doc[f]
    else:
        f = names[ctx.pick("field", len(names))]
        k = sorted(KINDS)[ctx.pick("kind", len(KINDS))]
        if takes(spec[f], k) or (f, k) in SHORT:
            return
        doc[f] = KINDS[k]
        ctx.reach("kind")
    kind, got = load(ctx, v, cls, doc)
    ctx.check(kind == "exc" and isinstance(got, ValidationException), "a document that does not fit the class is rejected", (doc, got))
    ctx.reach("rejected")


# ------------------------------------------------------------ shorthands
BUILTIN = ("null", "boolean", "int", "long", "float", "double", "string", "File", "Directory")


def holders(v, field, test):
    return [(v, c) for c in classes(v) if field in SCHEMA[v][c] and test(SCHEMA[v][c][field])]


def typed(v):
    return holders(v, "type", lambda ts: "string" in ts and len(ts) > 1)


def type_of(ctx, text, place):
    """What the name of a type, without its suffixes, stands for."""
    for b in BUILTIN:
        if text == b:
            return b
    at = text.find("#")
    if at == 0:
        return "file:///d/doc.cwl" + text
    if at > 0:
        return "file:///d/" + text
    return "file:///d/doc.cwl#" + "/".join(place + [text])


SUFFIX = ["", "?", "[]", "[]?"]


def head(ctx, n, first):
    if first and ctx.config[4]:
        return ctx.enum(n + ".name", ["int", "T", "null", "File"])
    kind = ctx.pick(n + ".kind", 2)
    if kind == 0:
        return ctx.enum(n + ".name", list(BUILTIN))
    t = ctx.str(n + ".text", ctx.config[3], ((35, 35), (47, 47), (84, 84), (105, 105), (110, 110), (116, 116)), minlen=1)
    ctx.assume(t[0] != "/" and t[len(t) - 1] != "#" and t[len(t) - 1] != "/")
    ctx.assume("#" not in t or ("/" not in t and t.count("#") == 1))
    ctx.assume("//" not in t)
    return t


def h_types(ctx):
    """Names of types with their suffixes."""
    v, cls, place = ctx.config[:3]
    base = BASE + ("#" + "/".join(place) if place else "")
    doc = document(v, cls, False)
    up = place[:-1]  # the identifier of the object adds a part, two are left out
    n = ctx.pick("list", 3)
    want, given = [], []
    for i in range(max(n, 1)):
        if n == 2 and i == 1:
            text, suffix = ctx.one("other", ["int", "string", "T", "null"]), SUFFIX[ctx.pick("suffix1", 4)]
        else:
            text, suffix = head(ctx, "head%d" % i, n == 2), SUFFIX[ctx.pick("suffix%d" % i, 4)]
        ctx.assume(not (text == "null" and suffix == "?"))
        given.append(text + suffix)
        t = type_of(ctx, text, up)
        if suffix[:2] == "[]":
            t = {"type": "array", "items": t}
        for x in ["null", t] if suffix[-1:] == "?" else [t]:
            if not any(ctx.eq(x, y) for y in want):
                want.append(x)
    doc["type"] = given if n else given[0]
    kind, obj = ctx.call(getattr(NS[v], cls).fromDoc, doc, base, options())
    ctx.check(kind == "ok", "a document with shorthands is loaded", obj)
    got = obj.type_
    if n == 0 and len(want) == 1:
        got, want = [got], want
    ctx.check(isinstance(got, list) and len(got) == len(want), "the shorthand of a type means the type")
    for g, w in zip(got, want):
        if isinstance(w, dict):
            ctx.check(not isinstance(g, str), "the shorthand of a type means the type")
            ctx.check_eq([g.type_, g.items], ["array", w["items"]], "the shorthand of a type means the type")
        else:
            ctx.check_eq(g, w, "the shorthand of a type means the type")
    ctx.reach("list" if n else "single")


def h_secondary(ctx):
    """Patterns of secondary files."""
    v, cls, size = ctx.config
    doc = document(v, cls, False)
    form = ctx.pick("form", 4)
    want, given = [], []
    for i in range(2 if form == 3 else 1):
        t = ctx.str("pattern%d" % i, size if i == 0 else 2, ((36, 36), (40, 41), (46, 46), (63, 63), (94, 94), (97, 97)), minlen=1)
        if form == 1 or form == 3 and i == 1 and ctx.pick("object", 2):
            e = {"pattern": t}
            r = ctx.pick("required", 3)
            if r:
                e["required"] = ctx.bool("value") if r == 1 else "$(true)"
            given.append(e)
            want.append(e)
        else:
            given.append(t)
            if t[len(t) - 1] == "?":
                want.append({"pattern": t[:-1], "required": False})
            else:
                want.append({"pattern": t})
    doc["secondaryFiles"] = given[0] if form < 2 else given
    kind, obj = load(ctx, v, cls, doc)
    ctx.check(kind == "ok", "a document with shorthands is loaded", obj)
    ctx.check_eq(obj.save(base_url=BASE).get("secondaryFiles"), want, "the shorthand of a pattern means the pattern")
    ctx.reach("secondary")


MAPS = {"inputs": ("id", "type"), "outputs": ("id", "type"), "steps": ("id", None), "in": ("id", "source"), "requirements": ("class", None),
        "hints": ("class", None), "fields": ("name", "type"), "envDef": ("envName", "envValue"), "packages": ("package", "specs"),
        "loop": ("id", "loopSource")}


def elements(ts):
    for t in ts:
        if isinstance(t, dict) and "array" in t:
            items = t["array"] if isinstance(t["array"], list) else [t["array"]]
            if items == ["Any"]:
                return [None]
            return [x["record"] for x in items if isinstance(x, dict) and "record" in x]
    return []


def h_map(ctx):
    """Lists of objects written as maps."""
    v, cls, field = ctx.config
    subject, predicate = MAPS[field]
    kinds = elements(SCHEMA[v][cls][field])
    doc = document(v, cls, False)
    n = ctx.pick("n", 3)
    as_list, as_map = [], {}
    for i in range(n):
        at = ctx.pick("kind", len(kinds)) if i == 0 else at + 1
        k = kinds[at % len(kinds)]
        key = ["b", "a"][i] if subject != "class" else (k or ["x:H2", "x:H1"][i])
        if key in as_map:
            return
        if predicate is not None and ctx.pick("short%d" % i, 2):
            p = sample(v, predicate, SCHEMA[v][k][predicate], 1)
            if predicate == "envValue":
                p = ctx.str("value%d" % i, 2, LETTERS)
            elif predicate == "specs":
                p = [p]
            elif predicate == "type":
                p = ctx.one("type%d" % i, ["int", "File", "T", ["null", "string"]])
            as_map[key] = p
            as_list.append({subject: key, predicate: p})
            ctx.reach("short")
        elif k is None:
            as_map[key] = {"f": ctx.int("f%d" % i, 0, 9)}
            as_list.append(dict(as_map[key], **{subject: key}))
        else:
            d = document(v, k, i == 0 and ctx.pick("full", 2) == 1, 1)
            d[subject] = key
            as_list.append(d)
            own = ctx.pick("own", 3) if i == 0 else 0  # the entry may name itself, the key counts
            as_map[key] = {f: x if f != subject or own == 1 else "other" for f, x in d.items() if f != subject or own}
    doc[field] = as_list
    kind, one = load(ctx, v, cls, doc)
    ctx.check(kind == "ok", "the document is loaded", one)
    doc[field] = as_map
    kind, two = load(ctx, v, cls, doc)
    ctx.check(kind == "ok", "a document with shorthands is loaded", two)
    ctx.check_eq(two.save(base_url=BASE), one.save(base_url=BASE), "a map means the list of its entries with their keys")
    ctx.check(one == two, "a map means the list of its entries with their keys")
    ctx.reach("map")


# ------------------------------------------------------------ references
def full(base, name):
    return base + ("/" if "#" in base else "#") + name


def h_reference(ctx):
    """Identifiers and references of a workflow."""
    v, named = ctx.config
    i1, s1, o1 = ctx.str("input", 2, LETTERS, minlen=2), ctx.str("step", 1, LETTERS, minlen=1), "o"
    base = full(BASE, "m") if named else BASE
    forms = [i1, s1 + "/" + o1, "#" + ("m/" if named else "") + s1 + "/" + o1, "#" + ("m/" if named else "") + i1, "w.cwl#" + i1]
    urls = [full(base, i1), full(base, s1) + "/" + o1, full(base, s1) + "/" + o1, full(base, i1), "file:///d/w.cwl#" + i1]
    k = ctx.pick("source", len(forms))
    runs = [("t.cwl", "file:///d/t.cwl"), ("../t.cwl#main", "file:///t.cwl#main"), ("#tool", BASE + "#tool"), ("sub/t.cwl", "file:///d/sub/t.cwl"),
            ("http://x.org/t.cwl", "http://x.org/t.cwl")]
    j = ctx.pick("final", 3)
    r = ctx.pick("run", len(runs)) if k == j == 0 else 0
    run, run_url = runs[r]
    several = ctx.pick("several", 2) == 1
    step = {"id": s1, "in": [{"id": "p", "source": [forms[k], i1] if several else forms[k]}], "out": [o1], "scatter": "p", "run": run}
    doc = {"class": "Workflow", "inputs": [{"id": i1, "type": "int"}], "steps": [step],
           "outputs": [{"id": "z", "type": "int", "outputSource": [forms[j]] if several else forms[j]}]}
    if named:
        doc["id"] = "m" if ctx.pick("hash", 2) else "#m"
    fd = NS[v].Workflow.fromDoc
    kind, w = ctx.call(fd, doc, BASE, options(), docRoot=BASE)
    ctx.check(kind == "ok", "the document is loaded", w)
    st = w.steps[0]
    ctx.check_eq([w.id, w.inputs[0].id, w.outputs[0].id, st.id, st.in_[0].id], [base, full(base, i1), full(base, "z"), full(base, s1), full(base, s1) + "/p"],
                 "an identifier is complete and in the scope of its process or step")
    ctx.check_eq([st.out, st.scatter], [[full(base, s1) + "/" + o1], full(base, s1) + "/p"], "a reference of a step is in its scope")
    ctx.check_eq(st.in_[0].source, [urls[k], full(base, i1)] if several else urls[k], "a source is looked up in the workflow")
    ctx.check_eq(w.outputs[0].outputSource, [urls[j]] if several else urls[j], "a source is looked up in the workflow")
    ctx.check_eq(st.run, run_url, "the process of a step is found relative to the document")
    again = NS[v].Workflow.fromDoc(w.save(relative_uris=False), BASE, options(), docRoot=BASE)
    ctx.check(again == w, "loading the saved form with full identifiers gives an equal object")
    saved = w.save(base_url=BASE)
    again = NS[v].Workflow.fromDoc(saved, BASE, options(), docRoot=BASE)
    if r == 2:
        return  # a process of the same document, saved and read: a known finding
    if named:
        # the sources are a known finding, the others are not
        sn = again.steps[0]
        ctx.check_eq([again.id, again.inputs[0].id, again.outputs[0].id, sn.id, sn.in_[0].id, sn.out, sn.scatter, sn.run],
                     [w.id, w.inputs[0].id, w.outputs[0].id, st.id, st.in_[0].id, st.out, st.scatter, st.run],
                     "loading the saved form gives the same identifiers")
        ctx.reach("named")
    else:
        # the same known finding: a source that begins like the name of what it is used in
        ctx.assume(i1[0] != s1 and i1[0] != "z" and s1 != "z" and k not in (1, 2))
        ctx.check(again == w, "loading the saved form gives an equal object")
        ctx.reach("unnamed")


def h_own_run(ctx):
    """Only a known finding: a step that runs a process of the same document, saved and read."""
    v, = ctx.config
    doc = {"class": "Workflow", "inputs": [], "steps": [{"id": "s", "in": [], "out": [], "run": "#tool"}], "outputs": []}
    w = NS[v].Workflow.fromDoc(doc, BASE, options(), docRoot=BASE)
    again = NS[v].Workflow.fromDoc(w.save(base_url=BASE), BASE, options(), docRoot=BASE)
    ctx.check(again == w, "loading the saved form gives an equal object", again.steps[0].run)


def h_named_sources(ctx):
    """Only a known finding: the sources of a workflow, saved and read, when the workflow has
    a name or the source begins like the name of the step."""
    v, named = ctx.config[:2]
    doc = {"class": "Workflow", "inputs": [{"id": "sample", "type": "int"}], "steps": [{"id": "s", "in": [{"id": "i", "source": "sample"}], "out": [], "run": "t.cwl"}],
           "outputs": [{"id": "z", "type": "int", "outputSource": "sample"}]}
    if named:
        doc["id"] = "m"
    w = NS[v].Workflow.fromDoc(doc, BASE, options(), docRoot=BASE)
    again = NS[v].Workflow.fromDoc(w.save(base_url=BASE), BASE, options(), docRoot=BASE)
    ctx.check(again == w, "loading the saved form gives an equal object", (again.outputs[0].outputSource, again.steps[0].in_[0].source))


# ------------------------------------------------------------ other files
def h_files(ctx):
    """Parts of a document in other files."""
    v, = ctx.config
    text = ctx.str("text", 3, ((32, 126),))
    places = [("sub/f", "file:///d/sub/f"), ("../f", "file:///f"), ("http://x.org/f", "http://x.org/f")]
    at, url = places[ctx.pick("place", len(places))]
    what = ctx.pick("what", 5)
    doc = document(v, "CommandLineTool", False)
    plain = copy.deepcopy(doc)
    content = text
    if what == 0:
        doc["doc"], plain["doc"] = {"$include": at}, text
    elif what == 1:
        doc["requirements"] = [{"class": "InlineJavascriptRequirement", "expressionLib": ["a", {"$include": at}]}]
        plain["requirements"] = [{"class": "InlineJavascriptRequirement", "expressionLib": ["a", text]}]
    else:
        n = 1 + ctx.pick("n", 9)
        parts = [("requirements", [{"class": "EnvVarRequirement", "envDef": [{"envName": "a", "envValue": str(n)}]}]),
                 ("baseCommand", ["b", str(n)]), ("arguments", [{"valueFrom": "a", "position": n}])]
        f, value = parts[what - 2]
        whole = f != "baseCommand" and ctx.pick("whole", 2) == 1
        if f == "baseCommand":
            doc[f] = {"$import": at}
        else:
            doc[f] = {"$import": at} if whole else [{"$import": at}]
        plain[f] = value
        content = json.dumps(value if whole or f == "baseCommand" else value[0])
    o = options({url: content})
    kind, one = ctx.call(NS[v].CommandLineTool.fromDoc, doc, BASE, o)
    ctx.check(kind == "ok", "a document with parts in other files is loaded", one)
    kind, two = load(ctx, v, "CommandLineTool", plain)
    ctx.check(kind == "ok", "the document is loaded", two)
    ctx.check(one == two, "a part in another file is as if it was written in its place")
    ctx.check_eq(one.save(base_url=BASE), two.save(base_url=BASE), "a part in another file is as if it was written in its place")
    ctx.reach("included" if what < 2 else "imported")


def h_extension(ctx):
    """Fields of other vocabularies."""
    v, cls = ctx.config
    doc = document(v, cls, ctx.pick("others", 2) == 1)
    k = ctx.pick("namespace", 3)
    value = [ctx.str("text", 2, LETTERS), ctx.int("n", 0, 9), {"a": [1]}, None][ctx.pick("value", 4)]
    ns = {"ex": "http://e.org/"} if k else None
    doc["ex:f" if k == 1 else "http://e.org/f"] = value
    kind, obj = ctx.call(getattr(NS[v], cls).fromDoc, copy.deepcopy(doc), BASE, options(namespaces=ns))
    ctx.check(kind == "ok", "a document with extensions is loaded", obj)
    ctx.check_eq(dict(obj.extension_fields), {"http://e.org/f": value}, "a field of another vocabulary is kept with its full name")
    saved = obj.save(base_url=BASE)
    want = dict(doc)
    want["ex:f" if k else "http://e.org/f"] = want.pop("ex:f" if k == 1 else "http://e.org/f")
    ctx.check_eq(shape(saved, v, cls), shape(want, v, cls), "fields of other vocabularies are saved")
    top = obj.save(top=True, base_url=BASE)
    ctx.check_eq(top.get("$namespaces"), ns, "the namespaces are saved with the document")
    ctx.reach("prefix" if k else "full")


def all_classes(tier):
    if os.environ.get("C17"):
        return [tuple(os.environ["C17"].split())]
    return [(v, c) for v in NS for c in classes(v)]


def type_configs(tier):
    size = 2 if tier == "quick" else 3
    return [(v, c, list(place), size, tier == "quick") for v in NS for n, (_, c) in enumerate(typed(v))
            for place in ((), ("p",), ("p", "q", "r")) if place == ("p",) or n % 3 == 0 or tier != "quick"]


def secondary_configs(tier):
    return [(v, c, 3 if tier == "quick" else 4) for v in ("v1.1", "v1.2")
            for _, c in holders(v, "secondaryFiles", lambda ts: {"record": "SecondaryFileSchema"} in ts)]


def map_configs(tier):
    return [(v, c, f) for v in NS for c in classes(v) for f in MAPS if elements(SCHEMA[v][c].get(f, []))]


def field_configs(tier):
    """All the classes; in the thorough tier also with a second field."""
    pairs = []
    if tier != "quick":
        pairs = [(v, c, n) for v, c in all_classes(tier) for n in range(len([f for f in SCHEMA[v][c] if f != "class"]) - 1)]
    return all_classes(tier) + pairs


HARNESSES = [
    {"name": "field", "fn": h_field, "configs": field_configs, "reach": ("hashed", "different")},
    {"name": "equal", "fn": h_equal, "configs": all_classes, "reach": ("compared",)},
    {"name": "reject", "fn": h_reject, "configs": all_classes, "reach": ("rejected", "kind")},
    {"name": "types", "fn": h_types, "configs": type_configs, "reach": ("list", "single")},
    {"name": "secondary", "fn": h_secondary, "configs": secondary_configs, "reach": ("secondary",)},
    {"name": "map", "fn": h_map, "configs": map_configs, "reach": ("short", "map")},
    {"name": "reference", "fn": h_reference, "configs": lambda tier: [(v, n) for v in NS for n in (False, True)], "reach": ("named", "unnamed")},
    {"name": "named_sources", "fn": h_named_sources, "configs": lambda tier: []},
    {"name": "own_run", "fn": h_own_run, "configs": lambda tier: []},
    {"name": "files", "fn": h_files, "configs": lambda tier: [(v,) for v in NS], "reach": ("included", "imported")},
    {"name": "extension", "fn": h_extension, "configs": all_classes, "reach": ("prefix", "full")},
]
