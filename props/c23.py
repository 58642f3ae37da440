"""C23: input files (the values a process is run with).  Trees of values of symbolic
shape and symbolic content are read with the real load_inputfile functions of the three
versions; what comes back is compared with the tree."""

import copy
import json
import urllib.parse

import schema_salad.exceptions
from schema_salad.exceptions import ValidationException
from schema_salad.runtime import LoadingOptions

from cwl_utils import parser
from cwl_utils.parser import cwl_v1_0, cwl_v1_0_utils, cwl_v1_1, cwl_v1_1_utils, cwl_v1_2, cwl_v1_2_utils
from cwl_utils.parser import utils as parser_utils

from sx import shadow
from sx.proxies import pending

from . import state

shadow.urllib_parse()
INSTRUMENT = ("cwl_utils.parser.cwl_v1_0", "cwl_utils.parser.cwl_v1_1", "cwl_utils.parser.cwl_v1_2", "cwl_utils.parser.cwl_v1_0_utils",
              "cwl_utils.parser.cwl_v1_1_utils", "cwl_utils.parser.cwl_v1_2_utils", "cwl_utils.parser.utils", "schema_salad.runtime")
ASSUMPTIONS = [
    "an object of class File or Directory has the fields of the specification and namespaced ones only",
    "an object of another class, and an object that is a requirement, is outside",
    "a prefix of a format is one that the namespaces declare, or the format is an absolute URI",
    "reading is a stand-in for the fetcher: texts by URI",
]
NS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
UTILS = {"v1.0": cwl_v1_0_utils, "v1.1": cwl_v1_1_utils, "v1.2": cwl_v1_2_utils}
for _m in (*UTILS.values(), parser_utils):
    state.snapshot(_m)
BASE = "file:///in/d/job.yml"
TOOL = "http://tool.org/t/tool.cwl"


def BOUNDS(tier):
    deep = 2 if tier == "quick" else 3
    return {"tree": "inputs of one or two values, nested up to %d levels, lists and records of 0..2 members" % deep,
            "values": "integers of 64 bits, booleans, null, a float, text of up to 3 characters, and a text that looks like a link",
            "files": "any one or two fields, with secondary files, listings, formats and namespaced fields; locations relative (symbolic), upwards, absolute, with space and fragment",
            "entry": "all entry points, with the options of a tool elsewhere or none, namespaces of the file, of the tool or of both; imports"}


class Fetch:
    def __init__(self, files):
        self.cache = {}
        self.files = dict(files)
        self.read = []

    def urljoin(self, base, url):
        return urllib.parse.urljoin(base, url)

    def check_exists(self, url):
        return True

    def supported_schemes(self):
        return ["file", "http", "https", "mailto"]

    def fetch_text(self, url, content_types=None):
        self.read.append(url)
        if url not in self.files:
            raise ValidationException("no " + url)
        return self.files[url]


LETTERS = ((97, 122), (46, 46))
NAME = ((97, 122),)
PLACES = [("x.txt", "file:///in/d/x.txt"), ("../y.txt", "file:///in/y.txt"), ("/abs/z", "file:///abs/z"), ("http://h.org/q?a=1#f", "http://h.org/q?a=1#f"),
          ("s p.txt", "file:///in/d/s p.txt"), ("sub/", "file:///in/d/sub/"), ("n#1", "file:///in/d/n#1"), ("file:///o/p", "file:///o/p")]
FORMATS = [("http://f.org/1", "http://f.org/1"), ("own:1", "http://own.org/1"), ("tool:2", "http://tool.org/f#2"), ("both:3", "http://mine.org/3"), (None, None)]
FIELDS = {"File": ["location", "path", "basename", "dirname", "nameroot", "nameext", "checksum", "size", "secondaryFiles", "format", "contents"],
          "Directory": ["location", "path", "basename", "listing"]}


class Expected:
    """An object of the model with these fields, and no other."""

    def __init__(self, cls, fields, ext=None):
        self.cls, self.fields, self.ext = cls, fields, ext or {}


def scalar(ctx, n, few=False):
    some = [lambda: ctx.int(n + "i", -(1 << 63), (1 << 63) - 1), lambda: None, lambda: ctx.str(n + "s", 1 if few else 3, LETTERS, 1 if few else 0)]
    if not few:
        some += [lambda: ctx.bool(n + "b"), lambda: 1.5,
                 lambda: ctx.enum(n + "l", ["http://x.org/y#z", "own:1", "#a", "../x", "$(inputs.x)", "File", "2020-01-01", "1", "null", "true"])]
    x = ctx.lazy(n, some)
    return x, x


def place(ctx, n, some):
    k = ctx.pick(n, len(some) + 1)
    if k == len(some):
        name = ctx.str(n + "n", 3 if some is PLACES else 1, NAME, 1)
        return name, "file:///in/d/" + name
    return some[k]


def simple(ctx, n, depth):
    """Another value next to one."""
    x, want = ctx.one(n, [(None, None), ("#s", "#s"), ({"class": "Directory", "location": "d"}, Expected("Directory", {"location": "file:///in/d/d"}))])
    return copy.deepcopy(x), want


KINDS = ("scalar", "thing", "list", "record")


def value(ctx, n, depth, kind=None):
    """What is written, and what is to be read."""
    kind = kind or KINDS[ctx.pick(n + "k", 2 if depth <= 0 else 4)]
    if kind == "scalar":
        return scalar(ctx, n, depth < 2)
    if kind == "thing":
        return thing(ctx, n, depth)
    if kind == "list":
        both = [(value if i == 0 else simple)(ctx, n + "." + str(i), depth - 1) for i in range(ctx.pick(n + "c", 3))]
        return [x for x, _ in both], [x for _, x in both]
    keys = ctx.one(n + "m", [(), ("k",), ("id", "location"), ("class", "x"), ("path", "format")])
    doc, want = {}, {}
    for i, key in enumerate(keys):
        doc[key], want[key] = ("Other", "Other") if key == "class" else (value if i == 0 or keys[0] == "class" else simple)(ctx, n + "." + key, depth - 1)
    return doc, want


FEW = {"File": ["location", "contents", "secondaryFiles"], "Directory": ["path", "listing"]}


def thing(ctx, n, depth, cls=None, field=None):
    """A File or a Directory, with one or two of its fields."""
    cls = cls or ("File", "Directory")[ctx.pick(n + "cls", 2)]
    if field is None:
        names = (FIELDS if depth > 1 else FEW)[cls]
        field = names[ctx.pick(n + "f", len(names))]
    doc, want = {"class": cls}, {}
    fields = {field, "location"} if depth > 1 and field not in FEW[cls][1:] and ctx.bool(n + "loc") else {field}
    for f in FIELDS[cls]:
        if f not in fields:
            continue
        if f in ("location", "path"):
            doc[f], want[f] = place(ctx, n + f, PLACES if depth > 1 and f == field else PLACES[:1])
        elif f == "format":
            doc[f], want[f] = ctx.one(n + f, FORMATS)
        elif f == "size":
            doc[f] = want[f] = ctx.int(n + f, 0, (1 << 63) - 1)
        elif f in ("secondaryFiles", "listing"):
            m = [thing(ctx, n + f + str(i), depth - 1, *(() if i == 0 and depth > 0 else ("File", "contents")))
                 for i in range(ctx.pick(n + f, 3 if depth > 1 else 2))]
            doc[f], want[f] = [x for x, _ in m], [x for _, x in m]
        else:
            doc[f] = want[f] = ctx.str(n + f, 3 if depth > 1 else 1, LETTERS, 0 if depth > 1 else 1)
    ext = {}
    if depth > 1 and len(fields) == 1 and field in ("location", "path", "size") and ctx.bool(n + "ext"):
        doc["http://e.org/x"] = ext["http://e.org/x"] = ctx.int(n + "e", 0, 9)
    return doc, Expected(cls, want, ext)


def judge(ctx, version, got, want, where):
    if isinstance(want, Expected):
        ctx.check(type(got) is getattr(NS[version], want.cls), "%s is a %s of %s" % (where, want.cls, version), got)
        ctx.check_eq(got.class_, want.cls, "%s knows its class" % where)
        for f in FIELDS[want.cls]:
            judge(ctx, version, getattr(got, f), want.fields.get(f), where + "." + f)
        ctx.check_eq(dict(got.extension_fields), want.ext, "%s keeps its other fields" % where)
        return
    if isinstance(want, list):
        ctx.check(isinstance(got, list) and len(got) == len(want), "%s keeps its members" % where, got)
        for i, (x, y) in enumerate(zip(got, want)):
            judge(ctx, version, x, y, "%s[%d]" % (where, i))
        return
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict) and list(got) == list(want), "%s keeps its fields" % where, got)
        for k in want:
            judge(ctx, version, got[k], want[k], where + "." + str(k))
        return
    if type(got).__module__.startswith("ruamel"):  # numbers and texts that know how they were written
        got = int(got) if isinstance(got, int) else float(got) if isinstance(got, float) else str(got)
    ctx.check(isinstance(got, bool) == isinstance(want, bool) and (got is None) == (want is None) and isinstance(got, str) == isinstance(want, str), "%s keeps its type" % where, got)
    ctx.check_eq(got, want, "%s keeps its value" % where)


SPACES = {"own": "http://own.org/", "both": "http://mine.org/"}
GIVEN = {"tool": "http://tool.org/f#", "both": "http://theirs.org/"}


def given(files=()):
    """Options as a tool that lies elsewhere has them."""
    return LoadingOptions(fetcher=Fetch(files), fileuri=TOOL, baseuri="http://tool.org/t", namespaces=dict(GIVEN))


def simplify(exc):
    """As in schema_salad; a message that is still to be formatted is not empty."""
    return [exc] if pending(exc.message) or len(exc.message) else exc.children


def h_values(ctx):
    """One value of any shape."""
    version, kind, depth = ctx.config[:3]
    ctx.patch(schema_salad.exceptions, "_simplify", simplify)
    state.fresh(UTILS[version])
    state.fresh(parser_utils)
    name, y, other = "a", 7, 7
    if kind == "scalar":
        name = ctx.one("name", ["a", "id", "class", "location"])
        y, other = ctx.one("y", [(None, None), (7, 7), ({"class": "File", "location": "f"}, Expected("File", {"location": "file:///in/d/f"}))])
    x, want = thing(ctx, "x", depth, *ctx.config[3:]) if kind == "thing" else value(ctx, "x", depth, kind)
    doc = {"$namespaces": dict(SPACES), name: x, "second": y}
    before = copy.deepcopy(doc)
    options = given()
    status, got = ctx.call(parser_utils.load_inputfile_by_yaml, version, doc, BASE, options)
    ctx.check(status == "ok", "an input file is read", got)
    judge(ctx, version, got, {name: want, "second": other}, "input")
    ctx.check_eq(doc, before, "the caller's values are left alone")
    ctx.check(options.fileuri == TOOL and options.namespaces == GIVEN and options.baseuri == "http://tool.org/t", "the caller's options are left alone", options.namespaces)
    ctx.reach(kind)


ENTRIES = ["uri", "path", "string", "yaml", "load-string", "load-yaml", "own-string", "own-yaml", "own-load", "own-link"]


def read(entry, version, text, options):
    yaml = json.loads(text)
    own = UTILS[version]
    if entry == "uri":
        return parser_utils.load_inputfile_by_uri(version, BASE, options)
    if entry == "path":
        return parser_utils.load_inputfile_by_uri(version, BASE[7:], options)
    if entry == "string":
        return parser_utils.load_inputfile_by_string(version, text, BASE, options)
    if entry == "yaml":
        return parser_utils.load_inputfile_by_yaml(version, yaml, BASE, options)
    if entry == "load-string":
        return parser_utils.load_inputfile(version, text, BASE, options)
    if entry == "load-yaml":
        return parser_utils.load_inputfile(version, yaml, BASE, options)
    if entry == "own-string":
        return own.load_inputfile_by_string(text, BASE, options)
    if entry == "own-yaml":
        return own.load_inputfile_by_yaml(yaml, BASE, options)
    if entry == "own-load":
        return own.load_inputfile(yaml, BASE, options)
    return own.load_inputfile("job.yml", "file:///in/d/other.yml", options)


def h_entry(ctx):
    """Every way to read an input file, twice with the same options."""
    version, entry = ctx.config
    own = UTILS[version]
    state.fresh(own)
    state.fresh(parser_utils)
    spaces = ctx.one("spaces", [None, SPACES, {}])
    fmts = [f for f in FORMATS if spaces or f[0] is None or f[0][:4] not in ("own:", "both")]
    fmts = [f for f in fmts] + ([] if spaces else [("both:3", "http://theirs.org/3")])
    loc, full = ctx.one("loc", PLACES)
    fmt, whole = ctx.one("fmt", fmts)
    f, e = {"class": "File", "location": loc}, {"location": full}
    if fmt:
        f["format"], e["format"] = fmt, whole
    n = ctx.one("n", [0, None, "s", False])
    docs = [{**({} if spaces is None else {"$namespaces": spaces}), "f": f, "n": [[n], {"x": [n]}]},
            {"$namespaces": {"own": "http://another.org/"}, "f": {"class": "File", "path": "s", "format": "own:1"}, "n": [n]}]
    wants = [{"f": Expected("File", e), "n": [[n], {"x": [n]}]}, {"f": Expected("File", {"path": "file:///in/d/s", "format": "http://another.org/1"}), "n": [n]}]
    if ctx.bool("turned"):
        docs.reverse()
        wants.reverse()
    files = {}
    options = given(files)
    for doc, want in zip(docs, wants):
        text = json.dumps(doc)
        options.fetcher.files[BASE] = text
        if entry == "own-link":
            options = given({BASE: text})  # what was read from a URI before is not read again
        status, got = ctx.call(read, entry, version, text, options)
        ctx.check(status == "ok", "an input file is read", got)
        judge(ctx, version, got, want, "input")
        ctx.reach(entry)


def h_without(ctx):
    """Without options of a caller, and with versions that do not exist."""
    version = ctx.enum("version", ["v1.0", "v1.1", "v1.2", "v1.3", "draft-3", "1.2"])
    loc, full = PLACES[ctx.pick("loc", len(PLACES))]
    n = ctx.int("n", -5, 5)
    doc = {"f": {"class": "File", "path": loc}, "n": n}
    known = None
    for k in NS:
        if version == k:
            known = k
    call = ctx.pick("call", 3)
    if call == 0:
        status, got = ctx.call(parser_utils.load_inputfile_by_yaml, version, doc, BASE)
    elif call == 1:
        status, got = ctx.call(parser_utils.load_inputfile, version, doc, BASE)
    elif known:
        status, got = ctx.call(UTILS[known].load_inputfile, doc, BASE)
    else:
        return
    if known is None:
        ctx.check(status == "exc" and isinstance(got, ValidationException), "an input file of an unknown version is rejected", got)
        ctx.reach("unknown")
        return
    ctx.check(status == "ok", "an input file is read", got)
    judge(ctx, known, got, {"f": Expected("File", {"path": full}), "n": n}, "input")
    ctx.reach("known")


def h_import(ctx):
    """Parts of an input file that lie in files of their own."""
    version, entry = ctx.config
    state.fresh(UTILS[version])
    state.fresh(parser_utils)
    link, at = ctx.one("link", [("o.yml", "file:///in/d/o.yml"), ("../o.yml", "file:///in/o.yml"), ("http://h.org/e/o.yml", "http://h.org/e/o.yml"), ("s/o.yml", "file:///in/d/s/o.yml")])
    what = ctx.pick("what", 3)
    if what == 0:  # a value of the other file
        doc, part = {"a": {"$import": link}, "z": 1}, {"class": "File", "location": "w.txt"}
        want = {"a": Expected("File", {"location": at.rpartition("/")[0] + "/w.txt"}), "z": 1}
    elif what == 1:  # in a list
        doc, part = {"a": [{"$import": link}, {"class": "File", "location": "v"}], "z": 1}, {"class": "Directory", "path": "w"}
        want = {"a": [Expected("Directory", {"path": at.rpartition("/")[0] + "/w"}), Expected("File", {"location": "file:///in/d/v"})], "z": 1}
    else:  # text
        doc, part = {"a": {"$include": link}, "z": [{"class": "File", "location": "v"}]}, "some text"
        want = {"a": "some text", "z": [Expected("File", {"location": "file:///in/d/v"})]}
    text = json.dumps(doc)
    options = LoadingOptions(fetcher=Fetch({BASE: text, at: part if isinstance(part, str) else json.dumps(part)}),
                             fileuri=TOOL if ctx.config[1] in ("uri", "path") else BASE, namespaces=dict(GIVEN))
    status, got = ctx.call(read, entry, version, text, options)
    ctx.check(status == "ok", "an input file with a part elsewhere is read", got)
    judge(ctx, version, got, want, "input")
    ctx.reach(("value", "list", "text")[what])


HARNESSES = [
    {"name": "values", "fn": h_values,
     "configs": lambda tier: [(v, k, d, *f) for v in NS for k in KINDS for d in ((2,) if tier == "quick" else (2, 3))
                              for f in ([(c, f) for c in FIELDS for f in FIELDS[c]] if k == "thing" else [()])],
     "reach": ("scalar", "thing", "list", "record")},
    {"name": "entry", "fn": h_entry, "configs": lambda tier: [(v, e) for v in NS for e in ENTRIES], "reach": tuple(ENTRIES)},
    {"name": "without", "fn": h_without, "configs": lambda tier: [()], "reach": ("known", "unknown")},
    {"name": "import", "fn": h_import, "configs": lambda tier: [(v, e) for v in NS for e in ENTRIES], "reach": ("value", "list", "text")},
]
