"""C18: which parser reads a document, and which part of a graph.  Document headers,
graphs and the requested identifier are built from symbolic strings; the three
generated parsers are replaced at their entry by stand-ins that record what they are
given.  Reading whole URIs, embedded processes and saving lists run the same way, the
fetcher being a stand-in that records which URI is read."""

import copy
import json
import tempfile
import types
import urllib.parse
from pathlib import Path

from schema_salad.exceptions import ValidationException

from cwl_utils import parser
from cwl_utils.errors import GraphTargetMissingException
from cwl_utils.parser import cwl_v1_0, cwl_v1_0_utils, cwl_v1_1, cwl_v1_1_utils, cwl_v1_2, cwl_v1_2_utils
from cwl_utils.parser import utils as parser_utils

from sx import shadow

from . import state

shadow.urllib_parse()
ASSUMPTIONS = [
    "the identifiers of a graph are distinct, and carry at most one hash, in front",
    "a fragment is written without percent escapes",
    "versions to compare are v<major>.<minor>, as the loaded documents have them",
    "what the generated parser of a version does with the document is C17's claim, not this one's",
]
PARSERS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
UTILS = {"v1.0": cwl_v1_0_utils, "v1.1": cwl_v1_1_utils, "v1.2": cwl_v1_2_utils}
state.snapshot(parser)
state.snapshot(parser_utils)


def BOUNDS(tier):
    n = 2 if tier == "quick" else 3
    return {
        "version": "every text of up to 5 characters out of v 0 1 2 . and d; a number; none",
        "graph": "up to %d entries, identifiers of up to %d characters out of m a / (or main), with or without #, or without identifier" % (n, n),
        "requested": "none, main, or every text of up to %d characters, with or without #" % n,
        "URIs": "plain paths, file and http URIs with directories, plus, percent escapes, query; pathlib paths, with # in the name",
        "save": "lists of up to %d processes, versions v1..v3 with one or two digit minor, or none" % (2 if tier == "quick" else 3),
    }


class Taken:
    """What the parsers were given."""

    def __init__(self, ctx, result=None):
        self.calls = []
        self.result = result
        for name, module in PARSERS.items():
            ctx.patch(module, "_document_load", self.document(name))
        for name, module in UTILS.items():
            ctx.patch(module, "_inputfile_load", self.document(name))

    def document(self, name):
        def load(*a, **k):
            # (loader, doc, baseuri, options) or (doc, baseuri, options)
            named = dict(zip(["doc", "baseuri", "loadingOptions"], a[-3:]))
            named.update(k)
            self.calls.append((name, named["doc"], named["baseuri"], named["loadingOptions"]))
            return (self.result if self.result is not None else types.SimpleNamespace(by=name), None)
        return load


def lookup(ctx, known, v):
    for k in known:
        if v == k:
            return k
    return None


# ------------------------------------------------------------ the version
def version(ctx):
    return ctx.lazy("v", [
        lambda: ctx.str("vt", 5, ((118, 118), (48, 50), (46, 46), (100, 100)), 0),
        lambda: ctx.enum("vk", ["v1.0", "v1.1", "v1.2", "v1.2.0", "v1.3", "draft-3", "v1.10"]),
        lambda: ctx.one("vo", [None, 1.0, 1, "none"]),
    ])


def entry(kind, doc, uri):
    if kind == "document":
        return parser.load_document(doc, uri)
    if kind == "yaml":
        return parser.load_document_by_yaml(doc, uri)
    if kind == "all":
        return parser.load_document_by_yaml(doc, uri, load_all=True)
    return parser.load_document_by_yaml(doc, uri, None, "main")


def h_version(ctx):
    state.fresh(parser)
    taken = Taken(ctx)
    graph, kind = ctx.config
    v = version(ctx)
    body = {"id": "main", "class": "CommandLineTool", "inputs": [], "outputs": []}
    doc = {"$graph": [{"id": "other", "class": "ExpressionTool"}, body]} if graph else body
    if v != "none" or not isinstance(v, str):
        doc["cwlVersion"] = v
    k = lookup(ctx, PARSERS, v) if isinstance(v, str) and not v == "none" else None
    status, got = ctx.call(entry, kind, doc, "file:///d/x.cwl")
    if k is None:
        ctx.check(status == "exc" and isinstance(got, ValidationException), "an unknown or missing version is rejected", got)
        ctx.check(not taken.calls, "nothing is parsed under an unknown version", len(taken.calls))
        ctx.reach("rejected")
        return
    ctx.check(status == "ok", "a document of a known version is loaded", got)
    ctx.check([c[0] for c in taken.calls] == [k], "the parser of the version is used", [c[0] for c in taken.calls])
    ctx.check(got.by == k, "what that parser made is returned")
    ctx.check_eq(taken.calls[0][2], "file:///d/x.cwl", "the parser is told where the document is")
    ctx.reach(k)


def h_inputfile(ctx):
    state.fresh(parser_utils)
    taken = Taken(ctx)
    v = version(ctx)
    if not isinstance(v, str):
        v = None
    doc = {"x": 1}
    k = lookup(ctx, PARSERS, v) if v is not None else None
    as_text = ctx.bool("text")
    if as_text:
        status, got = ctx.call(parser_utils.load_inputfile, v, json.dumps(doc), "file:///d/job.json")
    else:
        status, got = ctx.call(parser_utils.load_inputfile_by_yaml, v, doc, "file:///d/job.json")
    if k is None:
        ctx.check(status == "exc" and isinstance(got, ValidationException), "an unknown or missing version is rejected", got)
        ctx.check(not taken.calls, "nothing is parsed under an unknown version", len(taken.calls))
        return
    ctx.check(status == "ok", "an input file for a known version is loaded", got)
    ctx.check([c[0] for c in taken.calls] == [k], "the parser of the version is used", [c[0] for c in taken.calls])
    ctx.check(got.by == k, "what that parser made is returned")
    ctx.check_eq(dict(taken.calls[0][1]), doc, "the parser is given the inputs")
    ctx.reach(k)


# ------------------------------------------------------------ the graph
CHARS = ((109, 109), (97, 97), (47, 47))


def ident(ctx, n, size):
    return ctx.lazy(n, [lambda: ctx.str(n + "t", size, CHARS, 1), lambda: "main", lambda: "mai"])


def strip(s):
    return s[1:] if s[:1] == "#" else s


def h_graph(ctx):
    """The entry that is asked for, whole and with what the document says of all."""
    state.fresh(parser)
    taken = Taken(ctx)
    count, size, ask = ctx.config
    names, entries = [], []
    for i in range(count):
        e = {"class": "CommandLineTool", "baseCommand": "c%d" % i, "inputs": [], "outputs": []}
        if i == 0 and ctx.bool("anonymous"):
            names.append(None)
        else:
            name = ident(ctx, "id%d" % i, size)
            for other in names:
                if other is not None:
                    ctx.assume(ctx.no(ctx.eq(name, other)))
            names.append(name)
            e["id"] = "#" + name if ctx.bool("h%d" % i) else name
        entries.append(e)
    extra = {"$namespaces": {"p": "http://e.org/"}, "$schemas": ["http://e.org/s"], "$base": "http://e.org/b"}
    doc = {"cwlVersion": ctx.one("v", ["v1.0", "v1.2"]), "$graph": entries}
    for key in ctx.one("extra", [[], ["$namespaces"], ["$base", "$schemas"]]):
        doc[key] = extra[key]
    if ask == "none":
        asked, want = None, "main"
    else:
        want = ident(ctx, "ask", size)
        asked = "#" + want if ask == "hash" else want
    was, version_ = copy.deepcopy(entries), doc["cwlVersion"]
    status, got = ctx.call(parser.load_document_by_yaml, doc, "file:///d/x.cwl", None, asked)
    at = None
    for i, n in enumerate(names):
        if n is not None and n == want:
            at = i
            break
    if at is None:
        ctx.check(status == "exc" and isinstance(got, GraphTargetMissingException), "an identifier that does not occur is an error", got)
        ctx.check(not taken.calls, "nothing is parsed instead of a missing entry", len(taken.calls))
        ctx.reach("missing")
        return
    ctx.check(status == "ok", "an entry that occurs is loaded", got)
    ctx.check([c[0] for c in taken.calls] == [version_], "the entry is parsed once, by the version of the document")
    given = dict(taken.calls[0][1])
    ctx.check_eq(given.get("baseCommand"), "c%d" % at, "the entry is the one that was asked for")
    for key in extra:
        ctx.check_eq(given.pop(key, None), doc.get(key), "the %s of the document counts for its entries" % key)
    ctx.check_eq(given.pop("cwlVersion", None), version_, "the entry has the version of the document")
    ctx.check_eq(given, was[at], "the entry is whole")
    ctx.reach("found")


def h_all(ctx):
    """All of a graph; every process knows its version."""
    state.fresh(parser)
    made = []
    for i in range(ctx.pick("count", 3)):
        p = types.SimpleNamespace(attrs=frozenset(["id", "cwlVersion"]) if ctx.bool("versioned%d" % i) else frozenset(["id"]), id="p%d" % i)
        if "cwlVersion" in p.attrs:
            p.cwlVersion = None
        made.append(p)
    taken = Taken(ctx, list(made))
    v = ctx.one("v", ["v1.0", "v1.1", "v1.2"])
    doc = {"cwlVersion": v, "$namespaces": {"p": "http://e.org/"},
           "$graph": [{"id": "p%d" % i, "class": "CommandLineTool"} for i in range(len(made))]}
    way = ctx.pick("way", 3)
    if way == 0:
        status, got = ctx.call(parser.load_document, json.dumps(doc), "file:///d/x.cwl", None, None, True)
    elif way == 1:
        status, got = ctx.call(parser.load_document_by_string, json.dumps(doc), "file:///d/x.cwl", load_all=True)
    else:
        status, got = ctx.call(parser.load_document_by_yaml, copy.deepcopy(doc), "file:///d/x.cwl", load_all=True)
    ctx.check(status == "ok", "all of a graph is loaded", got)
    ctx.check([c[0] for c in taken.calls] == [v], "the graph is parsed by the version of the document")
    ctx.check(json.loads(json.dumps(taken.calls[0][1])) == doc, "the parser is given the whole document", taken.calls[0][1])
    ctx.check(isinstance(got, list) and [p.id for p in got] == [p.id for p in made], "every process of the graph is returned, in order")
    for p in got:
        if "cwlVersion" in p.attrs:
            ctx.check_eq(p.cwlVersion, v, "every process knows its version")
        else:
            ctx.check(not hasattr(p, "cwlVersion"), "an object without version gets none")
    ctx.reach("all")


# ------------------------------------------------------------ by URI
GRAPH = [("main", "m"), ("a", "c0"), ("a/b", "c1"), ("#mai", "c2"), ("Main", "c3")]
TEXT = json.dumps({"cwlVersion": "v1.2", "$graph": [{"id": i, "class": "CommandLineTool", "baseCommand": c, "inputs": [], "outputs": []} for i, c in GRAPH]})
PLACES = [  # what is written, which URI is read
    ("/w/d/x.cwl", "file:///w/d/x.cwl"),
    ("/w/d/../x.cwl", "file:///w/x.cwl"),
    ("/w/g++/x+y.cwl", "file:///w/g++/x+y.cwl"),
    ("file:///w/d/x.cwl", "file:///w/d/x.cwl"),
    ("file:///w/a%20b/x%2By.cwl", "file:///w/a%20b/x+y.cwl"),
    ("http://e.org/d/x.cwl", "http://e.org/d/x.cwl"),
    ("http://e.org/d%20e/x+y.cwl?q=1&r", "http://e.org/d%20e/x+y.cwl?q=1&r"),
    ("https://e.org:81/x.cwl", "https://e.org:81/x.cwl"),
]


class Fetcher:
    def __init__(self, text):
        self.text, self.read = text, []

    def fetch_text(self, url, content_types=None):
        self.read.append(url)
        return self.text

    def check_exists(self, url):
        return True

    def urljoin(self, base_url, url):
        return urllib.parse.urljoin(base_url, url)


def plain(url):
    return urllib.parse.unquote(url)


def asked(ctx, size):
    return ctx.lazy("f", [
        lambda: None,
        lambda: ctx.str("ft", size, CHARS, 1),
        lambda: ctx.one("fk", ["main", "mai", "Main", "a/b", "a/", "main/a"]),
    ])


def judge(ctx, taken, fetched, status, got, place, frag):
    want = "main" if frag is None else frag
    command = None
    for i, c in GRAPH:
        if want == strip(i):
            command = c
    ctx.check(len(fetched.read) == 1, "one document is read", list(fetched.read))
    ctx.check(ctx.eq(plain(str(fetched.read[0])), plain(place)), "the document read is the one that is named", list(fetched.read))
    if command is None:
        ctx.check(status == "exc" and isinstance(got, GraphTargetMissingException), "a fragment that does not occur is an error", got)
        ctx.reach("missing")
        return
    ctx.check(status == "ok", "the document is loaded", got)
    ctx.check([c[0] for c in taken.calls] == ["v1.2"], "it is parsed once, by the version of the document")
    _, doc, base, options = taken.calls[0]
    ctx.check_eq(dict(doc).get("baseCommand"), command, "the entry is the one of the fragment")
    ctx.check(ctx.eq(plain(str(base)), plain(place)), "identifiers are relative to the document", str(base))
    ctx.check(ctx.eq(plain(str(options.fileuri)), plain(place)), "the document knows its URI", str(options.fileuri))
    folder = plain(urllib.parse.urljoin(place, "."))
    ctx.check(plain(str(options.baseuri)).rstrip("/") == folder.rstrip("/"), "the document knows its folder", str(options.baseuri))
    ctx.reach("loaded")


def h_uri(ctx):
    state.fresh(parser)
    taken = Taken(ctx)
    written, place = ctx.one("place", PLACES)
    frag = asked(ctx, ctx.config[0])
    fetched = Fetcher(TEXT)
    options = parser.LoadingOptions(fetcher=fetched)
    status, got = ctx.call(parser.load_document_by_uri, written if frag is None else written + "#" + frag, options)
    judge(ctx, taken, fetched, status, got, place, frag)


def h_path(ctx):
    """pathlib paths; a # in the name of an existing file is part of it."""
    state.fresh(parser)
    taken = Taken(ctx)
    with tempfile.TemporaryDirectory() as top:
        top = Path(top).resolve()
        name = ctx.one("name", ["x.cwl", "x+y z.cwl", "x#y.cwl", "h#h/x.cwl"])
        (top / name).parent.mkdir(exist_ok=True)
        (top / name).write_text(TEXT)
        frag = ctx.one("frag", [None, "main", "a/b", "nope", "mai", "a"])
        fetched = Fetcher(TEXT)
        options = parser.LoadingOptions(fetcher=fetched)
        path = top / name
        status, got = ctx.call(parser.load_document_by_uri, path if frag is None else Path(str(path) + "#" + frag), options)
        judge(ctx, taken, fetched, status, got, path.as_uri(), frag)


def h_step(ctx):
    """The process of a step: the embedded one, or the document that run names."""
    state.fresh(parser_utils)
    module = PARSERS[ctx.config[0]]
    taken = Taken(ctx)
    fetched = Fetcher(TEXT)
    options = parser.LoadingOptions(fetcher=fetched, fileuri="http://e.org/d/w.cwl", baseuri="http://e.org/d")
    if ctx.bool("embedded"):
        tool = module.CommandLineTool(inputs=[], outputs=[], id="t", baseCommand=["x"])
        step = module.WorkflowStep(id="s", in_=[], out=[], run=tool, loadingOptions=options)
        status, got = ctx.call(parser_utils.load_step, step)
        ctx.check(status == "ok" and type(got) is module.CommandLineTool and got.id == "t" and got.baseCommand == ["x"], "the process of a step is the embedded one", got)
        got.baseCommand.append("y")
        ctx.check(tool.baseCommand == ["x"], "the embedded process is not the caller's to change")
        ctx.check(not taken.calls and not fetched.read, "nothing is read for an embedded process")
        ctx.reach("embedded")
        return
    run, place = ctx.one("run", [("x.cwl", "http://e.org/d/x.cwl"), ("../x.cwl", "http://e.org/x.cwl"), ("http://o.org/y.cwl", "http://o.org/y.cwl"),
                                 ("", "http://e.org/d/w.cwl"), ("file:///w/x.cwl", "file:///w/x.cwl")])
    frag = asked(ctx, 1)
    if run == "" and frag is None:
        frag = "a"
    step = module.WorkflowStep(id="s", in_=[], out=[], run=run if frag is None else run + "#" + frag, loadingOptions=options)
    status, got = ctx.call(parser_utils.load_step, step)
    judge(ctx, taken, fetched, status, got, place, frag)


# ------------------------------------------------------------ saving lists
def h_save(ctx):
    count, top = ctx.config
    vals, versions, stray = [], [], False
    for i in range(count):
        v = ctx.lazy("v%d" % i, [
            lambda: None,
            lambda i=i: "v" + ctx.str("maj%d_" % i, 1, ((49, 51),), 1) + "." + digits(ctx, "min%d" % i),
        ])
        base = [cwl_v1_0, cwl_v1_1, cwl_v1_2][ctx.pick("module%d" % i, 3) if i == 0 else 2]
        vals.append(Stub.of(base)(i, v))
        versions.append(v)
    if ctx.bool("stray"):
        stray = True
        vals.append(cwl_v1_2.CommandLineBinding(position=1))
    status, got = ctx.call(parser.save, vals, top)
    ctx.check(status == "ok", "a list is saved", got)
    if not top or stray:
        ctx.check(isinstance(got, list), "a list that is not a document is saved as a list", got)
        items = got
    else:
        ctx.check(isinstance(got, dict) and set(got) - {"cwlVersion"} == {"$graph"}, "a list of processes is saved as a graph", got)
        items = got["$graph"]
        known = [v for v in versions if v is not None]
        latest = got.get("cwlVersion")
        if not known:
            ctx.check(latest is None, "no version is made up", latest)
        else:
            ctx.check(ctx.any([ctx.eq(latest, v) for v in known]), "the version is one of the processes", latest)
            n = number(latest)
            ctx.check(ctx.all([n >= number(v) for v in known]), "the version is numerically the latest", latest)
        ctx.reach("graph")
    ctx.check(len(items) == len(vals), "every process is saved")
    for i in range(count):
        ctx.check(items[i]["id"] == "p%d" % i, "the processes are saved in order")


def digits(ctx, n):
    s = ctx.str(n, 2, ((48, 57),), 1)
    ctx.assume(ctx.any([len(s) == 1, ctx.no(ctx.eq(s[:1], "0"))]))
    return s


def number(v):
    major, _, minor = v[1:].partition(".")
    return int(major) * 1000 + int(minor)


class Stub:
    @staticmethod
    def of(module):
        class P(module.Process):
            def __init__(self, i, v):
                self.i, self.v = i, v

            def save(self, top=False, base_url="", relative_uris=True):
                out = {"id": "p%d" % self.i}
                if self.v is not None:
                    out["cwlVersion"] = self.v
                return out

            @classmethod
            def fromDoc(cls, *a, **k):
                raise NotImplementedError
        return P


def _sizes(tier):
    return (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)


HARNESSES = [
    {"name": "version", "fn": h_version, "configs": lambda tier: [(g, k) for g in (False, True) for k in ("document", "yaml", "all", "id") if g or k != "id"],
     "reach": ("rejected", "v1.0", "v1.1", "v1.2")},
    {"name": "inputfile", "fn": h_inputfile, "configs": lambda tier: [()], "reach": ("v1.0", "v1.1", "v1.2")},
    {"name": "graph", "fn": h_graph, "configs": lambda tier: [(c, 2 if tier == "quick" else 3, a) for c in _sizes(tier) for a in ("none", "plain", "hash")],
     "reach": ("missing", "found")},
    {"name": "all", "fn": h_all, "configs": lambda tier: [()], "reach": ("all",)},
    {"name": "uri", "fn": h_uri, "configs": lambda tier: [(2 if tier == "quick" else 4,)], "reach": ("loaded", "missing")},
    {"name": "path", "fn": h_path, "configs": lambda tier: [()], "reach": ("loaded", "missing")},
    {"name": "step", "fn": h_step, "configs": lambda tier: [("v1.0",), ("v1.1",), ("v1.2",)], "reach": ("embedded", "loaded", "missing")},
    {"name": "save", "fn": h_save, "configs": lambda tier: [(c, t) for c in _sizes(tier) for t in (True, False)], "reach": ("graph",)},
]
