"""C11: format subclassing.  The ontology is a graph over a few classes whose edges are
symbolic; `formatSubclassOf` and `check_format` run on it and the answer is compared
with the reachability formula over all edges.  Counterexamples are replayed with a
real graph of the concrete edges."""

from rdflib import OWL, RDFS, Graph, URIRef
from schema_salad.exceptions import ValidationException

from cwl_utils import file_formats as ff

ASSUMPTIONS = [
    "the graph answers pattern queries correctly (rdflib's store is not part of the claim)",
    "edges other than subClassOf and equivalentClass do not matter; they are absent from the ontology considered",
]


def BOUNDS(tier):
    return {
        "ontology": "every graph of subclass and equivalence edges over %d classes (self loops included), or none" % (3 if tier == "quick" else 4),
        "files": "none, one, or a list of up to 3 files, each absent, without format, or of one of the classes",
        "wanted formats": "one, or a list of up to 2 of the classes",
    }


def uri(i):
    return "http://e.org/f_%d" % i


class SymGraph(Graph):
    """A graph that decides an edge when it is asked for."""

    def triples(self, pattern):
        s, p, o = pattern
        n, edges = self.model
        for kind, pred in (("sub", RDFS.subClassOf), ("eq", OWL.equivalentClass)):
            if p is not None and p != pred:
                continue
            for i in range(n):
                if s is not None and s != URIRef(uri(i)):
                    continue
                for j in range(n):
                    if o is not None and o != URIRef(uri(j)):
                        continue
                    if edges[kind, i, j]:
                        yield URIRef(uri(i)), pred, URIRef(uri(j))


def ontology(ctx, n, full=True):
    edges = {}
    for kind in ("sub", "eq"):
        for i in range(n):
            for j in range(n):
                # the quick tier leaves out edges into the start of the search and self loops
                if full or (i != j and (kind == "eq" and i < j or kind == "sub")):
                    edges[kind, i, j] = ctx.bool("%s%d%d" % (kind, i, j))
                else:
                    edges[kind, i, j] = False
    if ctx.symbolic:
        g = SymGraph()
        g.model = (n, edges)
    else:
        g = Graph()
        for (kind, i, j), there in edges.items():
            if there:
                g.add((URIRef(uri(i)), RDFS.subClassOf if kind == "sub" else OWL.equivalentClass, URIRef(uri(j))))
    return g, edges


def closure(ctx, n, edges):
    """reach[i][j] as formulas."""
    r = [[True if i == j else ctx.any([edges["sub", i, j], edges["eq", i, j], edges["eq", j, i]]) for j in range(n)] for i in range(n)]
    for k in range(n):
        r = [[True if i == j else ctx.any([r[i][j], ctx.all([r[i][k], r[k][j]])]) for j in range(n)] for i in range(n)]
    return r


def h_subclass(ctx):
    n, full = ctx.config
    g, edges = ontology(ctx, n, full)
    i, j = 0, ctx.pick("cls", 2)
    kind, got = ctx.call(ff.formatSubclassOf, uri(i), uri(j), g, set())
    ctx.check(kind == "ok", "no ontology makes the check fail", got)
    want = closure(ctx, n, edges)[i][j]
    ctx.check_eq(bool(got), want, "a format is a subclass exactly when it is reachable", got)
    ctx.reach("answered")


def h_none(ctx):
    i, j = ctx.pick("fmt", 3), ctx.pick("cls", 3)
    kind, got = ctx.call(ff.formatSubclassOf, uri(i), uri(j), None, set())
    ctx.check(kind == "ok" and bool(got) == (i == j), "without ontology a format is a subclass of itself only", got)
    f = {"class": "File", "location": "x", "format": uri(i)}
    kind, got = ctx.call(ff.check_format, f, uri(j), None)
    ctx.check((kind == "ok") == (i == j), "without ontology a file must have the wanted format itself", got)
    ctx.reach("answered")


def h_check(ctx):
    n, files, wanted = ctx.config
    g, edges = ontology(ctx, n, False)
    reach = closure(ctx, n, edges)
    want = [ctx.pick("want%d" % k, n) for k in range(max(1, wanted))]
    docs, ok = [], []
    for k in range(max(1, files)):
        c = ctx.pick("file%d" % k, n + 2)
        if c == n:
            docs.append(None)
        elif c == n + 1:
            docs.append({"class": "File", "location": "f%d" % k})
            ok.append(False)
        else:
            docs.append({"class": "File", "location": "f%d" % k, "format": uri(c)})
            ok.append(ctx.any([reach[c][w] for w in want]))
    kind, got = ctx.call(ff.check_format, docs if files else docs[0], [uri(w) for w in want] if wanted else uri(want[0]), g)
    good = ctx.all(ok) if ok else True
    ctx.check(kind == "ok" or isinstance(got, ValidationException), "a format error is a validation error", got)
    ctx.check_eq(kind == "ok", good, "files are accepted exactly when each has a wanted format", got)
    ctx.reach("accepted" if kind == "ok" else "rejected")


def sub_cfg(tier):
    return [(3, True), (4, False)] if tier == "quick" else [(3, True), (4, True), (5, False)]


def check_cfg(tier):
    if tier == "quick":
        return [(2, f, w) for f in (0, 1, 2, 3) for w in (0, 1, 2)] + [(3, 2, 1)]
    return [(3, f, w) for f in (0, 1, 2, 3) for w in (0, 1, 2)]


HARNESSES = [
    {"name": "subclass", "fn": h_subclass, "configs": sub_cfg, "reach": ("answered",)},
    {"name": "none", "fn": h_none, "configs": {"quick": [None]}, "reach": ("answered",)},
    {"name": "check", "fn": h_check, "configs": check_cfg, "reach": ("accepted", "rejected")},
]
