"""C13: listing of images and software.  A process tree is built as the parser leaves it
(objects, with the hints of steps as mappings, processes of steps in place or by
location); up to three declarations stand at symbolic places of the tree.  The
traversals of both programs, and `run`, are compared with an independent walk."""

import contextlib
import io
import shutil
import tempfile

import cwl_utils.parser as parser
from cwl_utils import cite_extract, docker_extract
from cwl_utils import image_puller
from cwl_utils.parser import cwl_v1_0, cwl_v1_1, cwl_v1_2

from .model import OPTS

ASSUMPTIONS = [
    "loading a process from a location returns the process there; a stand-in hands it over",
    "image references are well formed: a digest follows an @ and contains a colon",
    "the parser leaves known hints of processes as objects and hints of steps as mappings",
]


def BOUNDS(tier):
    return {
        "tree": "a tool, or a workflow of two steps: a tool and a workflow of one step, in place or by location",
        "declarations": "up to %d, anywhere in the requirements and hints of the processes and steps, next to other entries" % (2 if tier == "quick" else 3),
        "image names": "1..%d characters out of a, colon, slash, @ and dot, or none (dockerImageId)" % (6 if tier == "quick" else 8),
    }


NS = {"v1.0": cwl_v1_0, "v1.1": cwl_v1_1, "v1.2": cwl_v1_2}
SLOTS = [(p, k) for p in ("wf", "s1", "t1", "s2", "sub", "s3", "t3") for k in ("requirements", "hints")]
LOC = "file:///w/%s.cwl"


class Tree:
    """The declarations per slot, in order; the processes."""

    def __init__(self, ctx, ns, what, top):
        self.ns, self.slots = ns, {}
        self.remote = {}
        self.loaded = []
        n = ctx.pick("declarations", ctx.config[1] + 1)
        slots = [s for s in SLOTS if top == "wf" or s[0] == top]
        at = -1
        self.decls = []
        for i in range(n):
            # in the order of the places
            at = max(at, 0) + ctx.pick("at%d" % i, len(slots) - max(at, 0))
            self.slots.setdefault(slots[at], []).append(what(i))
        self.filler = ctx.pick("filler", 3)
        self.how = ctx.pick("by location", 2)

    def entries(self, node, kind):
        got = self.slots.get((node, kind), [])
        ns = self.ns
        if node in ("s1", "s2", "s3") and kind == "hints":
            made = [dict({"class": c}, **f) for c, f in got]
            other = {"class": "ResourceRequirement", "coresMin": 1}
        else:
            made = [build(ns, c, f) for c, f in got]
            other = ns.ResourceRequirement(coresMin=1, loadingOptions=OPTS)
        if self.filler == 0:
            return made or None
        if self.filler == 1:
            return [other] + made
        return made + [{"class": "http://e.org/x"}] if kind == "hints" else made

    def fields(self, node):
        return {"requirements": self.entries(node, "requirements"), "hints": self.entries(node, "hints"), "loadingOptions": OPTS}

    def tool(self, node):
        return self.ns.CommandLineTool(id=LOC % node, inputs=[], outputs=[], **self.fields(node))

    def step(self, node, process, name):
        run = process
        if self.how:
            run = LOC % name
            self.remote[run] = process
        return self.ns.WorkflowStep(id=LOC % "wf" + "#" + node, in_=[], out=[], run=run, **self.fields(node))

    def build(self, top):
        if top == "t1":
            return self.tool("t1")
        sub = self.ns.Workflow(id=LOC % "sub", inputs=[], outputs=[], steps=[self.step("s3", self.tool("t3"), "t3")], **self.fields("sub"))
        return self.ns.Workflow(id=LOC % "wf", inputs=[], outputs=[], **self.fields("wf"),
                                steps=[self.step("s1", self.tool("t1"), "t1"), self.step("s2", sub, "sub")])

    def load(self, path, *a, **k):
        self.loaded.append(path)
        return self.remote[path]


def build(ns, c, f):
    if c == "DockerRequirement":
        return ns.DockerRequirement(loadingOptions=OPTS, **f)
    packages = [ns.SoftwarePackage(package=p["package"], version=p.get("version"), specs=p.get("specs")) for p in f["packages"]]
    return ns.SoftwareRequirement(packages=packages, loadingOptions=OPTS)


def setup(ctx, tree, *modules):
    ctx.patch(parser, "load_document_by_uri", tree.load)
    for m in modules:
        if hasattr(m, "load_document_by_uri"):
            ctx.patch(m, "load_document_by_uri", tree.load)


def expected(tree):
    return [d for s in SLOTS for d in tree.slots.get(s, [])]


def normal(text):
    """The reference with its tag."""
    return text if ":" in text[text.rfind("/") + 1:] else text + ":latest"


IMAGES = ["debian", "debian:9", "host:5000/a/b", "a@sha256:12", None]


def h_images(ctx):
    version, _, top = ctx.config
    tree = Tree(ctx, NS[version], lambda i: image(ctx, i), top)
    proc = tree.build(top)
    setup(ctx, tree, docker_extract)
    kind, got = ctx.call(lambda: list(docker_extract.traverse(proc)))
    ctx.check(kind == "ok", "every process tree can be searched", got)
    want = expected(tree)
    compare(ctx, got, want)
    ctx.check(len(tree.loaded) <= len(tree.remote), "a process is loaded once per step that runs it", tree.loaded)
    ctx.reach("listed")


def image(ctx, i):
    name = ctx.one("image%d" % i, IMAGES[i:] + IMAGES[:i] if i == 0 else [IMAGES[(i + 1) % 3], None])
    return ("DockerRequirement", {"dockerImageId": "id%d" % i} if name is None else {"dockerPull": name, "dockerOutputDirectory": "/d%d" % i})


def compare(ctx, got, want):
    ctx.check(len(got) == len(want), "every declaration is listed, once, and nothing else", len(got))
    left = list(got)
    for _, f in want:
        pull = normal(f["dockerPull"]) if "dockerPull" in f else None
        hits = [g for g in left if g.dockerPull == pull and g.dockerImageId == f.get("dockerImageId")
                and g.dockerOutputDirectory == f.get("dockerOutputDirectory")]
        ctx.check(len(hits) > 0, "an image is listed with its tag, or latest", [g.dockerPull for g in got])
        left = [g for g in left if g is not hits[0]]


def h_names(ctx):
    """The tag of an image, for every text."""
    version, size, where = ctx.config
    ns = NS[version]
    s = ctx.str("image", size, ((46, 47), (58, 58), (64, 64), (97, 97)), minlen=1)
    ctx.assume(ctx.any([s.find("@") < 0, s.find(":", s.find("@")) > 0]) if ctx.symbolic else (s.find("@") < 0 or s.find(":", s.find("@")) > 0))
    if s.find("@") >= 0:
        ctx.assume(s.find("/", s.find("@")) < 0)
    field = [build(ns, "DockerRequirement", {"dockerPull": s})]
    if where == "step":
        tool = ns.CommandLineTool(id=LOC % "t", inputs=[], outputs=[], loadingOptions=OPTS)
        step = ns.WorkflowStep(id=LOC % "wf" + "#s", in_=[], out=[], run=tool, requirements=field, loadingOptions=OPTS)
        proc = ns.Workflow(id=LOC % "wf", inputs=[], outputs=[], steps=[step], loadingOptions=OPTS)
    else:
        proc = ns.CommandLineTool(id=LOC % "t", inputs=[], outputs=[], **{where: field}, loadingOptions=OPTS)
    kind, got = ctx.call(lambda: [r.dockerPull for r in docker_extract.traverse(proc)])
    ctx.check(kind == "ok" and len(got) == 1, "every declaration is listed, once, and nothing else", got)
    ctx.check_eq(got[0], normal(s), "an image is listed with its tag, or latest")
    ctx.reach("listed")


def h_run(ctx):
    """The command: what is listed is pulled, with the engine asked for."""
    version, _, top = ctx.config
    tree = Tree(ctx, NS[version], lambda i: image(ctx, i), top)
    proc = tree.build(top)
    setup(ctx, tree, docker_extract)
    tree.remote["top"] = proc
    engine = ctx.one("engine", [None, "podman"])
    singularity = ctx.one("singularity", [False, True])
    force = ctx.one("force", [False, True])
    pulled = []

    def save(self):
        pulled.append((type(self).__name__, self.req, self.save_directory, self.cmd, self.force_pull))

    for c in (image_puller.DockerImagePuller, image_puller.SingularityImagePuller):
        ctx.patch(c, "save_docker_image", save)
    d = tempfile.mkdtemp(prefix="c13")
    try:
        args = ["top", "--dir", d] + (["--singularity"] if singularity else []) + (["--force-download"] if force else [])
        if engine is not None:
            args += ["--container-engine", engine]
        with contextlib.redirect_stderr(io.StringIO()):
            kind, got = ctx.call(lambda: docker_extract.run(docker_extract.arg_parser().parse_args(args)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.check(kind == "ok", "every process tree can be processed", got)
    want = expected(tree)
    compare(ctx, got, want)
    cls = "SingularityImagePuller" if singularity else "DockerImagePuller"
    names = [r.dockerPull for r in got if r.dockerPull is not None]
    ctx.check_eq(pulled, [(cls, n, d, engine or ("singularity" if singularity else "docker"), force) for n in names],
                 "each image that has a name is pulled, with the engine asked for", pulled)
    ctx.reach("pulled")


def h_cite(ctx):
    version, _, top = ctx.config
    packs = [[{"package": "blast", "version": ["1", "2"], "specs": ["http://x"]}], [{"package": "samtools"}, {"package": "bwa", "version": ["3"]}], []]
    tree = Tree(ctx, NS[version], lambda i: ("SoftwareRequirement", {"packages": packs[(i + ctx.pick("pack", 3)) % 3 if i == 0 else i % 3]}), top)
    proc = tree.build(top)
    setup(ctx, tree, cite_extract)
    tree.remote["top"] = proc
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        kind, got = ctx.call(lambda: cite_extract.run(cite_extract.arg_parser().parse_args(["top"])))
    ctx.check(kind == "ok", "every process tree can be searched", got)
    lines = [p for p in out.getvalue().splitlines()]
    want = ["Package: %s, version: %s, specs: %s" % (p["package"], p.get("version"), p.get("specs")) for _, f in expected(tree) for p in f["packages"]]
    ctx.check_eq(sorted(lines), sorted(want), "every package is listed, once, and nothing else", lines)
    ctx.reach("listed")


def cfg(tier):
    n = 2 if tier == "quick" else 3
    return [(v, n, "wf") for v in NS] + [("v1.2", n, "t1")]


def names_cfg(tier):
    n = 6 if tier == "quick" else 8
    return [("v1.0", n - 1, "hints"), ("v1.1", n - 1, "requirements"), ("v1.2", n, "hints"), ("v1.2", n - 1, "step")]


HARNESSES = [
    {"name": "images", "fn": h_images, "configs": cfg, "reach": ("listed",)},
    {"name": "names", "fn": h_names, "configs": names_cfg, "reach": ("listed",)},
    {"name": "run", "fn": h_run, "configs": {"quick": [("v1.0", 1, "t1"), ("v1.1", 1, "wf")], "thorough": [("v1.0", 2, "t1"), ("v1.2", 2, "wf")]}, "reach": ("pulled",)},
    {"name": "cite", "fn": h_cite, "configs": cfg, "reach": ("listed",)},
]
