"""C14: pulling images.  Image references are symbolic text; the commands are stand-ins
with symbolic outcomes working on a scratch directory, the file states are symbolic."""

import contextlib
import io
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

from cwl_utils import image_puller, singularity

from . import state

state.snapshot(singularity)

ASSUMPTIONS = [
    "a command that fails returns a nonzero status or cannot be started; one that succeeds has done its work",
    "the character replacement: docker drops / and turns : into _, Singularity turns / and : into _",
]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return {"references": "two of 1..%d characters out of a, slash, colon, @ and dot" % n,
            "Singularity versions": "2.6, 3.0, 3.7, apptainer 1.1, and two that are not supported",
            "commands": "each succeeds, fails with or without output, or is missing; podman refuses to overwrite",
            "file states": "image there or not, directory given as text, as a path, or not given"}


CHARS = ((46, 47), (58, 58), (64, 64), (97, 97))
VERSIONS = {"singularity version 2.6.0": ".img", "singularity-ce version 3.0.1": ".sif", "singularity version 3.7.0-1.el7": ".sif",
            "apptainer version 1.1.0": ".sif", "singularity version 2.4.5": None, "singularity-ce version 2.5.2": None}


class Engine:
    """Stand-in for the commands: symbolic outcomes, real files in a scratch directory."""

    def __init__(self, ctx, version="singularity-ce version 3.7.0"):
        self.ctx, self.version, self.ran, self.failed = ctx, version, [], False
        self.refuses = False
        state.fresh(singularity)
        ctx.patch(subprocess, "run", self.run)
        ctx.patch(subprocess, "check_call", lambda cmd, *a, **k: self.run(cmd, check=True))
        ctx.patch(subprocess, "call", lambda cmd, *a, **k: self.run(cmd).returncode)
        ctx.patch(subprocess, "check_output", self.check_output)
        if hasattr(singularity, "check_output"):
            ctx.patch(singularity, "check_output", self.check_output)

    def check_output(self, cmd, *a, **k):
        if list(cmd)[1:] == ["--version"]:
            return self.version + "\n"
        return self.run(cmd, check=True).stdout

    def run(self, cmd, *a, check=False, **k):
        cmd = list(cmd)
        if cmd[1:] == ["--version"]:
            return subprocess.CompletedProcess(cmd, 0, self.version + "\n", "")
        self.ran.append(cmd)
        out = self.ctx.pick("outcome%d" % len(self.ran), 4)
        if out == 0:
            dest = None
            if "save" in cmd and "-o" in cmd:
                dest = cmd[cmd.index("-o") + 1]
                if self.refuses and os.path.exists(dest):
                    out = 1
            if "--name" in cmd:
                dest = cmd[cmd.index("--name") + 1]
                if "--force" not in cmd and os.path.exists(dest):
                    out = 1
            if dest is not None and out == 0:
                with open(dest, "w") as fh:
                    fh.write("new")
        if out == 3:
            self.failed = True
            raise FileNotFoundError(2, "No such file", cmd[0])
        if out:
            self.failed = True
            text = b"manifest unknown" if out == 1 else None
            if check:
                raise subprocess.CalledProcessError(1, cmd, text)
            return subprocess.CompletedProcess(cmd, 1, text, None)
        return subprocess.CompletedProcess(cmd, 0, b"", None)


@contextlib.contextmanager
def scratch():
    d, was = tempfile.mkdtemp(prefix="c14"), os.getcwd()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            yield os.path.realpath(d), out
    finally:
        os.chdir(was)
        shutil.rmtree(d, ignore_errors=True)


def puller(kind, req, where, cmd, force):
    cls = image_puller.DockerImagePuller if kind == "docker" else image_puller.SingularityImagePuller
    return cls(req, where, cmd, force)


def plain(kind, ref):
    return ref.replace("/", "").replace(":", "_") if kind == "docker" else ref.replace("/", "_").replace(":", "_")


def h_names(ctx):
    kind, size, version = ctx.config
    Engine(ctx, version or "singularity version 3.7.0")
    suffix = ".tar" if kind == "docker" else VERSIONS[version]
    a = ctx.str("a", size, CHARS, minlen=1)
    b = ctx.str("b", size, CHARS, minlen=1)
    k1, x = ctx.call(puller(kind, a, "/d", kind, False).get_image_name)
    k2, y = ctx.call(puller(kind, b, "/e", "podman", True).get_image_name)
    if suffix is None:
        ctx.check(k1 == "exc" and k2 == "exc", "an unsupported version of Singularity is an error", x)
        ctx.reach("refused")
        return
    ctx.check(k1 == "ok" and k2 == "ok", "every reference has a file name", x)
    for n in (x, y):
        ctx.check(ctx.all([n.find("/") < 0, n.find(":") < 0]), "the file lies in the directory", n)
        ctx.check_eq(n[-len(suffix):], suffix, "the file has the suffix of the engine", n)
    if ctx.eq(plain(kind, a), plain(kind, b)):
        ctx.check_eq(x, y, "the file name depends on the reference alone", (x, y))
        ctx.reach("same")
    else:
        ctx.check(not ctx.eq(x, y), "different references are saved to different files", (x, y))
        ctx.reach("different")
    if kind == "docker":
        ctx.check_eq(puller(kind, a, None, kind, False).generate_udocker_loading_command(), "udocker load -i " + x,
                     "the command to load the image names its file")


def target(ctx, d):
    """The directory given, and the one the image has to be in."""
    os.mkdir(os.path.join(d, "images"))
    how = ctx.pick("directory", 4)
    return how, [None, os.path.join(d, "images"), Path(d, "images"), "images"][how]


REFS = ["debian:9", "quay.io/a/b@sha256:12", "host:5000/x"]


def h_docker(ctx):
    ref = REFS[ctx.pick("reference", len(REFS))]
    eng = Engine(ctx)
    with scratch() as (d, out):
        how, where = target(ctx, d)
        force = ctx.one("force", [False, True])
        cmd = ctx.one("engine", ["docker", "podman"])
        eng.refuses = cmd == "podman"
        p = puller("docker", ref, where, cmd, force)
        name = p.get_image_name()
        there = ctx.one("there", [False, True])
        other = os.path.join(d, "images", "other.tar")
        for f in [other] + ([os.path.join(d, "images", name)] if there else []):
            with open(f, "w") as fh:
                fh.write("old")
        kind, got = ctx.call(p.save_docker_image)
        files = read(d)
        text = out.getvalue()
    pull = [cmd, "pull", ref]
    save = [cmd, "save", "-o", str(Path(where, name)), ref] if where is not None else None
    want = [pull] + ([save] if save and kind == "ok" else [])
    ran = [list(map(str, c)) for c in eng.ran]
    ctx.check(ran[:1] == [pull], "the image is pulled with the engine, by its reference", ran)
    ctx.check(ran[1:] in ([], [save]), "the image is saved with the engine, by its reference, to its file", ran)
    ctx.check((kind == "exc") == eng.failed, "a failing command is an error, and nothing else is", got)
    ctx.check_eq(files.get("images/other.tar"), "old", "other images are left alone")
    if kind == "ok":
        ctx.check(ran == want, "what is to be saved is saved", ran)
        if where is not None:
            ctx.check_eq(files.get("images/" + name), "new", "the image is in its file", files)
            ctx.check(name in text, "the command to load the image is printed", text)
            ctx.reach("saved")
        else:
            ctx.reach("pulled")
    else:
        ctx.check("udocker load" not in text, "no image is reported as saved after a failure", text)
        ctx.reach("failed")


def elsewhere(here, name):
    """A place the image is not asked to be in."""
    return name if here else "images/" + name


def read(d):
    out = {}
    for top, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(top, n)) as fh:
                out[os.path.relpath(os.path.join(top, n), d)] = fh.read()
    return out


def h_singularity(ctx):
    version = ctx.config
    suffix = VERSIONS[version]
    ref = REFS[ctx.pick("reference", len(REFS))]
    eng = Engine(ctx, version)
    name = plain("singularity", ref) + (suffix or ".sif")
    with scratch() as (d, out):
        how, where = target(ctx, d)
        force = ctx.one("force", [False, True])
        cmd = ctx.one("engine", ["singularity", "apptainer"])
        here = "" if where is None else "images/"
        there = ctx.one("there", [False, True])
        decoys = [elsewhere(here, name), "images/other.sif"]
        for f in decoys[1 - ctx.pick("decoy", 2):] + ([here + name] if there else []):
            with open(os.path.join(d, f), "w") as fh:
                fh.write("old")
        p = puller("singularity", ref, where, cmd, force)
        kind, got = ctx.call(p.save_docker_image)
        files = read(d)
        ran = [list(map(str, c)) for c in eng.ran]
        names = [os.path.realpath(c[c.index("--name") + 1]) for c in ran if "--name" in c]
    ctx.check_eq(files.get("images/other.sif"), "old", "other images are left alone")
    if suffix is None:
        ctx.check(kind == "exc" and not ran, "an unsupported version of Singularity is an error", got)
        ctx.reach("refused")
        return
    if there and not force:
        ctx.check(kind == "ok" and not ran, "an image that is there is not pulled again", ran)
        ctx.check_eq(files.get(here + name), "old", "an image that is there is left alone", files)
        ctx.reach("reused")
        return
    ctx.check(len(ran) == 1, "the image is pulled once", ran)
    c = ran[0]
    ctx.check_eq(names, [os.path.join(d, here + name)], "the image is pulled to its file", c)
    i = c.index("--name")
    rest = c[:i] + c[i + 2:]
    ctx.check_eq([rest[:2], rest[-1], sorted(rest[2:-1])], [[cmd, "pull"], "docker://" + ref, ["--force"] if force else []],
                 "the image is pulled with the engine, by its reference", c)
    ctx.check((kind == "exc") == eng.failed, "a failing command is an error, and nothing else is", got)
    if kind == "ok":
        ctx.check_eq(files.get(here + name), "new", "the image is in its file", files)
        ctx.reach("pulled")
    else:
        ctx.reach("failed")


def names_cfg(tier):
    n = 3 if tier == "quick" else 4
    return [("docker", n, None)] + [("singularity", n if i == 1 else n - 1, v) for i, v in enumerate(VERSIONS)]


HARNESSES = [
    {"name": "names", "fn": h_names, "configs": names_cfg, "reach": ("same", "different", "refused")},
    {"name": "docker", "fn": h_docker, "configs": {"quick": [0], "thorough": [0]}, "reach": ("saved", "pulled", "failed")},
    {"name": "singularity", "fn": h_singularity, "configs": {"quick": list(VERSIONS), "thorough": list(VERSIONS)},
     "reach": ("refused", "reused", "pulled", "failed")},
]
