"""C16: version tests.  The text an engine prints is symbolic (vendor, digits, suffix);
the version tests run on it and must agree with the comparison of the numbers."""

import subprocess

from cwl_utils import sandboxjs, singularity

from . import state

state.snapshot(singularity)

ASSUMPTIONS = [
    "singularity prints its vendor, the word version and at least two numeric components; node prints v and three of them",
]


def BOUNDS(tier):
    return {"components": "2..4 (node: 3) of 1..%d digits each" % (2 if tier == "quick" else 3),
            "vendors": "singularity, singularity-ce, singularity-pro, apptainer, foo",
            "suffixes": "none, a release or prerelease suffix after a hyphen",
            "minimum node version": "any three components of the same size"}


VENDORS = ["singularity", "singularity-ce", "singularity-pro", "apptainer", "foo"]
DIGITS = ((48, 57),)


def component(ctx, n, size):
    text = ctx.str(n, size, DIGITS, minlen=1)
    value = 0
    for c in text:
        value = value * 10 + (ord(c) - 48)
    return text, value


def version(ctx, n, count, size):
    texts, values = [], []
    for i in range(count):
        t, v = component(ctx, "%s%d" % (n, i), size)
        texts.append(t)
        values.append(v)
    out = texts[0]
    for t in texts[1:]:
        out = out + "." + t
    return out, values


def before(ctx, a, b):
    """a < b, component by component."""
    out = False
    for x, y in reversed(list(zip(a, b))):
        out = ctx.any([x < y, ctx.all([x == y, out])])
    return out


def feed(ctx, text):
    def check_output(cmd, *a, **k):
        return text

    def run(cmd, *a, **k):
        return subprocess.CompletedProcess(cmd, 0, text, "")

    ctx.patch(subprocess, "check_output", check_output)
    ctx.patch(subprocess, "run", run)
    for m in (sandboxjs, singularity):
        if hasattr(m, "check_output"):
            ctx.patch(m, "check_output", check_output)


def h_node(ctx):
    size = ctx.config
    text, have = version(ctx, "v", 3, size)
    minimum, need = version(ctx, "m", 3, size)
    feed(ctx, "v" + text + ctx.one("suffix", ["", "-rc.1", "-nightly20240101abc"]) + "\n")
    engine = sandboxjs.NodeJSEngine(minimum_node_version_str=minimum)
    kind, got = ctx.call(engine.check_js_threshold_version, "node")
    ctx.check(kind == "ok", "every version is understood", got)
    ctx.check_eq(got, ctx.all([ctx.any([before(ctx, need, have), ctx.all([x == y for x, y in zip(need, have)])])]),
                 "node is new enough exactly when its version is at least the minimum")
    ctx.reach("compared")


def h_singularity(ctx):
    count, size, vendor = ctx.config
    state.fresh(singularity)
    text, v = version(ctx, "v", count, size)
    feed(ctx, vendor + " version " + text + ctx.one("suffix", ["", "-1.el8", "+12-gabc"]) + "\n")
    kind, got = ctx.call(singularity.get_version)
    ctx.check(kind == "ok", "every version is understood", got)
    ctx.check(len(got[0]) == count, "every component of the version is kept", got)
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(got[0], v)]), "every component of the version is kept")
    ctx.check_eq(got[1], vendor, "the vendor is kept")
    original = ctx.any([vendor == "singularity", vendor == "singularity-ce"])
    apptainer = ctx.all([vendor == "apptainer", v[0] >= 1])
    want = {
        "is_apptainer_1_or_newer": apptainer,
        "is_version_2_6": ctx.all([original, v[0] == 2, v[1] == 6]),
    }
    for name, low in (("is_version_3_or_newer", (3, 0)), ("is_version_3_1_or_newer", (3, 1)), ("is_version_3_4_or_newer", (3, 4))):
        want[name] = ctx.any([apptainer, ctx.any([v[0] > low[0], ctx.all([v[0] == low[0], v[1] >= low[1]])])])
    for name, w in want.items():
        kind, got = ctx.call(getattr(singularity, name))
        ctx.check(kind == "ok", "every version is understood", got)
        ctx.check_eq(bool(got), w, "a version test is the comparison of the numbers", name)
    ctx.reach("compared")


def sing_cfg(tier):
    n = 2 if tier == "quick" else 3
    return [(c, n, v) for c in (2, 3) for v in VENDORS] + [(4, n - 1, v) for v in VENDORS]


HARNESSES = [
    {"name": "node", "fn": h_node, "configs": {"quick": [2], "thorough": [3]}, "reach": ("compared",)},
    {"name": "singularity", "fn": h_singularity, "configs": sing_cfg, "reach": ("compared",)},
]
