"""C09: link resolution.  Base location and link are symbolic text; `resolved_path`
(together with the standard library's URL functions, encoded from their own source)
runs on them and the result is compared with RFC 3986 reference resolution written
independently; the URI predicates are compared with the URL syntax."""

import os
import posixpath
import urllib.parse

from cwl_utils import utils

from sx import shadow

shadow.urllib_parse()
shadow.posixpath()

ASSUMPTIONS = [
    "schemes are file, http, https or none (a local path); links have no ;parameters, no empty path segments, hosts or queries",
    "absolute paths do not climb above the root; fragments play no part in the location of a document",
]


def BOUNDS(tier):
    return {
        "base": "local relative and absolute paths, file, http and https URLs with directories, queries and fragments; "
                "directory and file names symbolic",
        "link": "any text of up to %d characters out of . / a b : # ? and every absolute URL form" % (5 if tier == "quick" else 7),
        "helpers": "any text of up to %d characters out of letters, digits, + - . : / # ?" % (5 if tier == "quick" else 6),
    }


LINK = ((35, 35), (46, 47), (58, 58), (63, 63), (97, 98))


def split_uri(s):
    """scheme, authority (or None), path, query (or None): RFC 3986, appendix B."""
    k = s.find("#")
    if k >= 0:
        s = s[:k]
    query = None
    scheme = ""
    i = s.find(":")
    if i > 0:
        ok = True
        for n, c in enumerate(s[:i]):
            if not (("a" <= c and c <= "z") or ("A" <= c and c <= "Z") or (n > 0 and (("0" <= c and c <= "9") or c in "+-."))):
                ok = False
                break
        if ok:
            scheme, s = s[:i].lower(), s[i + 1:]
    k = s.find("?")
    if k >= 0:
        s, query = s[:k], s[k + 1:]
    authority = None
    if s[:2] == "//":
        j = s.find("/", 2)
        if j < 0:
            j = len(s)
        authority, s = s[2:j], s[j:]
    return scheme, authority, s, query


def dots(path, absolute):
    """Remove dot segments; a relative path keeps the ones that lead out of it."""
    out = []
    segs = path.split("/")
    last = ""
    for seg in segs:
        last = seg
        if seg == "" or seg == ".":
            continue
        if seg == "..":
            if out and not (out[-1] == ".."):
                out.pop()
            elif not absolute:
                out.append("..")
            else:
                raise IndexError("above the root")
        else:
            out.append(seg)
    return out, (last == "" or last == "." or last == "..")


def resolve(base, link):
    """Reference: (scheme, authority, segments, is a directory, query)."""
    ls, la, lp, lq = split_uri(link)
    bs, ba, bp, bq = split_uri(base)
    if ls != "":
        return None
    if la is not None:
        o, d = dots(lp, True)
        return bs, la, o, d, lq
    if lp == "":
        o, d = dots(bp, bp[:1] == "/")
        return bs, ba, o, d, lq if lq is not None else bq
    if lp[:1] == "/":
        o, d = dots(lp, True)
        return bs, ba, o, d, lq
    k = bp.rfind("/")
    o, d = dots(bp[:k + 1] + lp, bp[:1] == "/")
    return bs, ba, o, d, lq


def located(url, local):
    """A resolved location in the same terms."""
    s, a, p, q = split_uri(url)
    o, d = dots(p, p[:1] == "/")
    return s, a, o, d, q


def judge(ctx, base, link, reach):
    bu = urllib.parse.urlparse(base)
    ls, la, lp, lq = split_uri(link)
    if la == "" or lq == "":
        return  # an empty host or query is taken for none
    try:
        want = resolve(base, link)
    except IndexError:
        return
    kind, got = ctx.call(utils.resolved_path, bu, link)
    ctx.check(kind == "ok", "a link can be resolved", got)
    url = got.geturl()
    if want is None:
        ctx.check_eq(url, urllib.parse.urlparse(link).geturl(), "an absolute link stays as it is")
        ctx.reach("absolute")
        return
    if link == "":
        ctx.check_eq(url, bu.geturl(), "the empty link is the document itself")
        ctx.reach("empty")
        return
    s, a, o, d, q = located(url, bu.scheme == "")
    ctx.check_eq(s, want[0], "the scheme of the resolved link")
    ctx.check_eq(a or "", want[1] or "", "the host of the resolved link")
    ctx.check_eq(o, want[2], "the path of the resolved link")
    # a local file name is never a directory
    if bu.scheme != "":
        ctx.check_eq(q or "", want[4] or "", "the query of the resolved link")
        ctx.check_eq(d, want[3], "whether the resolved link ends in a slash")
    p = split_uri(url)[2]
    if bu.scheme == "" and not (link[:1] == "/"):
        ctx.check_eq(p[:1] == "/", bu.path[:1] == "/", "local paths stay relative or absolute")
    ctx.reach(reach)


BASES = ["wf.cwl", "d/wf.cwl", "/wf.cwl", "/d/e/wf.cwl", "file:///d/wf.cwl", "http://h/wf.cwl", "https://h/d/e/wf.cwl?r=1", "http://h:8/d/", "/d/wf.cwl#main"]


def h_link(ctx):
    base, n = ctx.config
    link = ctx.str("link", n, LINK)
    ctx.assume("//" not in link[1:])
    if ":" in link and not (split_uri(link)[0] != ""):
        return  # a colon in the first segment of a relative path: not a relative reference
    judge(ctx, base, link, "relative")


def h_base(ctx):
    """Symbolic base, links of every form."""
    form, n = ctx.config
    a = ctx.str("dir", n, ((46, 46), (97, 98)), minlen=1)
    b = ctx.str("file", n, ((46, 46), (97, 98)), minlen=1)
    for x in (a, b):
        ctx.assume(x != "." and x != "..")
    base = form[0] + a + form[1] + b + form[2]
    link = ctx.one("link", ["", "x.cwl", "./x.cwl", "../x.cwl", "../../x.cwl", "x/../y.cwl", "x/./y.cwl", "/x.cwl", "..", ".", "#main",
                            "x.cwl#main", "?q=1", "x.cwl?q=1", "http://k/x.cwl", "file:///x.cwl", "//k/x.cwl", "x/",
                            "http:x.cwl", "file:x.cwl", "HTTP://k/x.cwl", "s3://k/../x.cwl?q#f"])
    judge(ctx, base, link, "relative")


def h_helpers(ctx):
    n = ctx.config
    s = ctx.str("uri", n, ((35, 35), (43, 43), (45, 49), (58, 58), (63, 63), (65, 66), (97, 98)))
    scheme = split_uri(s)[0]
    kind, got = ctx.call(utils.is_uri, s)
    ctx.check(kind == "ok", "is_uri answers", got)
    ctx.check_eq(got, not (scheme == ""), "a text is a URI exactly when it has a scheme")
    kind, got = ctx.call(utils.get_value_from_uri, s)
    ctx.check(kind == "ok", "get_value_from_uri answers", got)
    k = s.find("#")
    f = s[k + 1:] if k >= 0 else ""
    ctx.check_eq(got, f[f.rfind("/") + 1:], "the name is the last segment of the fragment")
    ctx.reach("uri" if not (scheme == "") else "name")


def h_local(ctx):
    scheme = ctx.one("scheme", ["file", "FILE", "File", "http", "s3", "files", "fil", ""])
    rest = ctx.str("rest", ctx.config, ((35, 35), (47, 47), (58, 58), (97, 98)))
    s = scheme + ":" + rest if scheme else rest
    want = split_uri(s)[0] == "file"
    kind, got = ctx.call(utils.is_local_uri, s)
    ctx.check(kind == "ok", "is_local_uri answers", got)
    ctx.check_eq(got, want, "a URI is local exactly when its scheme is file")
    ctx.reach("local" if want else "remote")


def base_cfg(tier):
    forms = [("", "/", ""), ("/", "/", ""), ("../", "/", ""), ("file:///", "/", ""), ("http://h/", "/", ""), ("https://h/", "/", "?r=1"), ("http://h/", "/", "#f")]
    return [(f, 2 if tier == "quick" else 4) for f in forms]


HARNESSES = [
    {"name": "link", "fn": h_link, "configs": lambda tier: [(b, 5 if tier == "quick" else 7) for b in BASES], "reach": ("absolute", "empty", "relative")},
    {"name": "base", "fn": h_base, "configs": base_cfg, "reach": ("absolute", "empty", "relative")},
    {"name": "helpers", "fn": h_helpers, "configs": {"quick": [5], "thorough": [6]}, "reach": ("uri", "name")},
    {"name": "local", "fn": h_local, "configs": {"quick": [3], "thorough": [5]}, "reach": ("local", "remote")},
]
