"""C07: the 64 KiB limit.  The file is an object of symbolic length (0 to 2^31 bytes) with
a multi-byte character, a byte that is no UTF-8, or a control character at a symbolic position; the
functions that load contents run on it and the extent of what they return, and of
what they request, is decided by Z3."""

import codecs
import io

import cwl_utils.parser.cwl_v1_0_utils as u0
import cwl_utils.parser.cwl_v1_1_utils as u1
import cwl_utils.parser.cwl_v1_2_utils as u2
from cwl_utils.errors import WorkflowException

from sx import rt
from sx.proxies import PROXY_TYPES, Proxy, force, mkbool, unsupported, zand, zexpr_bool

UTILS = {"v1.0": u0, "v1.1": u1, "v1.2": u2}
LIMIT = 65536
ASSUMPTIONS = [
    "the file answers read(n) with n bytes unless it ends before (a regular file opened for binary reading)",
    "one multi-byte character, one byte that is no UTF-8 or one control character (line feed, carriage return, null) anywhere in the file, printable ASCII elsewhere",
]


def BOUNDS(tier):
    return {"length": "0..2^31 bytes, symbolic", "character": "control character, byte that is no UTF-8 or character of 1 to 4 bytes at any position, symbolic",
            "replay": "counterexamples are replayed with real files of that length (up to 2 MiB)"}


MAX = 2 ** 31


def smin(a, b):
    if a <= b:
        return a
    return b


class Data(Proxy):
    """The bytes start..end of the file; bytes-like for the code under test."""

    __slots__ = ("f", "start", "end")
    __class__ = property(lambda self: bytes)

    def __init__(self, f, start, end):
        self.f, self.start, self.end = f, start, end

    def __symlen__(self):
        return self.end - self.start

    def __bool__(self):
        return bool(self.end > self.start)

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            unsupported("indexing of file data")
        n = self.end - self.start
        lo, hi = force(i.start), force(i.stop)
        lo = 0 if lo is None else lo
        hi = n if hi is None else hi
        if lo < 0:
            lo = lo + n
        if hi < 0:
            hi = hi + n
        lo, hi = smin(lo, n), smin(hi, n)
        return Data(self.f, self.start + lo, self.start + (hi if hi >= lo else lo))

    def __add__(self, o):
        if not isinstance(o, Data) and isinstance(o, bytes) and not o:
            return self
        if isinstance(o, Data):
            if not o:
                return self
            if not self:
                return o
            if self.end == o.start:
                return Data(self.f, self.start, o.end)
        unsupported("bytes put together out of order")

    def __radd__(self, o):
        if not isinstance(o, Data) and isinstance(o, bytes) and not o:
            return self
        unsupported("bytes put together")

    def _at(self, i):
        """Is the byte at i (a file position) the white space one?"""
        return self.f.space and bool(self.f.pos == i)

    def _drop(self, chars, left, right):
        chars = force(chars)
        if chars is not None and any(c in b"0123456789|x\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xff" for c in chars):
            unsupported("stripping other bytes")
        d = self
        hit = self.f.space and self.f.space in (b"\n\r" if chars is None else chars)
        if hit and right and d and d._at(d.end - 1):
            d = Data(d.f, d.start, d.end - 1)
        if hit and left and d and d._at(d.start):
            d = Data(d.f, d.start + 1, d.end)
        return d

    def rstrip(self, chars=None):
        return self._drop(chars, False, True)

    def lstrip(self, chars=None):
        return self._drop(chars, True, False)

    def strip(self, chars=None):
        return self._drop(chars, True, True)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(name)
        unsupported("bytes." + name)

    def __eq__(self, o):
        if isinstance(o, Data):
            return mkbool(zand([zexpr_bool(self.start == o.start), zexpr_bool(self.end == o.end)]))
        if not isinstance(o, Data) and isinstance(o, bytes) and not o:
            return mkbool(zexpr_bool(self.start == self.end))
        return NotImplemented

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def decode(self, encoding="utf-8", errors="strict"):
        return self._decode(encoding, errors, True)

    def _decode(self, encoding, errors, final):
        f = self.f
        if not bool(encoding.lower().replace("_", "-") in ("utf-8", "utf8")):
            unsupported("encoding " + str(encoding))
        p, k = f.pos, f.width
        end = self.end
        # a character cut by the start of the data, or a byte that is no UTF-8
        if (f.bad and p >= self.start and p < end) or (not f.bad and k > 1 and p < self.start and p + k > self.start):
            if errors == "strict":
                raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
            return Text(f, self.start, end, errors)
        if not f.bad and k > 1 and p >= self.start and p < end and p + k > end:
            if final and errors == "strict":
                raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "unexpected end of data")
            return Text(f, self.start, p, "replace" if final and errors == "replace" else "strict")
        return Text(f, self.start, end, "strict")


PROXY_TYPES.add(Data)


class Text:
    def __init__(self, f, start, end, errors):
        self.f, self.start, self.end, self.errors = f, start, end, errors

    def _strip(self, chars, left, right):
        d = Data(self.f, self.start, self.end)._drop(chars if chars is None else force(chars).encode(), left, right)
        return Text(self.f, d.start, d.end, self.errors)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        unsupported("str." + name)


class Decoder:
    def __init__(self, errors="strict"):
        self.errors = errors

    def decode(self, data, final=False):
        return data._decode("utf-8", self.errors, bool(final))


def _getincrementaldecoder(encoding):
    return Decoder if encoding.lower() in ("utf-8", "utf8") else _orig(encoding)


_orig = codecs.getincrementaldecoder
rt.MODELS[id(_orig)] = (_orig, _getincrementaldecoder)


class File:
    """A file opened for binary reading, of symbolic length."""

    def __init__(self, length, pos, width, bad, space):
        self.length, self.pos, self.width, self.bad, self.space = length, pos, width, bad, space
        self.at = 0
        self.requested = 0
        self.whole = False

    def read(self, n=-1):
        n = force(n)
        if n is None or n < 0:
            self.whole = True
            end = self.length
        else:
            self.requested = self.requested + n
            end = smin(self.at + n, self.length)
        d = Data(self, self.at, end)
        self.at = end
        return d


class RealFile(io.BytesIO):
    def __init__(self, data):
        super().__init__(data)
        self.requested = 0
        self.whole = False

    def read(self, n=-1):
        if n is None or n < 0:
            self.whole = True
        else:
            self.requested += n
        return super().read(n)


CHARS = {1: "x", 2: "\u00e9", 3: "\u20ac", 4: "\U0001f600"}


def make(ctx):
    width = 1 + ctx.pick("width", 4)
    special = 0 if width > 1 else ctx.pick("bad", 5)
    bad = special == 1
    space = b"\n\r\0"[special - 2:special - 1] if special > 1 else b""
    length = ctx.int("length", 0, MAX)
    pos = ctx.int("pos", 0, MAX)
    if width > 1 or special:
        ctx.assume(pos + width <= length)
    if ctx.symbolic:
        return File(length, pos, width, bad, space), length, pos, width, bad
    if length > 2 << 20:
        return None, length, pos, width, bad
    data = bytearray((b"%07d|" % 0).join(b"%09d" % i for i in range(length // 10 + 2))[:length])
    if width > 1:
        data[pos:pos + width] = CHARS[width].encode("utf-8")
    elif bad:
        data[pos:pos + 1] = b"\xff"
    elif space:
        data[pos:pos + 1] = space
    return RealFile(bytes(data[:length])), length, pos, width, bad


def extent(ctx, f, got, want_end):
    """got is the file's first want_end bytes."""
    if ctx.symbolic:
        if not isinstance(got, Data) and isinstance(got, bytes):
            return ctx.eq(want_end, 0)
        return isinstance(got, Data) and ctx.all([ctx.eq(got.start, 0), ctx.eq(got.end, want_end)])
    return got == f.getvalue()[:want_end]


def text(ctx, f, got, want_end):
    if ctx.symbolic:
        if isinstance(got, str) and not got:
            return ctx.eq(want_end, 0)
        return isinstance(got, Text) and got.errors == "strict" and ctx.all([ctx.eq(got.start, 0), ctx.eq(got.end, want_end)])
    return got == f.getvalue()[:want_end].decode("utf-8")


def h_read(ctx):
    version, variant = ctx.config
    m = UTILS[version]
    f, length, pos, width, bad = make(ctx)
    if f is None:
        return
    fn = m.content_limit_respected_read_bytes if variant == "bytes" else m.content_limit_respected_read
    kind, got = ctx.call(fn, f)
    ctx.check(not f.whole, "the whole file is never requested at once")
    ctx.check(f.requested <= LIMIT + 1, "at most 65537 bytes are requested")
    long = bool(length > LIMIT)
    if long and version == "v1.2":
        ctx.check(kind == "exc" and isinstance(got, WorkflowException), "a longer file is an error", got)
        ctx.reach("too long")
        return
    end = LIMIT if long else length
    if variant == "bytes":
        ctx.check(kind == "ok", "the file can be loaded", got)
        ctx.check(extent(ctx, f, got, end), "exactly the contents up to the limit")
        ctx.reach("cut" if long else "whole")
        return
    if bad and pos < end:
        ctx.check(kind == "exc", "what is not text is an error, not a value")
        ctx.reach("not text")
        return
    ctx.check(kind == "ok", "the file can be loaded as text", got)
    if width > 1 and pos < end and pos + width > end:
        end = pos
        ctx.reach("character at the limit")
    ctx.check(text(ctx, f, got, end), "exactly the text up to the limit")
    ctx.reach("cut" if long else "whole")


HARNESSES = [
    {"name": "read", "fn": h_read, "configs": {"quick": [(v, k) for v in UTILS for k in ("bytes", "text")]},
     "reach": ("too long", "cut", "whole", "not text", "character at the limit")},
]
