"""C15: the exchange with the JavaScript process.  The operating system is a stand-in: the
sizes of the pieces that arrive, the lengths of the outputs, the place of a multi-byte
character and the point where the process ends are symbolic numbers; the order of
readiness, the expiry of the timer and the moment a dead process is reaped are symbolic
choices.  The real exchange loop runs on it; Z3 decides what it may return."""

import io
import json
import os
import select
import selectors
import subprocess
import threading
import time

from cwl_utils import sandboxjs
from cwl_utils.errors import JavascriptException

from sx import rt
from sx.ctx import Skip
from sx.proxies import PROXY_TYPES, Proxy, force, mkbool, unsupported, zand, zexpr_bool, zor

ASSUMPTIONS = [
    "pipes: a write of at most PIPE_BUF bytes is complete, a read returns 1 to n bytes or, after the end of the process, none; writing to an ended process is EPIPE",
    "the process answers a complete request with one output on each stream, both ending with the end marker, which occurs nowhere else; it may end or hang anywhere before",
    "after a kill the process ends at once but may be reported as running until it is waited for; a timer that is due may fire before any system call until it is cancelled",
]
MARK = "r1cepzbhUTxtykz5XTC4\n"
M = len(MARK)
PIPE = select.PIPE_BUF


def BOUNDS(tier):
    return {"output": "0..5000 bytes on stdout, 0..200 on stderr, with or without a character of two bytes anywhere, symbolic",
            "pieces": "%d reads of any size per stream, then as large as possible" % reads(tier),
            "requests": "of 1, 2 and 3 pieces; two in a row, on the same or on another process",
            "time limit": "never, before any of the first %d system calls, or while the timer is cancelled" % fires(tier),
            "end of the process": "after any number of bytes of each stream, with status 0, 3 or by a signal"}


def reads(tier):
    return 2 if tier == "quick" else 3


def fires(tier):
    return 4 if tier == "quick" else 6


def smin(a, b):
    if a <= b:
        return a
    return b


# ------------------------------------------------------------- bytes that arrive
class Script:
    """What the process writes to one stream: body, line feed, marker (or the marker only)."""

    def __init__(self, ctx, name, most, wide, alone):
        self.ctx, self.name = ctx, name
        self.body = 0 if alone else ctx.int(name + " length", 2 if wide else 0, most)
        self.total = M if alone else self.body + 1 + M
        self.wide = wide
        if wide:
            self.pos = ctx.int(name + " character", 0, most)
            ctx.assume(self.pos + 2 <= self.body)
        self.at = 0

    def real(self):
        text = b"" if self.total == M else (b"%06d," * (self.body // 7 + 1) % tuple(range(self.body // 7 + 1)))[:self.body] + b"\n"
        text = bytearray(text + MARK.encode())
        if self.wide:
            text[self.pos:self.pos + 2] = "\u00e9".encode()
        return bytes(text)

    def piece(self, lo, hi):
        if self.ctx.symbolic:
            return Piece(self, lo, hi)
        return self.real()[lo:hi]

    def is_body(self, got):
        """Is the text exactly the body?"""
        if self.ctx.symbolic:
            if isinstance(got, Text):
                return self.ctx.all([got.s is self, self.ctx.eq(got.lo, 0), self.ctx.eq(got.hi, self.body)])
            return isinstance(got, str) and not got and self.ctx.eq(self.body, 0)
        return got == self.real()[:self.body].decode()


class Range(Proxy):
    """Bytes lo..hi of what a script writes."""

    __slots__ = ("s", "lo", "hi")
    real = bytes

    def __init__(self, s, lo, hi):
        self.s, self.lo, self.hi = s, lo, hi

    def __symlen__(self):
        return self.hi - self.lo

    def __bool__(self):
        return bool(self.hi > self.lo)

    def mark(self, o):
        """The marker: text or bytes, whatever of it is asked for."""
        o = force(o)
        o = o if isinstance(o, (str, bytes)) and not isinstance(o, Range) else unsupported("comparison of data")
        o = o.encode() if isinstance(o, str) else o
        m = ("\n" + MARK).encode()
        if not (o and m.endswith(o) and len(o) >= 4):
            unsupported("comparison with something else than the end marker")
        return len(o)

    def ends(self, k):
        """lo..hi ends with the last k bytes of the script (k = M + 1: line feed and marker)."""
        there = self.s.total > M if k > M else True
        return self.s.ctx.all([there, self.s.ctx.eq(self.hi, self.s.total), self.hi - self.lo >= k])

    def endswith(self, o, *a):
        if a:
            unsupported("endswith with positions")
        o = force(o)
        if isinstance(o, tuple):
            return self.s.ctx.any([self.endswith(x) for x in o])
        return self.ends(self.mark(o))

    def removesuffix(self, o):
        k = self.mark(o)
        return self.make(self.lo, self.hi - k) if self.ends(k) else self

    def find(self, o, *a):
        if a:
            unsupported("find with positions")
        k = self.mark(o)
        if self.ends(k):
            return self.hi - self.lo - k
        # the marker, but not all of its copies end where the data does
        return -1

    rfind = find

    def __contains__(self, o):
        return bool(self.ends(self.mark(o)))

    contains = __contains__

    def __eq__(self, o):
        o = force(o)
        if isinstance(o, Range):
            return self.s.ctx.all([o.s is self.s, self.s.ctx.eq(self.lo, o.lo), self.s.ctx.eq(self.hi, o.hi)])
        if isinstance(o, (bytes, str)):
            if not o:
                return mkbool(zexpr_bool(self.lo == self.hi))
            k = self.mark(o)
            return self.s.ctx.all([self.ends(k), self.s.ctx.eq(self.hi - self.lo, k)])
        return NotImplemented

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __getitem__(self, i):
        if not isinstance(i, slice) or i.step not in (None, 1):
            unsupported("indexing of data")
        n = self.hi - self.lo

        def norm(x, default):
            x = force(x)
            if x is None:
                return default
            if x < 0:
                x = x + n
                return x if x > 0 else 0
            return smin(x, n)

        lo, hi = norm(i.start, 0), norm(i.stop, n)
        return self.make(self.lo + lo, self.lo + (hi if hi >= lo else lo))

    def __add__(self, o):
        if not isinstance(o, Range) and not o:
            return self
        if isinstance(o, Range) and o.s is self.s:
            if not o:
                return self
            if not self:
                return o
            if self.hi == o.lo:
                return self.make(self.lo, o.hi)
        self.s.ctx.fail("bytes are kept in order")

    def __radd__(self, o):
        if not o:
            return self
        unsupported("data put together")

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(self.real, name):
            raise AttributeError(name)
        unsupported("data." + name)


class Piece(Range):
    __slots__ = ()

    def make(self, lo, hi):
        return Piece(self.s, lo, hi)

    __class__ = property(lambda self: bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8"):
            unsupported("encoding " + encoding)
        s = self.s
        if s.wide:
            if s.ctx.any([s.ctx.all([self.lo == s.pos + 1, self.hi > self.lo]), s.ctx.all([self.hi == s.pos + 1, self.hi > self.lo])]):
                if errors == "strict":
                    raise UnicodeDecodeError("utf-8", b"\xc3", 0, 1, "unexpected end of data")
        return Text(s, self.lo, self.hi)


class Text(Range):
    __slots__ = ()

    def make(self, lo, hi):
        return Text(self.s, lo, hi)

    __class__ = property(lambda self: str)
    real = str

    def __getitem__(self, i):
        if self.s.wide and not (isinstance(i, slice) and i.start in (None, 0) and type(i.stop) is int and i.stop < 0):
            unsupported("positions in text")
        return Range.__getitem__(self, i)

    def rstrip(self, chars=None):
        if chars not in (None, "\n"):
            unsupported("strip")
        if self.ends(1):
            return self.make(self.lo, self.hi - 1)
        return self

    def __symlen__(self):
        if self.s.wide:
            unsupported("length of text")
        return self.hi - self.lo


PROXY_TYPES.add(Piece)
PROXY_TYPES.add(Text)


class Buffer:
    """BytesIO and bytearray for pieces."""

    def __init__(self, data=b""):
        self.data, self.at = force(data), 0

    def write(self, b):
        b = force(b)
        self.data = self.data + b if self.data or not isinstance(b, Range) else b
        return 0

    extend = write

    def __iadd__(self, b):
        self.write(b)
        return self

    def getvalue(self):
        return self.data

    getbuffer = __bytes__ = getvalue

    def read(self, n=-1):
        n = force(n)
        d = self.data[self.at:] if n is None or n < 0 else self.data[self.at:self.at + n]
        self.at += len(d)
        return d

    def seek(self, n, *a):
        self.at = n

    def close(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.data, name)

    def __getitem__(self, i):
        return self.data[i]

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return bool(self.data)


rt.MODELS[id(io.BytesIO)] = (io.BytesIO, Buffer)
rt.MODELS[id(bytearray)] = (bytearray, Buffer)


# ------------------------------------------------------------- the operating system
class Stream:
    def __init__(self, proc, name, fd):
        self.proc, self.name, self.fd, self.closed = proc, name, fd, False

    def fileno(self):
        return self.fd

    def close(self):
        self.closed = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.proc.sys.unknown("stream." + name)


class Proc:
    count = 0

    def __init__(self, sys, args):
        self.sys, self.args = sys, args
        self.index = len(sys.procs)
        sys.procs.append(self)
        base = 900000 + 3 * self.index
        self.stdin, self.stdout, self.stderr = (Stream(self, n, base + i) for i, n in enumerate(("stdin", "stdout", "stderr")))
        for s in (self.stdin, self.stdout, self.stderr):
            sys.fds[s.fd] = s
        self.pid = 900000 + self.index
        self.returncode = None
        self.dead = None     # status, once it has ended
        self.polls = 0
        self.killed = False
        self.incoming = b""
        self.lines = []
        self.lines0 = []

    def end(self, status):
        if self.dead is None:
            self.dead = status
            self.polls = self.sys.ctx.pick("reaped late %d" % self.index, 2) * 9

    def poll(self):
        if self.dead is not None and self.returncode is None:
            if self.polls > 0:
                self.polls -= 1
                return None
            self.returncode = self.dead
        return self.returncode

    def wait(self, timeout=None):
        if System.now is not self.sys or self.sys.over:
            return 0
        if self.dead is None:
            self.sys.due(self)
            if self.dead is None:
                self.sys.unknown("waiting for a process that never ends")
        self.returncode = self.dead
        return self.returncode

    def kill(self):
        if System.now is not self.sys or self.sys.over:
            return
        if self.poll() is None and self.dead is None:
            self.killed = True
            self.end(-9)

    terminate = kill

    def send_signal(self, n):
        self.kill()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.sys.unknown("process." + name)


class Timer:
    def __init__(self, interval, function, args=None, kwargs=None):
        self.sys = System.now
        self.interval, self.function, self.args, self.kwargs = interval, function, args or (), kwargs or {}
        self.state = "new"
        self.daemon, self.name = False, "timer"
        self.sys.timers.append(self)

    def start(self):
        self.state = "running"

    def fire(self):
        if self.state == "running":
            self.state = "fired"
            rt.call(self.function, *self.args, **self.kwargs)

    def cancel(self):
        if self.sys.late:
            self.sys.late = False
            self.fire()
        if self.state == "running":
            self.state = "cancelled"

    def is_alive(self):
        return self.state == "running"

    def join(self, timeout=None):
        if self.state == "running":
            self.fire()


class System:
    """The processes, their pipes, and what time it is."""

    now = None

    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        System.now = self
        self.procs, self.fds, self.timers = [], {}, []
        self.calls = 0
        self.over = self.unnoticed = False
        self.late = False
        self.plans = {}
        p = ctx.patch
        self.real = select.select, os.read, os.write
        p(select, "select", self.select)
        p(os, "read", self.read)
        p(os, "write", self.write)
        p(threading, "Timer", Timer)
        p(subprocess, "Popen", lambda args, **k: Proc(self, args))
        p(subprocess, "check_output", lambda args, **k: "t" if "--eval" in args else "v18.1.0\n")
        for m, names in ((select, ("poll", "epoll")), (selectors, ("DefaultSelector", "PollSelector", "SelectSelector", "EpollSelector"))):
            for n in names:
                p(m, n, lambda *a, **k: self.unknown(n))
        self.fire_at = 0

    def unknown(self, what):
        if self.ctx.symbolic:
            unsupported(what)
        raise Skip()

    def due(self, proc):
        """Time passes until the timer fires."""
        for t in self.timers:
            t.fire()

    def begin(self, plan):
        """A request: what will come back."""
        self.current = plan
        self.calls = 0
        self.idle = plan.idle

    # -- system calls
    def select(self, r, w, x, timeout=None):
        r, w = list(r), list(w)
        if any(not isinstance(s, Stream) for s in r + w):
            self.unknown("select on other files")
        self.calls += 1
        if self.calls > 60:
            self.unknown("too many calls")
        plan = self.current
        if plan.fire_at == self.calls:
            self.due(None)
        proc = (r + w)[0].proc
        plan.advance(proc)
        can = [s for s in r if plan.readable(s)]
        if not can and not [s for s in w if plan.writable(s)]:
            self.due(proc)
            plan.advance(proc)
            can = [s for s in r if plan.readable(s)]
        if not can and plan.quiet(proc):
            # nothing will come: time passes
            plan.waited += 1
            if plan.waited > 2:
                self.due(proc)
                can = [s for s in r if plan.readable(s)]
        elif proc.dead is not None:
            plan.waited += 1
            if plan.waited > 8:
                if not any(t.state == "fired" for t in self.timers):
                    self.unnoticed = True
                self.due(proc)
        ready = can
        if can and proc.dead is None and plan.free:
            choices = [can]
            if len(can) > 1:
                choices += [[s] for s in can]
            if self.idle and w:
                choices.append([])
            ready = choices[self.ctx.pick("%s ready %d" % (plan.name, self.calls), len(choices))]
            if not ready:
                self.idle -= 1
        return ready, [s for s in w if plan.writable(s)], []

    def read(self, fd, n):
        s = self.fds.get(fd)
        if s is None:
            return self.real[1](fd, n)
        return self.current.read(s, n)

    def write(self, fd, data):
        s = self.fds.get(fd)
        if s is None:
            return self.real[2](fd, data)
        proc = s.proc
        if proc.dead is not None:
            raise BrokenPipeError(32, "Broken pipe")
        data = bytes(data)
        proc.incoming += data
        while b"\n" in proc.incoming:
            line, _, proc.incoming = proc.incoming.partition(b"\n")
            proc.lines.append(line)
        return len(data)


class Plan:
    """One request: its answer, and what goes wrong."""

    def __init__(self, ctx, name, lines, kind, fire_at, free, most, wide, alone, err_alone, idle=0):
        self.ctx, self.name, self.kind, self.fire_at, self.free = ctx, name, kind, fire_at, free
        self.idle = idle
        self.lines = lines          # requests lines awaited
        self.out = Script(ctx, name + " stdout", most, wide == "out", alone)
        self.err = Script(ctx, name + " stderr", 200, wide == "err", err_alone)
        self.cut = None
        self.status = None
        self.waited = 0
        self.seen = {}
        if kind != "finish":
            a = ctx.int(name + " stdout written", 0, most + 1 + M)
            b = ctx.int(name + " stderr written", 0, 200 + 1 + M)
            ctx.assume(a <= self.out.total)
            ctx.assume(b <= self.err.total)
            ctx.assume(ctx.any([a < self.out.total, b < self.err.total]))
            self.cut = {"stdout": a, "stderr": b}
            if kind == "end":
                self.status = [0, 3, -11][ctx.pick(name + " status", 3)]

    def script(self, s):
        return self.out if s.name == "stdout" else self.err

    def limit(self, s):
        return self.script(s).total if self.cut is None else self.cut[s.name]

    def answered(self, proc):
        return len(proc.lines) >= self.lines(proc)

    def left(self, s):
        return bool(self.script(s).at < self.limit(s))

    def advance(self, proc):
        """The process ends after it has written what it writes."""
        if self.kind == "end" and proc.dead is None and self.answered(proc):
            if not self.left(proc.stdout) and not self.left(proc.stderr):
                proc.end(self.status)

    def readable(self, s):
        if s.proc.dead is not None:
            return True
        return self.answered(s.proc) and self.left(s)

    def writable(self, s):
        return True

    def quiet(self, proc):
        return not self.left(proc.stdout) and not self.left(proc.stderr) and self.answered(proc) and proc.dead is None

    def read(self, s, n):
        script = self.script(s)
        if s.proc.killed or not self.answered(s.proc) or not self.left(s):
            if s.proc.dead is None:
                s.proc.sys.due(s.proc)    # nothing comes until the process is killed
                if s.proc.dead is None:
                    s.proc.sys.unknown("reading blocks for ever")
            return b""
        k = self.seen[s.name] = self.seen.get(s.name, 0) + 1
        if k <= self.free - (s.name == "stderr" and self.free > 1):
            hi = script.at + self.ctx.int("%s %s piece %d" % (self.name, s.name, k), 1, n)
            self.ctx.assume(hi <= self.limit(s))
        else:
            hi = smin(self.limit(s), script.at + n)
        lo, script.at = script.at, hi
        return script.piece(lo, hi)

    def complete(self):
        """Everything, with both markers, has been read."""
        return self.ctx.all([self.ctx.eq(self.out.at, self.out.total), self.ctx.eq(self.err.at, self.err.total)])


SMALL = "return 1"
CONTEXT = "({a: 1})"


def request(engine, js, **k):
    return engine.exec_js_process(js, timeout=7, **k)


def engine(ctx):
    """A fresh engine, without processes of other runs."""
    ctx.patch(sandboxjs.NodeJSEngine, "localdata", threading.local())
    e = sandboxjs.NodeJSEngine()
    e.processes_to_kill = Forget()
    return e


class Forget(list):
    """Ends no process when the engine goes."""

    def append(self, p):
        pass


def check_result(ctx, plan, kind, got, proc, label):
    ctx.check(kind == "ok", "an evaluation returns a status, whatever happens", got)
    rc, out, err = got
    done = plan.complete()
    if plan.kind == "finish" and not proc.killed:
        ctx.check(rc == 0, "a finished evaluation has status 0", rc)
    if rc == 0:
        ctx.check(done, "never a partial success")
        ctx.check(plan.out.is_body(out), "exactly the bytes before the end marker", label)
        ctx.check(plan.err.is_body(err), "exactly the bytes before the end marker (stderr)", label)
        ctx.reach("finished")
        return True
    if proc.killed:
        ctx.check(rc == -1, "killed when the time limit is exceeded", rc)
        ctx.reach("killed")
    else:
        over = any(t.state == "fired" for t in proc.sys.timers)
        ctx.check(not proc.sys.unnoticed, "the end of the process is noticed before the time limit")
        ctx.check(over or rc != -1, "killed only when the time limit is exceeded", rc)
        ctx.check((over and rc == -1) or rc == (plan.status or rc), "the status is the one of the process", rc)
        ctx.reach("ended")
    return False


def h_exchange(ctx):
    kind, wide, alone, fire, variant, free, most, idle = ctx.config
    sys = System(ctx, None)
    eng = engine(ctx)
    opts, expect = {}, 1
    if variant == "context":
        opts, expect = {"context": CONTEXT}, 2
    elif variant == "console":
        opts = {"js_console": True}
    js = SMALL + (" // \u00e9" + "x" * (0 if kind != "finish" else [0, PIPE - 20, PIPE * 2][ctx.pick("request size", 3)]) if fire == 0 else "")
    at = 0
    if fire:
        at = ctx.pick("time is up at", fire + 1)
        sys.late = at == 0
    plan = Plan(ctx, "1", lambda p: expect, kind, at, free, most, wide, alone, alone or wide != "err", idle)
    sys.begin(plan)
    ctx_call = ctx.call(request, eng, js, **opts)
    ctx.check(len(sys.procs) == 1, "one process is started", len(sys.procs))
    proc = sys.procs[0]
    ok = check_result(ctx, plan, ctx_call[0], ctx_call[1], proc, "first")
    if ok:
        want = ([CONTEXT] if variant == "context" else []) + [js]
        ctx.check([json.loads(x) for x in proc.lines] == want, "the complete request is delivered", proc.lines)
    ctx.check(all(t.state != "running" for t in sys.timers), "no timer is left behind")
    # a second request
    first = len(proc.lines)
    gone = proc.dead is not None
    js2 = "return 2"
    plan2 = Plan(ctx, "2", lambda p: (first + 1 if p is proc else expect), "finish", -1, 0, 8, None, False, True)
    sys.late = False
    sys.begin(plan2)
    kind2, got2 = ctx.call(request, eng, js2, **opts)
    check_result(ctx, plan2, kind2, got2, sys.procs[-1], "second")
    ctx.check(len(sys.procs) == (2 if gone else 1), "a live process serves later requests, an ended one is replaced", len(sys.procs))
    lines = [json.loads(x) for x in (sys.procs[1].lines if gone else proc.lines[first:])]
    ctx.check(lines == ([CONTEXT] if variant == "context" and gone else []) + [js2], "the complete request is delivered", lines)
    ctx.reach("replaced" if gone else "served again")


def h_kinds(ctx):
    """Requests of different kinds have processes of their own."""
    sys = System(ctx, None)
    eng = engine(ctx)
    kinds = [{}, {"js_console": True}, {"context": "({})"}, {"context": "({b: 2})"}]
    used = {}
    for i in range(3):
        k = ctx.pick("kind %d" % i, 4)
        new = k not in used
        plan = Plan(ctx, str(i), lambda p, k=k: len(p.lines0) + 1 if p.lines0 else (2 if k > 1 else 1), "finish", -1, 0, 8, None, False, True)
        for p in sys.procs:
            p.lines0 = list(p.lines)
        sys.begin(plan)
        kind, got = ctx.call(request, eng, "f%d" % i, **kinds[k])
        n = len(sys.procs)
        if new:
            used[k] = sys.procs[-1]
            before = 0
        else:
            before = len(used[k].lines0)
        ctx.check(n == len(used), "one process per kind of request", n)
        check_result(ctx, plan, kind, got, used[k], "kinds")
        lines = [json.loads(x) for x in used[k].lines[before:]]
        ctx.check(lines == ([kinds[k]["context"]] if new and k > 1 else []) + ["f%d" % i], "the complete request is delivered", lines)
    for k, p in used.items():
        name = ["cwlNodeEngine.js", "cwlNodeEngineJSConsole.js", "cwlNodeEngineWithContext.js", "cwlNodeEngineWithContext.js"][k]
        with open(os.path.join(os.path.dirname(sandboxjs.__file__), name)) as fh:
            ctx.check(p.args[-1] == fh.read(), "the process runs the program for its kind of request", k)
    ctx.reach("kinds")


def h_eval(ctx):
    """What the caller gets: a value exactly for status 0 and text that is JSON."""
    eng = engine(ctx)
    rc = ctx.int("status", -9, 9)
    out = ctx.str("out", 2, ((48, 49), (53, 53), (91, 91), (93, 93), (34, 34)))
    console = ctx.one("console", [False, True])
    asked = []

    def execute(js, timeout=None, **k):
        asked.append((js, timeout, k.get("js_console"), k.get("container_engine")))
        return rc, out, "[log] a\n"

    eng.exec_js_process = execute
    kind, got = ctx.call(eng.eval, "1", jslib="lib", timeout=3, js_console=console, container_engine="podman", debug=ctx.one("debug", [False, True]))
    ctx.check_eq(asked, [(sandboxjs.code_fragment_to_js("1", "lib"), 3, console, "podman")], "one evaluation, with the caller's settings")
    if rc == 0:
        try:
            want = json.loads(out)
        except ValueError:
            ctx.check(kind == "exc" and isinstance(got, JavascriptException), "what is not JSON is an error", got)
            ctx.reach("not json")
            return
        ctx.check(kind == "ok", "the value is returned", got)
        ctx.check_eq(got, want, "the value is returned")
        ctx.reach("value")
    else:
        ctx.check(kind == "exc" and isinstance(got, JavascriptException), "a failed evaluation is an error", got)
        if rc == -1:
            ctx.check("killed after 3" in str(got), "the time limit is named", str(got))
        ctx.reach("failed")


def cfg(tier):
    quick = tier == "quick"
    n, f = reads(tier), fires(tier)
    small, big = PIPE - 300, 2 * PIPE
    out = []
    for kind in ("finish", "end", "hang"):
        k = n if kind == "finish" or not quick else 1
        for wide in (None, "out", "err"):
            out.append((kind, wide, False, 0, "plain", k, small, 0))
        out.append((kind, None, True, 0, "plain", 1 if quick else 2, small, 1))
        out.append((kind, "out", False, 0, "plain", 1, big, 0 if quick else 1))
        out.append((kind, None, False, f, "plain", n - 1, small, 0))
        out.append((kind, "out", False, f, "context", n - 1, small, 0))
        out.append((kind, None, False, 0, "console", 1, small, 0 if quick else 1))
        out.append((kind, "err", False, 0, "context", 1, small, 0 if quick else 1))
    return out


HARNESSES = [
    {"name": "exchange", "fn": h_exchange, "configs": cfg, "reach": ("finished", "killed", "ended", "replaced", "served again")},
    {"name": "kinds", "fn": h_kinds, "configs": {"quick": [0], "thorough": [0]}, "reach": ("kinds",)},
    {"name": "eval", "fn": h_eval, "configs": {"quick": [0], "thorough": [0]}, "reach": ("not json", "value", "failed")},
]
