"""The path explorer: depth-first re-execution with Z3 deciding every branch.

A *path* is one run of a harness.  Whenever the running code needs the truth
value of a symbolic expression, ``Engine.branch`` asks Z3 which outcomes are
feasible under the path condition; when both are, one is taken and the other is
queued.  When the queue is empty, every feasible path within the bounds has been
executed, and every assertion on every path has been decided by Z3 for all
values of the symbolic inputs that reach it.
"""

import time

import z3

W = 21  # width of a character (Unicode code point)


class Signal(BaseException):
    """Base of path-steering signals; never caught by the code under test."""


class PathAbort(Signal):
    """The path condition became unsatisfiable (assumption)."""


class PathIncomplete(Signal):
    """The rest of this path cannot be decided (recorded, never a success)."""


class Diverged(Signal):
    """The step budget of one path is exhausted."""


class StopJob(Signal):
    """Job budget exhausted."""


class Nondeterminism(Signal):
    """Re-execution took another route: an error of the machinery."""


class Node:
    __slots__ = ("kind", "expr", "val", "open", "pushed", "alt")

    def __init__(self, kind, expr, val, open_, pushed, alt=None):
        self.kind = kind
        self.expr = expr
        self.val = val
        self.open = open_
        self.pushed = pushed
        self.alt = alt


class Engine:
    def __init__(self, max_ticks=400000, deadline=None, max_viol=3, realise_cap=64):
        self.solver = z3.Solver()
        self.solver.set("timeout", 60000)
        self.trail = []
        self.pos = 0
        self.model = None
        self.max_ticks = max_ticks
        self.ticks = 0
        self.deadline = deadline
        self.max_viol = max_viol
        self.realise_cap = realise_cap
        self.names = {}
        self.cache = {}       # expressions by name: built once, not once per path
        self.stats = dict(
            paths=0, aborted=0, incomplete=0, queries=0, solver_s=0.0, decisions=0,
            asserts=0, asserts_symbolic=0, realised=0, unknown=0, diverged=0,
        )
        self.incomplete_reasons = {}
        self.violations = []
        self.viol_labels = {}
        self.reached = {}
        self.funcs = set()
        self.errors = []
        self.samples = []
        self.truncated = False
        self.probes = []      # inputs of paths the encoding could not follow to the end
        self.prefix = ()      # decisions fixed by the job this one was split from
        self.donate = None    # callable(prefix): hand a part of the search to another process
        self.wanted = None    # callable() -> bool: is another process idle?
        self.next_donation = 0.0

    def _maybe_donate(self):
        now = time.monotonic()
        if now < self.next_donation or not self.wanted():
            return
        self.next_donation = now + 0.3
        for k, node in enumerate(self.trail):
            if node.open:
                out = []
                for x in self.trail[:k]:
                    out.append((x.kind, x.expr if x.kind == "v" else
                                x.pushed if x.kind == "c" else x.val))
                out.append(("b", not node.val))
                node.open = False
                node.alt = None
                self.donate(out)
                return

    # -- solver -------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.note_incomplete("solver answered unknown")
            raise PathIncomplete()
        return r == z3.sat

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise PathAbort()
            self.model = self.solver.model()
        return self.model

    def note_incomplete(self, why):
        self.incomplete_reasons[why] = self.incomplete_reasons.get(why, 0) + 1

    def tick(self, n=1):
        self.ticks += n
        if self.ticks > self.max_ticks:
            raise Diverged()

    # -- decisions ----------------------------------------------------------
    def branch(self, expr):
        if self.pos < len(self.trail) and self.trail[self.pos].expr is expr \
                and self.trail[self.pos].kind == "b":
            self.pos += 1
            return self.trail[self.pos - 1].val
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        i = self.pos
        self.pos = i + 1
        if i < len(self.trail):
            node = self.trail[i]
            if node.kind != "b" or not node.expr.eq(expr):
                raise Nondeterminism(f"{node.kind} {node.expr} vs {expr}")
            return node.val
        self.stats["decisions"] += 1
        self.tick(20)
        if i < len(self.prefix):
            kind, v = self.prefix[i]
            if kind != "b":
                raise Nondeterminism("prefix")
            expr_ = expr if v else z3.Not(expr)
            self.trail.append(Node("b", expr, v, False, True))
            self.solver.push()
            self.solver.add(expr_)
            self.model = None
            return v
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise StopJob()
        if self.donate is not None:
            self._maybe_donate()
        m = self._ensure_model()
        v = z3.is_true(m.eval(expr, model_completion=True))
        other = z3.Not(expr) if v else expr
        try:
            feasible = self._check(other)
        except PathIncomplete:
            self.trail.append(Node("b", expr, v, False, False))
            raise
        if feasible:
            alt = self.solver.model()
            self.solver.push()
            self.solver.add(expr if v else z3.Not(expr))
            self.trail.append(Node("b", expr, v, True, True, alt))
        else:
            self.trail.append(Node("b", expr, v, False, False))
        return v

    def assume(self, expr, fresh=False):
        if self.pos < len(self.trail) and self.trail[self.pos].expr is expr \
                and self.trail[self.pos].kind == "a" and self.trail[self.pos].val:
            self.pos += 1
            return
        if z3.is_true(expr):
            return
        i = self.pos
        self.pos = i + 1
        if i < len(self.trail):
            node = self.trail[i]
            if node.kind != "a" or not node.expr.eq(expr):
                raise Nondeterminism(f"assume {expr}")
            if not node.val:
                raise PathAbort()
            return
        self.solver.push()
        self.solver.add(expr)
        node = Node("a", expr, True, False, True)
        self.trail.append(node)
        if i < len(self.prefix):
            self.model = None
            return
        if self.model is not None and z3.is_true(
            self.model.eval(expr, model_completion=True)
        ):
            return
        self.model = None
        if z3.is_false(expr) or not self._check():
            node.val = False
            raise PathAbort()
        self.model = self.solver.model()

    def check(self, expr, label, info=None):
        """Decide the assertion ``expr`` for every value reaching this point."""
        i = self.pos
        self.pos = i + 1
        if i < len(self.trail):
            node = self.trail[i]
            if node.kind != "c":
                raise Nondeterminism(f"check {label}")
            if not node.val:
                raise PathAbort()
            return
        node = Node("c", None, True, False, False)
        self.trail.append(node)
        if i < len(self.prefix):
            # decided, and reported, by the process this job was split from
            if self.prefix[i][1]:
                self.solver.push()
                self.solver.add(expr)
                node.pushed = True
                self.model = None
            return
        self.stats["asserts"] += 1
        if expr is True or (not isinstance(expr, bool) and z3.is_true(expr)):
            return
        if expr is False or z3.is_false(expr):
            m = self._ensure_model()
            node.val = False
            self.violation(label, m, info)
            raise PathAbort()
        self.stats["asserts_symbolic"] += 1
        if self._check(z3.Not(expr)):
            self.violation(label, self.solver.model(), info)
            # go on with the values for which the assertion holds
            self.solver.push()
            self.solver.add(expr)
            node.pushed = True
            self.model = None
            if not self._check():
                node.val = False
                raise PathAbort()
            self.model = self.solver.model()

    def violation(self, label, model, info=None):
        n = self.viol_labels.get(label, 0)
        self.viol_labels[label] = n + 1
        if n >= self.max_viol:
            if sum(self.viol_labels.values()) > 400:
                raise StopJob()
            return
        self.violations.append(
            {"label": label, "values": self.concretise(model), "info": plain(info)}
        )
        if len(self.violations) >= 24:
            raise StopJob()

    # -- values -------------------------------------------------------------
    def concretise(self, model):
        out = {}
        for name, getter in self.names.items():
            out[name] = getter(model)
        return out

    def current_values(self):
        return self.concretise(self._ensure_model())

    # -- exploration --------------------------------------------------------
    def _backtrack(self):
        while self.trail:
            node = self.trail[-1]
            if node.pushed:
                self.solver.pop()
            if node.open:
                node.open = False
                node.val = not node.val
                self.solver.push()
                self.solver.add(node.expr if node.val else z3.Not(node.expr))
                node.pushed = True
                self.model = node.alt
                node.alt = None
                return True
            self.trail.pop()
        return False

    def explore(self, run, max_paths=None):
        """Run ``run()`` on every feasible path."""
        st = self.stats
        try:
            while True:
                self.pos = 0
                self.ticks = 0
                self.names = {}
                try:
                    run()
                    st["paths"] += 1
                    if len(self.samples) < 2:
                        self.samples.append(self.current_values())
                except PathAbort:
                    st["aborted"] += 1
                except PathIncomplete:
                    st["incomplete"] += 1
                    n = st["incomplete"]
                    if len(self.probes) < 4 or n & (n - 1) == 0 and len(self.probes) < 12:
                        try:
                            self.probes.append(self.current_values())
                        except Signal:
                            pass
                except Diverged:
                    st["diverged"] += 1
                    self.violation("does not terminate within the step budget",
                                   self._ensure_model())
                if self.pos < len(self.trail):
                    raise Nondeterminism("path ended before its recorded trail")
                if not self._backtrack():
                    break
                if max_paths is not None and st["paths"] >= max_paths:
                    self.truncated = True
                    break
        except StopJob:
            self.truncated = True


def plain(info):
    """A description that cannot inspect (and so force) a symbolic value."""
    if info is None or type(info) in (str, int, bool, float):
        return info
    if isinstance(info, BaseException):
        args = [a if type(a) in (str, int) else type(a).__name__ for a in info.args]
        return f"{type(info).__name__}: {args}"[:400]
    return type(info).__name__


CURRENT = None  # the engine of this process, or None in concrete mode


def set_engine(e):
    global CURRENT
    CURRENT = e
