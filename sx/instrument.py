"""Import hook: the source of the named modules is rewritten, at import time and
from the files as they are now, so that operations C code would perform on
symbolic values go through sx.rt.  On concrete values every rewritten operation
is the original one."""

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types

from . import rt


class T(ast.NodeTransformer):
    def _rt(self, name, node):
        return ast.copy_location(
            ast.Attribute(ast.Name("sx__rt", ast.Load()), name, ast.Load()), node)

    def _call(self, fn, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(self._rt(fn, node), list(args), list(keywords)), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in (
            "super", "locals", "globals", "exec", "eval", "__import__", "cast",
            "TypeVar", "NewType",
        ):
            if node.func.id == "cast":
                node.args = [self.visit(a) if i else a for i, a in enumerate(node.args)]
                return node
            self.generic_visit(node)
            return node
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [ast.copy_location(ast.keyword(k.arg, self.visit(k.value)), k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            obj = self.visit(f.value)
            return self._call("callm", [obj, ast.copy_location(ast.Constant(f.attr), f)] + args, node, kws)
        return self._call("call", [self.visit(f)] + args, node, kws)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(self._call("fmt", [self.visit(v.value), ast.Constant(conv), spec], node))
        return self._call("fstr", parts, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("mod", [node.left, node.right], node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return self._call("contains", [b, a], node)
            if isinstance(op, ast.NotIn):
                return self._call("notcontains", [b, a], node)
            if isinstance(op, ast.Is):
                return self._call("is_", [a, b], node)
            if isinstance(op, ast.IsNot):
                return self._call("isnot", [a, b], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            key = node.slice
            if isinstance(key, ast.Slice):
                none = lambda x: x if x is not None else ast.Constant(None)
                key = ast.copy_location(ast.Call(
                    ast.Name("slice", ast.Load()),
                    [none(key.lower), none(key.upper), none(key.step)], []), node)
            if isinstance(key, (ast.Starred,)) or (
                isinstance(key, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in key.elts)):
                return node
            return self._call("getitem", [node.value, key], node)
        return node

    def visit_Match(self, node):
        node.subject = self._call("subject", [self.visit(node.subject)], node)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = [self.visit(s) for s in c.body]
        return node

    def _tick(self, node):
        return ast.copy_location(ast.Expr(self._call("tick", [], node)), node)

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick(node))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, self._tick(node))
        return node

    def visit_AnnAssign(self, node):
        node.value = self.visit(node.value) if node.value is not None else None
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_TypeAlias(self, node):
        return node


def _codes(code, out, prefix):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out[c] = f"{prefix}:{c.co_qualname}"
            _codes(c, out, prefix)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        tree = ast.fix_missing_locations(T().visit(tree))
        code = compile(tree, path, "exec", dont_inherit=True)
        _codes(code, rt.INSTRUMENTED, self.name)
        return code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["sx__rt"] = rt
        super().exec_module(module)


class PlainLoader(importlib.machinery.SourceFileLoader):
    """Prefer the .py source to a compiled extension of the same module."""


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, want, plain=()):
        self.want = want
        self.plain = plain

    def find_spec(self, name, path, target=None):
        w = self.want(name)
        if not w and not any(name == p or name.startswith(p + ".") for p in self.plain):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or spec.origin is None:
            return spec
        origin = spec.origin
        if origin.endswith(".so"):
            import re
            origin = re.sub(r"\.cpython-[^/]*\.so$", ".py", origin)
        if not origin.endswith(".py"):
            return spec
        cls = Loader if w else importlib.machinery.SourceFileLoader
        loader = cls(name, origin)
        return importlib.util.spec_from_file_location(
            name, origin, loader=loader,
            submodule_search_locations=spec.submodule_search_locations)


def install(want, plain=()):
    f = Finder(want, plain)
    sys.meta_path.insert(0, f)
    return f
