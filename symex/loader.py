"""Import /repo's packages (and the harnesses) from their current source through an AST pass.

The pass changes no control flow. It only wraps operations CPython implements in C, where a proxy value
would be flattened, so that they reach the hooks in hooks.py:

    f(a, b)      ->  _l(_f(f)(a, b))     (no extra frame around the call itself)
    f"..."       ->  _l(f"...")
    a in b       ->  _in(a, b)
    d[k]         ->  _g(d, k)            (loads;  d[k] = v  ->  _s(v, d, k))
    class X(int) ->  class X(SymInt)
    def f(): ... ->  def f(): _e("module:f"); ...
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALLS = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}


class _Transform(ast.NodeTransformer):
    def __init__(self, module, evidence):
        self.module = module
        self.stack = []
        self.evidence = evidence

    # -- leave annotations and type-level syntax alone
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_TypeAlias(self, node):
        return node

    def _args(self, args):
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [None if d is None else self.visit(d) for d in args.kw_defaults]
        return args

    def _func(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self._args(node.args)
        self.stack.append(node.name)
        body = [self.visit(s) for s in node.body]
        if self.evidence:
            mark = ast.Expr(
                ast.Call(
                    ast.Name("_arti_e_", ast.Load()),
                    [ast.Constant(f"{self.module}:{'.'.join(self.stack)}")],
                    [],
                )
            )
            at = 0
            if (
                body
                and isinstance(body[0], ast.Expr)
                and isinstance(body[0].value, ast.Constant)
                and isinstance(body[0].value.value, str)
            ):
                at = 1
            body.insert(at, mark)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [
            ast.Name("_arti_int_", ast.Load())
            if isinstance(b, ast.Name) and b.id == "int"
            else b
            for b in node.bases
        ]
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    # -- hooks
    def visit_Call(self, node):
        func = node.func
        self.generic_visit(node)
        if isinstance(func, ast.Name) and func.id in SKIP_CALLS:
            return node
        node.func = ast.Call(ast.Name("_arti_f_", ast.Load()), [node.func], [])
        return ast.Call(ast.Name("_arti_l_", ast.Load()), [node], [])

    def visit_JoinedStr(self, node):
        node.values = [
            ast.FormattedValue(self.visit(v.value), v.conversion, v.format_spec)
            if isinstance(v, ast.FormattedValue)
            else v
            for v in node.values
        ]
        return ast.Call(ast.Name("_arti_l_", ast.Load()), [node], [])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(
                ast.Name("_arti_in_", ast.Load()), [node.left, node.comparators[0]], []
            )
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), call)
            return call
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            # A bool on the left would compare itself natively with a symbolic integer.
            name = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[type(node.ops[0]).__name__]
            return ast.Call(ast.Name("_arti_cmp_", ast.Load()), [ast.Constant(name), node.left, node.comparators[0]], [])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if (
            isinstance(node.ctx, ast.Load)
            and self.stack
            and not isinstance(node.slice, (ast.Slice, ast.Tuple))
        ):
            return ast.Call(ast.Name("_arti_g_", ast.Load()), [node.value, node.slice], [])
        return node

    def visit_Assign(self, node):
        if (
            len(node.targets) == 1
            and isinstance(node.targets[0], ast.Subscript)
            and not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple))
        ):
            t = node.targets[0]
            return ast.Expr(
                ast.Call(
                    ast.Name("_arti_s_", ast.Load()),
                    [self.visit(node.value), self.visit(t.value), self.visit(t.slice)],
                    [],
                )
            )
        self.generic_visit(node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = _Transform(self.name, self.name.split(".")[0] == "arti").visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def get_code(self, fullname):  # never use cached bytecode
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        from . import hooks

        module.__dict__.update(hooks.NAMESPACE)
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # top-level name -> directory

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    fullname,
                    p,
                    loader=_Loader(fullname, p),
                    submodule_search_locations=[base] if pkg else None,
                )
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(roots))
