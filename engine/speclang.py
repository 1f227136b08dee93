"""Loads /verif/specs/*.py, either as they are (concrete runs) or with numeric literals
inside function bodies and defaults made exact rationals (symbolic runs)."""
import ast
import os
import sys
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _Lit(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        # decorators stay plain
        deco = n.decorator_list
        n.decorator_list = []
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        n.decorator_list = deco
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_Subscript(self, n):
        n.value = self.visit(n.value)
        return n          # indices stay python integers

    def visit_Constant(self, n):
        if self.depth and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return ast.copy_location(ast.Call(ast.Name("__Q", ast.Load()), [
                ast.Constant(repr(n.value)), ast.Constant(isinstance(n.value, int))], []), n)
        return n


def load_specs(symbolic):
    from . import core
    d = os.path.join(HERE, "specs")
    mods = {}
    files = sorted(f for f in os.listdir(d) if f.endswith(".py") and f != "__init__.py")
    # common first
    files.sort(key=lambda f: (f != "common.py", f))
    for f in files:
        path = os.path.join(d, f)
        tree = ast.parse(open(path).read(), path)
        name = "specs_" + f[:-3]
        m = types.ModuleType(name)
        g = m.__dict__
        if symbolic:
            from .loader import _Q
            tree = _Lit().visit(tree)
            ast.fix_missing_locations(tree)
            g["__Q"] = _Q
        g["__file__"] = path
        sys.modules[name] = m
        exec(compile(tree, path, "exec"), g)
        mods[f[:-3]] = m
    return mods
