"""Import hook: loads galgebra.* from the working tree, rewritten so that value
dependent tests go through the engine.  Regenerated from the source on every run.

Rewrites (galgebra modules only):
  a <op> b                 -> __vs__.cmp('<op>', a, b)         (single comparisons)
  a in b, a not in b       -> __vs__.contains(a, b) / not
  a.is_zero etc. (load)    -> __vs__.attr(a, 'is_zero')
  tests of if/while/ifexp/assert, and/or/not operands inside them -> __vs__.truth(x)
  names expand/simplify imported by the modules are wrapped after import
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import paths

ATTRS = {'is_number', 'is_zero', 'is_nonzero', 'is_positive', 'is_negative', 'is_nonnegative',
         'is_nonpositive', 'is_Number', 'is_constant', 'is_real'}
OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
REWRITTEN = {}


class _Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.count = 0

    def _call(self, fn, *args):
        self.count += 1
        return ast.Call(func=ast.Attribute(value=ast.Name(id='__vs__', ctx=ast.Load()), attr=fn, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        if type(op) in OPS:
            return self._call('cmp', ast.Constant(OPS[type(op)]), node.left, node.comparators[0])
        if isinstance(op, ast.In):
            return self._call('contains', node.left, node.comparators[0])
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(op=ast.Not(), operand=self._call('contains', node.left, node.comparators[0]))
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ATTRS:
            return self._call('attr', node.value, ast.Constant(node.attr))
        return node

    def _test(self, t):
        if isinstance(t, ast.BoolOp):
            t.values = [self._test(v) for v in t.values]
            return t
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t.operand = self._test(t.operand)
            return t
        if isinstance(t, ast.Constant):
            return t
        return self._call('truth', t)

    def _visit_test(self, node):
        self.generic_visit(node)
        node.test = self._test(node.test)
        return node

    visit_If = visit_While = visit_IfExp = visit_Assert = _visit_test

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = self._test(node.operand)
        return node


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        rw = _Rewrite()
        tree = ast.fix_missing_locations(rw.visit(tree))
        REWRITTEN[module.__name__] = rw.count
        from . import engine
        module.__dict__['__vs__'] = engine.hooks
        exec(compile(tree, self.path, 'exec'), module.__dict__)
        engine.hooks.wrap_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'galgebra' and not name.startswith('galgebra.'):
            return None
        base = os.path.join(paths.REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, '__init__.py')):
            f, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            f, pkg = base + '.py', False
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, f, loader=_Loader(f, pkg), submodule_search_locations=[base] if pkg else None)
        return spec


def install():
    assert not any(m == 'galgebra' or m.startswith('galgebra.') for m in sys.modules)
    sys.meta_path.insert(0, _Finder())
