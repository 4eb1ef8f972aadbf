"""Import hook: instruments the current sources on every run"""
import ast
import importlib
import importlib.abc
import importlib.util
import os
import sys
from . import model

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.In: 'in',
       ast.NotIn: 'not in'}
NOWRAP = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__sx_call__'}


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def _annot(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and node.value is not None:
            return node
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_FunctionDef(self, node):
        node.args = self.visit(node.args)
        node.body = [self._s(x) for x in node.body]
        node.body = _flat(node.body)
        # decorators and return annotations stay as they are
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = _flat([self._s(x) for x in node.body])
        return node

    def _s(self, x):
        return self.visit(x)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOWRAP:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=ast.Name('__sx_call__', ast.Load()), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = CMP.get(type(node.ops[0]))
            if op is None:
                return node
            return self._cmp(op, node.left, node.comparators[0], node)
        # chain: evaluate operands once, left to right, short circuit
        names = [f'_sx{i}' for i in range(len(node.ops) + 1)]
        parts = []
        for i, o in enumerate(node.ops):
            a, b = ast.Name(names[i], ast.Load()), ast.Name(names[i + 1], ast.Load())
            op = CMP.get(type(o))
            parts.append(self._cmp(op, a, b, node) if op else ast.Compare(a, [o], [b]))
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], vararg=None,
                                            kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                         body=ast.BoolOp(ast.And(), parts))
        return ast.copy_location(ast.Call(lam, [node.left] + node.comparators, []), node)

    def _cmp(self, op, a, b, node):
        return ast.copy_location(ast.Call(ast.Name('__sx_cmp__', ast.Load()), [ast.Constant(op), a, b], []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Name('__sx_getitem__', ast.Load()),
                                              [node.value, self._slice(node.slice)], []), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name('__sx_slice__', ast.Load()),
                            [x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._slice(x) for x in s.elts], ast.Load())
        return s

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(ast.Name('__sx_setitem__', ast.Load()),
                                                       [t.value, self._slice(t.slice), node.value], [])), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(ast.Assign([ast.Name(t.id, ast.Store())], ast.Call(
                ast.Name('__sx_mod__', ast.Load()), [ast.Name(t.id, ast.Load()), node.value], [])), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name('__sx_delitem__', ast.Load()),
                                                               [t.value, self._slice(t.slice)], [])), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [node.left, node.right], []), node)
        return node

    def _mk(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sx_mkdict__', ast.Load()), [node], []), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys if k is not None) and None not in node.keys:
            return node
        return ast.copy_location(ast.Call(ast.Name('__sx_mkdict__', ast.Load()), [node], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(ast.Call(ast.Name('__sx_mkset__', ast.Load()), [ast.List(node.elts, ast.Load())],
                                          []), node)

    visit_DictComp = _mk

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('__sx_mkset__', ast.Load()), [
            ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Match(self, node):
        """match on values: value patterns become comparisons through the hook"""
        self.generic_visit(node)
        self.n += 1
        name = f'_sxm{self.n}'

        def cond(p):
            s = ast.Name(name, ast.Load())
            if isinstance(p, ast.MatchValue):
                return self._cmp('==', s, p.value, node)
            if isinstance(p, ast.MatchOr):
                cs = [cond(q) for q in p.patterns]
                return None if any(c is None for c in cs) else ast.BoolOp(ast.Or(), cs)
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(s, [ast.Is()], [ast.Constant(p.value)])
            return None
        conds = [cond(c.pattern) for c in node.cases]
        if any(c is None for c in conds):
            return node
        head = ast.Assign([ast.Name(name, ast.Store())], node.subject)
        orelse = []
        for c, case in reversed(list(zip(conds, node.cases))):
            test = c if case.guard is None else ast.BoolOp(ast.And(), [c, case.guard])
            orelse = [ast.If(test, case.body, orelse)]
        return [ast.copy_location(head, node)] + [ast.copy_location(x, node) for x in orelse]


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def compile_source(src, filename):
    tree = ast.parse(src, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


HOOKS = {'__sx_call__': model.hook_call, '__sx_cmp__': model.hook_cmp, '__sx_getitem__': model.hook_getitem,
         '__sx_setitem__': model.hook_setitem, '__sx_delitem__': model.hook_delitem,
         '__sx_mkdict__': model.hook_mkdict, '__sx_mkset__': lambda xs: model.hook_mkset(xs)
         if model.core.ST is not None and model.symbolic(xs) else set(xs),
         '__sx_mod__': model.hook_mod, '__sx_slice__': slice}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as fh:
            src = fh.read()
        code = compile_source(src, self.path)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # top package name -> directory containing it

    def find_spec(self, fullname, path, target=None):
        top = fullname.split('.')[0]
        root = self.roots.get(top)
        if root is None:
            return None
        base = os.path.join(root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(fullname, init, loader=Loader(init),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))


def instrument_library(name):
    """Instrumented private copy of a pure Python library module"""
    spec = importlib.util.find_spec(name)
    if spec is None or not spec.origin or not spec.origin.endswith('.py'):
        return None
    import types
    new = 'sx_stdlib_' + name.replace('.', '_')
    mod = types.ModuleType(new)
    mod.__file__ = spec.origin
    mod.__package__ = spec.name.rpartition('.')[0] if spec.submodule_search_locations is None else spec.name
    mod.__dict__.update(HOOKS)
    with open(spec.origin, encoding='utf-8') as fh:
        src = fh.read()
    sys.modules[new] = mod
    try:
        exec(compile_source(src, spec.origin), mod.__dict__)
    except Exception:
        return None
    return mod
