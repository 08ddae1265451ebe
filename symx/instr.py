"""Loads the real sources of /repo with calls, containers, subscripts and f-strings routed through rt."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import rt

PACKAGES = ('ratarmountcore', 'ratarmount', 'props')


class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.target = self._visit_target(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _visit_target(self, t):
        return self.visit(t)

    def visit_arg(self, node):
        return node

    def _function(self, node):
        self.stack.append(node.name)
        name = '.'.join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        body = [self.visit(s) for s in node.body]
        body = [s for sub in body for s in (sub if isinstance(sub, list) else [sub])]
        enter = ast.Expr(
            ast.Call(
                func=ast.Attribute(ast.Name('_rt_', ast.Load()), 'enter', ast.Load()),
                args=[ast.Constant(f'{self.module}:{name}')],
                keywords=[],
            )
        )
        pos = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            pos = 1
        body.insert(pos, enter)
        node.body = body
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._function(node)

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        body = [self.visit(s) for s in node.body]
        node.body = [s for sub in body for s in (sub if isinstance(sub, list) else [sub])]
        self.stack.pop()
        return node

    @staticmethod
    def _rt(name, *args):
        return ast.Call(
            func=ast.Attribute(ast.Name('_rt_', ast.Load()), name, ast.Load()), args=list(args), keywords=[]
        )

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'overrides'):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.Call(
            func=ast.Attribute(ast.Name('_rt_', ast.Load()), 'call', ast.Load()),
            args=[node.func] + node.args,
            keywords=node.keywords,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._rt('contains', node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant(None)
                parts.append(
                    ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load())
                )
        return self._rt('fstr', *parts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._rt('mod', node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple([ast.Constant(True), v], ast.Load()))
            else:
                pairs.append(ast.Tuple([ast.Constant(False), k, v], ast.Load()))
        return self._rt('mkdict', *pairs)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._rt('mkset', ast.List(node.elts, ast.Load()))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._rt('dictcomp', gen)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._rt('mkset', ast.GeneratorExp(node.elt, node.generators))

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self._rt('getitem', node.value, self._index(node.slice))
        if isinstance(node.ctx, ast.Store):
            return node
        return node

    @staticmethod
    def _index(s):
        if isinstance(s, ast.Slice):
            none = lambda x: ast.Constant(None) if x is None else x  # noqa: E731
            return ast.Call(
                func=ast.Attribute(ast.Name('_rt_', ast.Load()), 'slice_', ast.Load()),
                args=[none(s.lower), none(s.upper), none(s.step)],
                keywords=[],
            )
        if isinstance(s, ast.Tuple):
            s.elts = [Transformer._index(e) if isinstance(e, ast.Slice) else e for e in s.elts]
        return s


def strip_annotations(tree):
    """Return annotations may contain subscripts of runtime types; they are kept untouched by the transformer."""
    return tree


# Modules replaced inside the code under test: name -> module-like object.
IMPORT_PATCHES = {}


def patched_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in IMPORT_PATCHES:
        return IMPORT_PATCHES[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


class ModuleProxy(types.ModuleType):
    """A module with some names replaced."""

    def __init__(self, real, **names):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(names)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, filename=path)
        tree = transform(tree, self.name)
        return compile(tree, path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        # never use or write .pyc files
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__['_rt_'] = rt
        if not module.__name__.startswith('props'):
            module.__dict__['__builtins__'] = dict(builtins.__dict__, __import__=patched_import)
        super().exec_module(module)
        rt.patch_module(module)


def transform(tree, name):
    # functions keep their annotations: remove 'returns' from the visit
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            node._returns = node.returns
            node.returns = None
    tree = Transformer(name).visit(tree)
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and hasattr(node, '_returns'):
            node.returns = node._returns
    ast.fix_missing_locations(tree)
    return tree


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in PACKAGES:
            return None
        rel = fullname.replace('.', '/')
        for root in self.roots:
            for cand, is_pkg in ((f'{root}/{rel}/__init__.py', True), (f'{root}/{rel}.py', False)):
                if os.path.isfile(cand):
                    return importlib.util.spec_from_file_location(
                        fullname,
                        cand,
                        loader=_Loader(fullname, cand),
                        submodule_search_locations=[os.path.dirname(cand)] if is_pkg else None,
                    )
        return None


def install(repo):
    sys.dont_write_bytecode = True
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.meta_path.insert(0, Finder([repo + '/core', repo, here]))
    import io

    pyio = load_stdlib_instrumented('_pyio', '_symx_pyio')
    names = {
        k: getattr(pyio, k)
        for k in ('IOBase', 'RawIOBase', 'BufferedIOBase', 'BufferedReader', 'BytesIO', 'BufferedRWPair')
    }
    for k, v in names.items():
        rt.CLASS_ALIASES[v] = getattr(io, k)
    IMPORT_PATCHES['io'] = ModuleProxy(io, **names)
    IMPORT_PATCHES['sqlite3'] = SqliteDispatch()
    from . import fsmodel

    IMPORT_PATCHES['os'] = fsmodel.OsDispatch()
    IMPORT_PATCHES['shutil'] = fsmodel.ShutilDispatch()
    IMPORT_PATCHES['tempfile'] = fsmodel.TempDispatch()


def sqlite_model():
    from . import core
    from .sqlmini import Module

    c = core.ctx()
    m = c.env.get('sqlite')
    if m is None:
        m = c.env['sqlite'] = Module()
    return m


class SqliteDispatch(types.ModuleType):
    """The sqlite3 module the code under test sees: one SQL model per path."""

    def __init__(self):
        import sqlite3

        from .sqlmini import Module

        super().__init__('sqlite3')
        self.__dict__['_real'] = sqlite3
        self.__dict__['_model'] = Module

    def __getattr__(self, name):
        if name.startswith('__'):
            return getattr(self.__dict__['_real'], name)
        if name == 'connect':
            return lambda *a, **k: sqlite_model().connect(*a, **k)
        if hasattr(self.__dict__['_model'], name):
            return getattr(self.__dict__['_model'], name)
        if name.isupper() or name.startswith('SQLITE'):
            return getattr(self.__dict__['_real'], name)
        raise AttributeError(name)


def load_stdlib_instrumented(name, alias):
    """An instrumented private copy of a pure Python stdlib module."""
    spec = importlib.util.find_spec(name)
    with open(spec.origin, encoding='utf-8') as f:
        tree = transform(ast.parse(f.read(), spec.origin), alias)
    module = type(sys)(alias)
    module.__file__ = spec.origin
    module.__dict__['_rt_'] = rt
    sys.modules[alias] = module
    exec(compile(tree, spec.origin, 'exec'), module.__dict__)
    return module
