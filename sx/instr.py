"""
Loads the modules of /repo/spylls with symbolic-aware operations: the source is parsed on every
run, calls, membership tests, subscripts, set displays and f-strings are routed through ``sx.rt``,
and the result is executed as the module. Everything else is left to Python.
"""

import ast
import copy
import functools
import importlib.abc
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


def _rt(name):
    return ast.Attribute(value=ast.Name(id='__sx__', ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, args, keywords=()):
    return ast.Call(func=_rt(name), args=list(args), keywords=list(keywords))


NO_CALL = {'super', 'locals', 'globals', 'vars', 'dir', '__import__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    # --- functions: record what is executed; leave annotations alone
    def _func(self, node):
        self.stack.append(node.name)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        qual = f"{self.modname}:{'.'.join(self.stack)}"
        mark = ast.Expr(_call('enter', [ast.Constant(qual)]))
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        body.insert(at, mark)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call('tick', [])))
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
        return node

    def visit_Import(self, node):
        for a in node.names:
            if a.name == 're':
                a.asname = a.asname or 're'
                a.name = 'sx.reshim'
        return node

    def visit_ImportFrom(self, node):
        if node.module == 're' and node.level == 0:
            node.module = 'sx.reshim'
        return node

    # --- operations
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NO_CALL:
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        return ast.copy_location(_call('call', [node.func, *node.args], node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                any(isinstance(x, ast.Constant) and isinstance(x.value, bool) for x in (node.left, node.comparators[0])):
            name = 'is_' if isinstance(node.ops[0], ast.Is) else 'is_not'
            return ast.copy_location(_call(name, [node.left, node.comparators[0]]), node)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            if len(node.ops) == 1:
                name = 'contains' if isinstance(node.ops[0], ast.In) else 'not_contains'
                # evaluation order: item first, then container
                return ast.copy_location(
                    ast.Call(func=_rt(name + '_io'), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            if isinstance(node.slice, ast.UnaryOp):
                return node
            if isinstance(node.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in node.slice.elts):
                return node
            return ast.copy_location(_call('getitem', [node.value, node.slice]), node)
        return node

    def visit_Match(self, node):
        self.generic_visit(node)
        node.subject = _call('subject', [node.subject])
        return node

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(x) for x in node.body]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call('mod', [node.left, node.right]), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        lst = ast.List(elts=node.elts, ctx=ast.Load())
        return ast.copy_location(_call('mkset', [lst]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lst = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call('mkset', [lst]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(_call('fval', [self.visit(v.value), ast.Constant(v.conversion), spec]))
        return ast.copy_location(_call('fstr', parts), node)


class _RT(types.ModuleType):
    pass


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from sx import rt
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Rewriter(self.name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['__sx__'] = rt
        module.__dict__['set'] = rt.SxSet
        module.__dict__['frozenset'] = rt.SxFrozenSet
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'spylls' and not fullname.startswith('spylls.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.exists(base + '.py'):
            p, pkg = base + '.py', False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, Loader(fullname, p, pkg), origin=p, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


_installed = False


def install():
    global _installed
    if _installed:
        return
    from sx import rt
    rt.contains_io = lambda item, container: rt.contains(container, item)
    rt.not_contains_io = lambda item, container: rt.not_contains(container, item)
    assert not any(m == 'spylls' or m.startswith('spylls.') for m in sys.modules)
    sys.meta_path.insert(0, Finder())
    _installed = True


# ---------------------------------------------------------------- module state between paths

_snap = None
_attrs = None


def _mutable(v):
    from sx.core import SxSet
    return type(v) in (list, dict, set, SxSet) or type(v).__name__ in ('defaultdict', 'OrderedDict', 'Counter', 'deque')


def _modules():
    return [m for name, m in list(sys.modules.items()) if name == 'spylls' or name.startswith('spylls.')]


def _containers():
    """Mutable module globals, class attributes and argument defaults of the instrumented modules."""
    seen = set()
    for name, m in list(sys.modules.items()):
        if name != 'spylls' and not name.startswith('spylls.'):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            yield from _scan(v, name, seen)


def _scan(v, modname, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if _mutable(v):
        yield v
    elif isinstance(v, types.FunctionType):
        if '__sx__' in v.__globals__:
            for d in (v.__defaults__ or ()):
                if _mutable(d):
                    yield d
            for d in (v.__kwdefaults__ or {}).values():
                if _mutable(d):
                    yield d
            for c in (v.__closure__ or ()):
                try:
                    yield from _scan(c.cell_contents, modname, seen)
                except ValueError:
                    pass
            if v.__dict__:
                yield v.__dict__
    elif isinstance(v, type) and getattr(v, '__module__', '').startswith('spylls'):
        for k, x in list(vars(v).items()):
            if k.startswith('__') and k != '__init__':
                if not isinstance(x, types.FunctionType):
                    continue
            if isinstance(x, (staticmethod, classmethod)):
                x = x.__func__
            if isinstance(x, property):
                x = x.fget
            yield from _scan(x, modname, seen)
    elif hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__'):
        yield v
    elif type(v).__module__.startswith('spylls') and type(getattr(v, '__dict__', None)) is dict:
        yield v.__dict__


def snapshot():
    """Remember module-level state, so that every path starts from the same state."""
    global _snap, _attrs
    from sx.core import SxSet
    _snap, _attrs = [], []
    for m in _modules():
        _attrs.append((m, dict(vars(m))))
        for c in vars(m).values():
            if isinstance(c, type) and c.__module__ == m.__name__:
                _attrs.append((c, dict(vars(c))))
    for c in _containers():
        if type(c) is SxSet:
            _snap.append((c, SxSet(c)))
        elif hasattr(c, 'cache_clear'):
            _snap.append((c, None))
        else:
            try:
                _snap.append((c, copy.deepcopy(c)))
            except Exception:
                _snap.append((c, copy.copy(c)))


def restore():
    from sx.core import SxSet
    for owner, saved in _attrs:
        now = vars(owner)
        if len(now) != len(saved) or any(now.get(k) is not v for k, v in saved.items()):
            for k, v in saved.items():
                if now.get(k) is not v:
                    setattr(owner, k, v)
            for k in [k for k in now if k not in saved]:
                delattr(owner, k)
    for c, saved in _snap:
        if type(c) is SxSet:
            c.c, c.g = dict(saved.c), list(saved.g)
        elif hasattr(c, 'cache_clear'):
            c.cache_clear()
        elif type(c) is list or type(c).__name__ == 'deque':
            if len(c) != len(saved) or c != saved:
                c.clear()
                c.extend(copy.deepcopy(saved))
        elif len(c) != len(saved) or c != saved:
            c.clear()
            c.update(copy.deepcopy(saved))


def load():
    """Import every module of spylls, instrumented."""
    install()
    import importlib
    top = os.path.join(REPO, 'spylls')
    names = []
    for folder, dirs, files in os.walk(top):
        dirs[:] = sorted(d for d in dirs if d.isidentifier() and not d.startswith('__'))
        for f in sorted(files):
            if f.endswith('.py') and f != '__main__.py':
                parts = ['spylls', *os.path.relpath(os.path.join(folder, f[:-3]), top).split(os.sep)]
                names.append('.'.join(parts[:-1] if parts[-1] == '__init__' else parts))
    for m in sorted(names, key=lambda n: (n.count('.'), n)):
        importlib.import_module(m)
    snapshot()
