"""Runtime of instrumented code: models of the C-level operations on symbolic values."""

import builtins
import collections
import functools
import io
import operator
import types

from sx import core, vfs
from sx.core import (F, SymStr, SxSet, SxFrozenSet, f_not, f_or, s_eq, s_contains, is_str, join, mk_str,
                     realize, deep_realize, has_sym, as_sxset)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
MethodDescriptor = types.MethodDescriptorType
LruType = type(functools.lru_cache(lambda: 0))
SETS = (set, frozenset)
KEYS = type({}.keys())

ENTERED = set()

# C functions that only move values around or call back into Python
PASS_MODULES = {'builtins', 'itertools', 'functools', '_functools', '_heapq', 'heapq', 'operator',
                '_operator', '_collections', 'collections', 'copy', 'weakref', '_weakref', 'typing'}
REALIZE_BUILTINS = {ord, getattr, setattr, hasattr, eval, exec, open, format, ascii, repr}
WRAP_BUILTINS = REALIZE_BUILTINS | {operator.contains, operator.getitem, isinstance}
# modules of the standard library whose objects hold C-level text
REALIZE_TYPES = {'_io', 'io', 'pathlib', 'zipfile', 're', 'string', 'array', 'codecs', 'difflib', 'struct', 'fractions', 'decimal', 'uuid'}
PY_PASS = {'dataclasses', 'functools', 'itertools', 'contextlib', 'heapq', 'collections', 'enum', 'typing',
           'copy', 'operator', 'abc', '_collections_abc', 'collections.abc', 'types'}


def enter(name):
    ENTERED.add(name)


def tick():
    eng = core.ENG
    if eng is not None:
        eng.tick()


def _symkey(k):
    return type(k) is SymStr or (type(k) is tuple and has_sym(k))


def wrap_fn(f):
    """Function arguments handed to C code (map, sorted key...): make them symbolic-aware."""
    t = type(f)
    if t is MethodDescriptor or (t is type and f in (str, int, set, frozenset)) or \
            (t is BuiltinType and (f in WRAP_BUILTINS or isinstance(getattr(f, '__self__', None), (str, dict, set, frozenset)))):
        return lambda *a, **k: call(f, *a, **k)
    return f


def call(f, *a, **k):
    eng = core.ENG
    if eng is not None:
        eng.steps += 1
        if eng.steps > eng.step_limit:
            raise core.StepLimit()
    t = type(f)
    if t is FunctionType:
        if '__sx__' in f.__globals__:
            return f(*a, **k)
        return call_py(f, a, k)
    if t is MethodType:
        return f(*a, **k)
    return call_c(f, t, a, k)


def call_py(f, a, k):
    """Python function of a module that is not instrumented."""
    mod = f.__module__ or ''
    if mod.split('.')[0] in ('sx', 'checks', '__main__') or mod in PY_PASS:
        return f(*a, **k)
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        a = [deep_realize(x) for x in a]
        k = {n: deep_realize(x) for n, x in k.items()}
    return f(*a, **k)


def call_c(f, t, a, k):
    if t is BuiltinType:
        me = f.__self__
        tm = type(me)
        if tm is str:
            return call_str(f, me, f.__name__, a, k)
        if isinstance(me, dict):
            return call_dict(f, me, f.__name__, a, k)
        if tm is set or tm is frozenset:
            if a and any(type(x) in (SymStr, SxSet, SxFrozenSet) or has_sym(x) for x in a):
                return call_native_set(f, me, f.__name__, a, k)
            return f(*a, **k)
        if tm is list or tm is collections.deque:
            if f.__name__ == 'sort' and k:
                k = {n: wrap_fn(v) for n, v in k.items()}
            return f(*a, **k)
        if isinstance(me, types.ModuleType):
            if f is isinstance:
                return isinstance_(*a)
            if f is issubclass:
                return f(*a)
            if f in REALIZE_BUILTINS:
                if any(has_sym(x) for x in a):
                    a = [deep_realize(x) for x in a]
                return f(*a, **k)
            if f is operator.contains:
                return contains(*a)
            if f is operator.getitem:
                return getitem(*a)
            if f is builtins.sum and a:
                return f(*a, **k)
            if me.__name__ in PASS_MODULES:
                if a and any(type(x) in (MethodDescriptor, type, BuiltinType) for x in a):
                    a = [wrap_fn(x) for x in a]
                if k:
                    k = {n: wrap_fn(v) for n, v in k.items()}
                return f(*a, **k)
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                a = [deep_realize(x) for x in a]
                k = {n: deep_realize(x) for n, x in k.items()}
            return f(*a, **k)
        if tm is type or me is None:
            # class/static methods of built-in types: str.maketrans, dict.fromkeys...
            if me is dict and f.__name__ == 'fromkeys':
                return f(*a, **k)
            if any(has_sym(x) for x in a):
                a = [deep_realize(x) for x in a]
            return f(*a, **k)
        if tm.__module__ in REALIZE_TYPES and any(has_sym(x) for x in a):
            a = [deep_realize(x) for x in a]
        return f(*a, **k)
    if t is type:
        if f is str:
            if a and type(a[0]) is SymStr and len(a) == 1:
                return a[0]
            if a and has_sym(a[0]):
                a = [deep_realize(a[0]), *a[1:]]
            return f(*a, **k)
        if f is type and len(a) == 1:
            x = a[0]
            if type(x) is SymStr:
                return str
            if isinstance(x, F):
                return bool
            if type(x) is SxSet:
                return SxSet
            return type(x)
        if f is bool and a:
            return bool(a[0])
        if f in (int, float, complex, bytes, bytearray):
            if any(has_sym(x) for x in a):
                a = [deep_realize(x) for x in a]
            return f(*a, **k)
        if f in (map, filter) or f is functools.partial:
            return f(wrap_fn(a[0]), *a[1:], **k)
        if f.__module__ == 'itertools':
            return f(*[wrap_fn(x) for x in a], **{n: wrap_fn(x) for n, x in k.items()})
        if f in SETS:
            return (SxSet if f is set else SxFrozenSet)(*a)
        if f is io.StringIO and len(a) == 1 and type(a[0]) is SymStr:
            return vfs.VFile('<text>', vfs.lines_of(a[0]))
        if f.__module__.split('.')[0] in REALIZE_TYPES and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            a = [deep_realize(x) for x in a]
            k = {n: deep_realize(x) for n, x in k.items()}
        return f(*a, **k)
    if t is MethodDescriptor:
        if a and type(a[0]) is SymStr and f.__objclass__ is str:
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and type(a[0]) in (SxSet, SxFrozenSet):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and isinstance(a[0], (str, dict, set, frozenset)):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    if t is types.WrapperDescriptorType and f.__objclass__ is str and any(type(x) is SymStr for x in a):
        return getattr(SymStr(core.elems_of(a[0])), f.__name__)(*a[1:], **k)
    if t is LruType:
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            a = [deep_realize(x) for x in a]
            k = {n: deep_realize(x) for n, x in k.items()}
        return f(*a, **k)
    if t is types.MethodWrapperType:
        me, name = f.__self__, f.__name__
        if name == '__contains__':
            return contains(me, a[0])
        if name == '__getitem__':
            return getitem(me, a[0])
        if name == '__eq__' and type(me) is str and type(a[0]) is SymStr:
            return a[0] == me
        return f(*a, **k)
    return f(*a, **k)


def call_str(f, me, name, a, k):
    if name == 'join':
        items = a[0] if type(a[0]) in (list, tuple) else list(a[0])
        if type(a[0]) is SymStr or any(type(x) is SymStr for x in items):
            return join(me, items)
        return f(items)
    if not a and not k:
        return f()
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        if name in ('format', 'format_map', 'translate'):
            return f(*[deep_realize(x) for x in a], **{n: deep_realize(x) for n, x in k.items()})
        return getattr(SymStr(tuple(me)), name)(*a, **k)
    return f(*a, **k)


_NO = object()


def dict_find(d, key):
    """Stored key equal to the symbolic key, or _NO; forks."""
    if type(key) is SymStr:
        key = mk_str(key.e)
        if type(key) is str:
            return key if key in d else _NO
        n = len(key)
        for x in d:
            if (type(x) is str or type(x) is SymStr) and len(x) == n:
                q = s_eq(x, key)
                if q is True or (q is not False and bool(q)):
                    return x
        return _NO
    for x in d:
        if x == key:
            return x
    return _NO


def call_dict(f, me, name, a, k):
    if a and _symkey(a[0]):
        if name == 'get':
            x = dict_find(me, a[0])
            if x is _NO:
                return a[1] if len(a) > 1 else k.get('default')
            return dict.__getitem__(me, x)
        if name in ('pop', 'setdefault', '__getitem__'):
            x = dict_find(me, a[0])
            if x is not _NO:
                return f(x, *a[1:], **k)
            return f(*a, **k)
        if name == '__contains__':
            return contains(me, a[0])
    return f(*a, **k)


def call_native_set(f, me, name, a, k):
    if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset'):
        return getattr(SxSet(me), name)(*a)
    return f(*a, **k)


def isinstance_(x, cls):
    t = type(x)
    if t is SymStr:
        return _is_type(cls, str)
    if isinstance(x, F):
        return _is_type(cls, bool)
    if t is SxSet:
        return _is_type(cls, set)
    if t is SxFrozenSet:
        return _is_type(cls, frozenset)
    return isinstance(x, cls)


def _is_type(cls, real):
    if isinstance(cls, tuple):
        return any(_is_type(c, real) for c in cls)
    if cls is SxSet:
        return real is set
    if cls is SxFrozenSet:
        return real is frozenset
    if isinstance(cls, types.UnionType):
        return any(_is_type(c, real) for c in cls.__args__)
    try:
        return issubclass(real, cls)
    except TypeError:
        return False


def contains(container, item):
    tc = type(container)
    if tc is SymStr or (tc is str and type(item) is SymStr):
        if not is_str(item):
            raise TypeError("'in <string>' requires string as left operand")
        return s_contains(container, item)
    if tc is SxSet or tc is SxFrozenSet:
        return container.has(item)
    if _symkey(item):
        if isinstance(container, (dict, set, frozenset)) or tc is KEYS:
            if type(item) is SymStr:
                item = mk_str(item.e)
                if type(item) is str:
                    return item in container
                return f_or([s_eq(x, item) for x in container if is_str(x)])
            return any(x == item for x in container)
    return operator.contains(container, item)


def not_contains(container, item):
    return f_not(contains(container, item))


def subject(x):
    """Subject of a match statement: patterns look at plain values."""
    return deep_realize(x) if has_sym(x) else bool(x) if isinstance(x, F) else x


def is_(a, b):
    return (bool(a) if isinstance(a, F) else a) is (bool(b) if isinstance(b, F) else b)


def is_not(a, b):
    return not is_(a, b)


def getitem(o, key):
    if _symkey(key) and isinstance(o, dict):
        x = dict_find(o, key)
        if x is not _NO:
            return dict.__getitem__(o, x)
        return o[key]
    return o[key]


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is SymStr:
            sym = True
        out.append(p)
    if sym:
        return join('', out)
    return ''.join(out)


def fval(value, conversion, spec):
    if conversion == 114:
        if type(value) is SymStr:
            value = "'" + value + "'"
        else:
            value = repr(value)
    elif conversion == 97:
        value = ascii(realize(value))
    elif conversion == 115 and type(value) is not SymStr:
        value = str(value)
    if type(value) is SymStr and not spec:
        return value
    return format(realize(value), realize(spec))


def mod(a, b):
    if (type(a) is str or type(a) is SymStr) and (has_sym(a) or has_sym(b)):
        return realize(a) % deep_realize(b)
    return a % b


def mkset(items):
    return SxSet(items)
