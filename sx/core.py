"""
Symbolic values and the path engine.

Every symbolic input is a finite-domain variable (``Var``). A symbolic string has a fixed length;
its characters are 1-character strings or ``Ch`` objects (the image of a variable under a table).
Conditions are formulas (``F``) over variables; ``bool(formula)`` forks the path.
The engine explores all feasible paths by re-execution; z3 decides feasibility and assertions.
"""

import collections
import unicodedata
import time

ENG = None          # the engine driving the current path (None: purely concrete execution)


class SxStop(BaseException):
    """Base of everything the engine raises to steer a path; never caught by code under test."""


class Infeasible(SxStop):
    pass


class StepLimit(SxStop):
    pass


class Unsupported(SxStop):
    pass


class PathDone(SxStop):
    pass


class Var:
    __slots__ = ('name', 'dom', 'n', 'full', 'ident', 'z')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, name, dom):
        self.name = name
        self.dom = tuple(dom)
        self.n = len(self.dom)
        self.full = (1 << self.n) - 1
        self.ident = None   # table of the identity image, created lazily
        self.z = None

    def __repr__(self):
        return f'Var({self.name})'


def bits(mask):
    i = 0
    while mask:
        if mask & 1:
            yield i
        mask >>= 1
        i += 1


# ---------------------------------------------------------------------------------- formulas

class F:
    """Symbolic truth value. Truth-testing it forks."""
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return ENG.branch(self)

    def __and__(self, other):
        if isinstance(other, (F, bool)):
            return f_and((self, other))
        return int(bool(self)) & other
    __rand__ = __and__

    def __or__(self, other):
        if isinstance(other, (F, bool)):
            return f_or((self, other))
        return int(bool(self)) | other
    __ror__ = __or__

    def __xor__(self, other):
        return bool(self) ^ other
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __eq__(self, other):
        if other is self:
            return True
        if isinstance(other, bool):
            return self if other else f_not(self)
        if isinstance(other, F):
            return f_iff(self, other)
        return bool(self) == other

    def __ne__(self, other):
        return f_not(self == other)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return int(bool(self)) + o

    def __radd__(self, o):
        return o + int(bool(self))

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    def __rmul__(self, o):
        return o * int(bool(self))

    def __neg__(self):
        return -int(bool(self))

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o


class U(F):
    """var's value lies in the given set (bit mask of indexes)."""
    __slots__ = ('var', 'mask')

    def __init__(self, var, mask):
        self.var = var
        self.mask = mask

    def neg(self):
        return U(self.var, self.var.full ^ self.mask)

    def quick(self, dom):
        d = dom.get(self.var)
        if d is None:
            d = self.var.full
        r = d & self.mask
        if r == 0:
            return False
        if r == d:
            return True
        return None

    def vars(self, acc):
        acc.add(self.var)

    def z3(self, zb):
        return zb.member(self.var, self.mask)

    def ev(self, asg):
        return bool((self.mask >> asg[self.var]) & 1)

    def __repr__(self):
        return f'{self.var.name}∈{[self.var.dom[i] for i in bits(self.mask)]}'


_REL = {}


def _relation(m1, m2):
    r = _REL.get((m1, m2))
    if r is None:
        pos = {}
        for j, c in enumerate(m2):
            pos[c] = pos.get(c, 0) | (1 << j)
        r = tuple(pos.get(c, 0) for c in m1)
        _REL[(m1, m2)] = r
    return r


class E2(F):
    """Equality (or its negation) of two characters depending on different variables."""
    __slots__ = ('a', 'b', 'positive')

    def __init__(self, a, b, positive=True):
        self.a = a
        self.b = b
        self.positive = positive

    def neg(self):
        return E2(self.a, self.b, not self.positive)

    def quick(self, dom):
        d1 = dom.get(self.a.var, self.a.var.full)
        d2 = dom.get(self.b.var, self.b.var.full)
        rel = _relation(self.a.map, self.b.map)
        some, every = False, True
        for i in bits(d1):
            r = rel[i] & d2
            if r:
                some = True
            if r != d2:
                every = False
            if some and not every:
                return None
        if not some:
            return not self.positive
        if every:
            return self.positive
        return None

    def reduce(self, dom):
        """Unary formula if one side is determined."""
        for x, y in ((self.a, self.b), (self.b, self.a)):
            d = dom.get(x.var, x.var.full)
            if d & (d - 1) == 0:
                u = ch_eq(y, x.map[d.bit_length() - 1])
                return u if self.positive else f_not(u)
        return None

    def vars(self, acc):
        acc.add(self.a.var)
        acc.add(self.b.var)

    def z3(self, zb):
        e = zb.char_eq(self.a, self.b)
        return e if self.positive else zb.Not(e)

    def ev(self, asg):
        return (self.a.map[asg[self.a.var]] == self.b.map[asg[self.b.var]]) == self.positive

    def __repr__(self):
        return f"({self.a}{'==' if self.positive else '!='}{self.b})"


class _N(F):
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = args

    def vars(self, acc):
        for a in self.args:
            a.vars(acc)


class A(_N):
    __slots__ = ()

    def neg(self):
        return O(tuple(a.neg() for a in self.args))

    def quick(self, dom):
        res = True
        for a in self.args:
            q = a.quick(dom)
            if q is False:
                return False
            if q is None:
                res = None
        return res

    def z3(self, zb):
        return zb.And([a.z3(zb) for a in self.args])

    def ev(self, asg):
        return all(a.ev(asg) for a in self.args)

    def __repr__(self):
        return '(' + ' & '.join(map(repr, self.args)) + ')'


class O(_N):
    __slots__ = ()

    def neg(self):
        return A(tuple(a.neg() for a in self.args))

    def quick(self, dom):
        res = False
        for a in self.args:
            q = a.quick(dom)
            if q is True:
                return True
            if q is None:
                res = None
        return res

    def z3(self, zb):
        return zb.Or([a.z3(zb) for a in self.args])

    def ev(self, asg):
        return any(a.ev(asg) for a in self.args)

    def __repr__(self):
        return '(' + ' | '.join(map(repr, self.args)) + ')'


def f_not(f):
    if isinstance(f, F):
        return f.neg()
    return not f


def f_and(args):
    out = []
    unary = {}
    for a in args:
        if isinstance(a, F):
            if isinstance(a, A):
                sub = a.args
            else:
                sub = (a,)
            for s in sub:
                if isinstance(s, U):
                    m = unary.get(s.var, s.var.full) & s.mask
                    if m == 0:
                        return False
                    unary[s.var] = m
                else:
                    out.append(s)
        elif not a:
            return False
    res = [U(v, m) for v, m in unary.items()] + out
    if not res:
        return True
    if len(res) == 1:
        return res[0]
    return A(tuple(res))


def f_or(args):
    out = []
    unary = {}
    for a in args:
        if isinstance(a, F):
            if isinstance(a, O):
                sub = a.args
            else:
                sub = (a,)
            for s in sub:
                if isinstance(s, U):
                    m = unary.get(s.var, 0) | s.mask
                    if m == s.var.full:
                        return True
                    unary[s.var] = m
                else:
                    out.append(s)
        elif a:
            return True
    res = [U(v, m) for v, m in unary.items()] + out
    if not res:
        return False
    if len(res) == 1:
        return res[0]
    return O(tuple(res))


def f_iff(a, b):
    if not isinstance(a, F) and not isinstance(b, F):
        return bool(a) == bool(b)
    if not isinstance(a, F):
        return b if a else f_not(b)
    if not isinstance(b, F):
        return a if b else f_not(a)
    return f_or((f_and((a, b)), f_and((f_not(a), f_not(b)))))


def f_implies(a, b):
    return f_or((f_not(a), b))


def simplify(f, dom):
    """Equivalent formula (or truth value) given the variables' current domains."""
    t = type(f)
    if t is A:
        out = []
        for a in f.args:
            a = simplify(a, dom)
            if a is False:
                return False
            if a is not True:
                out.append(a)
        return f_and(out)
    if t is O:
        out = []
        for a in f.args:
            a = simplify(a, dom)
            if a is True:
                return True
            if a is not False:
                out.append(a)
        return f_or(out)
    if t is U or t is E2:
        q = f.quick(dom)
        if q is not None:
            return q
        if t is E2:
            r = f.reduce(dom)
            if r is not None:
                return r
    return f


# --------------------------------------------------------------------------------- characters

class Ch:
    """A symbolic character: image of a variable under a table of characters."""
    __slots__ = ('var', 'map', '_eq')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, var, table):
        self.var = var
        self.map = table
        self._eq = None

    def mask_of(self, c):
        if self._eq is None:
            d = {}
            for i, x in enumerate(self.map):
                d[x] = d.get(x, 0) | (1 << i)
            self._eq = d
        return self._eq.get(c, 0)

    def mask_if(self, pred):
        if self._eq is None:
            self.mask_of('')
        m = 0
        for c, cm in self._eq.items():
            if pred(c):
                m |= cm
        return m

    def test(self, pred):
        """Formula: predicate on the character."""
        return mk_u(self.var, self.mask_if(pred))

    def possible(self):
        d = ENG.dom.get(self.var, self.var.full)
        return {self.map[i] for i in bits(d)}

    def __repr__(self):
        return f'<{self.var.name}>' if self.map == self.var.dom else f'<{self.var.name}*>'


_CH = {}


def mk_ch(var, table):
    key = (var, table)
    c = _CH.get(key)
    if c is None:
        c = _CH[key] = Ch(var, table)
    return c


def mk_u(var, mask):
    if mask == 0:
        return False
    if mask == var.full:
        return True
    return U(var, mask)


def ch_eq(a, b):
    """Formula: two characters (str or Ch) are equal."""
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return mk_u(b.var, b.mask_of(a))
    if isinstance(b, str):
        return mk_u(a.var, a.mask_of(b))
    if a.var is b.var:
        if a.map == b.map:
            return True
        m = 0
        for i, (x, y) in enumerate(zip(a.map, b.map)):
            if x == y:
                m |= 1 << i
        return mk_u(a.var, m)
    if not set(a.map) & set(b.map):
        return False
    return E2(a, b)


def ch_test(c, pred):
    return bool(pred(c)) if isinstance(c, str) else c.test(pred)


def resolve_ch(c):
    """Concrete character if the path determines it."""
    if isinstance(c, str):
        return c
    d = ENG.dom.get(c.var)
    if d is None:
        d = c.var.full
    if d & (d - 1) == 0:
        return c.map[d.bit_length() - 1]
    first = None
    for i in bits(d):
        x = c.map[i]
        if first is None:
            first = x
        elif x != first:
            return c
    return first


def mk_str(elems):
    out = []
    sym = False
    for c in elems:
        if not isinstance(c, str):
            c = resolve_ch(c)
            if not isinstance(c, str):
                sym = True
        out.append(c)
    if sym:
        return SymStr(tuple(out))
    return ''.join(out)


def elems_of(s):
    if isinstance(s, SymStr):
        return s.e
    if isinstance(s, str):
        return tuple(s)
    raise TypeError(f'expected string, got {type(s).__name__}')


def is_str(s):
    return isinstance(s, (str, SymStr))


def realize(s):
    """Concrete value of a symbolic value: complete case split over everything still possible."""
    if isinstance(s, SymStr):
        return s.realize()
    if isinstance(s, F):
        return bool(s)
    return s


def deep_realize(x):
    t = type(x)
    if t is SymStr or isinstance(x, F):
        return realize(x)
    if t is list:
        return [deep_realize(i) for i in x]
    if t is tuple:
        return tuple(deep_realize(i) for i in x)
    if t is SxSet or t is SxFrozenSet:
        return {deep_realize(i) for i in x}
    if t is dict:
        return {deep_realize(k): deep_realize(v) for k, v in x.items()}
    if isinstance(x, CONTAINERS) and has_sym(x):
        if isinstance(x, tuple):
            return t._make(deep_realize(i) for i in x) if hasattr(t, '_make') else x
        if t is collections.deque:
            return collections.deque(map(deep_realize, x), x.maxlen)
        if isinstance(x, dict) and t.__module__ == 'collections':
            y = x.copy()
            y.clear()
            for k, v in x.items():
                y[deep_realize(k)] = deep_realize(v)
            return y
    return x


CONTAINERS = (list, tuple, dict, collections.deque)


def has_sym(x):
    t = type(x)
    if t is SymStr or isinstance(x, F):
        return True
    if t is SxSet or t is SxFrozenSet:
        return bool(x.g)
    if t is list or t is tuple:
        return any(has_sym(i) for i in x)
    if t is dict:
        return any(has_sym(k) or has_sym(v) for k, v in x.items())
    if t is str or t is int or not isinstance(x, CONTAINERS):
        return False
    if isinstance(x, dict):
        return any(has_sym(k) or has_sym(v) for k, v in x.items())
    return any(has_sym(i) for i in x)


def s_eq(a, b):
    """Formula: string equality."""
    ea, eb = elems_of(a), elems_of(b)
    if len(ea) != len(eb):
        return False
    parts = []
    for x, y in zip(ea, eb):
        q = ch_eq(x, y)
        if q is False:
            return False
        if q is not True:
            parts.append(q)
    return f_and(parts)


def s_contains(hay, needle):
    eh, en = elems_of(hay), elems_of(needle)
    n = len(en)
    res = []
    for i in range(len(eh) - n + 1):
        q = f_and([ch_eq(x, y) for x, y in zip(eh[i:i + n], en)])
        if q is True:
            return True
        res.append(q)
    return f_or(res)


_MISSING = object()


def _titlecase(c):
    return unicodedata.category(c) == 'Lt'


class SymStr:
    __slots__ = ('e',)

    def __init__(self, elems):
        self.e = elems

    # --- basics
    def __len__(self):
        return len(self.e)

    def __iter__(self):
        for c in self.e:
            yield mk_str((c,))

    def __reversed__(self):
        for c in reversed(self.e):
            yield mk_str((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_str(self.e[i])
        if isinstance(i, F):
            i = int(i)
        if not isinstance(i, int):
            raise TypeError('string indices must be integers')
        try:
            return mk_str((self.e[i],))
        except IndexError:
            raise IndexError('string index out of range') from None

    def __add__(self, o):
        if isinstance(o, SymStr):
            return mk_str(self.e + o.e)
        if isinstance(o, str):
            return mk_str(self.e + tuple(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk_str(tuple(o) + self.e)
        return NotImplemented

    def __mul__(self, n):
        return mk_str(self.e * n)
    __rmul__ = __mul__

    def __mod__(self, o):
        return self.realize() % deep_realize(o)

    def __eq__(self, o):
        if isinstance(o, (SymStr, str)):
            return s_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SymStr, str)):
            return f_not(s_eq(self, o))
        return NotImplemented

    def _cmp(self, o):
        if not is_str(o):
            raise TypeError('comparison of str with ' + type(o).__name__)
        a, b = self.e, elems_of(o)
        for x, y in zip(a, b):
            if ch_eq(x, y):
                continue
            return -1 if ch_lt(x, y) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __hash__(self):
        return hash(self.realize())

    def __contains__(self, o):
        return bool(s_contains(self, o))

    def __str__(self):
        return self.realize()

    def __format__(self, spec):
        return format(self.realize(), spec)

    def __repr__(self):
        return repr(self.realize()) if ENG is not None else 'S' + repr(list(self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __rtruediv__(self, o):
        return o / self.realize()

    def realize(self):
        out = []
        for c in self.e:
            if not isinstance(c, str):
                c = resolve_ch(c)
            if not isinstance(c, str):
                poss = sorted(c.possible())
                if len(poss) > ENG.max_split:
                    raise Unsupported(f'case split over {len(poss)} characters')
                for p in poss[:-1]:
                    if ch_eq(c, p):
                        c = p
                        break
                else:
                    # remaining possibility (still asserted, so the path knows it)
                    q = ch_eq(c, poss[-1])
                    if not q:
                        raise Infeasible()
                    c = poss[-1]
            out.append(c)
        return ''.join(out)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(f"'str' object has no attribute '{name}'")
        me = self

        def method(*a, **k):
            return getattr(me.realize(), name)(*[deep_realize(x) for x in a],
                                               **{kk: deep_realize(v) for kk, v in k.items()})
        return method

    # --- case
    def _mapped(self, fn):
        out = []
        for c in self.e:
            if not isinstance(c, str):
                c = resolve_ch(c)
            if isinstance(c, str):
                out.extend(fn(c))
                continue
            images = [fn(x) for x in c.map]
            multi = 0
            for i, im in enumerate(images):
                if len(im) != 1:
                    multi |= 1 << i
            if multi and mk_u(c.var, multi):
                sub = SymStr((c,)).realize()
                out.extend(fn(sub))
                continue
            if multi:
                images = [im if len(im) == 1 else x for im, x in zip(images, c.map)]
            out.append(mk_ch(c.var, tuple(images)))
        return mk_str(out)

    def upper(self):
        return self._mapped(str.upper)

    def lower(self):
        for c in self.e:
            if ch_eq(c, 'Σ') is not False and bool(ch_eq(c, 'Σ')):
                return self.realize().lower()
        return self._mapped(str.lower)

    def swapcase(self):
        return self._mapped(str.swapcase)

    def casefold(self):
        return self._mapped(str.casefold)

    def capitalize(self):
        first = mk_str(self.e[:1])
        rest = mk_str(self.e[1:])
        f = SymStr(elems_of(first))._mapped(str.title)
        return f + rest.lower()

    def islower(self):
        return f_and((f_or([ch_test(c, str.islower) for c in self.e]),
                      *[f_not(ch_test(c, lambda x: x.isupper() or _titlecase(x))) for c in self.e]))

    def isupper(self):
        return f_and((f_or([ch_test(c, str.isupper) for c in self.e]),
                      *[f_not(ch_test(c, lambda x: x.islower() or _titlecase(x))) for c in self.e]))

    def _all(self, pred):
        if not self.e:
            return False
        return f_and([ch_test(c, pred) for c in self.e])

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii)

    # --- search
    def _at(self, sub, i):
        en = elems_of(sub)
        if i < 0 or i + len(en) > len(self.e):
            return False
        return f_and([ch_eq(x, y) for x, y in zip(self.e[i:i + len(en)], en)])

    @staticmethod
    def _range(n, start, end):
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            return f_or([self.startswith(p, start, end) for p in prefix])
        s, e = self._range(len(self.e), start, end)
        if start is not None and start > len(self.e):
            return False
        if s + len(prefix) > e:
            return False
        return self._at(prefix, s)

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            return f_or([self.endswith(p, start, end) for p in suffix])
        s, e = self._range(len(self.e), start, end)
        if e - len(suffix) < s:
            return False
        return self._at(suffix, e - len(suffix))

    def find(self, sub, start=None, end=None):
        if start is not None and start > len(self.e):
            return -1
        s, e = self._range(len(self.e), start, end)
        for i in range(s, e - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        if start is not None and start > len(self.e):
            return -1
        s, e = self._range(len(self.e), start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = self._range(len(self.e), start, end)
        n, i = 0, s
        if len(sub) == 0:
            return e - s + 1
        while i <= e - len(sub):
            if self._at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        if len(old) == 0:
            return deep_realize(self).replace('', realize(new), count)
        out, i, n = [], 0, len(old)
        ne = elems_of(new)
        while i < len(self.e):
            if count != 0 and i + n <= len(self.e) and self._at(old, i):
                out.extend(ne)
                i += n
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return mk_str(out)

    # --- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        if len(sep) == 0:
            raise ValueError('empty separator')
        out, cur, i, n = [], 0, 0, len(sep)
        while i <= len(self.e) - n:
            if maxsplit != 0 and self._at(sep, i):
                out.append(mk_str(self.e[cur:i]))
                i += n
                cur = i
                maxsplit -= 1
            else:
                i += 1
        out.append(mk_str(self.e[cur:]))
        return out

    def _split_ws(self, maxsplit):
        out, i, n = [], 0, len(self.e)
        while True:
            while i < n and ch_test(self.e[i], str.isspace):
                i += 1
            if i >= n:
                break
            if maxsplit == 0:
                out.append(mk_str(self.e[i:n]))
                break
            j = i
            while j < n and not ch_test(self.e[j], str.isspace):
                j += 1
            out.append(mk_str(self.e[i:j]))
            maxsplit -= 1
            i = j
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if maxsplit < 0:
                return self.split(sep)
            return self.realize().rsplit(sep, maxsplit)
        out, end, n = [], len(self.e), len(sep)
        i = end - n
        while i >= 0:
            if maxsplit != 0 and self._at(sep, i):
                out.append(mk_str(self.e[i + n:end]))
                end = i
                i -= n
                maxsplit -= 1
            else:
                i -= 1
        out.append(mk_str(self.e[:end]))
        return out[::-1]

    def partition(self, sep):
        if not len(sep):
            raise ValueError('empty separator')
        i = self.find(sep)
        if i < 0:
            return (mk_str(self.e), '', '')
        return (mk_str(self.e[:i]), sep, mk_str(self.e[i + len(sep):]))

    def rpartition(self, sep):
        if not len(sep):
            raise ValueError('empty separator')
        i = self.rfind(sep)
        if i < 0:
            return ('', '', mk_str(self.e))
        return (mk_str(self.e[:i]), sep, mk_str(self.e[i + len(sep):]))

    def _strip_test(self, c, chars):
        if chars is None:
            return ch_test(c, str.isspace)
        return f_or([ch_eq(c, x) for x in elems_of(chars)])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.e) and self._strip_test(self.e[i], chars):
            i += 1
        return mk_str(self.e[i:])

    def rstrip(self, chars=None):
        j = len(self.e)
        while j > 0 and self._strip_test(self.e[j - 1], chars):
            j -= 1
        return mk_str(self.e[:j])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return SymStr(elems_of(s)).rstrip(chars)

    def removeprefix(self, p):
        return mk_str(self.e[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        if len(p) == 0:
            return self
        return mk_str(self.e[:len(self.e) - len(p)]) if self.endswith(p) else self

    def join(self, items):
        return join(self, items)

    def translate(self, table):
        out = []
        for c in self.e:
            if not isinstance(c, str):
                c = resolve_ch(c)
            if isinstance(c, str):
                out.extend(elems_of(c.translate(table)))
                continue
            images = [x.translate(table) for x in c.map]
            odd = 0
            for i, im in enumerate(images):
                if len(im) != 1:
                    odd |= 1 << i
            if odd and mk_u(c.var, odd):
                lens = {}
                for i in bits(odd):
                    lens[images[i]] = lens.get(images[i], 0) | (1 << i)
                items = list(lens.items())
                for im, m in items:
                    if mk_u(c.var, m):
                        out.extend(im)
                        break
                continue
            images = [im if len(im) == 1 else x for im, x in zip(images, c.map)]
            out.append(mk_ch(c.var, tuple(images)))
        return mk_str(out)

    def encode(self, *a, **k):
        return self.realize().encode(*a, **k)


def ch_lt(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x < y
    if isinstance(y, str):
        return x.test(lambda c: c < y)
    if isinstance(x, str):
        return y.test(lambda c: x < c)
    # two variables: split on the first
    xs = SymStr((x,)).realize()
    return ch_lt(xs, y)


def join(sep, items):
    items = list(items)
    out = []
    se = elems_of(sep)
    for i, it in enumerate(items):
        if not is_str(it):
            raise TypeError(f'sequence item {i}: expected str instance, {type(it).__name__} found')
        if i:
            out.extend(se)
        out.extend(elems_of(it))
    return mk_str(out)


# --------------------------------------------------------------------------------------- sets

def _generic_eq(a, b):
    if is_str(a):
        return s_eq(a, b) if is_str(b) else False
    if is_str(b):
        return False
    return a == b


class _SetMeta(type):
    def __instancecheck__(cls, obj):
        return type(obj) is SxSet or type.__instancecheck__(cls, obj) or isinstance(obj, (set, frozenset))


class SxSet(metaclass=_SetMeta):
    """
    A set whose elements may be symbolic and may be present conditionally.
    ``c``: plain concrete elements; ``g``: list of (element, guard formula).
    """
    __slots__ = ('c', 'g')

    def __init__(self, items=()):
        self.c = {}
        self.g = []
        if type(items) is SxSet or type(items) is SxFrozenSet:
            self.c = dict(items.c)
            self.g = list(items.g)
        else:
            for i in items:
                self.add(i)

    @staticmethod
    def _sym(x):
        return type(x) is SymStr or (type(x) is tuple and has_sym(x))

    def _put(self, x, guard):
        if guard is False:
            return
        if guard is True and not self._sym(x):
            self.c[x] = None
        else:
            self.g.append((x, guard))

    def add(self, x):
        if type(x) is SymStr:
            x = mk_str(x.e)
        self._put(x, True)

    def update(self, *others):
        for o in others:
            for x, g in _entries(o):
                self._put(x, g)

    def discard(self, x):
        if not self.g and not self._sym(x):
            self.c.pop(x, None)
            return
        keep = []
        for y, g in _entries(self):
            keep.append((y, f_and((g, f_not(_generic_eq(x, y))))))
        self.c, self.g = {}, []
        for y, g in keep:
            self._put(y, g)

    def remove(self, x):
        if not self.has(x):
            raise KeyError(x)
        self.discard(x)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self.c, self.g = {}, []

    def has(self, x):
        """Formula: membership."""
        if not self._sym(x):
            if x in self.c:
                return True
            if not self.g:
                return False
            return f_or([f_and((g, _generic_eq(y, x))) for y, g in self.g])
        return f_or([_generic_eq(y, x) for y in self.c] +
                    [f_and((g, _generic_eq(y, x))) for y, g in self.g])

    def __contains__(self, x):
        return bool(self.has(x))

    def __iter__(self):
        seen = list(self.c)
        yield from seen
        for x, g in list(self.g):
            if g is not True and not g:
                continue
            if any(_generic_eq(x, y) for y in seen):
                continue
            seen.append(x)
            yield x

    def __len__(self):
        return sum(1 for _ in self)

    def __bool__(self):
        if self.c:
            return True
        return bool(f_or([g for _, g in self.g]))

    def copy(self):
        return SxSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def union(self, *others):
        r = SxSet(self)
        r.update(*others)
        return r

    def intersection(self, *others):
        r = self
        for o in others:
            n = SxSet()
            so = as_sxset(o)
            for x, g in _entries(r):
                n._put(x, f_and((g, so.has(x))))
            r = n
        return SxSet(r) if r is self else r

    def difference(self, *others):
        r = self
        for o in others:
            n = SxSet()
            so = as_sxset(o)
            for x, g in _entries(r):
                n._put(x, f_and((g, f_not(so.has(x)))))
            r = n
        return SxSet(r) if r is self else r

    def symmetric_difference(self, o):
        o = as_sxset(o)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, *others):
        r = self.intersection(*others)
        self.c, self.g = r.c, r.g

    def difference_update(self, *others):
        r = self.difference(*others)
        self.c, self.g = r.c, r.g

    def isdisjoint(self, o):
        so = as_sxset(o)
        return f_not(f_or([f_and((g, so.has(x))) for x, g in _entries(self)]))

    def issubset(self, o):
        so = as_sxset(o)
        return f_and([f_implies(g, so.has(x)) for x, g in _entries(self)])

    def issuperset(self, o):
        return as_sxset(o).issubset(self)

    @staticmethod
    def _isset(o):
        return type(o) is SxSet or type(o) is SxFrozenSet or isinstance(o, (set, frozenset, type({}.keys())))

    def __or__(self, o):
        return self.union(o) if self._isset(o) else NotImplemented

    def __ror__(self, o):
        return as_sxset(o).union(self) if self._isset(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if self._isset(o) else NotImplemented

    def __rand__(self, o):
        return as_sxset(o).intersection(self) if self._isset(o) else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if self._isset(o) else NotImplemented

    def __rsub__(self, o):
        return as_sxset(o).difference(self) if self._isset(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._isset(o) else NotImplemented

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return f_and((self.issubset(o), f_not(self.issuperset(o))))

    def __gt__(self, o):
        return f_and((self.issuperset(o), f_not(self.issubset(o))))

    def __eq__(self, o):
        if not self._isset(o):
            return NotImplemented
        return f_and((self.issubset(o), self.issuperset(o)))

    def __ne__(self, o):
        if not self._isset(o):
            return NotImplemented
        return f_not(f_and((self.issubset(o), self.issuperset(o))))

    __hash__ = None

    def __repr__(self):
        return f'SxSet({list(self.c)}, {self.g})'


class SxFrozenSet(SxSet):
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(deep_realize(SxSet(self))))


def _entries(o):
    if isinstance(o, SxSet) and hasattr(o, 'g'):
        return [(x, True) for x in o.c] + list(o.g)
    return [(x, True) for x in o]


def as_sxset(o):
    return o if isinstance(o, SxSet) and hasattr(o, 'g') else SxSet(o)


# ------------------------------------------------------------------------------------- solver

class ZB:
    """Translation of formulas to z3, with statistics."""

    def __init__(self):
        import z3
        self.m = z3
        self.And, self.Or, self.Not = z3.And, z3.Or, z3.Not
        self.solver = z3.SolverFor('QF_FD')
        self.ctx = z3.main_ctx()
        self.c = self.ctx.ref()
        self.s = self.solver.solver
        self.cache = {}
        self.cache_dom = {}
        self.queries = 0
        self.unknowns = 0
        self.time = 0.0

    def var(self, v):
        if v.z is None:
            nb = max(1, (v.n - 1).bit_length())
            v.z = self.m.BitVec(v.name, nb)
        return v.z

    def member(self, v, mask):
        k = (v, mask)
        e = self.cache.get(k)
        if e is None:
            z = self.var(v)
            idx = list(bits(mask))
            if len(idx) <= v.n // 2 + 1:
                parts = [z == i for i in idx]
                e = parts[0] if len(parts) == 1 else self.Or(parts)
            else:
                parts = [z != i for i in bits(v.full ^ mask)]
                e = (parts[0] if len(parts) == 1 else self.And(parts)) if parts else self.m.BoolVal(True)
            self.cache[k] = e
        return e

    def domain(self, v):
        if v not in self.cache_dom:
            z = self.var(v)
            self.cache_dom[v] = None if v.n == (1 << z.size()) else self.m.ULE(z, v.n - 1)
        return self.cache_dom[v]

    def char_eq(self, a, b):
        k = (a, b)
        e = self.cache.get(k)
        if e is None:
            if a.map == b.map and len(set(a.map)) == a.var.n and self.var(a.var).size() == self.var(b.var).size():
                e = self.var(a.var) == self.var(b.var)
            else:
                common = set(a.map) & set(b.map)
                e = self.Or([self.And(self.member(a.var, a.mask_of(c)), self.member(b.var, b.mask_of(c)))
                             for c in sorted(common)])
            self.cache[k] = e
        return e

    def solve(self, formulas, dom, variables):
        """Assignment (variable -> index) satisfying the conjunction within dom, or None."""
        z, c, s = self.m, self.c, self.s
        t = time.perf_counter()
        z.Z3_solver_push(c, s)
        try:
            for v in variables:
                d = dom.get(v)
                e = self.domain(v) if d is None or d == v.full else self.member(v, d)
                if e is not None:
                    z.Z3_solver_assert(c, s, e.as_ast())
            for f in formulas:
                z.Z3_solver_assert(c, s, f.z3(self).as_ast())
            r = z.Z3_solver_check(c, s)
            self.queries += 1
            if r == 1:
                m = z.ModelRef(z.Z3_solver_get_model(c, s), self.ctx)
                asg = {}
                for v in variables:
                    x = m[v.z] if v.z is not None else None
                    d = dom.get(v, v.full)
                    x = 0 if x is None else x.as_long()
                    if not (d >> x) & 1:
                        x = (d & -d).bit_length() - 1
                    asg[v] = x
                return asg
            if r == -1:
                return None
            self.unknowns += 1
            raise Unsupported('solver answered unknown')
        finally:
            z.Z3_solver_pop(c, s, 1)
            self.time += time.perf_counter() - t


class Model(dict):
    """Assignment of variables; a variable not mentioned yet takes its lowest possible value."""

    def __init__(self, eng, values=()):
        super().__init__(values)
        self.eng = eng

    def __missing__(self, v):
        d = self.eng.dom.get(v, v.full)
        x = (d & -d).bit_length() - 1
        self[v] = x
        return x


class Engine:
    def __init__(self, step_limit=2_000_000, max_split=80):
        self.zb = ZB()
        self.step_limit = step_limit
        self.max_split = max_split
        self.vars = {}
        self.names = set()
        self.decisions = 0
        self.forced = 0
        self.cached = 0
        self.paths = 0
        self.reset(([], {}))

    # --- per path state
    def reset(self, start):
        """Start a path: decisions to replay, and a known solution at their end (by variable name)."""
        self.prefix, self.start_model = start
        self.trace = []
        self.dom = {}
        self.cons = []
        self.linked = {}     # var -> set of indexes of non-unary constraints
        self.used = {}       # variables created on this path, in order
        self.pending = []    # alternatives discovered on this path
        self.model = Model(self)
        self.steps = 0

    def var(self, name, dom):
        v = self.used.get(name)
        if v is not None and v.dom == dom:
            return v
        key = (name, dom)
        v = self.vars.get(key)
        if v is None:
            zname = name
            while zname in self.names:
                zname += "'"
            self.names.add(zname)
            v = Var(zname, dom)
            self.vars[key] = v
        self.used[name] = v
        if name in self.start_model:
            self.model[v] = self.start_model[name]
        return v

    # --- constraints
    def closure(self, vs):
        todo = list(vs)
        seen = set(todo)
        cons = set()
        while todo:
            v = todo.pop()
            for ci in self.linked.get(v, ()):
                if ci not in cons:
                    cons.add(ci)
                    acc = set()
                    self.cons[ci].vars(acc)
                    for w in acc:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
        return seen, [self.cons[i] for i in sorted(cons)]

    def sat_model(self, f):
        """Assignment satisfying the path condition and f, or None."""
        m = self.model
        if f.ev(m):
            self.cached += 1
            return m
        if type(f) is U and f.var not in self.linked:
            d = self.dom.get(f.var, f.var.full) & f.mask
            m2 = Model(self, m)
            m2[f.var] = (d & -d).bit_length() - 1
            return m2
        if type(f) is A:
            vs = set()
            for a in f.args:
                if type(a) is not U or a.var in self.linked or a.var in vs:
                    break
                vs.add(a.var)
            else:
                m2 = Model(self, m)
                for a in f.args:
                    d = self.dom.get(a.var, a.var.full) & a.mask
                    if not d:
                        return None
                    m2[a.var] = (d & -d).bit_length() - 1
                return m2
        f = simplify(f, self.dom)
        if f is False:
            return None
        acc = set()
        if f is not True:
            f.vars(acc)
        vs, cons = self.closure(acc)
        r = self.zb.solve(cons + ([f] if f is not True else []), self.dom, vs)
        if r is None:
            return None
        m2 = Model(self, m)
        m2.update(r)
        return m2

    def feasible(self, f):
        q = f.quick(self.dom)
        if q is not None:
            return q
        return self.sat_model(f) is not None

    def assert_(self, f):
        """Add to the path condition (the current model must satisfy it)."""
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        q = f.quick(self.dom)
        if q is True:
            return
        if q is False:
            raise Infeasible()
        t = type(f)
        if t is U:
            d = self.dom.get(f.var, f.var.full) & f.mask
            self.dom[f.var] = d
            return
        if t is A:
            for a in f.args:
                self.assert_(a)
            return
        if t is E2:
            r = f.reduce(self.dom)
            if r is not None:
                self.assert_(r)
                return
        if t is O:
            rest = [a for a in f.args if a.quick(self.dom) is not False]
            if len(rest) == 1:
                self.assert_(rest[0])
                return
            f = O(tuple(rest))
        ci = len(self.cons)
        self.cons.append(f)
        acc = set()
        f.vars(acc)
        for v in acc:
            self.linked.setdefault(v, set()).add(ci)

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        m = self.sat_model(f) if f.quick(self.dom) is None else self.model
        if m is None:
            raise Infeasible()
        self.assert_(f)
        self.model = m

    def named(self, model):
        return {name: model[v] for name, v in self.used.items()}

    def branch(self, f):
        q = f.quick(self.dom)
        if q is not None:
            return q
        i = len(self.trace)
        if i < len(self.prefix):
            choice = self.prefix[i]
        else:
            neg = f.neg()
            yes = self.sat_model(f)
            no = self.sat_model(neg)
            if yes is not None and no is not None:
                self.decisions += 1
                self.pending.append((self.trace + [False], self.named(no)))
                choice = True
                self.model = yes
            elif yes is None and no is None:
                raise Infeasible()
            else:
                self.forced += 1
                choice = yes is not None
        self.trace.append(choice)
        self.assert_(f if choice else f.neg())
        return choice

    def tick(self):
        self.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit()

    # --- queries at the end of (or on) a path
    def find(self, f):
        """Assignment satisfying path condition and f, or None."""
        if isinstance(f, F):
            f = simplify(f, self.dom)
        if f is False:
            return None
        vs = set(self.used.values())
        fs = list(self.cons)
        if f is not True:
            fs.append(f)
            f.vars(vs)
        return self.zb.solve(fs, self.dom, vs)

    def assignment(self, asg):
        """JSON-able assignment by variable name."""
        return {name: asg.get(v, 0) for name, v in self.used.items()}


def evaluate(x, asg):
    """Concrete value of a symbolic value under an assignment."""
    if isinstance(x, F):
        return x.ev(asg)
    if isinstance(x, SymStr):
        return ''.join(c if isinstance(c, str) else c.map[asg[c.var]] for c in x.e)
    if type(x) is list:
        return [evaluate(i, asg) for i in x]
    if type(x) is tuple:
        return [evaluate(i, asg) for i in x]
    if type(x) in (SxSet, SxFrozenSet):
        r = set(x.c)
        for e, g in x.g:
            if g is True or evaluate(g, asg):
                r.add(evaluate(e, asg))
        return sorted(r)
    if isinstance(x, (set, frozenset)):
        return sorted(evaluate(i, asg) for i in x)
    if type(x) is dict:
        return {evaluate(k, asg): evaluate(v, asg) for k, v in x.items()}
    return x
