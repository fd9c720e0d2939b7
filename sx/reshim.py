"""
Replacement for the ``re`` module in instrumented code: same behaviour on concrete strings (it
delegates), and an exact backtracking matcher (over the standard parser's output) on symbolic ones.
"""

import re as _re
import re._parser as _parser
import re._constants as _c

from re import (error, A, ASCII, I, IGNORECASE, L, LOCALE, M, MULTILINE, S, DOTALL, X, VERBOSE, U,  # noqa: F401
                UNICODE, T, TEMPLATE, DEBUG, NOFLAG, RegexFlag, purge)

from sx import core
from sx.core import SymStr, F, mk_str, elems_of, ch_test, ch_eq, realize, f_or, f_and, f_not


def _cat(cat, flags):
    asc = bool(flags & ASCII)

    def word(c):
        return (c.isalnum() or c == '_') and (not asc or c < '\x80')

    def digit(c):
        return c.isdecimal() and (not asc or c < '\x80')

    def space(c):
        return c.isspace() and (not asc or c < '\x80')
    table = {_c.CATEGORY_DIGIT: digit, _c.CATEGORY_NOT_DIGIT: lambda c: not digit(c),
             _c.CATEGORY_SPACE: space, _c.CATEGORY_NOT_SPACE: lambda c: not space(c),
             _c.CATEGORY_WORD: word, _c.CATEGORY_NOT_WORD: lambda c: not word(c)}
    return table[cat]


def _char_pred(op, av, flags):
    """Predicate on one concrete character for a single-character pattern node."""
    if op is _c.LITERAL:
        base = lambda c: ord(c) == av
    elif op is _c.NOT_LITERAL:
        base = lambda c: ord(c) == av
    elif op is _c.ANY:
        if flags & DOTALL:
            return lambda c: True
        return lambda c: c != '\n'
    elif op is _c.IN:
        negate = False
        tests = []
        for o, v in av:
            if o is _c.NEGATE:
                negate = True
            elif o is _c.LITERAL:
                tests.append(lambda c, v=v: ord(c) == v)
            elif o is _c.RANGE:
                tests.append(lambda c, v=v: v[0] <= ord(c) <= v[1])
            elif o is _c.CATEGORY:
                tests.append(_cat(v, flags))
            else:
                raise core.Unsupported(f'regexp set item {o}')
        inner = lambda c: any(t(c) for t in tests)
        if flags & IGNORECASE:
            inner2 = inner
            inner = lambda c: inner2(c) or (len(c.lower()) == 1 and inner2(c.lower())) or \
                (len(c.upper()) == 1 and inner2(c.upper()))
        return (lambda c: not inner(c)) if negate else inner
    else:
        return None
    if flags & IGNORECASE:
        base0 = base
        base = lambda c: base0(c) or (len(c.lower()) == 1 and base0(c.lower())) or \
            (len(c.upper()) == 1 and base0(c.upper()))
    return (lambda c: not base(c)) if op is _c.NOT_LITERAL else base


class _Prog:
    """Matcher for one parsed pattern on one subject."""

    def __init__(self, tree, flags, elems, end):
        self.tree = tree
        self.flags = flags
        self.e = elems
        self.end = end

    def seq(self, items, i, pos, groups, flags):
        if i == len(items):
            yield pos, groups
            return
        for p, g in self.node(items[i], pos, groups, flags):
            yield from self.seq(items, i + 1, p, g, flags)

    def node(self, item, pos, groups, flags):
        op, av = item
        pred = _char_pred(op, av, flags)
        if pred is not None:
            if pos < self.end and ch_test(self.e[pos], pred):
                yield pos + 1, groups
            return
        if op is _c.AT:
            if self.at(av, pos, flags):
                yield pos, groups
        elif op is _c.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, pos, groups, flags)
        elif op is _c.SUBPATTERN:
            group, add, rem, p = av
            fl = (flags | add) & ~rem
            for q, g in self.seq(list(p), 0, pos, groups, fl):
                if group is not None:
                    g = dict(g)
                    g[group] = (pos, q)
                yield q, g
        elif op is _c.MAX_REPEAT:
            yield from self.greedy(av[0], av[1], list(av[2]), 0, pos, groups, flags)
        elif op is _c.MIN_REPEAT:
            yield from self.lazy(av[0], av[1], list(av[2]), 0, pos, groups, flags)
        elif op is _c.POSSESSIVE_REPEAT:
            for r in self.greedy(av[0], av[1], list(av[2]), 0, pos, groups, flags):
                yield r
                break
        elif op is _c.ATOMIC_GROUP:
            for r in self.seq(list(av), 0, pos, groups, flags):
                yield r
                break
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            direction, p = av
            start = pos
            if direction < 0:
                start = pos - p.getwidth()[0]
            res = None
            if start >= 0:
                for r in self.seq(list(p), 0, start, groups, flags):
                    res = r
                    break
            if op is _c.ASSERT:
                if res is not None:
                    yield pos, res[1]
            elif res is None:
                yield pos, groups
        elif op is _c.GROUPREF:
            if av in groups:
                a, b = groups[av]
                if pos + (b - a) <= self.end and \
                        f_and([ch_eq(x, y) for x, y in zip(self.e[a:b], self.e[pos:pos + b - a])]):
                    yield pos + (b - a), groups
        elif op is _c.GROUPREF_EXISTS:
            cond, yes, no = av
            branch = yes if cond in groups else no
            yield from self.seq(list(branch or []), 0, pos, groups, flags)
        else:
            raise core.Unsupported(f'regexp operation {op}')

    def greedy(self, lo, hi, items, n, pos, groups, flags):
        if n < hi:
            for p, g in self.seq(items, 0, pos, groups, flags):
                if p == pos and n >= lo:
                    continue
                yield from self.greedy(lo, hi, items, n + 1, p, g, flags)
        if n >= lo:
            yield pos, groups

    def lazy(self, lo, hi, items, n, pos, groups, flags):
        if n >= lo:
            yield pos, groups
        if n < hi:
            for p, g in self.seq(items, 0, pos, groups, flags):
                if p == pos and n >= lo:
                    continue
                yield from self.lazy(lo, hi, items, n + 1, p, g, flags)

    def at(self, where, pos, flags):
        if where is _c.AT_BEGINNING:
            if flags & MULTILINE:
                return pos == 0 or ch_eq(self.e[pos - 1], '\n')
            return pos == 0
        if where is _c.AT_BEGINNING_STRING:
            return pos == 0
        if where is _c.AT_END_STRING:
            return pos == self.end
        if where is _c.AT_END:
            if pos == self.end:
                return True
            if flags & MULTILINE or pos == self.end - 1:
                return ch_eq(self.e[pos], '\n')
            return False
        if where in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = _cat(_c.CATEGORY_WORD, flags)
            before = pos > 0 and ch_test(self.e[pos - 1], w)
            after = pos < self.end and ch_test(self.e[pos], w)
            r = bool(before) != bool(after)
            return r if where is _c.AT_BOUNDARY else not r
        raise core.Unsupported(f'regexp position {where}')


class SxMatch:
    def __init__(self, pattern, string, start, end, groups, pos, endpos):
        self.re = pattern
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._g = dict(groups)
        self._g[0] = (start, end)

    def _idx(self, g):
        g = realize(g)
        if isinstance(g, str):
            try:
                g = self.re.groupindex[g]
            except KeyError:
                raise IndexError('no such group') from None
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        g = self._idx(g)
        if g not in self._g:
            return default
        a, b = self._g[g]
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    @property
    def lastindex(self):
        best = None
        for i in range(1, self.re.groups + 1):
            if i in self._g and (best is None or self._g[i][1] >= self._g[best][1]):
                best = i
        return best

    def expand(self, template):
        return self.re._expand(template, self)

    def __bool__(self):
        return True


class Pattern:
    """Compiled pattern that also works on symbolic strings."""

    def __init__(self, compiled):
        self._p = compiled
        self.pattern = compiled.pattern
        self.flags = compiled.flags
        self.groups = compiled.groups
        self.groupindex = compiled.groupindex
        self._tree = None

    def __repr__(self):
        return repr(self._p)

    def __eq__(self, o):
        return isinstance(o, Pattern) and self._p == o._p

    def __hash__(self):
        return hash(self._p)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def tree(self):
        if self._tree is None:
            self._tree = list(_parser.parse(self._p.pattern, self._p.flags))
        return self._tree

    @staticmethod
    def _subject(s):
        if isinstance(s, SymStr):
            return mk_str(s.e)
        return s

    def _try(self, string, start, end, full=False, advance=False):
        e = elems_of(string)
        prog = _Prog(self.tree, self.flags, e, end)
        for q, g in prog.seq(self.tree, 0, start, {}, self.flags):
            if full and q != end:
                continue
            if advance and q == start:
                continue
            return q, g
        return None

    @staticmethod
    def _bounds(string, pos, endpos):
        n = len(string)
        end = n if endpos is None else max(0, min(endpos, n))
        return max(0, min(pos, n)), end

    def _match(self, string, pos, endpos, full):
        start, end = self._bounds(string, pos, endpos)
        if start > end:
            return None
        r = self._try(string, start, end, full)
        return SxMatch(self, string, start, r[0], r[1], start, end) if r else None

    def match(self, string, pos=0, endpos=None):
        s = self._subject(string)
        if not isinstance(s, SymStr):
            return self._p.match(s, pos) if endpos is None else self._p.match(s, pos, endpos)
        return self._match(s, pos, endpos, False)

    def fullmatch(self, string, pos=0, endpos=None):
        s = self._subject(string)
        if not isinstance(s, SymStr):
            return self._p.fullmatch(s, pos) if endpos is None else self._p.fullmatch(s, pos, endpos)
        return self._match(s, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        s = self._subject(string)
        if not isinstance(s, SymStr):
            return self._p.search(s, pos) if endpos is None else self._p.search(s, pos, endpos)
        for m in self._iter(s, pos, endpos):
            return m
        return None

    def _iter(self, s, pos=0, endpos=None):
        start, end = self._bounds(s, pos, endpos)
        pos0 = start
        advance = False
        while start <= end:
            found = None
            for i in range(start, end + 1):
                r = self._try(s, i, end, advance=advance and i == start)
                if r:
                    found = (i, r)
                    break
            if not found:
                return
            i, (q, g) = found
            yield SxMatch(self, s, i, q, g, pos0, end)
            advance = q == i
            start = q

    def finditer(self, string, pos=0, endpos=None):
        s = self._subject(string)
        if not isinstance(s, SymStr):
            return self._p.finditer(s, pos) if endpos is None else self._p.finditer(s, pos, endpos)
        return self._iter(s, pos, endpos)

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append('' if g is None else g)
            else:
                out.append(tuple('' if g is None else g for g in m.groups()))
        return out

    def split(self, string, maxsplit=0):
        s = self._subject(string)
        if not isinstance(s, SymStr):
            return self._p.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self._iter(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def _expand(self, template, m):
        if isinstance(template, SymStr):
            if f_or([ch_eq(c, '\\') for c in template.e]):
                template = template.realize()
            else:
                return template
        if '\\' not in template:
            return template
        parsed = _parser.parse_template(template, self._p)
        parts = []
        for i, part in enumerate(parsed):
            if isinstance(part, int):
                v = m.group(part)
                parts.append('' if v is None else v)
            else:
                parts.append(part)
        return core.join('', parts)

    def subn(self, repl, string, count=0):
        s = self._subject(string)
        if not isinstance(s, SymStr) and not isinstance(repl, SymStr) and not callable(repl):
            return self._p.subn(repl, s, count)
        out, last, n = [], 0, 0
        for m in (self._iter(s) if isinstance(s, SymStr) else self._p.finditer(s)):
            if count and n >= count:
                break
            out.append(s[last:m.start()])
            r = repl(m) if callable(repl) else self._expand(repl, m)
            out.append(r)
            last = m.end()
            n += 1
        out.append(s[last:])
        return core.join('', out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


Match = (SxMatch, _re.Match)


_CACHE = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return Pattern(pattern)
    pattern = realize(pattern)
    k = (pattern, flags)
    p = _CACHE.get(k)
    if p is None:
        p = _CACHE[k] = Pattern(_re.compile(pattern, flags))
    return p


def escape(pattern):
    return _re.escape(realize(pattern))


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def finditer(pattern, string, flags=0):
    return compile(pattern, flags).finditer(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def subn(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).subn(repl, string, count)
