"""Small uses of text, sets, dictionaries and the standard library, each compared with Python itself by checks/selftest.py."""
import bisect
import collections
import copy
import dataclasses
import functools
import heapq
import io
import itertools
import operator
import os.path
import re
import string
import textwrap
import unicodedata
from collections import Counter, OrderedDict, defaultdict, deque, namedtuple, ChainMap
from dataclasses import dataclass, field
from enum import Enum
from typing import NamedTuple


Pair = namedtuple('Pair', 'x y')


class Point(NamedTuple):
    x: str
    y: str = ''


@dataclass(frozen=True)
class Frozen:
    x: str
    y: str


@dataclass(order=True)
class Ordered:
    x: str
    y: str = field(default='', compare=False)


class Kind(Enum):
    A = 'a'
    B = 'b'


class Text(str):
    def twice(self):
        return self + self


class Holder:
    __slots__ = ('value', 'cache')

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return self.value == other.value

    def __hash__(self):
        return hash(self.value)

    @property
    def first(self):
        return self.value[:1]

    def __contains__(self, c):
        return c in self.value

    def __getitem__(self, i):
        return self.value[i]

    def __len__(self):
        return len(self.value)

    def __iter__(self):
        yield from self.value

    def __lt__(self, other):
        return self.value < other.value


@functools.lru_cache(maxsize=None)
def cached(s):
    return s[::-1]


@functools.singledispatch
def dispatch(x):
    return 'other'


@dispatch.register
def _(x: str):
    return 'str' + x


@dispatch.register(list)
def _(x):
    return 'list'


def matching(s, t):
    match s:
        case '':
            return 'empty'
        case 'a' | 'b':
            return 'single'
        case str() if s == t:
            return 'same'
        case str(x):
            return x
    return None


def matching_seq(s, t):
    match [*s]:
        case []:
            return 0
        case ['a', *rest]:
            return rest
        case [x, 'a']:
            return x
        case [x, y]:
            return y + x
        case _:
            return 'long'


def matching_map(s, t):
    match {'k': s, t: 1}:
        case {'k': 'a'}:
            return 1
        case {'k': x, 'a': 1}:
            return x
    return None


def gen(s):
    for i, c in enumerate(s):
        got = yield c
        if got:
            yield got


def sending(s, t):
    g = gen(s)
    out = [next(g, None)]
    try:
        out.append(g.send(t))
    except (StopIteration, TypeError):
        out.append('stop')
    return out


def walrus(s, t):
    if (n := s.find(t)) >= 0:
        return n, s[:n]
    return None


def starred(s, t):
    a, *b = s + 'z'
    *c, d = t + 'z'
    return a, b, c, d


def tryfind(s, t):
    try:
        return s.index(t)
    except ValueError:
        return -1


def keyed(s, t):
    d = {s: 1}
    d[t] = 2
    return sorted(d.items())


def keyed_default(s, t):
    d = defaultdict(list)
    for c in s + t:
        d[c].append(c)
    return {k: len(v) for k, v in d.items()}


def keyed_set(s, t):
    d = {}
    for c in s:
        d.setdefault(c, []).append(t)
    return sorted(d)


def deleting(s, t):
    d = dict.fromkeys(s, 1)
    for c in t:
        if c in d:
            del d[c]
    return sorted(d)


def popping(s, t):
    d = {c: i for i, c in enumerate(s)}
    return [d.pop(c, None) for c in t], len(d)


def updating(s, t):
    d = {'a': 1}
    d.update({s: 2})
    d |= {t: 3}
    return sorted(d.items())


def merged(s, t):
    return sorted({**{s: 1}, t: 2}.items())


def chainmap(s, t):
    return ChainMap({s: 1}, {t: 2}).get('a')


def ordered_dict(s, t):
    d = OrderedDict()
    for c in s + t:
        d[c] = 1
        d.move_to_end(c)
    return list(d)


def set_ops(s, t):
    a, b = set(s), set(t)
    return sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), a <= b, a < b, a == b, a.isdisjoint(b), len(a)


def set_adds(s, t):
    a = set()
    for x in (s, t, s + t):
        if x in a:
            return 'dup'
        a.add(x)
    return len(a)


def set_comp(s, t):
    return sorted({c.lower() for c in s if c not in t})


def set_mut(s, t):
    a = {*s}
    a.discard(t[:1])
    a.update(t)
    a -= {'a'}
    return sorted(a)


def frozen_sets(s, t):
    return {frozenset(s): 1}.get(frozenset(t))


def set_of_tuples(s, t):
    seen = set()
    seen.add((s, 1))
    return (t, 1) in seen


def try_remove(s, t):
    a = list(s)
    try:
        a.remove(t[:1])
    except ValueError:
        return 'none'
    return a


def deques(s, t):
    q = deque(s)
    q.appendleft(t)
    q.rotate(1)
    return [q.popleft() for _ in range(len(q))]


def heap(s, t):
    h = []
    for c in s + t:
        heapq.heappush(h, (c == 'a', c))
    return [heapq.heappop(h) for _ in range(len(h))]


def heap_str(s, t):
    return heapq.nsmallest(2, [s, t, 'a']), heapq.nlargest(1, [s, t], key=len)


def best(s, t):
    return max([s, t], key=len), min(s, t), max(s + 'a'), min((s, t), key=lambda x: (len(x), x))


def bisected(s, t):
    return bisect.bisect_left(['a', 'aa', 'b'], s), bisect.bisect(['A', 'a'], t)


def counted(s, t):
    c = Counter(s)
    c.subtract(t)
    return sorted(c.items())


def counted_and(s, t):
    return sorted((Counter(s) & Counter(t)).elements())


def common(s, t):
    return os.path.commonprefix([s, t])


def grouped(s, t):
    return [(k, len(list(g))) for k, g in itertools.groupby(s + t)]


def zipped(s, t):
    return [x + y for x, y in zip(s, t)], list(itertools.zip_longest(s, t, fillvalue='-'))


def producted(s, t):
    return [''.join(p) for p in itertools.product(s, t)]


def combos(s, t):
    return list(itertools.combinations(s, 2)), list(itertools.permutations(t, 2)), list(itertools.pairwise(s))


def taken(s, t):
    return ''.join(itertools.takewhile(str.islower, s)), ''.join(itertools.dropwhile(lambda c: c == 'a', t))


def accumulated(s, t):
    return list(itertools.accumulate(s)), list(itertools.accumulate(t, operator.add, initial='x'))


def chained(s, t):
    return list(itertools.chain(s, t, *[s])), list(itertools.chain.from_iterable([s, t])), list(itertools.islice(s + t, 1, None, 2))


def reduced(s, t):
    return functools.reduce(lambda a, b: b + a, s, t)


def starmapped(s, t):
    return list(itertools.starmap(operator.eq, zip(s, t)))


def compress(s, t):
    return list(itertools.compress(s, [c == 'a' for c in s])), list(itertools.filterfalse(str.isupper, t))


def mapped(s, t):
    return list(map(str.upper, s)), list(map(len, (s, t))), list(filter(None, [s, t])), list(map(t.count, s))


def getters(s, t):
    return operator.itemgetter(0)([s]), operator.methodcaller('upper')(s), operator.contains(s, t), operator.attrgetter('value')(Holder(t))


def partials(s, t):
    return functools.partial(str.replace, s)('a', t), functools.partial(operator.add, s)(t)


def formatted(s, t):
    return f'{s}-{t!r}', '%s/%s' % (s, t), '{}:{}'.format(s, t), f'{s:>4}', format(t, '<3'), '{0}{x}'.format(s, x=t)


def template(s, t):
    return string.Template('$x-$y').substitute(x=s, y=t), s.center(5, '*'), t.ljust(3), s.rjust(4, 'x'), s.zfill(4)


def joins(s, t):
    return t.join(s), ', '.join([s, t]), ''.join(reversed(s)), ''.join(sorted(s)), ''.join(c for c in s if c not in t), ''.join({s: 1})


def splits(s, t):
    return s.split('a'), s.split(), s.rsplit('a', 1), s.partition('a'), s.rpartition('b'), (s + '\n' + t).splitlines(), s.split('a', 1)


def split_sym(s, t):
    try:
        return s.split(t)
    except ValueError:
        return 'empty'


def part_sym(s, t):
    try:
        return s.partition(t), s.rpartition(t)
    except ValueError:
        return 'empty'


def finds(s, t):
    return s.find(t), s.rfind(t), s.count(t), t in s, s.startswith(t), s.endswith(t), s.find(t, 1), s.startswith(t, 1), s.endswith(('a', t))


def replaced(s, t):
    return s.replace('a', t), s.replace(t, 'x'), s.replace('a', t, 1), s.removeprefix(t), s.removesuffix(t)


def strips(s, t):
    return s.strip(), s.strip('a'), s.lstrip(t), s.rstrip('ab'), s.strip(t)


def cases(s, t):
    return s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase(), s.casefold(), s.istitle(), s.isupper(), s.islower()


def kinds(s, t):
    return s.isalpha(), s.isdigit(), s.isspace(), s.isascii(), s.isalnum(), s.isidentifier(), s.isprintable(), s.isnumeric()


def compares(s, t):
    return s < t, s <= t, s > t, s >= t, s == t, s != t, sorted([s, t]), (s, 1) < (t, 0), [s] == [t], (s,) != (t,)


def slices(s, t):
    return s[::-1], s[1:], s[:-1], s[-1:], s[::2], s[1:2], [s[i:j] for i in range(len(s) + 1) for j in range(i, len(s) + 1)]


def arithmetic(s, t):
    return s + t, s * 2, 2 * t, 'x' + s, t + 'x', len(s) * len(t), -len(s)


def augmented(s, t):
    r = s
    r += t
    r *= 2
    return r


def translates(s, t):
    return s.translate(str.maketrans('ab', 'ba')), s.translate({ord('a'): 'xx', ord('b'): None}), s.translate(str.maketrans({'a': t or 'q'}))


def ords(s, t):
    return [ord(c) for c in s], ''.join(chr(ord(c) + 1) for c in t), sum(ord(c) for c in s)


def encoded(s, t):
    return list(s.encode('utf-8')), s.encode().decode(), len(t.encode('utf-16')), bytes(s, 'utf-8') == t.encode()


def bytearrays(s, t):
    b = bytearray(s, 'utf-8')
    b.extend(t.encode())
    return b.decode()


def unicode_data(s, t):
    return unicodedata.normalize('NFD', s), [unicodedata.category(c) for c in t]


def stringio(s, t):
    f = io.StringIO()
    f.write(s)
    print(t, file=f)
    return f.getvalue()


def stringio_lines(s, t):
    return [line.strip() for line in io.StringIO(s + '\n' + t)]


def textwrapped(s, t):
    return textwrap.dedent(s), textwrap.shorten(t + ' b', 3, placeholder='')


def regexes(s, t):
    return bool(re.match('a+', s)), re.sub('[ab]', '-', s), re.findall('a|b', s), re.split('a', s), bool(re.fullmatch('(a|A)*', t)), re.escape(s)


def regex_groups(s, t):
    m = re.search(r'(?P<x>a)(.)?', s)
    return (m.group(0), m.group('x'), m.groups(), m.start(), m.span(2), m.end(), m.groupdict(), m['x'], m.string) if m else None


def regex_func(s, t):
    return re.sub('a', lambda m: m.group() + t, s), re.subn('b', 'a', s)


def regex_iter(s, t):
    return [(m.start(), m.group()) for m in re.finditer('(?=(a|b))', s + t)], [m.end() for m in re.compile('a', re.I).finditer(s)]


def regex_built(s, t):
    return bool(re.search(re.escape(t) + '$', s)), bool(re.match('(?:' + '|'.join(map(re.escape, ['a', t])) + ')$', s))


def regex_pos(s, t):
    p = re.compile('[^a]')
    m = p.match(s, 1)
    return m and m.group(), bool(p.search(s, 1)), p.pattern


def regex_special(s, t):
    return bool(re.match(r'\w+\Z', s)), re.split(r'\s+', s), re.findall(r'\b\w', s), bool(re.match(r'^\S?$', t)), re.findall(r'(.)\1', s)


def namedtuples(s, t):
    p = Pair(s, t)
    return p._replace(x=t), p == Pair(t, s), p.x, p[1], {p: 1}.get(Pair(t, s)), Point(s).y, Point(s, t)._asdict()


def dataclassed(s, t):
    a, b = Frozen(s, t), Frozen(t, s)
    return a == b, dataclasses.replace(a, x='q').x, {a: 1}.get(b), dataclasses.astuple(a), dataclasses.asdict(b)


def dataclass_order(s, t):
    return Ordered(s) < Ordered(t), [o.x for o in sorted([Ordered(s, '1'), Ordered(t, '2')])], Ordered(s, 'a') == Ordered(s, 'b')


def enumerated(s, t):
    try:
        return Kind(s).name
    except ValueError:
        return 'no'


def enum_named(s, t):
    try:
        return Kind[s].value
    except KeyError:
        return 'no'


def subclassed(s, t):
    return str(Text(s).twice()), Text(s) == t, Text(s + t).upper()


def holders(s, t):
    h = Holder(s)
    return h == Holder(t), h.first, 'a' in h, len(h), list(h), h[:1], {h: 1}.get(Holder(t)), sorted([h, Holder(t)])[0].value, bool(h)


def cached_call(s, t):
    return cached(s), cached(t)


def dispatching(s, t):
    return dispatch(s), dispatch([t]), dispatch(1)


def copies(s, t):
    x = [s, [t]]
    y = copy.deepcopy(x)
    z = copy.copy(x)
    return x == y, z[1] is x[1]


def isinstances(s, t):
    return isinstance(s, str), isinstance(s, (list, str)), type(t) is str, isinstance(set(s), set), callable(s), hasattr(s, 'lower'), type(s) == str


def getattrs(s, t):
    return getattr(s, 'upper')(), getattr(t, 'nothing', 'q'), s.__len__(), s.__contains__('a'), s.__eq__(t), str.__add__(s, t)


def attr_by_name(s, t):
    class X:
        a = 1
        b = 2
    return getattr(X, s, None), hasattr(X, t)


def set_attr(s, t):
    class X:
        pass
    x = X()
    setattr(x, 'n' + s.strip(), t)
    return vars(x)


def lists(s, t):
    x = list(s)
    x.extend(t)
    x.insert(1, 'q')
    x.reverse()
    x.sort()
    return x, x.count('a'), 'b' in x, x.index('q'), [*s, *t], x[::2], x == sorted(x)


def list_in(s, t):
    return s in ['a', 'b', t], s not in ('ab', ''), [s, t].index(t), (s, t).count(s)


def sorts(s, t):
    return sorted(s, key=ord), sorted(s, reverse=True), sorted([s, t, 'a'], key=lambda x: (-len(x), x)), sorted(t, key='bA a'.find)


def anyall(s, t):
    return any(c == 'a' for c in s), all(c in 'ab' for c in t), any(s), sum(c == 'a' for c in s), sum(1 for c in s if c in t)


def boolean(s, t):
    return s and t, s or t, not s, bool(s), 'x' if s else 'y', (s == 'a') and (t == 'b'), (s == 'a') or t, (s == t) + 1, (s == 'a') is True


def bools(s, t):
    x = s == t
    return x, not x, x & (s == 'a'), x | (t == 'b'), x ^ True, int(x), str(x), [1, 2][x], x == True, {True: 'y', False: 'n'}[x]  # noqa: E712


def bool_sort(s, t):
    return sorted([(s == 'a', 1), (t == 'a', 0)]), max(s == 'a', t == 'a'), sum([s == 'a', t == 'a']), [s == 'a', t == 'a'].count(True)


def ints(s, t):
    try:
        return int(s)
    except ValueError:
        return 'no'


def reprs(s, t):
    return repr(s), str([t]), str((s,)), repr({t: 1}), ascii(s)


def hashes(s, t):
    return hash(s) == hash(t) if s == t else None, len({s, t}), len({s: 1, t: 2})


def iterating(s, t):
    it = iter(s)
    out = []
    while True:
        try:
            out.append(next(it) + t[:1])
        except StopIteration:
            break
    return out


def enumerating(s, t):
    return [(i, c) for i, c in enumerate(s, 1)], [c for c in reversed(t)], [*range(len(s))]


def nested(s, t):
    return [[c + d for d in t] for c in s], {c: {d for d in t} == set() for c in s}


def global_cache(s, t):
    memo = {}

    def f(x):
        if x not in memo:
            memo[x] = len(memo)
        return memo[x]
    return f(s), f(t), f(s)


def trie(s, t):
    root = {}
    for w in (s, t):
        node = root
        for c in w:
            node = node.setdefault(c, {})
        node[''] = w
    node = root
    for c in 'ab':
        node = node.get(c)
        if node is None:
            return None
    return node.get('')


def difflibs(s, t):
    import difflib
    return difflib.SequenceMatcher(None, s, t).ratio(), difflib.get_close_matches(s, ['a', 'ab', t])


def paths(s, t):
    import pathlib
    return str(pathlib.PurePosixPath('x') / (s.strip() or 'q')), os.path.join('a', t), os.path.splitext(s + '.x')


def exceptions(s, t):
    try:
        if s == 'a':
            raise KeyError(s)
        return [s][len(t)]
    except KeyError as e:
        return e.args
    except IndexError:
        return 'index'
    finally:
        s = ''


def key_error(s, t):
    try:
        return {'a': 1}[s]
    except KeyError as e:
        return e.args[0]


def unpack(s, t):
    try:
        a, b = s
    except ValueError:
        return 'no'
    return b + a


def kwargs(s, t):
    def f(x, *rest, y='', **more):
        return x, rest, y, more
    return f(s, *t), f(s, y=t), f(*s[:1] or 'q', **{'z': t})


def lambdas(s, t):
    fs = [lambda c, i=i: c + str(i) for i in range(2)]
    return [f(s) for f in fs], (lambda *a: a)(s, t)


def yields(s, t):
    def g():
        yield from s
        if t:
            return
        yield 'end'
    return list(g()), tuple(g()), set(g()) == set(s)


def while_loop(s, t):
    out = ''
    i = 0
    while i < len(s):
        if t and s.startswith(t, i):
            out += '*'
            i += len(t)
        else:
            out += s[i]
            i += 1
    else:
        out += '.'
    return out


def edit_distance(s, t):
    row = list(range(len(t) + 1))
    for i, c in enumerate(s, 1):
        new = [i]
        for j, d in enumerate(t, 1):
            new.append(min(new[-1] + 1, row[j] + 1, row[j - 1] + (c != d)))
        row = new
    return row[-1]


def lcs(s, t):
    @functools.lru_cache(None)
    def f(i, j):
        if i == len(s) or j == len(t):
            return 0
        if s[i] == t[j]:
            return 1 + f(i + 1, j + 1)
        return max(f(i + 1, j), f(i, j + 1))
    return f(0, 0)


def suffixes(s, t):
    return [s[i:] for i in range(len(s))] == [t[i:] for i in range(len(t))], {s[i:] for i in range(len(s))} & {t[i:] for i in range(len(t))} == set()


def cmp_key(s, t):
    return sorted([s, t], key=functools.cmp_to_key(lambda a, b: (a > b) - (a < b)))


def total(s, t):
    return sum(map(len, s.split('a'))), sum([[s], [t]], []), collections.Counter([s, t]).most_common(1)[0][1]


def store(s, t):
    d = {}
    for c in s + t:
        d[c] = d.get(c, 0) + 1
    for c in t:
        d[c] += 1
    return sorted(d.items()), 1 in d.values(), (s, 1) in d.items(), d.keys() & set(t) == set(t), list(d)


def tuple_keys(s, t):
    d = defaultdict(int)
    for x, y in zip(s, t):
        d[x, y] += 1
    return sorted(d.items()), d.get(('a', 'a')), ('a', 'b') in d


def views(s, t):
    a, b = dict.fromkeys(s), dict.fromkeys(t)
    return a == b, sorted(a.keys() | b.keys()), sorted(a.keys() - b.keys()), a.keys() >= b.keys(), len(a.keys() & b.keys()), a.keys() == b.keys()


def reverse_map(s, t):
    d = {c: i for i, c in enumerate(s)}
    r = {v: k for k, v in d.items()}
    return r, [d[c] for c in t if c in d], max(d, key=d.get, default='')


def nested_dict(s, t):
    d = defaultdict(lambda: defaultdict(set))
    d[s][t].add(s + t)
    d[t][s].add(s)
    return sorted((k, sorted(v)) for k, v in d.items())


def popitems(s, t):
    d = {s: 1, t: 2}
    last = d.popitem()
    d.clear()
    return last, d


def set_more(s, t):
    a = set(s)
    a &= set(t) | {'a'}
    b = a.copy()
    b.add('q')
    c = {x for x in b if x not in a}
    a ^= {'a'}
    return sorted(a), sorted(b), sorted(c), a != b, bool(a), set() == set(s), a.issubset(b), b.issuperset(t), a.union(s, t) == set(s + t)


def set_words(s, t):
    words = {'a', 'ab', s}
    return t in words, len(words), s + t in words, words & {t} == set(), sorted(words - {t}), words.isdisjoint([s])


def set_loop(s, t):
    n = 0
    for x in {s, t, 'a'}:
        n += len(x)
    return n


def set_pop(s, t):
    a = {s, t}
    x = a.pop()
    return x in (s, t), len(a)


def set_eq(s, t):
    return set(s) == set(t), {s} == {t}, frozenset([s, t]) == {t, s}, {s, t} == {s}, set(s) != {'a'}, {*s} | {*t} >= {'a'}


def set_in_list(s, t):
    return {s} in [{'a'}, {t}], [set(s)].count(set(t))


def chained_compare(s, t):
    return 0 < len(s) <= len(t), 'a' <= s[:1] < 'c', s == t == 'a', 'a' in s in ['a', 'ab', t], s < t < 'b', s is not t or True, s == t != 'a'


def next_filter(s, t):
    return next((c for c in s if c in t), None), next(filter(str.isupper, s), '-'), next(iter(t), 'none')


def iter_sentinel(s, t):
    it = iter(s + 'b')
    return list(iter(lambda: next(it), 'b'))


def suppressing(s, t):
    import contextlib
    with contextlib.suppress(ValueError):
        return s.index(t)
    return -1


def context(s, t):
    import contextlib

    @contextlib.contextmanager
    def cm(x):
        yield x + 'c'
    with cm(s) as y, cm(t) as z:
        return y + z


class Lazy:
    def __init__(self, x):
        self.x = x

    @functools.cached_property
    def double(self):
        return self.x * 2

    @functools.cache
    def with_(self, y):
        return self.x + y

    @staticmethod
    def stat(x):
        return x[:1]

    @classmethod
    def make(cls, x):
        return cls(x.lower())


def lazies(s, t):
    x = Lazy.make(s)
    return x.double, x.double, x.with_(t), Lazy.stat(t), Lazy(s).with_(s)


def try_else(s, t):
    out = []
    for c in s:
        try:
            i = t.index(c)
        except ValueError:
            out.append('no')
        else:
            out.append(i)
        finally:
            out.append(c)
    return out


def for_else(s, t):
    for c in s:
        if c in t:
            break
        if c == 'b':
            continue
    else:
        return 'none'
    return c


def nonlocals(s, t):
    n, last = 0, ''

    def visit(c):
        nonlocal n, last
        n += c == 'a'
        last = c
    for c in s:
        visit(c)
    return n, last


def minimal(s, t):
    return min(s, default=''), max(t, key=str.lower, default=None), min([s, t], key=lambda x: x.count('a')), min((len(x), x) for x in (s, t))


def zip_star(s, t):
    pairs = list(zip(s, t))
    return list(zip(*pairs)), dict(pairs), dict(zip(s, range(5))), [(b, a) for a, b in pairs]


def unzip_dict(s, t):
    d = dict(x=s, **{'y': t})
    return list(d.items()), [*d.values()], sorted(d, key=d.get), '{x}{y}'.format_map(d)


def regex_back(s, t):
    return re.sub(r'(a)(b)?', r'<\1\2>', s), re.sub(r'(?P<c>.)', r'\g<c>\g<c>', t), re.sub('^', 'x', s), re.sub('$', 'y', t), re.sub('a*', '-', s)


def regex_look(s, t):
    return re.findall(r'(?<=a).', s), re.findall(r'(?<!a)b', s), re.findall(r'a(?!b)', s), bool(re.search(r'(?<![a-z])A', t))


def regex_lazy(s, t):
    m = re.match(r'(a*?)(b*)$', s)
    n = re.match(r'(.*)a(.*)', t)
    return m and m.groups(), n and n.groups(), re.findall('a{1,2}', s), re.findall('(a)|(b)', t)


def regex_flags(s, t):
    return bool(re.match('A', s, re.IGNORECASE)), re.split('(a)', s), re.split('[ab]', t, maxsplit=1), bool(re.search(r"""a  # letter
        b?$""", s, re.VERBOSE))


def regex_type(s, t):
    p = re.compile('a')
    return isinstance(p, re.Pattern), p.fullmatch(s) is not None, p.match(t) is None, not p.search(s), p.sub('b', s, count=1), p.split(t)


def regex_class(s, t):
    cls = '[' + re.escape(t) + ']' if t else 'x'
    return re.sub(cls, '_', s), bool(re.match(f'(?:{cls})+$', s))


def regex_match_obj(s, t):
    out = []
    for m in re.finditer('.', s):
        if m[0] == 'a' and s[m.end():].startswith(t):
            out.append((m.start(), m.span(), m.expand('<\\g<0>>')))
    return out


def bit_ops(s, t):
    mask = 0
    for i, c in enumerate(s):
        if c in t:
            mask |= 1 << i
    return mask, bin(mask).count('1'), mask & 1, ~mask


def counters(s, t):
    it = itertools.count(1)
    return [(next(it), c) for c in s], list(zip(itertools.cycle('xy'), t)), list(itertools.repeat(s, 2))


def strings(s, t):
    return s.expandtabs(2), all(c in string.ascii_lowercase for c in s), s.isascii() and t.isalpha(), t.ljust(4, 'z'), s.center(len(t) + 2)


def text_parts(s, t):
    i = s.find('a')
    head, tail = (s[:i], s[i:]) if i >= 0 else (s, '')
    return head, tail, [s[k] + t for k in range(len(s)) if s[k] != 'b'], [x for x in (s, t) if x and x[0] == 'a' or x[-1:] == 'b']


def swap(word, other):
    x = list(word)
    for i in range(len(x) - 1):
        y = x.copy()
        y[i], y[i + 1] = y[i + 1], y[i]
        yield ''.join(y)


def swaps(s, t):
    return [*swap(s, t)], set(swap(t, s)) == {s}


def list_slices(s, t):
    x = list(s)
    x[1:1] = t
    del x[:1]
    x[len(x):] = ['z']
    x += s
    return x, x[-1], x * 2 == x + x, x < list(t), sorted(x, key=lambda c: (c.lower(), c))


def list_dedup(s, t):
    out = []
    for x in (s, t, s + t, t + s):
        if x not in out:
            out.append(x)
    return out, list(dict.fromkeys([s, t, s])), len(set([s, t]))


def recursion(s, t):
    def f(x):
        if not x:
            return ['']
        return [p + y for p in (x[0], t) for y in f(x[1:])]
    return f(s)


def permuted(s, t):
    return sorted(set(map(''.join, itertools.permutations(s)))), list(map(''.join, itertools.product('a' + t, repeat=2)))


def dict_class(s, t):
    class D(dict):
        def __missing__(self, key):
            self[key] = key + '!'
            return self[key]
    d = D()
    return d[s], d[t], d.get(s), sorted(d)


def user_getattr(s, t):
    class X:
        def __getattr__(self, name):
            return name + s
    return X().q, getattr(X(), 'z' + t.strip())


def compare_mixed(s, t):
    return s == 1, s == None, [s] == ['a'], (s, t) == ('a', 'b'), {'k': s} == {'k': t}, s in (None, 'a'), [s, [t]] == ['a', ['b']]  # noqa: E711


def sort_stable(s, t):
    x = [(c, i) for i, c in enumerate(s + t)]
    x.sort(key=lambda p: p[0], reverse=True)
    return x, sorted(x, key=operator.itemgetter(0, 1)), sorted(x, key=lambda p: -p[1])


def bool_arith(s, t):
    n = (s == 'a') + 2 * (t == 'a')
    return n, [s == 'a'] * 2, (s == 'a') * 'x', -(s == 'a'), (s == 'a') > (t == 'a'), n // 2, divmod(n, 2), round(n / 2, 1), abs(-n)


def any_gen(s, t):
    return any(x in t for x in s), all(x != y for x, y in zip(s, t)), not any(map(str.isspace, s)), any(c.isupper() and c in t for c in s)


def lower_compare(s, t):
    return s.lower() == t.lower(), s.upper() == t, s.lower() != s and s.upper() != s, s[:1].upper() + s[1:].lower(), s.title() == s, s.casefold() in t


def memo_default(s, t, _memo={}):  # noqa: B006
    return None


def global_state(s, t):
    global STATE
    STATE = STATE + [s] if t else [t]
    r, STATE = STATE, []
    return r


STATE = []


def assertion(s, t):
    try:
        assert s != t, s
        return 'ok'
    except AssertionError as e:
        return str(e)


def unicode_chars(s, t):
    return 'é' in s, s.replace('é', 'e'), [c for c in t if not c.isascii()], len((s + t).encode()), s.upper().isupper()


def percent(s, t):
    return '%s-%r' % (s, t), '%5s|' % s, '%(x)s' % {'x': t}


def print_capture(s, t):
    import contextlib
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        print(s, t, sep='/', end='')
    return f.getvalue()


OPS = [f for f in list(globals().values()) if callable(f) and getattr(f, '__code__', None) and f.__code__.co_varnames[:2] == ('s', 't')
       and f.__code__.co_argcount == 2]
