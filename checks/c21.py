"""C21: affix files are read directive by directive as written."""

REACH = ['switch', 'number', 'flag', 'text', 'synonym', 'rows', 'affix flags', 'zero strip', 'zero add', 'no condition', 'unknown line', 'group in MAP', 'order',
         'phonetic underscore', 'comment', 'ten rows']
BOUNDS = {
    'quick': 'each directive by itself with a symbolic value (numbers of 1..2 digits, any flag character, texts of 1..3 characters), tables of 1..2 '
             'rows with fields of 1..2 symbolic characters, affix tables of 1..2 rows with symbolic fields and with optional columns left out or extra '
             'ones added; a symbolic line of 1..5 characters between directives; every order of four directives; tables of 9, 10 and 12 rows of up to 6 characters, two affix tables of the same kind',
    'thorough': 'fields one character longer, three rows',
}
OUTSIDE = 'tables with fewer rows than announced, comments inside tables, values that are not well-formed, encodings (C23), flag notations (C22)'
ASSUMPTIONS = []

SWITCHES = ['COMPLEXPREFIXES', 'FULLSTRIP', 'NOSPLITSUGS', 'CHECKSHARPS', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP',
            'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE', 'ONLYMAXDIFF', 'COMPOUNDMORESUFFIXES']
NUMBERS = {'MAXDIFF': -1, 'MAXNGRAMSUGS': 4, 'MAXCPDSUGS': 3, 'COMPOUNDMIN': 3, 'COMPOUNDWORDMAX': None}
FLAGS = ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN', 'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE',
         'COMPOUNDEND', 'ONLYINCOMPOUND', 'COMPOUNDPERMITFLAG', 'COMPOUNDFORBIDFLAG', 'FORCEUCASE', 'SUBSTANDARD', 'SYLLABLENUM', 'COMPOUNDROOT']
SYNONYMS = {'PSEUDOROOT': 'NEEDAFFIX', 'COMPOUNDLAST': 'COMPOUNDEND'}
TEXTS = ['KEY', 'TRY', 'WORDCHARS', 'LANG']
PAIRS = ['REP', 'ICONV', 'OCONV', 'PHONE', 'CHECKCOMPOUNDPATTERN']
LISTS = ['BREAK', 'COMPOUNDRULE', 'MAP', 'AM']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('switches', dict(part=i)) for i in range(2)]
    out += [('numbers', dict(n=n)) for n in (1, 2)]
    out += [('flags', {})]
    out += [('syllable', dict(n=n)) for n in (1, 2)]
    out += [('texts', dict(n=n)) for n in range(1, 4 + more)]
    out += [('pairs', dict(name=x, rows=r, n=n)) for x in PAIRS for r in range(1, 3 + more) for n in range(1, (3 if r == 1 else 2) + more)]
    out += [('lists', dict(name=x, rows=r, n=n)) for x in LISTS for r in range(1, 3 + more) for n in range(1, 3 + more)]
    out += [('map', dict(n=n)) for n in range(1, 4 + more)]
    out += [('affixes', dict(kind=k, rows=r, columns=c)) for k in ('SFX', 'PFX') for r in (1, 2) for c in (2, 3, 4, 5)]
    out += [('between', dict(n=n)) for n in range(1, 6 + more)]
    out += [('order', {})]
    out += [('many', dict(name=x)) for x in PAIRS + LISTS + ['SFX', 'PFX', 'AF']]
    return out


def plain(ctx, x):
    """Value as plain data."""
    if hasattr(x, '__dataclass_fields__'):
        return [type(x).__name__] + [plain(ctx, getattr(x, f)) for f in x.__dataclass_fields__]
    if isinstance(x, (list, tuple)):
        return [plain(ctx, y) for y in x]
    if isinstance(x, dict):
        return {ctx.realize(k): plain(ctx, v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(ctx.realize(y) for y in x)
    return ctx.realize(x)


def read(ctx, lines):
    return ctx.dictionary(['SET UTF-8'] + lines, ['1', 'zz']).aff


DEFAULT = {}


def others_unchanged(ctx, aff, names):
    """Every setting not mentioned has the value it has in an empty file."""
    if not DEFAULT:
        empty = read(ctx, [])
        DEFAULT.update({f: plain(ctx, getattr(empty, f)) for f in empty.__dataclass_fields__})
    for f, v in DEFAULT.items():
        if f not in names:
            ctx.check(plain(ctx, getattr(aff, f)) == v, 'settings that are not mentioned keep their defaults')


def switches(ctx, part):
    names = SWITCHES[part::2]
    on = [x for x in names if ctx.realize(ctx.boolean(x))]
    aff = read(ctx, on)
    got = [x for x in SWITCHES if getattr(aff, x) is True]
    ctx.observe('on', got)
    ctx.check(sorted(got) == sorted(on), 'exactly the switches mentioned are on')
    ctx.check(all(getattr(aff, x) is False for x in SWITCHES if x not in on), 'other switches are off')
    others_unchanged(ctx, aff, SWITCHES)
    ctx.reach('switch', len(on) > 1)


def gap(ctx):
    return ctx.choice('gap', [' ', '\t', '  '])


def numbers(ctx, n):
    name = ctx.choice('name', sorted(NUMBERS))
    value = ctx.word('v', n, '0123456789')
    aff = read(ctx, [name + gap(ctx) + value])
    got = ctx.realize(getattr(aff, name))
    ctx.observe('value', got)
    ctx.check(got == int(ctx.realize(value)), 'number')
    others_unchanged(ctx, aff, [name])
    ctx.reach('number', got > 9)


def syllable(ctx, n):
    number, vowels = ctx.word('v', n, '0123456789'), ctx.word('t', n, 'aZ1é')
    aff = read(ctx, ['COMPOUNDSYLLABLE' + gap(ctx) + number + ' ' + vowels])
    got = aff.COMPOUNDSYLLABLE
    ctx.observe('value', got is not None and got[1])
    ctx.check(got is not None and ctx.realize(got[0]) == int(ctx.realize(number)), 'number of syllables')
    ctx.check(got is not None and ctx.eq(got[1], vowels), 'vowels')
    others_unchanged(ctx, aff, ['COMPOUNDSYLLABLE'])


def flags(ctx):
    name = ctx.choice('name', FLAGS + sorted(SYNONYMS))
    value = ctx.char('v', 'aZ1/*é#')
    aff = read(ctx, [name + gap(ctx) + value])
    target = SYNONYMS.get(name, name)
    got = getattr(aff, target)
    ctx.observe('value', got)
    ctx.check(ctx.eq(got, value), 'flag')
    others_unchanged(ctx, aff, [target])
    ctx.reach('flag', ctx.eq(value, 'é'))
    ctx.reach('synonym', target != name)


def texts(ctx, n):
    name = ctx.choice('name', TEXTS + ['IGNORE'])
    value = ctx.word('v', n, 'aZ1|-é_')
    aff = read(ctx, [name + gap(ctx) + value])
    got = getattr(aff, name)
    if name == 'IGNORE':
        got = got.chars
    ctx.observe('value', got)
    ctx.check(ctx.eq(got, value), 'text')
    others_unchanged(ctx, aff, [name])
    ctx.reach('text', len(value) > 1)


def comment(ctx, name):
    tail = ctx.choice(name, ['', ' # x', '\t#'])
    if tail:
        ctx.reach('comment')
    return tail


def pairs(ctx, name, rows, n):
    letters = 'AB' if name == 'PHONE' else 'aB/' if name == 'CHECKCOMPOUNDPATTERN' else 'aB_.^' if n == 1 else 'a_^'
    texts = [(ctx.word(f'p{i}', n, letters), ctx.word(f'q{i}', n, 'aB_' if n == 1 else 'a_')) for i in range(rows)]
    tail = comment(ctx, 'tail') if name != 'CHECKCOMPOUNDPATTERN' else ctx.choice('tail', ['', ' x', ' xy z'])
    g = gap(ctx) if n == 1 else ' '
    aff = read(ctx, [f'{name} {rows}{tail}'] + [name + g + p + g + q + tail for p, q in texts])
    table = getattr(aff, name)
    if name == 'REP':
        got = [(r.pattern, r.replacement) for r in table]
    elif name in ('ICONV', 'OCONV'):
        got = list(table.pairs)
    elif name == 'PHONE':
        got = list(table.table)
    else:
        got = [(r.left, r.right) for r in table]
        third = [r.replacement for r in table]
        ctx.check(third == [tail.split()[0] if tail else None] * rows, 'third column')
    ctx.observe('rows', [[a, b] for a, b in got])
    ctx.check(len(got) == rows, 'number of rows')
    for (a, b), (p, q) in zip(got, texts):
        ctx.check(ctx.eq(a, p), 'pattern of the row')
        if name == 'PHONE':
            q = '' if ctx.realize(q) == '_' else q
            ctx.reach('phonetic underscore', ctx.eq(q, ''))
        ctx.check(ctx.eq(b, q), 'replacement of the row')
    others_unchanged(ctx, aff, [name])
    ctx.reach('rows', rows == 2)


def lists(ctx, name, rows, n):
    letters = {'BREAK': '-^$a', 'COMPOUNDRULE': 'AB', 'MAP': 'abc', 'AM': 'ab:'}[name]
    texts = [ctx.word(f'p{i}', n, letters) for i in range(rows)]
    tail = comment(ctx, 'tail') if name != 'AM' else ''
    aff = read(ctx, [f'{name} {rows}'] + [name + ' ' + p + tail for p in texts])
    table = getattr(aff, name)
    if name == 'BREAK':
        got = [r.pattern for r in table]
    elif name == 'COMPOUNDRULE':
        got = [r.text for r in table]
    elif name == 'MAP':
        got = [''.join(ctx.realize(c) for c in r) for r in table]
        texts = [ctx.realize(t) for t in texts]
    else:
        ctx.check([ctx.realize(k) for k in table] == [str(i + 1) for i in range(rows)], 'alias numbers')
        got = [ctx.realize(list(table[str(i + 1)])[0]) for i in range(rows)]
        ctx.check(all(len(v) == 1 for v in table.values()), 'one field per alias')
    ctx.observe('rows', got)
    ctx.check(len(got) == rows, 'number of rows')
    for a, p in zip(got, texts):
        ctx.check(ctx.eq(a, p), 'row')
    others_unchanged(ctx, aff, [name])


def map(ctx, n):
    """Groups in parentheses are one element."""
    items = []
    for i in range(n):
        group = ctx.choice(f'group{i}', [False, True])
        items.append((group, ctx.word(f'p{i}', 2 + i if group else 1, 'ab' + "'-."[i])))
    line = ''
    for group, text in items:
        line = line + ('(' + text + ')' if group else text)
    aff = read(ctx, ['MAP 1', 'MAP ' + line])
    got = [ctx.realize(x) for x in aff.MAP[0]]
    ctx.observe('items', sorted(got))
    want = [ctx.realize(t) for _, t in items]
    ctx.check(len(aff.MAP) == 1 and sorted(set(got)) == sorted(set(want)), 'elements of a MAP row')
    ctx.reach('group in MAP', any(g for g, _ in items))


def affixes(ctx, kind, rows, columns):
    """columns: how many fields after the flag are written (2: no condition, 4: one extra, 5: comment)."""
    flag = ctx.char('flag', 'AB/')
    cross = ctx.choice('cross', ['Y', 'N'])
    lines = [kind + ' ' + flag + f' {cross} {rows}' + (' # x' if columns == 5 else '')]
    want = []
    for i in range(rows):
        strip = ctx.word(f's{i}', 1, '0ab') if rows == 2 else ctx.choice('s', ['0', 'ab', '00', 'a']) 
        add = ctx.word(f'a{i}', 1 if rows == 2 else 2, '0a')
        more = ctx.choice(f'f{i}', ['', '/X', '/XY', '/X/'] if rows == 1 else ['', '/YX'])
        cond = ctx.choice(f'c{i}', ['.', '[ab]', '[^a-]b'] if rows == 1 else ['.', 'a'])
        fields = [strip, add + more, cond, 'po:x', '#'][:columns]
        line = kind + ' ' + flag
        for f in fields:
            line = line + ' ' + f
        lines.append(line)
        want.append((strip, add, set(more[1:]), cond if columns > 2 else ''))
    other = ['PFX' if kind == 'SFX' else 'SFX', 'Z', 'Y', '1']
    aff = read(ctx, [' '.join(other), f'{other[0]} Z x y z'] + lines + ['MAXDIFF 7'])
    table = getattr(aff, kind)
    name = ctx.realize(flag)
    ctx.check([ctx.realize(k) for k in table] == [name], 'table is stored under its flag')
    got = list(table.values())[0]
    ctx.observe('affixes', [[a.flag, a.crossproduct, a.strip, a.add, a.condition, sorted(ctx.realize(f) for f in a.flags)] for a in got])
    ctx.check(len(got) == rows, 'number of affixes')
    ctx.check(aff.MAXDIFF == 7 and list(getattr(aff, other[0])) == ['Z'], 'other directives')
    for a, (strip, add, more, cond) in zip(got, want):
        ctx.check(type(a).__name__ == ('Suffix' if kind == 'SFX' else 'Prefix'), 'kind')
        ctx.check(ctx.eq(a.flag, name), 'flag')
        ctx.check(a.crossproduct == (cross == 'Y'), 'cross product')
        ctx.check(ctx.eq(a.strip, '' if ctx.realize(strip) == '0' else strip), 'strip')
        ctx.check(ctx.eq(a.add, '' if ctx.realize(add) == '0' else add), 'add')
        ctx.check({ctx.realize(f) for f in a.flags} == more, 'continuation flags')
        ctx.check(ctx.eq(a.condition, cond), 'condition')
        ctx.reach('affix flags', len(more) > 1)
        ctx.reach('zero strip', ctx.eq(strip, '0'))
        ctx.reach('zero add', ctx.eq(add, '0'))
        ctx.reach('no condition', columns == 2)


def many(ctx, name):
    """Tables with ten and more rows, and two tables of the same kind."""
    rows = ctx.choice('rows', [9, 10, 12])
    free = ctx.choice('free', [0, rows - 1])
    letters = 'CD' if name in ('PHONE', 'COMPOUNDRULE') else 'cd'
    texts = ['AB'[i % 2] * (i // 2 + 1) if letters == 'CD' else 'ab'[i % 2] * (i // 2 + 1) for i in range(rows)]
    texts[free] = ctx.word('t', 2, letters)
    flags = {}
    if name in ('SFX', 'PFX'):
        lines = [f'{name} A Y {rows}'] + [f'{name} A 0 ' + t + ' .' for t in texts] + [f'{name} B N 1', f'{name} B x y x']
    elif name in PAIRS:
        lines = [f'{name} {rows}'] + [f'{name} ' + t + ' Z' for t in texts]
    else:
        lines = [f'{name} {rows}'] + [f'{name} ' + t for t in texts]
    a = read(ctx, lines + ['MAXDIFF 7'])
    table = getattr(a, name)
    ctx.check(a.MAXDIFF == 7, 'directive after the table')
    if name in ('SFX', 'PFX'):
        ctx.check(sorted(ctx.realize(k) for k in table) == ['A', 'B'], 'two tables')
        ctx.check([(ctx.realize(x.add), x.crossproduct, x.strip) for x in table['B']] == [('y', False, 'x')], 'second table')
        got = [x.add for x in table['A']]
        ctx.check(all(x.crossproduct for x in table['A']), 'cross product of the first table')
    elif name == 'AF':
        got = [table[str(i + 1)] for i in range(rows)]
        ctx.check(len(table) == rows, 'number of rows')
        ctx.observe('rows', [sorted(ctx.realize(f) for f in x) for x in got])
        for x, t in zip(got, texts):
            ctx.check({ctx.realize(f) for f in x} == set(ctx.realize(t)), 'flags of the alias')
        return
    elif name == 'AM':
        got = [ctx.realize(list(table[str(i + 1)])[0]) for i in range(rows)]
        ctx.check(len(table) == rows, 'number of rows')
    elif name == 'REP':
        got = [r.pattern for r in table]
    elif name in ('ICONV', 'OCONV'):
        got = [r[0] for r in table.pairs]
    elif name == 'PHONE':
        got = [r[0] for r in table.table]
    elif name == 'CHECKCOMPOUNDPATTERN':
        got = [r.left for r in table]
    elif name == 'BREAK':
        got = [r.pattern for r in table]
    elif name == 'COMPOUNDRULE':
        got = [r.text for r in table]
    else:
        got = [''.join(ctx.realize(c) for c in r) for r in table]
    ctx.observe('rows', got)
    ctx.check(len(got) == rows, 'number of rows')
    for x, t in zip(got, texts):
        ctx.check(ctx.eq(x, t), 'row')
    ctx.reach('ten rows', rows > 9)


MIXED = [['TRY ab'], ['MAXDIFF 2'], ['REP 1', 'REP a b'], ['SFX A Y 1', 'SFX A 0 b .'], ['NEEDAFFIX X'], ['BREAK 1', 'BREAK -'], ['CHECKCOMPOUNDDUP']]


def between(ctx, n):
    """A line that is no directive changes nothing."""
    line = ctx.word('l', n, ['#aT1', 'RX #', 'Z ', 'a ', 'a'])
    where = ctx.choice('where', [0, 2, len(MIXED)])
    lines = [x for block in MIXED[:where] for x in block] + [line] + [x for block in MIXED[where:] for x in block]
    a, b = read(ctx, lines), read(ctx, [x for block in MIXED for x in block])
    got = plain(ctx, a)
    ctx.observe('settings', got[:3])
    ctx.check(got == plain(ctx, b), 'other lines do not matter')
    ctx.reach('unknown line', n == 4)


def order(ctx):
    """Order of the directives."""
    left = list(range(len(MIXED)))
    lines = []
    for i in range(4):
        k = ctx.choice(f'next{i}', list(range(len(left))))
        lines += MIXED[left.pop(k)]
    for k in left:
        lines += MIXED[k]
    got = plain(ctx, read(ctx, lines))
    ctx.observe('settings', got[:3])
    ctx.check(got == plain(ctx, read(ctx, [x for block in MIXED for x in block])), 'order does not matter')
    ctx.reach('order')
