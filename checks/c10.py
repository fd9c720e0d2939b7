"""C10: numbers, ignored characters and input conversion in lookup."""

from checks.lang import Maker, Entry, Affix, aff, dic, convert

REACH = ['number', 'number with fraction', 'number as a part', 'forbidden number', 'malformed number', 'accepted without ignored', 'rejected with ignored', 'accepted after conversion',
         'rejected after conversion', 'ignored character converted', 'ignored character from conversion']

TABLES = [
    (('x', 'a'),),
    (('xx', 'b'), ('x', 'a')),
    (('_x', 'a'), ('y_', 'b')),
    (('xy', 'ab'), ('y', '-')),
    (('a', 'b'), ('b', 'a')),
    (('x', '1'), ('y', '.')),
]
BOTH = [
    (('ax', 'b'), ('b', 'a')),
    (('a', 'xb'), ('xx', 'a')),
    (('_x', 'a'), ('y_', 'b'), ('c', 'x')),
]
BOUNDS = {
    'quick': 'number words of 1..4 characters over 14 characters and of 5 over 7; IGNORE with entries and affixes containing ignored characters at any '
             f'place and words of 1..4 characters (of 5 over 3..5 characters per place); {len(TABLES)} ICONV tables, words of 1..4 characters; entries forbidden or not; '
             f'{len(BOTH)} ICONV tables together with IGNORE, words of 1..4 characters',
    'thorough': 'words up to one character longer',
}
OUTSIDE = 'numbers in digits of other scripts'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('number', dict(n=n, brk=b)) for n in range(1, 6 + more) for b in (False, True)] + \
           [('ignore', dict(n=n, v=v)) for n in range(1, 6 + more) for v in range(3)] + \
           [('iconv', dict(n=n, t=t)) for n in range(1, 5 + more) for t in range(len(TABLES))] + \
           [('both', dict(n=n, t=t)) for n in range(1, 5 + more) for t in range(len(BOTH))]


DIGITS = '0123456789'


def number(ctx, n, brk):
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'O'), m.entry('e1', '1a', 'O'), m.entry('e2', '7', 'OF'), m.entry('e3', '1.', 'O')]
    d = ctx.dictionary(aff('ONLYINCOMPOUND O', 'FORBIDDENWORD F', *([] if brk else ['BREAK 0'])), dic(entries))
    w = ctx.word('w', n, (DIGITS if n < 5 else '017') + '.,-a')
    got = d.lookup(w)
    ctx.observe('lookup', got)

    def in_dictionary(i, j):
        # capital letters do not occur
        return ctx.OR([ctx.AND(ctx.eq(w[i:j], e.stem), ctx.NOT(e.carries('O')), ctx.NOT(e.carries('F'))) for e in entries if len(e.stem) == j - i])

    def digit(i):
        return ctx.OR([ctx.eq(w[i], c) for c in DIGITS])

    def is_number(i, j):
        ways = [ctx.AND([digit(k) for k in range(i, j)])]
        for p in range(i + 1, j - 1):
            ways.append(ctx.AND([ctx.eq(w[k], '.') if k == p else digit(k) for k in range(i, j)]))
        forbidden = j - i == 1 and ctx.AND(ctx.eq(w[i], '7'), entries[2].carries('F'))
        return ctx.AND(ctx.OR(ways), ctx.NOT(forbidden))

    def good(i, j):
        return ctx.OR(in_dictionary(i, j), is_number(i, j))

    accepted = {n: True}
    for i in range(n - 1, -1, -1):
        ways = [good(i, n)]
        if brk:
            for p in range(i, n):
                ways.append(ctx.AND(ctx.eq(w[p], '-'), True if p == i else good(i, p), accepted[p + 1]))
        accepted[i] = ctx.OR(ways)
    ctx.check(ctx.IFF(got, accepted[0]), 'numbers are accepted and nothing else')
    if n == 4:
        ctx.reach('number', ctx.AND(got, *[digit(i) for i in range(n)]))
        ctx.reach('number with fraction', ctx.AND(got, digit(0), ctx.eq(w[1], '.'), digit(2), digit(3)))
        if brk:
            ctx.reach('number as a part', ctx.AND(got, ctx.eq(w[1], '-'), digit(2), digit(3)))
            ctx.reach('forbidden number', ctx.AND(ctx.NOT(got), ctx.eq(w[1:], '-12')))
        ctx.reach('malformed number', ctx.AND(ctx.NOT(got), digit(0), digit(3), ctx.eq(w[1], '.')))


def strip(w, ignored):
    out = ''
    for c in w:
        if not (c == ignored[0] or c == ignored[1]):
            out = out + c
    return out


def ignore(ctx, n, v):
    m = Maker(ctx)
    # entries and affixes may contain ignored characters
    x = ctx.choice('x', ['', 'x', 'xy'])
    y = ctx.choice('y', ['', 'y'])
    stem, stem2, add, pre = [(x + 'ab', 'c' + y + 'c', 'd' + y, 'e'),
                             ('a' + x + 'b', 'cc' + y, x + 'd' + y, y + 'e'),
                             ('ab' + x, y + 'c' + 'c', 'd', 'e' + x)][v]
    flags = [m.entry('e0', stem, 'SPF'), m.entry('e1', stem2, 'F')]
    plain = [Entry(strip(e.stem, 'xy'), e.flags, e.has) for e in flags]
    affixes = [Affix('SF', 'S', '', add, '.', True), Affix('PF', 'P', '', pre, '.', True)]
    plain_affixes = [Affix('SF', 'S', '', 'd', '.', True), Affix('PF', 'P', '', 'e', '.', True)]
    d = ctx.dictionary(aff('IGNORE xy', 'FORBIDDENWORD F', affixes=affixes), dic(flags))
    reference = ctx.dictionary(aff('FORBIDDENWORD F', affixes=plain_affixes), dic(plain))
    w = ctx.word('w', n, 'abcdexy1' if n < 5 else ['eax', 'abex', 'abcxy', 'bcdy', 'dbx'] + ['dxy'] * (n - 5))
    got = d.lookup(w)
    without = strip(w, 'xy')
    want = reference.lookup(without)
    ctx.observe('lookup', [got, want])
    ctx.check(ctx.IFF(got, want), 'ignored characters make no difference')
    if len(without) < n:
        ctx.reach('accepted without ignored' if got else 'rejected with ignored', len(without) > 0)


def iconv(ctx, n, t):
    m = Maker(ctx)
    rows = TABLES[t]
    entries = [m.entry(f'e{i}', s, 'F') for i, s in enumerate(['a', 'ab', 'ba', 'x'])]
    lines = ['FORBIDDENWORD F']
    d = ctx.dictionary(aff(*lines, f'ICONV {len(rows)}', *[f'ICONV {a} {b}' for a, b in rows]), dic(entries))
    reference = ctx.dictionary(aff(*lines), dic(entries))
    w = ctx.word('w', n, 'abxy1-')
    got = d.lookup(w)
    converted = convert(rows, w)
    want = reference.lookup(converted)
    ctx.observe('lookup', [got, want])
    ctx.check(ctx.IFF(got, want), 'accepted iff the converted spelling is')
    if not (len(converted) == n and converted == w):
        ctx.reach('accepted after conversion' if got else 'rejected after conversion')


def both(ctx, n, t):
    """Ignored characters are removed after the conversion."""
    m = Maker(ctx)
    rows = BOTH[t]
    entries = [m.entry(f'e{i}', s, 'O') for i, s in enumerate(['a', 'ab', 'bb', 'ca'])]
    d = ctx.dictionary(aff('IGNORE xy', 'ONLYINCOMPOUND O', f'ICONV {len(rows)}', *[f'ICONV {a} {b}' for a, b in rows]), dic(entries))
    reference = ctx.dictionary(aff('ONLYINCOMPOUND O'), dic(entries))
    w = ctx.word('w', n, 'abcxy')
    got = d.lookup(w)
    converted = convert(rows, w)
    want = reference.lookup(strip(converted, 'xy'))
    ctx.observe('lookup', [got, want])
    ctx.check(ctx.IFF(got, want), 'accepted iff the converted spelling without ignored characters is')
    if n == 2 and t < 2:
        ctx.reach('ignored character converted', ctx.AND(got, ctx.eq(w, ['ax', 'xx'][t])))
        ctx.reach('ignored character from conversion', ctx.AND(got, t == 1, ctx.eq(w, 'aa')))
