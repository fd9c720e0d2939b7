"""C09: a word is accepted if some breaking gives accepted parts."""

from checks.lang import Maker, aff, dic

REACH = ['accepted by breaking', 'rejected', 'breaking at one of two places', 'capitalised part', 'ten cuts', 'part of five', 'number as a part', 'compound as a part', 'affixed part', 'part in capitals', 'part that may not stand alone']

DEFAULT = ('-', '^-', '-$')
FAMILIES = [
    # BREAK list (None: no directive), stems, alphabet of the words, longest word
    (None, ['a', 'ab', 'a-b', 'b-'], 'ab-', 6),
    (None, ['a', 'a-a', '-b', 'a-'], 'aA-b', 5),
    ((), ['a', 'a-b', 'b'], 'ab-', 4),
    (('-',), ['a', 'b', 'a-b', '-a', 'b-'], 'ab-', 6),
    (('^-', '-$'), ['a', 'b', 'a-b'], 'ab-', 5),
    (('-', '+'), ['a', 'b', 'a+b', 'b-a'], 'ab-+', 5),
    (('--', '.'), ['a', 'b', 'a-b', 'a-'], 'ab-.', 6),
    (('^.', 'b'), ['a', 'aa', 'ab', 'b'], 'ab.', 6),
    (('a', '^bb', 'bb$', '-'), ['b', 'bb', 'bab', 'a'], 'ab-', 6),
    (('*', '^(', ')$', '[-]'), ['a', 'b'], 'ab*()', 5),
    (('[-]', '|'), ['a', 'b', 'a-'], 'ab[-]|', 5),
    (('-', '.'), ['a', '1a', 'a-'], 'a1-.', 5),
]
SHAPES = ['xxx-x', 'x-xxx', 'xx-xx', 'x-xx-x', '-xxx', 'xxx-', 'x-x-x-x', 'xxx--x', '-xx-x-']
BOUNDS = {
    'quick': f'{len(FAMILIES)} BREAK lists (default, empty, one, anchored, several, multi-character, special characters) with '
             'dictionaries of up to 5 entries each of which may or may not be able to stand alone; every word up to 4..6 characters; words of up to 11 parts with four of them free; compounds, affixed and capitalised words as parts of words of 1..4 parts',
    'thorough': 'words up to one character longer',
}
OUTSIDE = 'words with more than ten cuts (spylls gives up there)'
ASSUMPTIONS = ['which words without break points are accepted is decided by other properties', '"start" and "both sides" refer to the word or to what remains of it after the previous cut']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('breaking', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1, f[3] + 1 + more)] + \
        [('many', dict(cuts=c)) for c in range(4, 11)] + [('parts', dict(shape=s)) for s in SHAPES]


def many(ctx, cuts):
    """As many cuts as spylls makes."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'O'), m.entry('e1', 'b'), m.entry('e2', 'a-b', 'O'), m.entry('e3', 'a-b-b-b-b', 'O')]
    d = ctx.dictionary(aff('ONLYINCOMPOUND O'), dic(entries))
    free = {0, 1, cuts // 2, cuts}
    parts = [ctx.char(f'w{i}', 'ab' if i in free else 'b') for i in range(cuts)] + [ctx.char('last', 'abx')]
    w = parts[0]
    for x in parts[1:]:
        w = w + '-' + x
    got = d.lookup(w)
    ctx.observe('lookup', got)
    a, ab, long = (ctx.NOT(entries[i].carries('O')) for i in (0, 2, 3))
    # accepted[i]: the parts from number i on
    accepted = {len(parts): True}
    for i in range(len(parts) - 1, -1, -1):
        single = ctx.OR(ctx.eq(parts[i], 'b'), ctx.AND(ctx.eq(parts[i], 'a'), a))
        ways = [ctx.AND(single, accepted[i + 1])]
        if i + 1 < len(parts):
            ways.append(ctx.AND(ctx.eq(parts[i], 'a'), ctx.eq(parts[i + 1], 'b'), ab, accepted[i + 2]))
        if i + 5 <= len(parts):
            ways.append(ctx.AND(ctx.eq(parts[i], 'a'), *[ctx.eq(x, 'b') for x in parts[i + 1:i + 5]], long, accepted[i + 5]))
        accepted[i] = ctx.OR(ways)
    ctx.check(ctx.IFF(got, accepted[0]), 'accepted iff some breaking gives accepted parts')
    ctx.reach('ten cuts', ctx.AND(cuts == 10, got))
    ctx.reach('part of five', ctx.AND(cuts > 6, got, ctx.NOT(a), ctx.NOT(ab)))


def breaking(ctx, fam, n):
    patterns, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, 'O') for i, s in enumerate(stems)]
    opts = ['ONLYINCOMPOUND O']
    if patterns is not None:
        opts += [f'BREAK {len(patterns)}'] + [f'BREAK {p}' for p in patterns]
    d = ctx.dictionary(aff(*opts), dic(entries))
    w = ctx.word('w', n, alphabet)
    got = d.lookup(w)
    ctx.observe('lookup', got)
    pats = [(p.strip('^$'), p.startswith('^'), p.endswith('$')) for p in (DEFAULT if patterns is None else patterns)]

    def good(i, j):
        out = []
        for e in entries:
            for s in {e.stem, e.stem[0].upper() + e.stem[1:], e.stem.upper()}:
                if len(s) == j - i:
                    out.append(ctx.AND(ctx.eq(w[i:j], s), ctx.NOT(e.carries('O'))))
        if '1' in alphabet:
            for p in (None, *range(i + 1, j - 1)):
                out.append(ctx.AND([ctx.eq(w[k], '.' if k == p else '1') for k in range(i, j)]))
        return ctx.OR(out)

    def piece(i, j):
        return True if i == j else good(i, j)

    # accepted[i]: what remains of the word from position i on is accepted
    accepted = {n: True}
    for i in range(n - 1, -1, -1):
        ways = [good(i, n)]
        for core, start, end in pats:
            k = len(core)
            for p in range(i, n - k + 1):
                if start and p > i or end and p + k < n or not start and not end and (p == i or p + k == n):
                    continue
                ways.append(ctx.AND(ctx.eq(w[p:p + k], core), piece(i, p), accepted[p + k]))
        accepted[i] = ctx.OR(ways)
    ctx.check(ctx.IFF(got, accepted[0]), 'accepted iff some breaking gives accepted parts')
    ctx.reach('accepted by breaking', ctx.AND(got, ctx.NOT(good(0, n))))
    ctx.reach('rejected', ctx.NOT(got))
    if fam == 0 and n == 5:
        ctx.reach('breaking at one of two places', ctx.AND(got, ctx.eq(w, 'a-b-a'), ctx.NOT(good(2, 3))))
    if '1' in alphabet and n == 3:
        ctx.reach('number as a part', ctx.AND(got, ctx.eq(w, 'a-1')))
    if fam == 1 and n == 3:
        ctx.reach('capitalised part', ctx.AND(got, ctx.eq(w, 'A-A')))


def parts(ctx, shape):
    """Compounds, affixed and capitalised words as parts."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'COK', 'S'), m.entry('e1', 'b', 'OF', 'C'), m.entry('e2', 'Ab', 'O')]
    row = m.affix('s', 'SF', 'S', '', 'a', maybe='NK')
    options = ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F', 'KEEPCASE K', 'NEEDAFFIX N']
    d = ctx.dictionary(aff(*options, affixes=[row]), dic(entries))
    chars = [c if c == '-' else ctx.char(f'w{i}', 'abAB' if i < 2 else 'ab') for i, c in enumerate(shape)]
    w = chars[0]
    for c in chars[1:]:
        w = w + c
    got = d.lookup(w)
    ctx.observe('lookup', got)
    pieces, at = [], 0
    for p in shape.split('-'):
        pieces.append(w[at:at + len(p)])
        at += len(p) + 1
    # an unanchored hyphen needs something on both sides: of two in a row the second is at the start of what remains
    ctx.check(ctx.IFF(got, ctx.AND([d.lookup(p) for p in pieces if len(p)])), 'accepted iff the parts are')
    ctx.reach('compound as a part', shape == 'xxx-x' and ctx.AND(got, ctx.eq(pieces[0], 'abb')))
    ctx.reach('affixed part', shape == 'x-xxx' and ctx.AND(got, ctx.eq(pieces[1], 'aba')))
    ctx.reach('part in capitals', shape == 'xx-xx' and ctx.AND(got, ctx.eq(pieces[0], 'AB')))
    ctx.reach('part that may not stand alone', shape == 'xx-xx' and ctx.AND(ctx.NOT(got), ctx.eq(w, 'ab-ab')))
