"""C29: replacement-table corrections come first."""

from checks.lang import Maker, Affix, aff, generate

REACH = ['correction', 'correction by ph:', 'anchored at start', 'anchored at end', 'whole word', 'phrase of words', 'entry with a space',
         'longer phrase', 'affixed word', 'not suggested', 'before others', 'special character', 'overlapping places', 'capitals',
         'not accepted for its REP row', 'shortened ph:', 'ph: with arrow', 'symbolic row']

# REP rows, tables of other edits, affixes, entries (stem, optional flags, ph: value), alphabet, word lengths
FAMILIES = [
    ([('b', 'cc'), ('^ca', 'b'), ('a$', 'c'), ('d', '_'), ('^abc$', 'c_ed')], ['TRY abc', 'KEY ab|cd', 'MAP 1', 'MAP bd'], [],
     [('acc', 'N', ''), ('bcb', 'F', ''), ('ed', 'NF', ''), ('a', '', ''), ('ec', '', ''), ('c', '', '')], 'abcde', (1, 2, 3, 4)),
    ([('b', 'ee'), ('e', 'c')], ['TRY abe'], [('SF', 'S', '', 'c', '.', True), ('PF', 'P', '', 'b', '.', True)],
     [('aee', 'SPN', ''), ('ae', 'S', ''), ('c', 'PF', '')], 'abce', (2, 3, 4)),
    ([('ad', 'a')], ['TRY abc', 'KEY abcd'], [],
     [('abc', 'N', 'ac'), ('bca', 'F', 'bda*'), ('ccb', '', 'dd->cb'), ('b c', '', 'bdc'), ('bc', '', ''), ('ca', '', 'ba->ca')], 'abcd', (2, 3, 4)),
    ([('.', 'a'), ('b+', 'c'), ('(', 'bb'), ('^[', 'a')], ['TRY abc'], [],
     [('aa', '', ''), ('cb', '', ''), ('abb', '', 'a?b'), ('bba', 'N', ''), ('a[c', '', 'a\\d')], 'ab.+([?\\', (2, 3)),
    (None, ['TRY ab'], [], [('ab', 'N', ''), ('ca', '', ''), ('bcb', '', ''), ('aa', '', '')], 'abc', (2, 3)),
    ([('aa', 'b'), ('bab', 'c_c')], ['TRY ab'], [], [('ab', '', ''), ('aab', 'N', ''), ('c', '', ''), ('bac', '', '')], 'abc', (2, 3, 4, 5)),
    ([('b', 'c'), ('B', 'cc'), ('d', 'c_A'), ('^C', 'Ac')], ['TRY abc'], [], [('ac', 'N', ''), ('Ac', '', ''), ('ACC', '', ''), ('A', '', ''), ('acA', '', '')],
     'abAdC', (2, 3)),
    ([('c', 'a_b_a_b'), ('d', 'b_a_b')], ['TRY ab'], [], [('a', 'N', ''), ('b', '', ''), ('ba', '', ''), ('b a b', '', '')], 'abcd', (2, 3)),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries with up to 5 REP rows (anchors, underscores, special characters, one family with a symbolic row of 1..2 -> 1..2 '
             'characters) and ph: data in its three forms, symbolic NOSUGGEST/FORBIDDENWORD/affix flags, every word of 1..5 characters over 3..8 letters',
    'thorough': 'words one character longer',
}
OUTSIDE = 'compound words, misspellings of one character (documented not to be replaced), the limit of 15 suggestions, KEEPCASE'
ASSUMPTIONS = ['suggestions differing from the correction only in letter case are left to C16']


def tasks(tier):
    out = [('first', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in f[5]]
    if tier != 'quick':
        out += [('first', dict(fam=i, n=f[5][-1] + 1)) for i, f in enumerate(FAMILIES)]
    return out


def phrase(text):
    """Pieces between spaces."""
    out, cur = [], ''
    for c in text:
        if type(c) is str and c == ' ':
            out.append(cur)
            cur = ''
        else:
            cur = cur + c
    return out + [cur]


def first(ctx, fam, n):
    rep, others, affixes, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    if rep is None:
        rows = [(ctx.word('pattern', ctx.choice('pn', [1, 2]), 'ab'), ctx.word('replacement', ctx.choice('rn', [1, 2]), 'bc'))]
    else:
        rows = list(rep)
    affixes = [Affix(*a) for a in affixes]
    entries = [m.entry(f'e{i}', s, f) for i, (s, f, _) in enumerate(stems)]
    options = ['MAXNGRAMSUGS 0', 'NOSUGGEST N', 'FORBIDDENWORD F'] + others
    table = [f'REP {len(rows)}'] + ['REP ' + p + ' ' + r for p, r in rows]
    d = ctx.dictionary(aff(*options, *table, affixes=affixes),
                       [str(len(stems))] + [e.line() + (' ph:' + p if p else '') for e, (_, _, p) in zip(entries, stems)])
    plain = ctx.dictionary(aff(*options, affixes=affixes), [str(len(stems))] + [e.line() for e in entries])

    # all replacements
    every = [(p, r, 'correction') for p, r in rows]
    for stem, _, p in stems:
        if p.endswith('*'):
            every.append((p[:-2], stem[:-1], 'shortened ph:'))
        elif '->' in p:
            every.append((*p.split('->'), 'ph: with arrow'))
        elif p:
            every.append((p, stem, 'correction by ph:'))

    # words that may be suggested
    words = []
    for g in generate(entries, affixes):
        words.append((g.text, ctx.AND(g.licensed(), ctx.NOT(g.entry.carries('N')), ctx.NOT(g.entry.carries('F'))), bool(g.affixes)))

    def good(text, only=None):
        return ctx.OR([ctx.AND(ctx.eq(text, t), ok) for t, ok, affixed in words if len(t) == len(text) and only in (None, affixed)])

    w = ctx.word('w', n, alphabet)
    got = list(d.suggest(w))
    ctx.observe('suggestions', got)
    accepted = bool(d.lookup(w))
    ctx.check(accepted == bool(plain.lookup(w)), 'REP rows do not make a word accepted')

    if fam == 6:
        w = ctx.realize(w)

    def same(a, b):
        if len(a) != len(b):
            return False
        return a.lower() == b.lower() if fam == 6 else ctx.eq(a, b)
    found = []      # (place found, text, kind, pattern)
    if n > 1:
        for p, r, kind in every:
            start, end = (p.startswith('^'), p.endswith('$')) if type(p) is str else (False, False)
            core = p[1 if start else 0:len(p) - 1 if end else len(p)]
            r = r.replace('_', ' ') if type(r) is str else r
            k = len(core)
            for i in range(n - k + 1):
                if start and i > 0 or end and i + k < n:
                    continue
                here = ctx.eq(w[i:i + k], core)
                if ctx.possible(here):
                    found.append((here, w[:i] + r + w[i + k:], kind, (start, end, core, i)))

    def by_rep(g):
        return ctx.OR([ctx.AND(here, same(g, t)) for here, t, _, _ in found] + [same(g, w.upper())])
    allowed = [by_rep(g) for g in got]

    for here, text, kind, (start, end, core, i) in found:
        parts = phrase(text)
        whole, several = good(text), False
        if len(parts) > 1:
            several = ctx.AND([good(x) for x in parts])
        cond = ctx.AND(here, ctx.OR(whole, several), ctx.NOT(len(text) == n and ctx.eq(text, w)))
        if not ctx.possible(cond):
            ctx.reach('not suggested', ctx.AND(here, ctx.OR([ctx.eq(text, t) for t, _, _ in words if len(t) == len(text)])))
            continue
        ctx.check(ctx.IMPLIES(cond, ctx.OR([same(g, text) for g in got])), f'correction is suggested: {kind}')
        for j, g in enumerate(got):
            ctx.check(ctx.IMPLIES(ctx.AND(cond, same(g, text)), ctx.AND(allowed[:j])), 'correction comes before suggestions of other kinds')
        ctx.reach(kind, cond)
        ctx.reach('anchored at start', start and cond)
        ctx.reach('anchored at end', end and cond)
        ctx.reach('whole word', start and end and cond)
        ctx.reach('phrase of words', ctx.AND(here, several))
        ctx.reach('longer phrase', len(parts) > 3 and ctx.AND(here, several))
        ctx.reach('entry with a space', len(parts) > 1 and ctx.AND(here, whole))
        ctx.reach('affixed word', ctx.AND(here, good(text, True)))
        ctx.reach('before others', bool(got) and ctx.AND(cond, ctx.NOT(allowed[-1])))
        ctx.reach('special character', fam == 3 and cond)
        ctx.reach('overlapping places', fam == 5 and i == 1 and ctx.AND(cond, ctx.eq(w[:3], 'aaa')))
        ctx.reach('capitals', fam == 6 and captured(w) and cond)
        ctx.reach('symbolic row', fam == 4 and cond)
        ctx.reach('not accepted for its REP row', not accepted and cond)


def captured(w):
    return type(w) is str and w != w.lower()
