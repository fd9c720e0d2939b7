"""C30: the order of entries and affix rows does not change what is accepted."""

import itertools

from checks.lang import Maker, Affix, dic

REACH = ['accepted', 'rejected', 'entries permuted', 'rows permuted', 'tables permuted', 'affixed', 'compound', 'homonyms differ', 'capitals']

# options, affix tables (kind, flag, cross, rows (strip, add, condition, flags)), entries (stem, optional flags, fixed flags), alphabet, word lengths
FAMILIES = {
    'affixes': ([], [('SF', 'S', True, [('', 'b', '.', ''), ('a', 'b', 'a', 'T'), ('', 'bb', '[^b]', '')]), ('SF', 'T', True, [('', 'a', '.', ''), ('b', '', 'b', '')]),
                     ('PF', 'P', True, [('', 'b', '.', ''), ('', 'ab', '.', 'S')])],
                [('a', 'SP', ''), ('ba', 'T', 'S'), ('ab', '', 'P')], 'ab', (2, 3, 4)),
    'usage flags': (['NEEDAFFIX X', 'FORBIDDENWORD F', 'CIRCUMFIX C', 'ONLYINCOMPOUND O'],
                    [('SF', 'S', True, [('', 'b', '.', ''), ('', 'b', 'a', 'C'), ('', 'c', '.', 'X')]), ('PF', 'P', True, [('', 'b', '.', 'C'), ('', 'c', '.', '')])],
                    [('a', 'XF', 'SP'), ('a', 'XO', 'S'), ('a', 'F', ''), ('ab', 'F', 'P')], 'abc', (1, 2, 3)),
    'case': (['KEEPCASE K', 'FORBIDDENWORD F'], [('SF', 'S', True, [('', 'a', '.', ''), ('b', 'A', '.', '')])],
             [('ab', 'KF', 'S'), ('Ab', 'KF', ''), ('aB', 'F', ''), ('AB', 'K', '')], 'abAB', (2, 3)),
    'mixed case': (['NEEDAFFIX X', 'KEEPCASE K', 'ONLYINCOMPOUND O'], [('SF', 'S', True, [('', 'a', '.', ''), ('', 'A', '.', 'X')])],
                   [('aBa', 'XK', 'S'), ('abA', 'XO', ''), ('aBA', 'KS', '')], 'abAB', (3, 4)),
    'compounds': (['COMPOUNDFLAG C', 'COMPOUNDBEGIN B', 'COMPOUNDEND E', 'COMPOUNDMIN 1', 'FORCEUCASE U', 'FORBIDDENWORD F', 'CHECKCOMPOUNDCASE'],
                  [('SF', 'S', True, [('', 'b', '.', 'C'), ('', 'b', '.', '')])],
                  [('a', 'CU', 'S'), ('a', 'BF', ''), ('bc', 'EU', ''), ('c', '', 'C')], 'abcA', (2, 3, 4)),
    'compound rules': (['COMPOUNDRULE 2', 'COMPOUNDRULE A*B', 'COMPOUNDRULE BC?', 'COMPOUNDMIN 1', 'FORBIDDENWORD F'], [],
                       [('a', 'AB', ''), ('a', 'CF', 'B'), ('b', 'B', 'A'), ('ab', 'F', 'C')], 'abc', (2, 3)),
    'compound checks': (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDREP', 'REP 1', 'REP b c', 'CHECKCOMPOUNDPATTERN 1', 'CHECKCOMPOUNDPATTERN a/D b/E'], [],
                        [('a', 'CD', ''), ('a', 'CE', ''), ('b', 'E', 'C'), ('ac', '', '')], 'abc', (2, 3)),
    'two suffixes': ([], [('SF', 'S', True, [('', 'a', '.', 'T'), ('', 'a', '.', 'U')]), ('SF', 'T', False, [('', 'b', '.', '')]), ('SF', 'U', True, [('a', 'b', 'a', ''), ('', 'c', '.', '')]),
                          ('PF', 'P', True, [('', 'c', '.', '')])],
                     [('c', 'ST', ''), ('c', 'PU', ''), ('ca', 'P', 'U')], 'abc', (2, 3, 4)),
    'sharp s': (['CHECKSHARPS', 'KEEPCASE K'], [], [('ßa', 'K', ''), ('ssa', 'K', ''), ('Ssa', '', ''), ('SSa', '', '')], 'ßsaSA', (2, 3)),
}
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries ({", ".join(FAMILIES)}) of 3..4 entries (homonyms and case variants) and up to 4 affix tables of up to 3 rows, with symbolic flags; '
             'all permutations of the entries, of the rows of each table and of the tables; every word of 1..4 characters over 2..5 letters',
    'thorough': 'entries, rows and tables permuted at the same time; words one character longer',
}
OUTSIDE = 'permutations of other directives (REP, ICONV, BREAK, COMPOUNDRULE)'
ASSUMPTIONS = []


def tasks(tier):
    out = []
    for fam in sorted(FAMILIES):
        f = FAMILIES[fam]
        whats = ['entries'] + (['rows', 'tables'] if f[1] else [])
        out += [('permuted', dict(fam=fam, what=[x], n=n)) for x in whats for n in f[4]]
        if tier != 'quick':
            out += [('permuted', dict(fam=fam, what=[x], n=f[4][-1] + 1)) for x in whats]
            if f[1]:
                out += [('permuted', dict(fam=fam, what=whats, n=f[4][-1]))]
    return out


def permuted(ctx, fam, what, n):
    options, tables, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, maybe, always) for i, (s, maybe, always) in enumerate(stems)]
    groups = []
    for kind, flag, cross, rows in tables:
        affixes = [Affix(kind, flag, strip, add, cond, cross, flags) for strip, add, cond, flags in rows]
        groups.append([f'{kind}X {flag} {"Y" if cross else "N"} {len(rows)}', [a.line() for a in affixes]])

    def shuffled(name, items):
        perms = list(itertools.permutations(range(len(items))))
        return [items[i] for i in ctx.choice(name, perms)]

    def load(entries, groups):
        return ctx.dictionary(['SET UTF-8', *options, *[line for head, rows in groups for line in (head, *rows)]], dic(entries))
    w = ctx.word('w', n, alphabet)
    d = load(entries, groups)
    accepted = bool(d.lookup(w))
    entries2, groups2 = entries, groups
    if 'entries' in what:
        entries2 = shuffled('order', entries)
    if 'rows' in what:
        groups2 = [[head, shuffled(f'rows{i}', rows)] for i, (head, rows) in enumerate(groups2)]
    if 'tables' in what:
        groups2 = shuffled('tables', groups2)
    d2 = load(entries2, groups2)
    ctx.observe('accepted', accepted)
    ctx.check(accepted == bool(d2.lookup(w)), 'the order does not matter')
    ctx.reach('accepted' if accepted else 'rejected')
    ctx.reach('entries permuted', entries2 != entries)
    ctx.reach('rows permuted', 'rows' in what and groups2 != groups)
    ctx.reach('tables permuted', 'tables' in what and groups2 != groups)
    ctx.reach('affixed', fam == 'affixes' and n == 3 and accepted)
    ctx.reach('compound', fam == 'compounds' and n == 3 and accepted)
    ctx.reach('homonyms differ', fam == 'usage flags' and accepted and ctx.AND(entries[0].carries('X'), ctx.NOT(entries[1].carries('X'))))
    ctx.reach('capitals', fam == 'case' and accepted and w == w.upper())
