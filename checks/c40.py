"""C40: restricted lookups."""

from checks.lang import Maker, aff, dic

REACH = ['not to be suggested', 'homonym to be suggested', 'affixed', 'compound with a part not to be suggested', 'by rule', 'broken', 'other letter case', 'as written', 'number', 'simplified', 'compound as written', 'forbidden']
BOUNDS = {
    'quick': 'dictionaries of four entries (two of them homonyms, one beginning with a capital) with symbolic NOSUGGEST, FORBIDDENWORD, KEEPCASE, ONLYINCOMPOUND, affix and '
             'compounding flags, every word of 1..5 characters over two letters and a hyphen, or four letters of which two are capitals (1..4 characters)',
    'thorough': 'words one character longer',
}
OUTSIDE = 'special casing; ICONV and IGNORE; FORCEUCASE and other compound checks'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [(h, dict(n=n, rules=r)) for h, last in (('nosuggest', 5), ('exact', 4)) for r in (False, True) for n in range(1, last + 1 + more)]


OPTIONS = ['NOSUGGEST N', 'FORBIDDENWORD F', 'KEEPCASE K', 'ONLYINCOMPOUND O', 'COMPOUNDMIN 1']


def options(rules):
    return OPTIONS + (['COMPOUNDRULE 1', 'COMPOUNDRULE CC'] if rules else ['COMPOUNDFLAG C', 'SIMPLIFIEDTRIPLE'])


def nosuggest(ctx, n, rules):
    """Without words that are not to be suggested."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'NCS'), m.entry('e1', 'ab', 'NF'), m.entry('e2', 'b', 'NC' if rules else 'N', '' if rules else 'C'), m.entry('e3', 'ba', 'NO')]
    if not rules:
        entries[3] = m.entry('e3', 'abb', 'NO', 'C')
    rows = [m.affix('s', 'SF', 'S', '', 'a')]
    d = ctx.dictionary(aff(*options(rules), affixes=rows), dic(entries))
    # the same without these entries
    rest = [e for e in entries if not ctx.realize(ctx.AND(e.carries('N'), ctx.NOT(e.carries('F'))))]
    d2 = ctx.dictionary(aff(*options(rules), affixes=rows), dic(rest))
    w = ctx.word('w', n, 'ab-')
    got, want, plain = d.lookuper(w, allow_nosuggest=False), d2.lookup(w), d.lookup(w)
    ctx.observe('lookup', [bool(got), bool(want), bool(plain)])
    ctx.check(ctx.IFF(got, want), 'as if words not to be suggested were not there')
    ctx.check(ctx.IMPLIES(got, plain), 'accepted in general')
    if plain and not got:
        ctx.reach('not to be suggested', n == 2 and ctx.eq(w, 'ab'))
        ctx.reach('broken', n == 4 and ctx.eq(w, 'ab-b'))
        ctx.reach('by rule' if rules else 'compound with a part not to be suggested', n == 3 and ctx.eq(w, 'abb'))
        ctx.reach('affixed', n == 3 and ctx.eq(w, 'aba'))
    ctx.reach('simplified', n == 3 and not rules and ctx.AND(got, ctx.eq(w, 'abb'), entries[0].carries('N')))
    if n == 2:
        ctx.reach('homonym to be suggested', ctx.AND(got, ctx.eq(w, 'ab'), entries[0].carries('N')))
        ctx.reach('forbidden', ctx.AND(got, ctx.eq(w, 'ab'), entries[1].carries('F')))


def exact(ctx, n, rules):
    """In the letter case as written."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'KCS'), m.entry('e1', 'Ab', 'KO'), m.entry('e2', 'b', 'F', 'C'), m.entry('e3', 'BA', 'N')]
    row = m.affix('s', 'SF', 'S', '', 'a')
    d = ctx.dictionary(aff(*options(rules), affixes=[row]), dic(entries))
    w = ctx.word('w', n, 'abAB' if n > 2 else 'abAB1')
    got = d.lookuper(w, capitalization=False)
    ctx.observe('lookup', got)
    a, b, c, e = entries
    words = [('ab', True), ('Ab', ctx.NOT(b.carries('O'))), ('b', ctx.NOT(c.carries('F'))), ('BA', True), ('aba', a.carries('S')), ('1', True), ('11', True)]
    parts = [('ab', a.carries('C')), ('b', ctx.NOT(c.carries('F')))]
    sums = [([t], k) for t, k in parts]
    for _ in range(1 if rules else n):
        sums += [(ts + [t], ctx.AND(k, k2)) for ts, k in sums for t, k2 in parts if len(''.join(ts)) + len(t) <= n and [*ts, t] not in [x for x, _ in sums]]
    if not rules:
        # the last part may have a suffix
        sums += [(ts + ['aba'], ctx.AND(k, a.carries('C'), a.carries('S'))) for ts, k in sums if len(''.join(ts)) + 3 == n]
    words += [(''.join(ts), k) for ts, k in sums if len(ts) > 1]
    ctx.check(ctx.IFF(got, ctx.OR([ctx.AND(ctx.eq(w, t), k) for t, k in words if len(t) == n])), 'accepted as written only')
    if n == 2:
        ctx.reach('other letter case', ctx.AND(ctx.NOT(got), ctx.eq(w, 'AB')))
        ctx.reach('as written', ctx.AND(got, ctx.eq(w, 'BA')))
        ctx.reach('number', ctx.AND(got, ctx.eq(w, '11')))
    if n == 3:
        ctx.reach('compound as written', ctx.AND(got, ctx.eq(w, 'abb')))
