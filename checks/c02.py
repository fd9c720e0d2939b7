"""C02: NEEDAFFIX, CIRCUMFIX and ONLYINCOMPOUND decide which forms may stand alone."""

from checks.lang import Maker, generate, aff, dic

REACH = ['accepted', 'needaffix rejects', 'circumfix rejects', 'onlyincompound rejects', 'circumfix pair accepted',
         'needaffix with affix accepted', 'outer prefix', 'outer prefix and suffix']
BOUNDS = {
    'quick': 'words of 3..6 characters; two homonyms, a prefix, an inner and an outer suffix; every combination of the flags '
             'NEEDAFFIX, CIRCUMFIX, ONLYINCOMPOUND and the affix flags on entries and rows; '
             'directives present and absent; two prefixes and a suffix with COMPLEXPREFIXES',
    'thorough': 'words of 3..8 characters',
}
OUTSIDE = 'CIRCUMFIX/ONLYINCOMPOUND on an outer affix of a twofold chain; more than two homonyms'
ASSUMPTIONS = []


def tasks(tier):
    sets = ['NX', 'NO', 'XO', 'NXO']
    out = []
    for usage in sets:
        for n in range(3, 7 if tier == 'quick' else 9):
            out.append(('usage', dict(usage=usage, n=n, declared=usage)))
    for n in range(3, 7):
        out.append(('usage', dict(usage='N', n=n, declared='')))
        out.append(('usage', dict(usage='X', n=n, declared='')))
        out.append(('usage', dict(usage='O', n=n, declared='')))
    out += [('prefixes', dict(usage=u, n=n)) for u in sets for n in range(2, 6 if tier == 'quick' else 7)]
    return out


def usage(ctx, usage, n, declared):
    m = Maker(ctx)
    entries = [m.entry('e0', 'abc', 'AP' + usage), m.entry('e1', 'abc', usage, always='A')]
    outer = ''.join(u for u in usage if u == 'N')
    rows = [m.affix('p', 'PF', 'P', '', 'x', maybe=usage),
            m.affix('s', 'SF', 'A', '', 'y', maybe=usage, always='B'),
            m.affix('t', 'SF', 'B', '', 'z', maybe=outer)]
    opts = {'N': 'NEEDAFFIX', 'X': 'CIRCUMFIX', 'O': 'ONLYINCOMPOUND'}
    d = ctx.dictionary(aff(*[f'{opts[u]} {u}' for u in declared], affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abcxyz')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    kw = dict(needaffix='N' if 'N' in declared else None, circumfix='X' if 'X' in declared else None,
              onlyincompound='O' if 'O' in declared else None)
    forms = [g for g in generate(entries, rows) if len(g.text) == n]
    spec = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed(), g.standalone(**kw)) for g in forms])
    ctx.reach('accepted', got)
    for g in forms:
        here = ctx.AND(ctx.eq(w, g.text), g.licensed())
        if kw['needaffix']:
            ctx.reach('needaffix rejects', ctx.AND(here, ctx.NOT(got), ctx.NOT(g.fits(needaffix='N'))))
            if g.affixes:
                ctx.reach('needaffix with affix accepted', ctx.AND(here, got, entries[0].carries('N'), entries[1].carries('N')))
        if kw['circumfix']:
            ctx.reach('circumfix rejects', ctx.AND(here, ctx.NOT(got), ctx.NOT(g.fits(circumfix='X'))))
            if g.prefixes and g.suffixes:
                ctx.reach('circumfix pair accepted', ctx.AND(here, got, g.prefixes[0].carries('X')))
        if kw['onlyincompound']:
            ctx.reach('onlyincompound rejects', ctx.AND(here, ctx.NOT(got), g.carries('O')))
    ctx.check(ctx.IFF(got, spec), 'accepted exactly when usage flags permit')


def prefixes(ctx, usage, n):
    """The same with two prefixes."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'AP' + usage)]
    outer = ''.join(u for u in usage if u == 'N')
    rows = [m.affix('p', 'PF', 'P', '', 'x', maybe=usage, always='Q'), m.affix('q', 'PF', 'Q', '', 'y', maybe=outer), m.affix('s', 'SF', 'A', '', 'z', maybe=usage)]
    opts = {'N': 'NEEDAFFIX', 'X': 'CIRCUMFIX', 'O': 'ONLYINCOMPOUND'}
    d = ctx.dictionary(aff('COMPLEXPREFIXES', *[f'{opts[u]} {u}' for u in usage], affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abxyz')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    kw = dict(needaffix='N' if 'N' in usage else None, circumfix='X' if 'X' in usage else None, onlyincompound='O' if 'O' in usage else None)
    forms = [g for g in generate(entries, rows, True) if len(g.text) == n]
    ctx.check(ctx.IFF(got, ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed(), g.standalone(**kw)) for g in forms])), 'accepted exactly when usage flags permit')
    ctx.reach('outer prefix', n == 4 and ctx.AND(got, ctx.eq(w, 'yxab')))
    ctx.reach('outer prefix and suffix', n == 5 and 'N' in usage and ctx.AND(got, ctx.eq(w, 'yxabz'), rows[0].carries('N'), rows[2].carries('N')))
