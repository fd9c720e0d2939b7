"""C36: descriptive and unimplemented directives make no difference."""

from checks.lang import Maker, Affix, aff, dic

REACH = ['accepted', 'rejected', 'suggestions', 'flagged entry accepted', 'compound accepted', 'affixed form accepted', 'affix strips the whole stem']
# directive lines that must not matter; X is carried by entries and affixes or not
INERT = [
    ['WARN X'], ['WARN X', 'FORBIDWARN'], ['SUBSTANDARD X'], ['SYLLABLENUM X'], ['COMPOUNDROOT X'], ['LEMMA_PRESENT X'],
    ['WORDCHARS -.0ab'], ['FULLSTRIP'], ['COMPOUNDMORESUFFIXES'], ['COMPOUNDSYLLABLE 1 ab'], ['ONLYROOT X'],
    ['HOME http://ab'], ['VERSION 1'], ['NAME ab'], ['LANG xx'], ['LANG de_DE'],
]
BOUNDS = {
    'quick': f'{len(INERT)} directives or pairs of them against the dictionary without them: affixed words and compounds with the named flag symbolic on '
             'entries and affixes, lookup of every word of 1..5 letters, suggestions for every word of 1..3 letters',
    'thorough': 'one letter more',
}
OUTSIDE = 'combinations of several such directives'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('answers', dict(v=v, n=n)) for v in range(len(INERT)) for n in range(1, 6 + more)]


def answers(ctx, v, n):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'XS'), m.entry('e1', 'ba', 'XC'), m.entry('e2', 'b', 'XCP')]
    affixes = [m.affix('s0', 'SF', 'S', 'ab', 'bba', maybe='X'), m.affix('p0', 'PF', 'P', '', 'a', maybe='X')]
    options = ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 3', 'TRY ab', 'KEY |']
    plain = ctx.dictionary(aff(*options, affixes=affixes), dic(entries))
    other = ctx.dictionary(aff(*INERT[v], *options, affixes=affixes), dic(entries))
    w = ctx.word('w', n, 'ab')
    got, want = other.lookup(w), plain.lookup(w)
    ctx.observe('lookup', got)
    ctx.check(ctx.IFF(got, want), 'lookup answers the same')
    ctx.reach('accepted', got)
    ctx.reach('rejected', ctx.NOT(got))
    if n == 2:
        ctx.reach('flagged entry accepted', ctx.AND(got, ctx.eq(w, 'ab'), entries[0].carries('X')))
    if n == 3:
        ctx.reach('affix strips the whole stem', ctx.AND(got, ctx.eq(w, 'bba'), ctx.NOT(entries[1].carries('C'))))
        ctx.reach('compound accepted', ctx.AND(got, ctx.eq(w, 'bab')))
    if n == 2:
        ctx.reach('affixed form accepted', ctx.AND(got, ctx.eq(w, 'ab'), entries[2].carries('P')))
    if n < 4:
        got, want = [ctx.realize(s) for s in other.suggest(w)], [ctx.realize(s) for s in plain.suggest(w)]
        ctx.observe('suggestions', got)
        ctx.check(got == want, 'suggestions are the same')
        ctx.reach('suggestions', len(got) > 1)
