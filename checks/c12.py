"""C12: edit suggestions are accepted words."""

from checks.lang import Maker, Affix, aff, dic

REACH = ['single word', 'two words with space', 'two words with dash', 'recased', 'affixed', 'compound', 'dashes']

FAMILIES = [
    # options, affixes, entries (stem, flags that may be present), alphabet, longest word
    (['TRY ab', 'KEY ab|c', 'REP 2', 'REP a bb', 'REP ^b$ a_b', 'MAP 1', 'MAP bc'], [],
     [('ab', ''), ('Ba', ''), ('aB', ''), ('CB', '')], 'abcABC', 4),
    (['TRY b', 'KEEPCASE K', 'NEEDAFFIX X', 'ONLYINCOMPOUND O'], [('SF', 'S', '', 'c', '.', True), ('PF', 'P', '', 'b', '.', True)],
     [('ab', 'KXSO'), ('Ba', 'KSP')], 'abcAB', 4),
    (['TRY ab', 'FORBIDDENWORD F', 'NOSUGGEST N', 'KEEPCASE K'], [('SF', 'S', '', 'c', '.', True)],
     [('ab', 'FKNS'), ('Ab', 'FK'), ('ba', 'NK')], 'abcAB', 4),
    (['TRY ab', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'FORCEUCASE U'], [], [('a', 'CU'), ('bc', 'CU'), ('cb', 'C')], 'abcAB', 4),
    (['TRY ab-'], [], [('a', ''), ('bc', ''), ('a-c', ''), ('b-', '')], 'abc-A', 5),
    (['TRY ac', 'REP 3', 'REP b _', 'REP ac a_c', 'REP ca c_a_c'], [], [('a', ''), ('a c', ''), ('c', ''), ('ca', '')], 'abcA ', 4),
    (['TRY ac', 'CHECKSHARPS', 'KEEPCASE K'], [], [('asß', 'K'), ('assa', ''), ('aaß', '')], 'aßsAS', 4),
    (['LANG tr', 'TRY ai'], [], [('ia', ''), ('ıb', ''), ('İb', '')], 'iıIİab', 4),
    (['TRY ab', 'COMPOUNDRULE 1', 'COMPOUNDRULE C*D', 'COMPOUNDMIN 1', 'NOSUGGEST N', 'FORBIDDENWORD F'], [],
     [('a', 'CNF'), ('bc', 'DNF'), ('ba', '')], 'abcA', 4),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries (letter case and KEEPCASE, NEEDAFFIX and affixes, forbidden and no-suggest words, compounds by flags and rules '
             'with FORCEUCASE, words with dashes and spaces, REP phrases, sharp s, Turkic letters) with symbolic flags; every misspelling of '
             '1..4 characters (5 with dashes) over 4..6 letters',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'n-gram and phonetic suggestions (not promised to be accepted), ICONV, OCONV'
ASSUMPTIONS = []


def tasks(tier):
    return [('accepted', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1, f[4] + (tier != 'quick') + 1)]


def dictionary(ctx, fam):
    options, affixes, stems, _, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    return ctx.dictionary(aff('MAXNGRAMSUGS 0', *options, affixes=[Affix(*a) for a in affixes]), dic(entries))


def parts(text, seps):
    out, cur = [], ''
    for c in text:
        if any(c == s for s in seps):
            out.append(cur)
            cur = ''
        else:
            cur = cur + c
    return out + [cur]


def accepted(ctx, fam, n):
    d = dictionary(ctx, fam)
    w = ctx.word('w', n, FAMILIES[fam][3])
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    for s in got:
        how = None
        if d.lookup(s):
            how = 'single word'
        else:
            for seps, name in ((' ', 'two words with space'), ('-', 'two words with dash'), (' -', 'dashes')):
                p = parts(s, seps)
                if len(p) > 1 and all(x and d.lookup(x) for x in p):
                    how = name
                    break
        ctx.check(how is not None, 'suggestion is accepted by lookup')
        if ' ' in s:
            how = 'two words with space'
        ctx.reach(how)
        if fam == 4 and '-' in s and n == 3:
            ctx.reach('two words with dash')
            ctx.reach('dashes')
        if fam == 1 and s.endswith('c'):
            ctx.reach('affixed')
        if fam == 3 and len(s) > 2:
            ctx.reach('compound')
        if s != s.lower():
            ctx.reach('recased')
