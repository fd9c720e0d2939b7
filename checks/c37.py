"""C37: a word wrong only in its letter case is corrected to the dictionary's spelling."""

from checks.lang import Affix, Maker, aff, dic, captype, generate

REACH = ['lowered', 'first letter lowered', 'rest lowered', 'in capitals', 'kept spelling', 'recased', 'affixed', 'compound', 'Turkic', 'not to be suggested', 'forbidden']
BASE = ['KEY |', 'MAXNGRAMSUGS 0', 'NOSPLITSUGS', 'KEEPCASE K', 'NOSUGGEST N']
# options, affixes, entries with the flags they may carry, compounding, letters, longest word
FAMILIES = [
    ([], [], [('ab', 'KN'), ('aB', 'K'), ('Ab', 'K'), ('ba', 'K')], False, 'abAB', 4),
    (['FORBIDDENWORD F'], [], [('abc', 'KNF'), ('aBc', 'KF'), ('Abc', 'KF')], False, ['aA', 'bB', 'cC'], 3),
    ([], [('SF', 'S', '', 'b', '.', True), ('PF', 'P', '', 'a', '.', True)], [('b', 'SPK'), ('Ba', 'SK')], False, 'abAB', 4),
    (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2'], [], [('a', 'CN'), ('b', 'C'), ('Ab', 'C')], True, 'abAB', 4),
    (['LANG tr_TR'], [], [('ıi', 'K'), ('İı', 'K'), ('iI', 'K')], False, 'iıİI', 3),
]
BOUNDS = {
    'quick': 'five dictionaries (plain entries in several letter cases, forbidden ones, with a suffix and a prefix, compounds of two parts, Turkic letters), '
             'KEEPCASE, NOSUGGEST, FORBIDDENWORD, affix and compounding flags symbolic on each entry; every word of 1..4 letters over two letters in both cases '
             '(three letters for three positions)',
    'thorough': 'words one character longer',
}
OUTSIDE = 'sharp s (see C05); KEEPCASE on compound parts; words of two entries'
ASSUMPTIONS = ['no entry with a space or dash', 'which spelling is suggested is C16\'s: here either that of the dictionary or the one in the letter case of the word will do, unless KEEPCASE asks for the first']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('corrected', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1 if isinstance(f[4], str) else 3, f[5] + 1 + (more if isinstance(f[4], str) else 0))]


UPPER, LOWER = str.maketrans('iı', 'İI'), str.maketrans('İI', 'iı')


def corrected(ctx, fam, n):
    options, affixes, stems, compounding, letters, _ = FAMILIES[fam]
    tables = [Affix(*a) for a in affixes]
    mk = Maker(ctx)
    entries = [mk.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    d = ctx.dictionary(aff(*BASE, *options, affixes=tables), dic(entries))
    w = ctx.word('w', n, letters)
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    word, turkic = ctx.realize(w), 'LANG tr_TR' in options

    def upper(t):
        return t.translate(UPPER).upper() if turkic else t.upper()

    def lower(t):
        return t.translate(LOWER).lower() if turkic else t.lower()

    k = captype(word)
    low, first, rest = lower(word), lower(word[0]) + word[1:], word[0] + lower(word[1:])
    spellings = {'NO': [], 'INIT': [low], 'ALL': [low, rest], 'HUH': [low], 'HUHINIT': [low, first, rest]}[k]
    for v in spellings:
        ways, keep = [], []
        for f in generate(entries, tables):
            if f.text == v:
                ways.append(ctx.AND(f.licensed(), ctx.NOT(f.entry.carries('N'))))
                keep.append(ctx.IMPLIES(f.licensed(), f.entry.carries('K')))
        if compounding:
            ways += [ctx.AND(a.carries('C'), b.carries('C'), ctx.NOT(entries[0].carries('N') if 'a' in (a.stem, b.stem) else False))
                     for a in entries for b in entries if a.stem + b.stem == v]
        if not ways:
            continue
        forbidden = ctx.OR([e.carries('F') for e in entries if e.stem == v] if 'FORBIDDENWORD F' in options else [])
        good = ctx.AND(ctx.OR(ways), ctx.NOT(forbidden))
        recased = upper(v) if k == 'ALL' else upper(v[0]) + v[1:] if k in ('INIT', 'HUHINIT') else v
        ctx.check(ctx.IMPLIES(good, v in got or recased in got), 'the word in its right letter case is suggested')
        if len(keep) == len(ways):
            ctx.check(ctx.IMPLIES(ctx.AND(good, ctx.AND(keep)), v in got), 'a word that keeps its letter case is suggested in it')
            ctx.reach('kept spelling', ctx.AND(good, ctx.AND(keep), k in ('INIT', 'ALL')))
        ctx.reach('lowered', ctx.AND(good, v == low, k == 'HUH'))
        ctx.reach('first letter lowered', ctx.AND(good, v == first, v != low, k == 'HUHINIT'))
        ctx.reach('rest lowered', ctx.AND(good, v == rest, k == 'HUHINIT'))
        ctx.reach('in capitals', ctx.AND(good, k == 'ALL'))
        ctx.reach('recased', ctx.AND(good, v not in got))
        ctx.reach('affixed', ctx.AND(good, bool(affixes) and v not in [s for s, _ in stems]))
        ctx.reach('compound', ctx.AND(good, compounding and v not in [s for s, _ in stems]))
        ctx.reach('Turkic', ctx.AND(good, turkic))
        ctx.reach('not to be suggested', ctx.NOT(ctx.OR(ways)))
        ctx.reach('forbidden', forbidden)
