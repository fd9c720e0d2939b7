"""C25: lookup and suggest answer for every word."""

from checks.lang import Maker, Affix, aff, dic

REACH = ['accepted', 'rejected', 'suggestion', 'no suggestion', 'empty word', 'special letters', 'compound accepted', 'many suggestions', 'mixed case']

PHONE = ['PHONE 4', 'PHONE A(BC)-^ X', 'PHONE B$ A', 'PHONE ß S', 'PHONE A E']
# options, affixes, stems (symbolic where a pair (length, alphabet)), optional flags, alphabet of words, longest word
FAMILIES = {
    'hyphens and digits': (['TRY a-1', 'BREAK 3', 'BREAK -', 'BREAK ^.', 'BREAK 1$'], [('SF', 'S', 'a', '-', 'a', True)],
                           ['a', 'a1', 'a-a', '-', (1, '1.-')], 'S', 'a-.1', 4),
    'default breaks': (['TRY -a', 'COMPOUNDFLAG S', 'COMPOUNDMIN 1'], [], ['a', '-a', '-'], 'S', 'a-\'A', 4),
    'sharp s': (['LANG de_DE', 'CHECKSHARPS', 'KEEPCASE K', 'TRY ßs', 'MAP 1', 'MAP ß(ss)'], [('SF', 'S', '', 'ß', '.', True)],
                ['ß', 'ssa', 'Aß', (2, 'sßS')], 'SK', 'aßsSİẞ', 3),
    'sharp s without flag': (['TRY aß', 'KEEPCASE K', 'COMPOUNDFLAG S', 'COMPOUNDMIN 1'], [], ['ß', 'aß', 'SS', (1, 'ßaẞ')], 'SK', 'aßSẞA', 3),
    'turkic': (['LANG tr_TR', 'TRY iı', 'KEY iı|I', 'MAP 1', 'MAP iı'], [('PF', 'P', '', 'İ', '.', True)], ['i', 'ıi', 'Iı', (2, 'iıIİ')], 'P', 'iıIİa', 3),
    'dotted i elsewhere': (['TRY iİ', 'FORCEUCASE U', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDCASE'], [], ['i', 'İ', 'iI', (1, 'iİ1')], 'CU', 'iIİa-', 3),
    'one letter with two capitals': (['TRY aŉ', 'KEEPCASE K', 'REP 1', 'REP ŉ a'], [('SF', 'S', '', 'ﬁ', '.', True)], ['ŉ', 'ﬁa', 'aŉ', (1, 'ŉǆǅﬁ')], 'SK', 'aŉﬁǆǅǄ', 3),
    'conversions': (['ICONV 4', 'ICONV a b', 'ICONV _b_ ba', 'ICONV b_ _', 'ICONV ba a', 'OCONV 3', 'OCONV a _', 'OCONV _b c', 'OCONV bb_ a', 'TRY ab'],
                    [], ['a', 'ba', 'bb', 'a b'], '', 'abc_ ', 4),
    'maps': (['MAP 3', 'MAP a(aa)b', 'MAP (bc)(c)', 'MAP d(dd)(ddd)', 'TRY d'], [], ['aab', 'bbc', 'ddd', 'cab'], '', 'abcd', 4),
    'replacements': (['REP 6', 'REP a aa', 'REP ^b$ a_b', 'REP c _', 'REP $ b', 'REP ^ a', 'REP ( [', 'TRY ab', 'KEY a|b(|c'], [], ['a', 'aab', 'b', '[b', 'a b'], '', 'abc([', 4),
    'phonetic': (['TRY ab', 'MAXNGRAMSUGS 1', *PHONE], [('SF', 'S', 'a', 'ab', 'a', True), ('PF', 'P', '', 'ba', '.', True)],
                 ['aba', 'bcab', 'ß', (1, 'aA-1')], 'S|P', 'abBß-', 3),
    'all n-grams': (['TRY a', 'MAXDIFF 10', 'KEEPCASE K'], [('SF', 'S', 'b', 'ab', 'b', True), ('PF', 'P', '', 'ba', '.', True)], ['abab', 'BAB', 'bb', ''], 'SK|P', 'abB1', 4),
    'only close n-grams': (['TRY a', 'MAXDIFF 0', 'ONLYMAXDIFF', 'NOSPLITSUGS', 'SUGSWITHDOTS'], [], ['abab', 'a', 'A b'], '', 'abA ', 4),
    'mixed case': (['TRY ab', 'REP 3', 'REP c _a', 'REP d a_', 'REP c a_b', 'NOSUGGEST N', 'FORBIDDENWORD F'], [], ['a', 'b', 'ba', 'a b', 'aBa', 'baa'], 'NF', 'abAcd', 3),
    'compound checks': (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDDUP', 'CHECKCOMPOUNDCASE', 'CHECKCOMPOUNDREP', 'CHECKCOMPOUNDTRIPLE', 'SIMPLIFIEDTRIPLE',
                         'CHECKCOMPOUNDPATTERN 2', 'CHECKCOMPOUNDPATTERN a b', 'CHECKCOMPOUNDPATTERN b/S 0/C', 'REP 1', 'REP a b', 'TRY ab', 'COMPOUNDWORDMAX 3',
                         'FORCEUCASE U', 'FORBIDDENWORD F'], [], ['a', 'Ab', 'bb', 'a b'], 'UF|C', 'abB-', 4),
    'compound rules': (['COMPOUNDRULE 3', 'COMPOUNDRULE A*B?', 'COMPOUNDRULE B*', 'COMPOUNDRULE CC', 'COMPOUNDMIN 1', 'ONLYINCOMPOUND O', 'TRY 1', 'FORBIDDENWORD F'],
                       [], ['1', 'a', 'th', ''], 'AOF|BC', '1ath.', 4),
    'compound affixes': (['COMPOUNDBEGIN B', 'COMPOUNDEND E', 'COMPOUNDMIDDLE M', 'COMPOUNDPERMITFLAG P', 'COMPOUNDMIN 1', 'CIRCUMFIX X', 'NEEDAFFIX N', 'TRY a'],
                         [('SF', 'S', 'a', '', '.', True), ('PF', 'Q', '', 'b', 'a', False)], ['a', 'ab'], 'SNX|BEMQ', 'abA', 4),
    'complex prefixes': (['COMPLEXPREFIXES', 'IGNORE c', 'TRY ab', 'FULLSTRIP'], [('PF', 'P', 'a', '', 'a', True), ('PF', 'Q', '', 'ac', '.', True), ('SF', 'S', '', 'c', '[^a]', True)],
                         ['a', 'ab', 'c'], 'PS|Q', 'abc', 4),
    'stripped to nothing': (['TRY ab', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1'], [('SF', 'S', 'a', '', '.', True), ('SF', 'S', '', '', '.', True), ('PF', 'P', 'a', '', '.', True)],
                            ['a', 'aa', ''], 'S|PC', 'abA', 3),
}
ORDER = sorted(FAMILIES)
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries ({", ".join(FAMILIES)}) with symbolic flags and, in six of them, a symbolic entry; every word of 0..3 or 0..4 '
             'characters over 3..6 characters including hyphens, digits, spaces, dots, sharp s, dotted/dotless i, ligatures, title-case digraphs',
    'thorough': 'words one character longer',
}
OUTSIDE = 'longer words, malformed dictionaries (zero-length conversion and PHONE rules, aliases referring to themselves)'
ASSUMPTIONS = ['an answer that takes more than 2000000 interpreted calls counts as no answer']
STEP_LIMIT = 2_000_000


def tasks(tier):
    out = []
    for name in ORDER:
        f = FAMILIES[name]
        out += [('answers', dict(fam=name, n=n)) for n in range(f[5] + 1 + (tier != 'quick'))]
    return out


def answers(ctx, fam, n):
    options, affixes, stems, maybe, alphabet, _ = FAMILIES[fam]
    maybe, _, always = maybe.partition('|')
    m = Maker(ctx)
    entries = []
    for i, s in enumerate(stems):
        stem = s if type(s) is str else ctx.word(f's{i}', *s)
        if stem != '':
            entries.append(m.entry(f'e{i}', stem, maybe if i < 2 - (len(maybe) > 1) else '', always + (maybe if i == 2 else '')))
    d = ctx.dictionary(aff(*options, affixes=[Affix(*a) for a in affixes]), dic(entries))
    w = ctx.word('w', n, alphabet)
    accepted = d.lookup(w)
    ctx.check(accepted is True or accepted is False, 'lookup returns a boolean')
    got = []
    for s in d.suggest(w):
        ctx.check(hasattr(s, 'isalpha'), 'suggestions are strings')
        got.append(s)
    ctx.observe('accepted', accepted)
    ctx.observe('suggestions', got)
    ctx.reach('accepted' if accepted else 'rejected')
    ctx.reach('suggestion' if got else 'no suggestion')
    ctx.reach('many suggestions', len(got) > 4)
    ctx.reach('empty word', n == 0)
    ctx.reach('special letters', fam == 'sharp s' and bool(got))
    ctx.reach('compound accepted', fam == 'compound rules' and n == 4 and accepted)
    ctx.reach('mixed case', fam == 'mixed case' and bool(got))
