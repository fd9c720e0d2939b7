"""C26: answers do not depend on earlier questions."""

from checks.lang import Affix, Entry, aff, dic

REACH = ['accepted', 'rejected', 'suggestions', 'same word asked before', 'other word asked before', 'suggestions abandoned', 'other dictionary asked',
         'compound', 'n-gram suggestions', 'phonetic suggestions', 'broken word', 'mixed case', 'other language asked', 'asked in between']

# options, affixes, entries, alphabet, longest earlier word, longest word; the first two entries, exchanged, make up another dictionary
FAMILIES = {
    'affixes': (['TRY ab', 'FORBIDDENWORD F', 'NOSUGGEST N', 'REP 1', 'REP b ab', 'MAP 1', 'MAP bc'],
                [('SF', 'S', '', 'b', '.', True, 'P'), ('SF', 'S', 'b', 'c', 'b', True), ('PF', 'P', '', 'c', '.', True, 'NS')],
                [('ab', 'SP'), ('ca', 'S'), ('b', 'N'), ('cab', 'F')], 'abc', 2, 3),
    'case': (['TRY ab', 'KEEPCASE K', 'KEY ab|A'], [('SF', 'S', '', 'A', '.', True)], [('aB', 'S'), ('ab', 'K'), ('Ba', ''), ('b', 'S')], 'abAB', 1, 3),
    'compounds': (['TRY ab', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'CHECKCOMPOUNDDUP', 'COMPOUNDWORDMAX 3', 'MAXCPDSUGS 2', 'FORCEUCASE U'], [],
                  [('a', 'C'), ('bc', 'CU'), ('c', 'C')], 'abcA', 1, 3),
    'compound rules': (['TRY a', 'COMPOUNDRULE 2', 'COMPOUNDRULE A*B', 'COMPOUNDRULE BC?A', 'COMPOUNDMIN 1', 'ONLYINCOMPOUND O'], [],
                       [('a', 'A'), ('b', 'BO'), ('c', 'C')], 'abc', 1, 4),
    'breaks': (['TRY ab-', 'BREAK 2', 'BREAK -', 'BREAK ^b', 'IGNORE c'], [], [('a', ''), ('ba', ''), ('a-b', '')], 'ab-c', 2, 3),
    'conversion': (['TRY ab', 'ICONV 2', 'ICONV c a', 'ICONV ab b', 'OCONV 1', 'OCONV b c_c'], [], [('aa', ''), ('b', ''), ('ba', '')], 'abc', 2, 3),
    'n-grams': (['MAXDIFF 10'], [('SF', 'S', '', 'ba', '.', True), ('PF', 'P', '', 'ba', '.', True)],
                [('abab', 'S'), ('aab', 'P'), ('Bab', '')], 'abB', 3, 3),
    'phonetic': (['PHONE 3', 'PHONE AB A', 'PHONE B B', 'PHONE CB- B', 'MAXNGRAMSUGS 1'], [], [('abcb', ''), ('cbcc', ''), ('bbc', '')], 'abc', 1, 4),
    'hyphens': (['TRY a', 'NOSUGGEST N', 'KEEPCASE K'], [], [('a', ''), ('b', 'N'), ('ab', 'K')], 'abc-', 1, 3),
    'languages': (['LANG tr_TR', 'TRY iı'], [], [('iı', ''), ('ßa', ''), ('Ia', ''), ('ss', '')], 'iIıaßsS', 0, 2),
}
# options of a further dictionary with the same entries
FURTHER = {
    'languages': ['CHECKSHARPS', 'TRY sI'],
    'case': ['LANG tr_TR', 'TRY bA'],
    'conversion': ['ICONV 2', 'ICONV c b', 'ICONV a ab', 'OCONV 1', 'OCONV b a', 'TRY ab'],
    'phonetic': ['PHONE 2', 'PHONE AC A', 'PHONE C B', 'MAXNGRAMSUGS 0'],
    'affixes': ['NEEDAFFIX F', 'FORBIDDENWORD N', 'REP 1', 'REP a c', 'TRY c'],
    'compound rules': ['COMPOUNDRULE 1', 'COMPOUNDRULE CBA', 'COMPOUNDMIN 1', 'TRY c'],
}
OPS = ['lookup', 'suggest', 'abandon', 'both', 'other lookup', 'other suggest']
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries ({", ".join(FAMILIES)}); before the question one word of 1..2 characters, or the same word, its beginning, its end or its lower- or upper-case spelling, is asked by lookup, by suggest, by suggest read '
             'to its first suggestion only, by both, or asked of another dictionary (other flags of entries; other options, language and tables), or between two suggestions for the question; every question of 1..3 (4 with compounds, phonetic) characters over 3..4 letters',
    'thorough': 'two earlier questions with different words',
}
OUTSIDE = 'more than two earlier questions, concurrent use from several threads'
ASSUMPTIONS = ['"freshly loaded" means loaded with the modules in the state after import']


def tasks(tier):
    out = []
    for fam in sorted(FAMILIES):
        *_, alphabet, m, n = FAMILIES[fam]
        for op in OPS:
            top = n - (op not in ('lookup', 'suggest', 'both'))
            out += [('asked', dict(fam=fam, ops=[op], n=k)) for k in range(max(1, top - 1), top + 1)]
        if fam in FURTHER:
            out += [('asked', dict(fam=fam, ops=[op], n=2)) for op in ('further lookup', 'further suggest')]
        out += [('between', dict(fam=fam, n=2))]
        if tier != 'quick':
            out += [('asked', dict(fam=fam, ops=[a, b], n=2)) for a in OPS for b in OPS]
    return out


PARTS = ('stem', 'flags', 'data', 'alt_spellings', 'flag', 'crossproduct', 'strip', 'add', 'condition', 'pattern', 'replacement', 'chars', 'pairs', 'text')


def describe(x):
    """What a value of a directive consists of."""
    if x is None or isinstance(x, (str, int, float)):
        return x
    if isinstance(x, (list, tuple)):
        return [describe(i) for i in x]
    if isinstance(x, dict):
        return sorted([describe(k), describe(v)] for k, v in x.items() if v)
    if isinstance(x, (set, frozenset)) or type(x).__name__ == 'SxSet':
        return sorted(describe(i) for i in x)
    return [[p, describe(getattr(x, p))] for p in PARTS if hasattr(x, p)]


def state(d):
    return [describe(d.dic.words), [[k, describe(v)] for k, v in sorted(vars(d.aff).items()) if k.isupper()]]


def ask(d, op, v):
    if op in ('lookup', 'both'):
        d.lookup(v)
    if op in ('suggest', 'both'):
        for _ in d.suggest(v):
            pass
    if op == 'abandon':
        for _ in d.suggest(v):
            break


def asked(ctx, fam, ops, n):
    options, affixes, stems, alphabet, m, _ = FAMILIES[fam]
    affixes = [Affix(*a) for a in affixes]

    def load(entries, options=options):
        return ctx.dictionary(aff(*options, affixes=affixes), dic([Entry(*e) for e in entries]))
    d = load(stems)
    earlier = []
    w = ctx.word('w', n, alphabet)
    before = state(d)
    for i, op in enumerate(ops):
        kind = ctx.choice(f'm{i}', list(range(1, m + 1)) + ['same', 'shorter', 'tail', 'upper', 'lower'])
        v = ctx.word(f'v{i}', kind, alphabet) if type(kind) is int else \
            dict(same=w, shorter=w[:-1], tail=w[1:], upper=w.upper(), lower=w.lower())[kind]
        earlier.append(v)
        if op.startswith('further '):
            ask(load(stems, FURTHER[fam]), op[8:], v)
        elif op.startswith('other '):
            (a, f), (b, g) = stems[:2]
            ask(load([(a, g), (b, f)] + stems[2:-1]), op[6:], v)
        else:
            ask(d, op, v)
    accepted = bool(d.lookup(w))
    got = list(d.suggest(w))
    after = state(d)
    again = bool(d.lookup(w))
    ctx.observe('answers', [accepted, got])
    ctx.check(before == after, 'words, flags and tables are unchanged')
    ctx.check(again == accepted, 'the same question gets the same answer')

    ctx.fresh()
    first = bool(load(stems).lookup(w))
    ctx.check(first == accepted, 'lookup as on a fresh dictionary')
    ctx.fresh()
    fresh = list(load(stems).suggest(w))
    ctx.check(len(fresh) == len(got) and ctx.AND([ctx.eq(a, b) for a, b in zip(fresh, got)]), 'suggestions as on a fresh dictionary')

    ctx.reach('accepted' if accepted else 'rejected')
    ctx.reach('suggestions', bool(got))
    for v in earlier:
        ctx.reach('same word asked before', len(v) == n and ctx.eq(v, w))
        ctx.reach('other word asked before', len(v) != n or ctx.NOT(ctx.eq(v, w)))
    ctx.reach('suggestions abandoned', 'abandon' in ops)
    ctx.reach('other language asked', fam == 'languages' and ops[0].startswith('further'))
    ctx.reach('other dictionary asked', ops[0].startswith('other'))
    ctx.reach('compound', fam == 'compounds' and accepted and n > 2)
    ctx.reach('n-gram suggestions', fam == 'n-grams' and bool(got))
    ctx.reach('phonetic suggestions', fam == 'phonetic' and len(got) > 1)
    ctx.reach('broken word', fam == 'breaks' and accepted and n > 2)
    ctx.reach('mixed case', fam == 'case' and bool(got))


def between(ctx, fam, n):
    """Another question is asked while the suggestions for the first one are being read."""
    options, affixes, stems, alphabet, _, _ = FAMILIES[fam]
    affixes = [Affix(*a) for a in affixes]

    def load():
        return ctx.dictionary(aff(*options, affixes=affixes), dic([Entry(*e) for e in stems]))
    d = load()
    w = ctx.word('w', n, alphabet)
    asked_of = d.suggest(w)
    got = []
    for i, s in enumerate(asked_of):
        got.append(s)
        if i == 0:
            ask(d, 'both', w)
            ask(d, 'both', stems[0][0])
            ask(d, 'suggest', stems[1][0] + alphabet[0])
    ctx.observe('suggestions', got)
    ctx.fresh()
    fresh = list(load().suggest(w))
    ctx.check(len(fresh) == len(got) and ctx.AND([ctx.eq(a, b) for a, b in zip(fresh, got)]), 'suggestions as without questions in between')
    ctx.reach('asked in between', len(got) > 1)
