"""C14: forbidden and no-suggest words are never suggested."""

from checks.lang import Maker, Affix, aff, dic

REACH = ['forbidden homonym withheld', 'nosuggest withheld', 'only-in-compound withheld', 'something suggested', 'nosuggest accepted by lookup',
         'n-gram suggested', 'phonetic suggested', 'two words suggested', 'capitalised', 'dashed', 'withheld in this letter case', 'compound suggested', 'compound withheld', 'compound part by another entry']

FLAGS = ['FORBIDDENWORD F', 'NOSUGGEST N', 'ONLYINCOMPOUND O']
FAMILIES = [
    # options, affixes, entries, alphabet, longest word
    (['TRY ab', 'MAXNGRAMSUGS 0'], [], [('ab', 'FNO'), ('ab', 'FNO'), ('ba', 'FN')], 'abcA', 3),
    (['TRY ab', 'MAXNGRAMSUGS 0'], [('SF', 'S', '', 'c', '.', True)], [('ab', 'FNS'), ('abc', 'FNO'), ('a', 'FN')], 'abcA', 4),
    ([], [], [('abcd', 'FNO'), ('abcd', 'FNO'), ('abce', 'FNO')], 'abcdeX', 4),
    ([], [('SF', 'S', '', 'e', '.', True)], [('abcd', 'FNS'), ('abcde', 'FNO')], 'abcdeX', 4),
    (['PHONE 3', 'PHONE A A', 'PHONE B B', 'PHONE C B', 'MAXNGRAMSUGS 0'], [], [('abcb', 'FNO'), ('abcb', 'FNO'), ('abbb', 'FN')], 'abcX', 4),
    (['TRY ab', 'REP 2', 'REP c _', 'REP ca b', 'MAXNGRAMSUGS 0'], [], [('a b', 'FN'), ('a', 'FN'), ('b', 'FNO'), ('ab', 'F')], 'abcA', 4),
    (['TRY b', 'MAXNGRAMSUGS 0'], [], [('ab-b', 'FN'), ('ab', 'FN'), ('b', 'FN')], 'ab-', 5),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries of 2..4 entries (with homonyms, affixes, spaces and dashes) with FORBIDDENWORD, NOSUGGEST and ONLYINCOMPOUND '
             'symbolic on each entry; every misspelling of up to 3..5 characters, for edit, n-gram and phonetic suggestions; forms that differ by letter case only; compounds of up to three parts by flags and by two rules, misspellings of 2..4 letters',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'flags on affixes; suggested compounds with affixes'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('suggestions', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1 if f[4] < 4 else 2, f[4] + 1 + more)] + \
        [('cased', dict(n=n)) for n in range(1, 4 + more)] + \
        [('compounds', dict(rule=r, n=n)) for r in (None, 'C*', 'CD?C') for n in range(2, 5 + more)]


def cased(ctx, n):
    """Entries that differ by letter case only, as one is suggested in the letter case of the misspelling."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'FNK', always='S'), m.entry('e1', 'Ab', 'NOK'), m.entry('e2', 'AB', 'FN')]
    d = ctx.dictionary(aff(*FLAGS, 'KEEPCASE K', 'TRY a', 'MAXNGRAMSUGS 0', 'NOSPLITSUGS', affixes=[Affix('SF', 'S', '', 'b')]), dic(entries))
    w = ctx.word('w', n, 'abAB')
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    for s in got:
        ways = []
        for e, stem in [*((e, e.stem) for e in entries), (entries[0], 'ab')]:
            readings = {stem.upper(), stem.capitalize()} if stem.islower() else {stem.upper()}
            usable = ctx.NOT(ctx.OR([e.carries(f) for f in 'FNO']))
            if s == stem:
                ways.append(usable)
            elif s in readings:
                ways.append(ctx.AND(usable, ctx.NOT(e.carries('K'))))
        ctx.check(ctx.NOT(ctx.OR([e.carries('F') for e in entries if e.stem == s])), 'word with a forbidden homonym is not suggested')
        ctx.check(ctx.OR(ways), 'only words that may be suggested are suggested')
        ctx.reach('withheld in this letter case', ctx.AND(s == 'ab', ctx.eq(w, w.upper()), entries[2].carries('N'), entries[0].carries('K')))


def compounds(ctx, rule, n):
    """Compounds are suggested only of parts that may be suggested."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'FN', always='C'), m.entry('e1', 'a', 'N', always='CD'), m.entry('e2', 'b', 'FN', always='CD'), m.entry('e3', 'ba', 'CN')]
    how = ['COMPOUNDRULE 1', f'COMPOUNDRULE {rule}'] if rule else ['COMPOUNDFLAG C']
    d = ctx.dictionary(aff(*FLAGS, 'TRY ab', 'MAXNGRAMSUGS 0', 'NOSPLITSUGS', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 3', *how), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)

    def splits(text):
        if not text:
            yield []
        for stem in ('a', 'b', 'ba'):
            if text.startswith(stem):
                for rest in splits(text[len(stem):]):
                    yield [stem] + rest

    def usable(stem, part):
        """An entry may be suggested (as a part of a compound)."""
        same = [e for e in entries if e.stem == stem]
        return ctx.AND(ctx.OR([ctx.AND(ctx.NOT(e.carries('N')), ctx.OR(not part, e.carries('C'))) for e in same]), ctx.NOT(ctx.OR([e.carries('F') for e in same])))
    for s in got:
        ways = [ctx.AND([usable(x, len(parts) > 1) for x in parts]) for parts in splits(s)]
        ctx.check(ctx.OR(ways), 'compounds are suggested only of parts that may be suggested')
        if s not in ('a', 'b', 'ba'):
            ctx.reach('compound suggested')
            ctx.reach('compound part by another entry', ctx.AND('a' in s, entries[0].carries('N')))
    if n == 3:
        ctx.reach('compound withheld', ctx.AND(ctx.eq(w, 'bbc'), entries[2].carries('N'), not got))


def suggestions(ctx, fam, n):
    options, affixes, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    d = ctx.dictionary(aff(*FLAGS, *options, affixes=[Affix(*a) for a in affixes]), dic(entries))
    if fam == 2 or fam == 3 or fam == 4:
        # enough similarity for n-gram and phonetic suggestions
        w = 'ab' + ctx.word('w', n - 1, alphabet)
    else:
        w = ctx.word('w', n, alphabet)
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    flags = {f: m for f, m in zip('FNO', range(3))}

    def has(e, f):
        return e.carries(f)

    def usable(e):
        return ctx.NOT(ctx.OR([has(e, f) for f in flags]))

    def clean(text):
        """Formula: the text may be suggested."""
        ways = [usable(e) for e in entries if e.stem == text]
        for e in entries:
            for kind, flag, _, add, _, _ in affixes:
                if e.stem + add == text:
                    ways.append(ctx.AND(usable(e), has(e, flag),
                                        ctx.NOT(ctx.OR([has(x, 'F') for x in entries if x.stem == e.stem]))))
        return ctx.OR(ways)

    for s in got:
        text = s.lower()
        ctx.check(ctx.NOT(ctx.OR([has(e, 'F') for e in entries if e.stem == text])), 'word with a forbidden homonym is not suggested')
        known = {e.stem for e in entries} | {e.stem + a[3] for e in entries for a in affixes}
        # as a whole, or word by word (parts joined by a dash were written by the user or are suggestions themselves)
        own = w.split('-')

        def fine(text):
            if ' ' in text:
                return ctx.OR(clean(text), ctx.AND([fine(part) for part in text.split(' ')]))
            if '-' in text:
                parts = [part for part in text.split('-') if part and (text in known or part not in own)]
                return ctx.OR(clean(text), ctx.AND([clean(part) for part in parts]))
            return clean(text)
        ctx.check(fine(text), 'only words that may be suggested are suggested')
        ctx.reach('two words suggested', ' ' in text)
        ctx.reach('capitalised', text != s)
        ctx.reach('dashed', '-' in text)
        if fam in (2, 3):
            ctx.reach('n-gram suggested')
        if fam == 4:
            ctx.reach('phonetic suggested')
    ctx.reach('something suggested', len(got) > 0)
    if fam == 0:
        one, two = entries[0], entries[1]
        some = ctx.AND(ctx.eq(w, 'ac') if n == 2 else False, 'ab' not in got)
        ctx.reach('forbidden homonym withheld', ctx.AND(some, has(one, 'F'), usable(two)))
        ctx.reach('nosuggest withheld', ctx.AND(some, has(one, 'N'), has(two, 'N')))
        ctx.reach('only-in-compound withheld', ctx.AND(some, has(one, 'O'), has(two, 'O')))
        accepted = d.lookup('ab')
        ctx.check(ctx.IFF(accepted, ctx.OR([ctx.NOT(ctx.OR(has(e, 'F'), has(e, 'O'))) for e in entries if e.stem == 'ab'])),
                  'NOSUGGEST words are accepted by lookup')
        ctx.reach('nosuggest accepted by lookup', ctx.AND(accepted, has(one, 'N'), has(two, 'N')))
