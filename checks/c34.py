"""C34: with FORCEUCASE a lower-case word good when capitalised is corrected to that alone."""

from checks.lang import Maker, aff, dic

REACH = ['capitalised compound', 'capitalised entry', 'compound of a capitalised part', 'other suggestions', 'not to be suggested', 'not in lower case', 'forbidden', 'special casing', 'affixed word', 'compound by rule']
BOUNDS = {
    'quick': 'dictionaries of four entries with symbolic COMPOUNDFLAG, FORCEUCASE, NOSUGGEST and FORBIDDENWORD flags, compounds of two parts; every '
             'word of 1..5 characters over three letters, and of 2..3 over five letters, two of them capitals; '
             'three entries with Turkic letters or sharp s and every word of 1..3 letters; affixed words, and compounds by rules, of 2..4 characters over three letters',
    'thorough': 'words one character longer',
}
OUTSIDE = 'other compound checks; affixes in compounds'
ASSUMPTIONS = []
STEMS = ['a', 'bc', 'Cb', 'Ab']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('lower', dict(n=n)) for n in range(1, 6 + more)] + [('other', dict(n=n)) for n in range(2, 4 + more)] + \
        [('special', dict(n=n, lang=x)) for n in range(1, 4 + more) for x in ('tr', 'de')] + \
        [(h, dict(n=n)) for h in ('affixed', 'rules') for n in range(2, 5 + more)]


def build(ctx):
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'CU'), m.entry('e1', 'bc', 'CUN'), m.entry('e2', 'Cb', 'C'), m.entry('e3', 'Ab', 'NF')]
    d = ctx.dictionary(aff('FORCEUCASE U', 'NOSUGGEST N', 'FORBIDDENWORD F', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2', 'TRY ac', 'MAXNGRAMSUGS 0'), dic(entries))
    return entries, d


def compounds(ctx, entries, n):
    """Texts of compounds with the condition under which they may be suggested."""
    for x in entries:
        for y in entries:
            if len(x.stem + y.stem) == n and y.stem.islower():
                yield x.stem + y.stem, ctx.AND(*[ctx.AND(e.carries('C'), ctx.NOT(e.carries('N'))) for e in (x, y)])


def lower(ctx, n):
    entries, d = build(ctx)
    w = ctx.word('w', n, 'abc')
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    cases = list(compounds(ctx, entries, n))
    forbidden = ctx.AND(entries[3].carries('F'), ctx.eq(w, 'ab')) if n == 2 else False
    if n == 2:
        cases.append(('Ab', ctx.NOT(entries[3].carries('N'))))
        cases.append(('Cb', True))
    good = ctx.AND(ctx.OR([ctx.AND(ctx.eq(w, t.lower()), ok) for t, ok in cases]), ctx.NOT(forbidden))
    raised = w[0].upper() + w[1:]
    only = ctx.AND(len(got) == 1, ctx.eq(got[0], raised) if got and len(got[0]) == n else False)
    ctx.check(ctx.IMPLIES(good, only), 'the capitalised word is the only suggestion')
    if n > 2:
        # no edit leads to a capital here
        ctx.check(ctx.IMPLIES(ctx.NOT(good), ctx.NOT(ctx.OR([ctx.eq(g, raised) for g in got if len(g) == n]))), 'other words are not capitalised')
    for t, ok in cases:
        name = 'capitalised entry' if t in STEMS else 'compound of a capitalised part' if t[0].isupper() else 'capitalised compound'
        ctx.reach(name, ctx.AND(ctx.eq(w, t.lower()), ok, ctx.eq(got[0], raised) if got and len(got[0]) == n else False))
        ctx.reach('not to be suggested', ctx.AND(ctx.eq(w, t.lower()), ctx.NOT(ok)))
    ctx.reach('forbidden', forbidden)
    ctx.reach('other suggestions', ctx.AND(ctx.NOT(good), len(got) > 1))


def other(ctx, n):
    """Words with capitals get all their suggestions."""
    entries, d = build(ctx)
    w = ctx.word('w', n, 'abcAB')
    ctx.assume(ctx.NOT(ctx.eq(w, w.lower())))
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    plain = [e for e in entries[:2]]
    for x in plain:
        for y in plain:
            if len(x.stem + y.stem) == n:
                ok = ctx.NOT(ctx.OR(x.carries('N'), y.carries('N')))
                text = x.stem + y.stem
                two = (x.stem + ' ' + y.stem).capitalize()
                hit = ctx.AND(ctx.eq(w, text.capitalize()), ok)
                ctx.check(ctx.IMPLIES(hit, two in got), 'a capitalised word is corrected as ever')
                ctx.reach('not in lower case', hit)



def special(ctx, n, lang):
    """Letters with special casing."""
    m = Maker(ctx)
    if lang == 'tr':
        stems, alphabet, opts, up = ['İa', 'Iı', 'Aib'], 'aiıb', ['LANG tr_TR'], {'i': 'İ', 'ı': 'I'}
    else:
        stems, alphabet, opts, up = ['Sas', 'SSa', 'Aß'], 'asß', ['LANG de_DE', 'CHECKSHARPS'], {'ß': 'SS'}
    entries = [m.entry(f'e{i}', s, 'N') for i, s in enumerate(stems)]
    d = ctx.dictionary(aff('FORCEUCASE U', 'NOSUGGEST N', *opts, 'TRY a', 'MAXNGRAMSUGS 0'), dic(entries))
    w = ctx.realize(ctx.word('w', n, alphabet))
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    raised = up.get(w[0], w[0].upper()) + w[1:]
    good = ctx.OR([ctx.NOT(e.carries('N')) for e in entries if e.stem == raised])
    if lang == 'tr':
        ctx.check(ctx.IMPLIES(good, got == [raised]), 'the capitalised word is the only suggestion')
    else:
        ctx.check(ctx.IMPLIES(good, len(got) == 1 and got[0].lower() == raised.lower()), 'the capitalised word is the only suggestion')
    ctx.reach('special casing', ctx.AND(good, w[0] in 'iß'))


def affixed(ctx, n):
    m = Maker(ctx)
    entries = [m.entry('e0', 'Ab', 'SPNF'), m.entry('e1', 'bb', 'SP')]
    rows = [m.affix('s', 'SF', 'S', '', 'c', maybe='K'), m.affix('p', 'PF', 'P', '', 'C')]
    d = ctx.dictionary(aff('FORCEUCASE U', 'NOSUGGEST N', 'FORBIDDENWORD F', 'KEEPCASE K', 'TRY a', 'MAXNGRAMSUGS 0', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    a, b = entries
    ok = ctx.NOT(ctx.OR(a.carries('N'), a.carries('F')))
    cases = [('Ab', ok), ('Abc', ctx.AND(ok, a.carries('S'))), ('Cbb', b.carries('P')), ('Cbbc', ctx.AND(b.carries('P'), b.carries('S')))]
    good = ctx.OR([ctx.AND(ctx.eq(w, t.lower()), c) for t, c in cases if len(t) == n])
    raised = w[0].upper() + w[1:]
    only = ctx.AND(len(got) == 1, ctx.eq(got[0], raised) if got and len(got[0]) == n else False)
    ctx.check(ctx.IMPLIES(good, only), 'the capitalised affixed word is the only suggestion')
    # 'cbb' is a letter away from the entry in capitals
    ctx.check(ctx.IMPLIES(ctx.NOT(good), ctx.NOT(ctx.AND(only, ctx.eq(w[0], 'b')))), 'other words are not capitalised')
    ctx.reach('affixed word', ctx.AND(good, n > 2))


def rules(ctx, n):
    """Compounds by rules."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'XN'), m.entry('e1', 'Bc', 'X'), m.entry('e2', 'bc', 'YUF')]
    d = ctx.dictionary(aff('FORCEUCASE U', 'NOSUGGEST N', 'FORBIDDENWORD F', 'COMPOUNDMIN 1', 'COMPOUNDRULE 1', 'COMPOUNDRULE XY', 'TRY a', 'MAXNGRAMSUGS 0'), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    a, b, c = entries
    last = ctx.AND(c.carries('Y'), ctx.NOT(c.carries('F')))
    cases = [('Bc', True), ('Bcbc', ctx.AND(b.carries('X'), last))]
    good = ctx.OR([ctx.AND(ctx.eq(w, t.lower()), k) for t, k in cases if len(t) == n])
    raised = w[0].upper() + w[1:]
    only = ctx.AND(len(got) == 1, ctx.eq(got[0], raised) if got and len(got[0]) == n else False)
    ctx.check(ctx.IMPLIES(good, only), 'the capitalised compound is the only suggestion')
    ctx.reach('compound by rule', ctx.AND(good, n == 4))
