"""C16: suggestions come in the misspelling's letter case, and output-converted."""

from checks.lang import Maker, Affix, aff, dic, captype, convert

REACH = ['capitalised', 'in capitals', 'keepcase kept', 'dictionary case kept', 'converted', 'merged by conversion', 'converted with dash', 'n-gram recased',
         'two words recased', 'mixed case', 'Turkic']

CASE = [
    # options, affixes, entries, alphabet, longest
    (['TRY ab', 'MAXNGRAMSUGS 0'], [('SF', 'S', '', 'c', '.', True)], [('ab', 'KS'), ('Ba', 'K'), ('bCa', 'K'), ('CB', 'K')], 'abcABC', 3),
    (['TRY ab', 'REP 1', 'REP c _', 'MAXNGRAMSUGS 0'], [], [('a', 'K'), ('ba', 'K'), ('a b', 'K')], 'abcABC', 3),
    ([], [], [('abcd', 'K'), ('Abce', 'K'), ('ABCf', 'K')], None, 2),
    (['LANG tr', 'TRY iı', 'MAXNGRAMSUGS 0'], [], [('ia', 'K'), ('ıi', 'K'), ('İı', 'K')], 'iıIİa', 3),
]
CONV = [
    (['TRY ab'], [('a', 'x'), ('b', 'y')], ['ab', 'ba', 'c', 'Ca'], 'abcA', 4),
    (['TRY ab', 'REP 1', 'REP c _'], [('ab', 'a'), ('a_', 'xx'), ('c', 'x')], ['ab', 'a', 'ba', 'ac', 'b'], 'abc', 4),
    (['TRY ab'], [('b', 'a'), ('cc', 'b')], ['ab', 'aa', 'b', 'acc', 'a b'], 'abc', 4),
    (['TRY ab'], [('b', 'x'), ('c', 'b')], ['ab', 'b', 'ca', 'a-c'], 'abc-', 5),
]
BOUNDS = {
    'quick': 'four dictionaries (one Turkic) with entries in every letter-case pattern, KEEPCASE symbolic on each, affixes, spaces and n-grams, every '
             'misspelling of 1..3 characters over three letters in both cases; four OCONV tables, misspellings of 1..4 characters (5 with dash)',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'sharp s (see C05, C12); OCONV together with n-gram suggestions'
ASSUMPTIONS = []

UPPER, LOWER = str.maketrans('iı', 'İI'), str.maketrans('İI', 'iı')


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('case', dict(fam=i, n=n)) for i, f in enumerate(CASE) for n in range(1, f[4] + 1 + more)] + \
           [('conversion', dict(fam=i, n=n)) for i, f in enumerate(CONV) for n in range(1, f[4] + 1 + more)]


def case(ctx, fam, n):
    options, affixes, stems, alphabet, _ = CASE[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    d = ctx.dictionary(aff('KEEPCASE K', *options, affixes=[Affix(*a) for a in affixes]), dic(entries))
    if alphabet:
        w = ctx.word('w', n, alphabet)
    else:
        w = ctx.choice('start', ['abc', 'Abc', 'ABC', 'aBc']) + ctx.word('w', n, 'xXdD')
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    k = captype(ctx.realize(w))
    # forms of the dictionary: text -> under which condition it has to keep its case
    forms = {}
    for e in entries:
        forms.setdefault(e.stem, []).append(e.carries('K'))
        for a in affixes:
            forms.setdefault(e.stem + a[3], []).append(e.carries('K'))

    def pieces(text):
        """Ways of reading the text as forms or several forms."""
        out = [[text]]
        for sep in ' -':
            if sep in text:
                out.append(text.split(sep))
        return out

    def kept(text):
        """Formula: the text consists of words one of which is a dictionary form that must keep its case."""
        out = []
        for words in pieces(text):
            out.append(ctx.OR([f for x in words for f in forms.get(x, [])]))
        return ctx.OR(out)

    turkic = 'LANG tr' in options

    def upper(text):
        return text.translate(UPPER).upper() if turkic else text.upper()

    def lower(text):
        return text.translate(LOWER).lower() if turkic else text.lower()

    for s in got:
        if k in ('INIT', 'HUHINIT'):
            ctx.check(ctx.OR(s[0] == upper(s[0]), kept(s)), 'suggestions for a capitalised word are capitalised')
            ctx.reach('capitalised', s[0].upper() == s[0])
        elif k == 'ALL':
            ctx.check(ctx.OR(s == upper(s), kept(s)), 'suggestions for a word in capitals are in capitals')
            ctx.reach('in capitals', s not in forms)
        elif k == 'NO':
            ctx.check(any(all(x in forms for x in words) for words in pieces(s)), 'suggestions keep the case of the dictionary')
            ctx.reach('dictionary case kept', s != s.lower())
        if s in forms and k != 'NO':
            ctx.reach('keepcase kept', ctx.AND(forms[s]))
        ctx.reach('two words recased', ' ' in s and k == 'ALL')
        ctx.reach('n-gram recased', fam == 2 and s not in forms)
        # a form that has to keep its case is never written in another one
        exact = [f for t, fs in forms.items() if t != s and lower(t) == lower(s) for f in fs]
        if exact and s not in forms:
            ctx.check(ctx.NOT(ctx.AND(exact)) if len(exact) > 0 else True, 'KEEPCASE words are suggested exactly as in the dictionary')
        ctx.reach('mixed case', k == 'HUH')
        ctx.reach('Turkic', turkic and k != 'NO' and s not in forms and 'İ' in s)


def conversion(ctx, fam, n):
    options, rows, stems, alphabet, _ = CONV[fam]
    words = [str(len(stems))] + stems
    lines = [f'OCONV {len(rows)}'] + [f'OCONV {a} {b}' for a, b in rows]
    d = ctx.dictionary(aff('MAXNGRAMSUGS 0', *options, *lines), words)
    plain = ctx.dictionary(aff('MAXNGRAMSUGS 0', *options), words)
    w = ctx.word('w', n, alphabet)
    got, base = [ctx.realize(s) for s in d.suggest(w)], [ctx.realize(s) for s in plain.suggest(w)]
    ctx.observe('suggestions', [got, base])
    want = []
    for s in base:
        c = convert(rows, s)
        if c not in want:
            want.append(c)
    ctx.check(got == want, 'each suggestion is the converted form of the one without OCONV')
    ctx.reach('converted', got != base)
    ctx.reach('merged by conversion', len(got) < len(base))
    ctx.reach('converted with dash', fam == 3 and any('-' in s for s in got) and got != base)
