"""C33: a hyphenated word is corrected in its first misspelled part."""

from checks.lang import Maker, aff, dic, convert

FAMILIES = [
    # options, entries (stem, optional flags), alphabet, shapes of words (x: any letter), OCONV table
    (['TRY ac'], [('ab', ''), ('c', 'N'), ('ba', 'F'), ('bca', '')], 'abc', ['x-xx', 'xx-x', 'xxx-x', 'x-xxx', 'xx-xx', '-xx', 'xx-', 'x--xx', 'x-x-xx', 'xx-x-x', 'x-x-x-x', 'x-xx-x-x'], []),
    (['TRY ab'], [('ab', ''), ('Ca', 'K'), ('BC', 'N')], 'abcABC', ['x-xx', 'xx-x'], []),
    (['TRY a'], [('ab', ''), ('b', 'F'), ('ba1', '')], 'ab1', ['xx-x', 'x-xx', 'xx-xx', 'xx-x-x', 'x-x-xx'], []),
    (['TRY ca'], [('ab-c', 'F'), ('ab', ''), ('c', 'N'), ('b', '')], 'abc', ['xx-x', 'x-xx', 'xxx-x', 'x-x'], []),
    (['TRY ab', 'OCONV 2', 'OCONV b x', 'OCONV a-a y'], [('ab', ''), ('ba', ''), ('aa', 'N')], 'abc', ['xx-xx', 'xx-x', 'xxx-xx'], [('b', 'x'), ('a-a', 'y')]),
    (['TRY b', 'BREAK 2', 'BREAK ^-', 'BREAK +'], [('ab', ''), ('b', ''), ('a-b', '')], 'ab+', ['xx-x', 'x-xx', '-xx', 'x-x'], []),
    (['TRY a', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2'], [('ab', 'C'), ('b', 'CO'), ('ba', '')], 'abc', ['xxx-x', 'xx-xx', 'x-xxx'], []),
    (['TRY b'], [('ab', 'K'), ('Ba', ''), ('AB', 'N')], 'abAB', ['xx-xx'], []),
    (['TRY -b', 'REP 1', 'REP c ab'], [('ab', ''), ('b', ''), ('a', 'N')], 'abc', ['x-xx', 'xx-x', 'xxx-x', 'x-xxx'], []),
]
REACH = ['first part corrected', 'last part corrected', 'middle part corrected', 'capitals kept', 'number beside', 'two suggestions', 'other part is wrong too',
         'no suggestion', 'empty part', 'entry with a hyphen', 'converted', 'part is not to be suggested', 'split part', 'compound part', 'after suggestions for the whole']
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries of 3 or 4 entries with symbolic NOSUGGEST, FORBIDDENWORD, KEEPCASE, COMPOUNDFLAG and ONLYINCOMPOUND flags (letter '
             'case, numbers, an entry with a hyphen, OCONV, BREAK, compounds, REP), every word of the listed shapes (2 to 4 parts of 0..3 letters) over 3..6 letters',
    'thorough': 'further shapes with one more letter',
}
OUTSIDE = 'n-gram and phonetic suggestions of the parts; more than four parts'
ASSUMPTIONS = ['what is suggested for a part alone, and what is accepted, is decided by other properties; here they are taken from the code itself']


def tasks(tier):
    out = [('parts', dict(fam=i, shape=s)) for i, f in enumerate(FAMILIES) for s in f[3]]
    if tier != 'quick':
        out += [('parts', dict(fam=i, shape=s)) for i in range(len(FAMILIES)) for s in ('xxx-xx', 'xx-xx-x')]
    return out


def parts(ctx, fam, shape):
    options, stems, alphabet, _, oconv = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    flags = ['FORBIDDENWORD F', 'KEEPCASE K', 'MAXNGRAMSUGS 0']
    d = ctx.dictionary(aff('NOSUGGEST N', 'ONLYINCOMPOUND O', *flags, *options), dic(entries))
    # the same dictionary without the words that are not to be suggested, and without output conversion
    text, plain = [], [o for o in options if not o.startswith('OCONV')]
    for e, (s, f) in zip(entries, stems):
        if ctx.realize(e.carries('N')):
            continue
        text.append(e.line())
    d2 = ctx.dictionary(aff('NOSUGGEST N', 'ONLYINCOMPOUND O', *flags, *plain), [str(len(text)), *text])
    w = ctx.word('w', shape.count('x'), alphabet)
    chars, k = [], 0
    for c in shape:
        chars.append('-' if c == '-' else w[k])
        k += c == 'x'
    w = chars[0]
    for c in chars[1:]:
        w = w + c
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    chunks, at = [], 0
    for p in shape.split('-'):
        chunks.append(w[at:at + len(p)])
        at += len(p) + 1

    # a word with a hyphen that is in the dictionary as a whole
    whole = [s for s, _ in stems if '-' in s and s in got]
    if whole:
        # or the word split beside it
        pairs = [(a, b) for a, _ in stems for b, _ in stems if '-' in a + b and len(a + b) == len(shape)]
        pairs = [(a, b) for a, b in pairs if ctx.realize(ctx.eq(w, a + b))]
        allowed = whole + [a + sep + b for a, b in pairs for sep in ' -']
        ctx.check(all(g in allowed for g in got if '-' in g), 'an entry with a hyphen leaves no other suggestion with hyphens')
        ctx.reach('entry with a hyphen')
        return
    if fam == 8 and ctx.realize(ctx.OR([ctx.eq(c, 'c') for c in w])) and any('-' not in g for g in got):
        # corrected by the replacement table: no further search
        return
    expected, first = [], None
    for i, c in enumerate(chunks):
        if not d2.lookup(c):
            first = i
            for s in d2.suggest(c):
                full = s
                for x in reversed(chunks[:i]):
                    full = x + '-' + full
                for x in chunks[i + 1:]:
                    full = full + '-' + x
                if d2.lookup(full):
                    full = ctx.realize(full)
                    text = convert(oconv, full) if oconv else full
                    if text not in expected:
                        expected.append(text)
            break
    ctx.observe('expected', expected)
    tail = got[len(got) - len(expected):] if expected else []
    capitals = ctx.realize(ctx.NOT(ctx.eq(w, w.lower())))

    def same(a, b):
        # the whole may get the letter case of the misspelling
        return a == b or capitals and a.lower() == b.lower() and bool(d2.lookup(a))
    ctx.check(len(tail) == len(expected) and all(same(a, b) for a, b in zip(tail, expected)), 'the first misspelled part is corrected')
    ctx.check(not any('-' in g for g in got[:len(got) - len(expected)]), 'nothing else with hyphens is suggested')

    if expected:
        last = len(chunks) - 1
        ctx.reach('first part corrected', first == 0)
        ctx.reach('last part corrected', first == last)
        ctx.reach('middle part corrected', 0 < first < last)
        ctx.reach('two suggestions', len(expected) > 1)
        ctx.reach('empty part', ctx.OR([len(c) == 0 for c in chunks]))
        ctx.reach('capitals kept', fam == 1 and any(c.isupper() for c in expected[0]))
        ctx.reach('number beside', fam == 2 and '-1' in expected[0])
        ctx.reach('converted', fam == 4 and 'x' in expected[0])
        ctx.reach('part is not to be suggested', d.lookup(chunks[first]))
        ctx.reach('split part', expected[0].count('-') > shape.count('-'))
        ctx.reach('compound part', fam == 6 and max(len(p) for p in expected[0].split('-')) > 2)
        ctx.reach('after suggestions for the whole', len(got) > len(expected))
    elif first is not None:
        ctx.reach('no suggestion')
        ctx.reach('other part is wrong too', ctx.OR([not d2.lookup(c) for c in chunks[first + 1:]]))
