"""C39: the word forms reported for a word are exactly its analyses."""

from checks.lang import Maker, generate, aff, dic

REACH = ['bare entry', 'suffixed', 'prefixed', 'both', 'twofold', 'twofold prefix', 'two analyses', 'three analyses', 'homonyms', 'none', 'lower-case spelling', 'capitals',
         'compound', 'three parts', 'compound by rule', 'two compounds', 'word and compound']
# options, entries (stem, flags of which each may be present, flags present), rows (kind, flag, strip, add, condition, cross, symbolic flags), letters, longest word
FAMILIES = [
    ([], [('ab', 'SP', ''), ('abb', 'P', ''), ('b', 'ST', '')],
     [('SF', 'S', '', 'b', '.', True, 'T'), ('PF', 'P', '', 'a', '.', True, ''), ('SF', 'T', 'b', 'bb', '[^a]b', True, '')], 'abx', 6),
    ([], [('ab', 'SP', ''), ('ab', 'S', ''), ('a', 'ST', '')],
     [('SF', 'S', '', 'b', '.', True, 'P'), ('SF', 'T', '', 'bb', '.', False, ''), ('PF', 'P', 'a', 'ba', 'a', True, 'S')], 'abx', 6),
    (['COMPLEXPREFIXES'], [('ab', 'PS', ''), ('b', 'PQ', '')],
     [('PF', 'P', '', 'a', '.', True, 'Q'), ('PF', 'Q', '', 'b', '.', True, ''), ('SF', 'S', 'b', '', 'b', True, '')], 'ab', 5),
    ([], [('ab', 'SPT', ''), ('aba', 'ST', ''), ('ba', 'P', 'S')],
     [('SF', 'S', '', 'a', '.', True, 'T'), ('SF', 'S', 'b', 'bab', '.', True, ''), ('SF', 'T', 'a', 'ab', '[^b]', True, 'S'), ('PF', 'P', '', 'a', '[^b]', True, ''),
      ('PF', 'P', '', 'ab', '.', True, 'T')], 'abx', 6),
    (['NEEDAFFIX N', 'CIRCUMFIX X', 'COMPLEXPREFIXES'], [('ab', 'PSN', ''), ('b', 'P', 'S')],
     [('PF', 'P', '', 'a', '.', True, 'QXN'), ('PF', 'Q', '', 'b', '.', False, 'N'), ('SF', 'S', '', 'b', 'b', True, 'XN')], 'ab', 5),
    (['NEEDAFFIX N', 'ONLYINCOMPOUND O'], [('ab', 'SN', ''), ('abb', 'O', ''), ('ab', 'O', 'S')],
     [('SF', 'S', '', 'b', '.', True, 'N'), ('SF', 'S', '', '', '.', True, '')], 'ab', 4),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries of 2 or 3 entries (homonyms included) and up to five affix rows with symbolic flags, every word of 1..6 characters over two or '
             'three letters; capitalised, upper-case and mixed-case words of 1..4 characters over two letters; compounds by flags and rules of up to seven characters',
    'thorough': 'words one character longer',
}
OUTSIDE = 'compound parts with affixes; sharp s; the order and number of reports of a form'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('analyses', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1, f[4] + 1 + more)] + \
        [('cased', dict(n=n)) for n in range(1, 5 + more)] + [('compounds', dict(n=n, rules=r)) for r in (False, True) for n in range(2, 8 + more)]


def build(ctx, options, stems, rows, more=()):
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f, a) for i, (s, f, a) in enumerate(stems)]
    affixes = [m.affix(f'a{i}', *r[:6], maybe=r[6]) for i, r in enumerate(rows)]
    return entries, affixes, ctx.dictionary(aff(*options, *more, affixes=affixes), dic(entries))


def chain(*affixes):
    return [(x.flag, x.strip, x.add) for x in affixes if x]


def show(d, form):
    """Entry number, prefixes and suffixes from the stem outwards."""
    numbers = [i for i, w in enumerate(d.dic.words) if w is form.in_dictionary]
    return numbers, chain(form.prefix, form.prefix2), chain(form.suffix, form.suffix2)


def analyses(ctx, fam, n):
    options, stems, rows, letters, _ = FAMILIES[fam]
    entries, affixes, d = build(ctx, options, stems, rows)
    w = ctx.word('w', n, letters)
    forms = list(d.lookuper.good_forms(w))
    got = [show(d, f) for f in forms]
    got = [(e, [tuple(ctx.realize(x) for x in a) for a in p], [tuple(ctx.realize(x) for x in a) for a in s]) for e, p, s in got]
    ctx.observe('forms', repr(got))
    ctx.check(ctx.IFF(len(got) > 0, d.lookup(w)), 'a word is accepted exactly when it has a form')
    ctx.check(ctx.AND([ctx.eq(f.text, w) if len(f.text) == n else False for f in forms]), 'forms are forms of the word')
    expected = generate(entries, affixes, 'COMPLEXPREFIXES' in options)
    usage = {o.split()[0].lower(): o.split()[1] for o in options if ' ' in o}
    left = list(got)
    number = 0
    for g in expected:
        mine = ([entries.index(g.entry)], chain(*g.prefixes), chain(*g.suffixes))
        count = sum(x == mine for x in got)
        left = [x for x in left if x != mine]
        valid = ctx.AND(ctx.eq(w, g.text), g.licensed(), g.standalone(**usage)) if len(g.text) == n else False
        ctx.check(ctx.IFF(valid, count > 0), 'an analysis is reported exactly when it is valid')
        if count:
            number += 1
            kind = (len(g.prefixes), len(g.suffixes))
            ctx.reach({(0, 0): 'bare entry', (0, 1): 'suffixed', (1, 0): 'prefixed', (1, 1): 'both', (0, 2): 'twofold', (2, 0): 'twofold prefix'}.get(kind, 'more'))
            ctx.reach('homonyms', fam == 1 and g.entry is entries[1] and number > 1)
    ctx.check(not left, 'nothing else is reported')
    ctx.reach('two analyses', number > 1)
    ctx.reach('three analyses', number > 2)
    ctx.reach('none', not got)


def cased(ctx, n):
    """Forms of words with capitals are forms of their spellings in other letter case."""
    stems = [('ab', 'SK', ''), ('Ab', 'S', ''), ('aB', '', ''), ('AB', 'K', '')]
    entries, affixes, d = build(ctx, ['KEEPCASE K'], stems, [('SF', 'S', '', 'b', '.', True, ''), ('SF', 'S', '', 'B', '[b]', True, '')])
    w = ctx.word('w', n, 'abAB')
    forms = list(d.lookuper.good_forms(w))
    ctx.observe('forms', len(forms))
    ctx.check(ctx.IFF(len(forms) > 0, d.lookup(w)), 'a word is accepted exactly when it has a form')
    word = ctx.realize(w)
    for f in forms:
        text, stem = ctx.realize(f.text), ctx.realize(f.stem)
        numbers, prefixes, suffixes = show(d, f)
        ctx.check(len(numbers) == 1 and not prefixes and len(suffixes) < 2, 'form of one entry')
        entry = entries[numbers[0]].stem
        add = ''.join(ctx.realize(x[2]) for x in suffixes)
        ctx.check(text == stem + add and text.lower() == word.lower(), 'a form undoes its affixes')
        ctx.check(stem == entry or word == word.upper() and stem == entry.lower(), 'a form has the entry of its stem')
        ctx.check(text in (word, word.lower(), word[0].lower() + word[1:], word[0] + word[1:].lower()), 'text is a spelling of the word')
        ctx.reach('lower-case spelling', text != word)
        ctx.reach('capitals', stem != entry)


def compounds(ctx, n, rules):
    """Compounds are reported with their parts."""
    stems = [('a', 'XY', ''), ('ab', 'X', ''), ('b', 'XY', ''), ('abb', 'Y', '')]
    options = ['COMPOUNDRULE 2', 'COMPOUNDRULE XY', 'COMPOUNDRULE YX*Y'] if rules else ['COMPOUNDBEGIN X', 'COMPOUNDMIDDLE X', 'COMPOUNDEND Y']
    entries, _, d = build(ctx, options, stems, [], ['COMPOUNDMIN 1'])
    w = ctx.word('w', n, 'ab')
    forms = list(d.lookuper.good_forms(w))
    simple = list(d.lookuper.good_forms(w, compound_forms=False))
    joined = list(d.lookuper.good_forms(w, affix_forms=False))
    ctx.check((len(forms) > 0) == (len(simple) + len(joined) > 0), 'words and compounds')
    ctx.check(all(hasattr(f, 'parts') for f in joined) and not any(hasattr(f, 'parts') for f in simple), 'only words, or only compounds')
    got = [[ctx.realize(p.text) for p in f.parts] for f in joined]
    ctx.observe('compounds', repr(got))
    ctx.check(ctx.IFF(len(forms) > 0, d.lookup(w)), 'a word is accepted exactly when it has a form')

    def splits(left):
        if not left:
            yield []
        for e in entries:
            if len(e.stem) <= left:
                for rest in splits(left - len(e.stem)):
                    yield [e] + rest
    left = list(got)
    for parts in splits(n):
        if len(parts) == 1:
            continue
        texts = [p.stem for p in parts]
        if rules:
            inner = ctx.AND([p.carries('X') for p in parts[1:-1]])
            valid = ctx.OR(ctx.AND(len(parts) == 2, parts[0].carries('X'), parts[1].carries('Y')), ctx.AND(parts[0].carries('Y'), inner, parts[-1].carries('Y')))
        else:
            valid = ctx.AND([p.carries('X') for p in parts[:-1]] + [parts[-1].carries('Y')])
        count = sum(x == texts for x in got)
        left = [x for x in left if x != texts]
        ctx.check(ctx.IFF(ctx.AND(ctx.eq(w, ''.join(texts)), valid), count > 0), 'a compound is reported exactly when it is valid')
    ctx.check(not left, 'no other compound is reported')
    ctx.reach('compound by rule' if rules else 'compound', len(got) > 0)
    ctx.reach('two compounds', len(got) > 1)
    ctx.reach('three parts', any(len(x) == 3 for x in got))
    ctx.reach('word and compound', len(simple) > 0 and len(joined) > 0)
