"""C01: lookup accepts exactly the words the affix rules generate."""

from checks.lang import Maker, Affix, Entry, generate, aff, dic

REACH = ['base', 'suffix', 'prefix', 'two suffixes', 'prefix+suffix', 'prefix+two suffixes', 'rejected', 'long affixes']
BOUNDS = {
    'quick': 'all words of 1..7 characters over the alphabet of each family; 11 families of affix tables (2-5 rows, strip 0-2, '
             'add 0-3, condition 0-3 characters), 1-3 entries; every presence/absence combination of the flags listed for '
             'entries and rows, cross-product on/off; affixes, strips and conditions of up to 7 characters on entries of 8, and 22 rows under one flag, with '
             'all words that are forms with any of their characters replaced by another letter',
    'thorough': 'words of 1..9 characters',
}
OUTSIDE = 'longer words, larger tables, strips that consume a whole stem, conditions spanning prefix and suffix at once'
ASSUMPTIONS = ['lower-case alphabets without break characters, so that case variants and breaking play no role']

# kind, flag, strip, add, condition, cross-product, flags the row may carry
FAMILIES = {
    'chain': dict(
        stems=[('abc', 'ABP'), ('ab', 'AB')], alphabet='abcx',
        rows=[('SF', 'A', '', 'b', '.', True, 'BP'), ('SF', 'B', 'c', 'a', 'c', True, 'AP'),
              ('SF', 'B', '', 'ca', '[^c]', True, ''), ('PF', 'P', '', 'x', '.', True, 'A')]),
    'own': dict(    # rows that may carry their own flag
        stems=[('abc', 'ABP')], alphabet='abcx',
        rows=[('SF', 'A', '', 'b', '.', True, 'AB'), ('SF', 'B', '', 'a', '.', True, 'ABP'),
              ('PF', 'P', '', 'x', '.', True, 'PA')]),
    'cross': dict(
        stems=[('abc', 'ABPQ')], alphabet='abcxy', choose_cross=True,
        rows=[('SF', 'A', '', 'b', '.', True, 'BP'), ('SF', 'B', '', 'a', '.', True, 'Q'),
              ('PF', 'P', '', 'x', '.', True, 'B'), ('PF', 'Q', 'a', 'y', 'a', True, 'A')]),
    'strip': dict(
        stems=[('baby', 'ABC'), ('bay', 'ABC'), ('bab', 'ABC')], alphabet='abyie',
        rows=[('SF', 'A', 'y', 'ie', '[^a]y', True, 'B'), ('SF', 'A', '', 'e', '[ai]y', True, 'B'),
              ('SF', 'A', '', 'e', '[^y]', True, 'B'), ('SF', 'B', 'e', 'y', 'e', True, 'C'),
              ('SF', 'C', 'ay', 'ab', '[ba]ay', True, '')]),
    'prefix conditions': dict(
        stems=[('abba', 'PQA'), ('baba', 'PQA')], alphabet='abux',
        rows=[('PF', 'P', '', 'u', '[^a]', True, ''), ('PF', 'P', 'a', 'xa', 'ab', True, 'A'),
              ('PF', 'Q', 'b', 'u', 'b[ab]b', True, ''), ('SF', 'A', 'a', '', '[ab]a', True, 'PQ')]),
    'same text': dict(
        stems=[('aab', 'ABC'), ('aa', 'ABC'), ('aa', 'ABC')], alphabet='abc',
        rows=[('SF', 'A', '', 'b', '.', True, 'C'), ('SF', 'B', '', 'b', 'a', False, 'C'), ('SF', 'C', 'b', 'cb', 'b', True, 'A'),
              ('SF', 'C', '', 'cb', 'a', True, 'B')]),
    'prefixes': dict(
        stems=[('abc', 'PQA')], alphabet='abcxy', complex=True, options=('COMPLEXPREFIXES',),
        rows=[('PF', 'P', '', 'x', '.', True, 'QA'), ('PF', 'Q', '', 'yx', '.', True, 'P'), ('PF', 'Q', 'a', 'y', 'ab', True, 'P'),
              ('SF', 'A', '', 'b', '.', True, 'PQ')]),
    'prefixes and suffixes': dict(
        stems=[('ab', 'PQA')], alphabet='abxy', complex=True, options=('COMPLEXPREFIXES',),
        rows=[('PF', 'P', '', 'x', '.', True, 'Q'), ('PF', 'Q', '', 'y', '.', False, 'P'), ('SF', 'A', '', 'a', '.', True, 'B'),
              ('SF', 'B', '', 'x', '.', True, 'AP')]),
    'one prefix only': dict(
        stems=[('abc', 'PQ')], alphabet='abcxy',
        rows=[('PF', 'P', '', 'x', '.', True, 'QA'), ('PF', 'Q', '', 'y', '.', True, 'P'), ('SF', 'A', '', 'b', '.', True, 'PQ')]),
    'signs': dict(   # characters that mean something in regular expressions
        stems=[('ab', 'ABCP'), ('a+b', 'AC')], alphabet="ab.+'(",
        rows=[('SF', 'A', '', ".", '.', True, 'B'), ('SF', 'B', '', "+'", '[^+]', True, ''), ('SF', 'C', 'b', '(a', 'b', True, 'A'),
              ('PF', 'P', '', 'a+', 'a', True, 'A')]),
    'conditions': dict(   # a dash in brackets is no range
        stems=[('ac', 'ABP'), ('b-', 'AB'), ('-b', 'BP')], alphabet='abc-', options=('BREAK 0',),
        rows=[('SF', 'A', '', 'a', '[a-c]', True, 'B'), ('SF', 'B', '', 'c', '[^a-c]', True, 'P'), ('SF', 'B', '', 'ab', '-[^c-]', True, ''),
              ('PF', 'P', '', 'c', '[a-c]', True, ''), ('PF', 'P', '', 'b', '[^-b].', True, '')]),
    'condition signs': dict(
        stems=[('a+', 'ABP'), ('b$(', 'AB'), ('*b', 'BP')], alphabet='ab+(*$',
        rows=[('SF', 'A', '', 'a', '+', True, 'B'), ('SF', 'A', '', 'a', '$(', True, ''), ('SF', 'B', '', 'b', '[^+(]', True, 'P'),
              ('PF', 'P', '', '(', '*b', True, ''), ('PF', 'P', '', '*', '[^*]', True, '')]),
}

LONG = {   # long affixes, strips and conditions, many rows for the same flag
    'long affixes': dict(
        stems=[('abcabcab', 'ABP'), ('bcabcabc', 'ABP')],
        rows=[('SF', 'A', 'cab', 'xyzxyz', 'b[ac]abcab', True, 'B'), ('SF', 'A', '', 'zyxzyx', '[^b][^a]c', True, 'B'),
              ('SF', 'B', 'zxyz', 'abcabc', 'xyzxyz', True, ''), ('SF', 'B', 'yx', 'yxyxyxy', '[xyz][xyz][xyz]yx', True, ''),
              ('PF', 'P', 'abcab', 'zzzzy', 'abc[ab]b[^y]', True, 'A'), ('PF', 'P', '', 'yyyyz', '[^a][^a][^b]bc', True, 'A')]),
    'many rows': dict(
        stems=[('ab', 'A'), ('ba', 'A')],
        rows=[('SF', 'A', '', x + y, c, True, '') for x in 'xyz' for y in ('', 'x', 'y', 'yz') for c in ('a', 'b') if (x, y, c) not in (('y', 'x', 'a'), ('z', '', 'b'))]),
}


def tasks(tier):
    out = [('long', dict(family=f, n=n)) for f in LONG for n in sorted({len(g.text) for g in long_forms(f)})]
    for fam in FAMILIES:
        for n in range(1, 8 if tier == 'quick' else 10):
            out.append(('affixes', dict(family=fam, n=n)))
    return out


def long_forms(family):
    f = LONG[family]
    return generate([Entry(s, maybe) for s, maybe in f['stems']], [Affix(*r) for r in f['rows']])


def long(ctx, family, n):
    """Forms any of whose characters may be replaced by another letter."""
    f = LONG[family]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', stem, maybe) for i, (stem, maybe) in enumerate(f['stems'])]
    rows = [m.affix(f'r{i}', kind, flag, strip, add, cond, cross, maybe) for i, (kind, flag, strip, add, cond, cross, maybe) in enumerate(f['rows'])]
    d = ctx.dictionary(aff(affixes=rows), dic(entries))
    forms = [g for g in generate(entries, rows) if len(g.text) == n]
    near = ctx.choice('near', sorted({g.text for g in forms}))
    w = ctx.word('w', n, [c + 'q' for c in near])
    got = d.lookup(w)
    ctx.observe('lookup', got)
    spec = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed()) for g in forms])
    if family == 'long affixes':
        for g in forms:
            if g.prefixes and len(g.suffixes) == 2:
                ctx.reach('long affixes', ctx.AND(got, ctx.eq(w, g.text)))
    ctx.check(ctx.IFF(got, spec), 'accepted exactly when generated')


def affixes(ctx, family, n):
    f = FAMILIES[family]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', stem, maybe) for i, (stem, maybe) in enumerate(f['stems'])]
    if f.get('choose_cross'):
        crossed = {flag: ctx.choice(f'cross.{flag}', [True, False]) for flag in dict.fromkeys(r[1] for r in f['rows'])}
    else:
        crossed = {}
    rows = [m.affix(f'r{i}', kind, flag, strip, add, cond, crossed.get(flag, cross), maybe)
            for i, (kind, flag, strip, add, cond, cross, maybe) in enumerate(f['rows'])]
    d = ctx.dictionary(aff(*f.get('options', ()), affixes=rows), dic(entries))
    w = ctx.word('w', n, f['alphabet'])
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = [g for g in generate(entries, rows, f.get('complex', False)) if len(g.text) == n]
    spec = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed()) for g in forms])
    for g in forms:
        kind = {(0, 0): 'base', (0, 1): 'suffix', (1, 0): 'prefix', (0, 2): 'two suffixes', (1, 1): 'prefix+suffix',
                (1, 2): 'prefix+two suffixes', (2, 0): 'two prefixes', (2, 1): 'two prefixes+suffix'}[
                    len(g.prefixes), len(g.suffixes)]
        ctx.reach(kind, ctx.AND(got, ctx.eq(w, g.text), g.licensed()))
    ctx.reach('rejected', ctx.NOT(got))
    ctx.check(ctx.IFF(got, spec), 'accepted exactly when generated')
