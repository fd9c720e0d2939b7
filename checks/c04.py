"""C04: which letter cases of a dictionary form are accepted."""

from itertools import product

from checks.lang import Maker, Entry, generate, aff, dic, spellings, captype, case_variants

REACH = ['as written', 'capitalised', 'upper case', 'keepcase rejects', 'other case rejected', 'mixed-case entry in capitals',
         'compound capitalised', 'compound in capitals', 'compound in other case rejected']
BOUNDS = {
    'quick': 'words of 1..6 characters over two letters in both cases (and over letters, apostrophe and underscore up to 5); an entry of '
             '1..4 letters in every capitalisation pattern, with symbolic KEEPCASE, also with symbolic prefix and suffix flags, next '
             'to a fixed second entry; compounds of 2..3 parts by symbolic COMPOUNDFLAG or by a COMPOUNDRULE over entries in lower case and '
             'with a capital, words up to 6 letters',
    'thorough': 'words of 1..7 characters',
}
OUTSIDE = 'languages with special casing (C05)'
ASSUMPTIONS = []


def tasks(tier):
    out = []
    top, stem = (6, 4) if tier == 'quick' else (7, 4)
    for s in range(1, stem + 1):
        for n in range(1, top + 1):
            if abs(n - s) <= 2:
                out.append(('bare', dict(s=s, n=n, alphabet='abAB', base='abab')))
                out.append(('affixed', dict(s=s, n=n)))
        for n in range(1, top):
            if abs(n - s) <= 1:
                out.append(('bare', dict(s=s, n=n, alphabet="abAB'_", base="a'b_")))
                out.append(('bare', dict(s=s, n=n, alphabet="abAB'_", base="_ab'")))
    for n in range(2, top + 1):
        out.append(('compound', dict(n=n, rule=False)))
        out.append(('compound', dict(n=n, rule=True)))
    return out


def pattern(ctx, base):
    """The text with the case of each letter symbolic, split into its cases."""
    return ctx.realize(ctx.word('stem', len(base), [tuple(dict.fromkeys((c, c.upper()))) for c in base]))


def bare(ctx, s, n, alphabet, base):
    m = Maker(ctx)
    stem = pattern(ctx, base[:s])
    entries = [m.entry('e', stem, 'K'), Entry('Ba')]
    d = ctx.dictionary(aff('KEEPCASE K'), dic(entries))
    w = ctx.word('w', n, alphabet)
    got = d.lookup(w)
    ctx.observe('lookup', got)
    if n == s:
        ctx.reach('as written', ctx.AND(got, ctx.eq(w, stem)))
        ctx.reach('capitalised', ctx.AND(got, ctx.eq(w, 'Ab'), stem == 'ab'))
        ctx.reach('upper case', ctx.AND(got, ctx.eq(w, 'AB'), stem == 'ab'))
        ctx.reach('keepcase rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, 'AB'), stem == 'ab'))
        ctx.reach('other case rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, 'aB'), stem == 'ab'))
        ctx.reach('mixed-case entry in capitals', ctx.AND(got, ctx.eq(w, 'ABA'), stem == 'aBa'))
    ctx.check(ctx.IFF(got, spec(ctx, w, entries, [])), 'accepted in exactly the permitted letter cases')


def affixed(ctx, s, n):
    m = Maker(ctx)
    stem = pattern(ctx, 'abab'[:s])
    entries = [m.entry('e', stem, 'SPK'), Entry('Ba', 'P')]
    rows = [m.affix('s', 'SF', 'S', '', 'b', '.'), m.affix('p', 'PF', 'P', '', 'b', 'a'), m.affix('q', 'PF', 'P', '', 'A', 'B')]
    d = ctx.dictionary(aff('KEEPCASE K', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abAB')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    ctx.check(ctx.IFF(got, spec(ctx, w, entries, rows)), 'affixed forms accepted in exactly the permitted letter cases')


def compound(ctx, n, rule):
    m = Maker(ctx)
    entries = [m.entry('a', 'ab', 'C'), m.entry('b', 'Ba', 'C'), m.entry('c', 'bbA', 'C')]
    lines = ('COMPOUNDRULE 1', 'COMPOUNDRULE C*') if rule else ('COMPOUNDFLAG C',)
    d = ctx.dictionary(aff('COMPOUNDMIN 2', *lines), dic(entries))
    w = ctx.word('w', n, 'abAB')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    want = [spec(ctx, w, entries, [])]
    for parts in [*product(entries, repeat=2), *product(entries, repeat=3)]:
        text = ''.join(e.stem for e in parts)
        if len(text) == n:
            used = ctx.AND([e.carries('C') for e in parts])
            for t in case_variants(text):
                if accepted_for(t, text):
                    want.append(ctx.AND(ctx.eq(w, t), used))
            ctx.reach('compound capitalised', ctx.AND(got, ctx.eq(w, 'Abab'), text == 'abab'))
            ctx.reach('compound in capitals', ctx.AND(got, ctx.eq(w, 'ABAB'), text == 'abab'))
            ctx.reach('compound in other case rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, 'aBab'), text == 'abab'))
    ctx.check(ctx.IFF(got, ctx.OR(want)), 'compounds accepted in exactly the permitted letter cases')


def accepted_for(w, text):
    """Whether the spelling stands for the compound, as far as letter case goes."""
    kind = captype(w)
    return (w == text or kind in ('INIT', 'ALL') and w.lower() == text or kind == 'HUHINIT' and w[0].lower() + w[1:] == text
            or kind == 'ALL' and w[0] + w[1:].lower() == text)


def spec(ctx, w, entries, rows):
    out = []
    forms = generate(entries, rows)
    for g in forms:
        for text, _ in spellings(g):
            if len(text) == len(w):
                keep = True if captype(text) == captype(g.entry.stem) else ctx.NOT(g.entry.carries('K'))
                out.append(ctx.AND(ctx.eq(w, text), g.licensed(), keep))
    # in capitals: affixes may also be found on the lower-case spelling of the entry
    folded = [Entry(e.stem.lower(), e.flags, e.has) for e in entries]
    for g in generate(folded, rows):
        if g.entry.stem != entries[folded.index(g.entry)].stem and len(g.text) == len(w):
            up = g.text.upper()
            if captype(up) == 'ALL':
                keep = True if captype(entries[folded.index(g.entry)].stem) == 'ALL' else ctx.NOT(g.entry.carries('K'))
                out.append(ctx.AND(ctx.eq(w, up), g.licensed(), keep))
    return ctx.OR(out)
