"""C03: forbidden words are not accepted in any guise."""

from checks.lang import Maker, generate, aff, dic, spellings

REACH = ['accepted', 'bare rejected', 'capitalised rejected', 'homonym keeps word', 'affixed rejected', 'part rejected',
         'compound rejected', 'compound accepted', 'rule compound rejected', 'rule compound accepted']
BOUNDS = {
    'quick': 'plain words of 1..5 letters over two letters in both cases (and words u-v with parts of 1..3 letters); three entries '
             'of which two are homonyms, FORBIDDENWORD and affix flags symbolic on each; compounds of 2..3 parts with '
             'FORBIDDENWORD and COMPOUNDFLAG symbolic on three entries, and by a COMPOUNDRULE, words up to 6 letters',
    'thorough': 'plain words up to 6, compound words up to 8 letters',
}
OUTSIDE = 'more entries; forbidden words combined with ICONV or IGNORE (see C10)'
ASSUMPTIONS = []


def tasks(tier):
    out = []
    for fam in (0, 1):
        for n in range(1, 6 if tier == 'quick' else 7):
            out.append(('plain', dict(n=n, fam=fam)))
        for u in range(1, 4):
            for v in range(1, 4):
                out.append(('hyphen', dict(u=u, v=v, fam=fam)))
    for n in range(2, 7 if tier == 'quick' else 9):
        out.append(('compound', dict(n=n)))
        out.append(('rules', dict(n=n)))
    return out


def world(ctx, fam):
    m = Maker(ctx)
    if fam == 0:
        entries = [m.entry('e0', 'ab', 'FS'), m.entry('e1', 'ab', 'FS'), m.entry('e2', 'abb', 'F'), m.entry('e3', 'a', 'FT')]
        rows = [m.affix('s', 'SF', 'S', '', 'b'), m.affix('t', 'SF', 'T', '', 'bb')]
    else:
        entries = [m.entry('e0', 'Ab', 'FS'), m.entry('e1', 'ab', 'FS'), m.entry('e2', 'aBa', 'FS'), m.entry('e3', 'ba-ab', 'F')]
        rows = [m.affix('s', 'SF', 'S', '', 'a')]
    return entries, rows


def forbidden(ctx, entries, text):
    """Formula: the text has entries and all of them are forbidden."""
    mine = [e.carries('F') for e in entries if e.stem == text]
    return ctx.AND(mine) if mine else False


def accepted(ctx, entries, rows, w):
    """Formula: w (without breaking) is accepted."""
    out = []
    for g in generate(entries, rows):
        if g.affixes:
            sound = ctx.AND([g.licensed()] + [ctx.NOT(e.carries('F')) for e in entries if e.stem == g.entry.stem])
        else:
            sound = ctx.NOT(g.entry.carries('F'))
        for s, written in spellings(g):
            if len(s) == len(w):
                out.append(ctx.AND(ctx.eq(w, s), sound, ctx.NOT(forbidden(ctx, entries, written)),
                                   ctx.NOT(forbidden(ctx, entries, s))))
    return ctx.OR(out)


def plain(ctx, n, fam):
    entries, rows = world(ctx, fam)
    d = ctx.dictionary(aff('FORBIDDENWORD F', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abAB')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    ctx.reach('accepted', got)
    if fam == 0:
        e0, e1 = entries[0].carries('F'), entries[1].carries('F')
        ctx.reach('bare rejected', ctx.AND(ctx.eq(w, 'ab'), e0, e1, ctx.NOT(got)))
        ctx.reach('capitalised rejected', ctx.AND(ctx.eq(w, 'Ab'), e0, e1, ctx.NOT(got)))
        ctx.reach('homonym keeps word', ctx.AND(ctx.eq(w, 'ab'), e0, got))
        ctx.reach('affixed rejected', ctx.AND(ctx.eq(w, 'abb'), e0, entries[1].carries('S'), ctx.NOT(got)))
    ctx.check(ctx.IFF(got, accepted(ctx, entries, rows, w)), 'accepted exactly through entries that are not forbidden')


def hyphen(ctx, u, v, fam):
    entries, rows = world(ctx, fam)
    d = ctx.dictionary(aff('FORBIDDENWORD F', affixes=rows), dic(entries))
    a, b = ctx.word('u', u, 'abAB'), ctx.word('v', v, 'abAB')
    w = a + '-' + b
    got = d.lookup(w)
    ctx.observe('lookup', got)
    whole = ctx.AND(ctx.NOT(ctx.OR([ctx.AND(ctx.eq(w, e.stem), forbidden(ctx, entries, e.stem)) for e in entries])))
    spec = ctx.AND(whole, ctx.OR(accepted(ctx, entries, rows, w),
                                 ctx.AND(accepted(ctx, entries, rows, a), accepted(ctx, entries, rows, b))))
    if fam == 0:
        ctx.reach('part rejected', ctx.AND(ctx.eq(w, 'ab-a'), entries[0].carries('F'), entries[1].carries('F'), ctx.NOT(got)))
    ctx.check(ctx.IFF(got, spec), 'accepted exactly when every part is')


def compound(ctx, n):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'FC'), m.entry('e1', 'ab', 'FC'), m.entry('e2', 'ba', 'FC'), m.entry('e3', 'abba', 'FCS')]
    rows = [m.affix('s', 'SF', 'S', '', 'b')]
    d = ctx.dictionary(aff('FORBIDDENWORD F', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'ab')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    clean = {e.stem: ctx.AND([ctx.NOT(x.carries('F')) for x in entries if x.stem == e.stem]) for e in entries}
    forms = generate(entries, rows)

    def parts(text, first):
        """Formula: the text is a sequence of compound parts."""
        out = []
        for g in forms:
            last = g.text == text
            if g.affixes and not last or not text.startswith(g.text) or last and first:
                continue
            ok = ctx.AND(g.licensed(), g.carries('C'), clean[g.entry.stem])
            out.append(ok if last else ctx.AND(ok, parts(text[len(g.text):], False)))
        return ctx.OR(out)
    texts = {''}
    for _ in range(n):
        texts |= {t + g.text for t in texts for g in forms if len(t + g.text) <= n}
    spec = []
    for t in sorted(t for t in texts if len(t) == n):
        banned = ctx.OR([ctx.AND(g.licensed(), g.carries('F')) for g in forms if g.text == t])
        spec.append(ctx.AND(ctx.eq(w, t), ctx.NOT(banned), parts(t, True)))
    plainly = accepted(ctx, entries, rows, w)
    for t in ('abba', 'abab'):
        if n == 4:
            ctx.reach('compound rejected', ctx.AND(ctx.eq(w, t), entries[1].carries('C'), entries[2].carries('C'),
                                                   entries[0].carries('F'), ctx.NOT(got)))
            ctx.reach('compound accepted', ctx.AND(ctx.eq(w, 'abab'), got))
    ctx.check(ctx.IFF(got, ctx.OR(plainly, *spec)), 'compounds do not use forbidden stems')


def rules(ctx, n):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'FC'), m.entry('e1', 'ab', 'FC'), m.entry('e2', 'b', 'FD'), m.entry('e3', 'abb', 'F')]
    d = ctx.dictionary(aff('FORBIDDENWORD F', 'COMPOUNDRULE 1', 'COMPOUNDRULE C*D', 'COMPOUNDMIN 1'), dic(entries))
    w = ctx.word('w', n, 'abA')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    first = ctx.AND(ctx.OR(entries[0].carries('C'), entries[1].carries('C')), ctx.NOT(entries[0].carries('F')), ctx.NOT(entries[1].carries('F')))
    last = ctx.AND(entries[2].carries('D'), ctx.NOT(entries[2].carries('F')))
    spec = []
    if n % 2 and n > 1:
        text = 'ab' * (n // 2) + 'b'
        ok = ctx.AND(first, last, ctx.NOT(entries[3].carries('F')) if n == 3 else True)
        # the capitalised spelling is a compound, too
        spec = [ctx.AND(ok, ctx.OR(ctx.eq(w, text), ctx.eq(w, text[0].upper() + text[1:])))]
        ctx.reach('rule compound accepted', ctx.AND(got, *spec))
        ctx.reach('rule compound rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, text)))
    ctx.check(ctx.IFF(got, ctx.OR(accepted(ctx, entries, [], w), *spec)), 'rule compounds do not use forbidden stems')
