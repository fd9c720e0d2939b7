"""C06: flag-based compounds are exactly the permitted concatenations."""

from checks.lang import Maker, CompoundFlags, generate, aff, dic, compound_formula

REACH = ['two parts', 'three parts', 'four parts', 'with suffix', 'inner suffix', 'rejected', 'eight parts', 'inner twofold suffix', 'inner twofold prefix', 'last part by its suffix', 'last part by its prefix', 'middle part by its suffix', 'first part by its prefix', 'forbidden part at the end', 'forbidden part before others', 'part needs an affix', 'part has its affix', 'circumfix inside']
BOUNDS = {
    'quick': 'words of 2..7 characters; 2-3 entries of 1-3 letters with every combination of COMPOUNDFLAG, BEGIN, MIDDLE, END (and '
             'ONLYINCOMPOUND) flags, COMPOUNDMIN 1, 2 and default 3, COMPOUNDWORDMAX unset, 2, 3; a prefix and a suffix row with '
             'symbolic COMPOUNDPERMITFLAG, COMPOUNDFORBIDFLAG and compounding flags (of every place); entries with symbolic COMPOUNDFORBIDFLAG; NEEDAFFIX and CIRCUMFIX on parts; twofold suffixes, and prefixes with COMPLEXPREFIXES, likewise; compounds of up to eight parts, COMPOUNDWORDMAX up to 6',
    'thorough': 'words of 2..9 characters',
}
OUTSIDE = 'longer words, more entries; rejection checks (C08)'
ASSUMPTIONS = []


def tasks(tier):
    out = []
    for n in range(2, 8 if tier == 'quick' else 10):
        for cmin in (1, 2):
            for cmax in (0, 2, 3):
                out.append(('positions', dict(n=n, cmin=cmin, cmax=cmax)))
        out.append(('default_min', dict(n=n)))
        for decl in ('CPX', 'CP', 'CX', 'BEP'):
            out.append(('affixed', dict(n=n, decl=decl)))
        if n < 7 or tier != 'quick':
            out.append(('placed', dict(n=n)))
        out.append(('forbidding', dict(n=n)))
        if n < 7 or tier != 'quick':
            out.append(('usage', dict(n=n)))
        for kind in ('SF', 'PF') if n < 7 or tier != 'quick' else ():
            out.append(('nested', dict(n=n, kind=kind)))
    out += [('deep', dict(n=n, cmax=c)) for n in (5, 6, 7, 8) for c in (0, 4, 5, 6)]
    return out


def positions(ctx, n, cmin, cmax):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'CBMEO'), m.entry('e1', 'ba', 'CBME'), m.entry('e2', 'c', 'CBME')]
    flags = CompoundFlags('C', 'B', 'M', 'E')
    opts = flags.options() + ['ONLYINCOMPOUND O', f'COMPOUNDMIN {cmin}'] + ([f'COMPOUNDWORDMAX {cmax}'] if cmax else [])
    d = ctx.dictionary(aff(*opts), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, [])
    plain = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.standalone(onlyincompound='O')) for g in forms])
    comp = compound_formula(ctx, w, forms, flags, cmin, cmax)
    for t, name in (('abba', 'two parts'), ('abcba', 'three parts'), ('ccab', 'three parts'), ('cccc', 'four parts')):
        if len(t) == n:
            ctx.reach(name, ctx.AND(got, ctx.eq(w, t)))
            ctx.reach('rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, t)))
    ctx.check(ctx.IFF(got, ctx.OR(plain, comp)), 'accepted exactly when a permitted concatenation')


def deep(ctx, n, cmax):
    """Many parts."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'BME'), m.entry('e1', 'b', 'BE', 'M'), m.entry('e2', 'bb', 'M', 'E')]
    flags = CompoundFlags(None, 'B', 'M', 'E')
    d = ctx.dictionary(aff(*flags.options(), 'COMPOUNDMIN 1', *([f'COMPOUNDWORDMAX {cmax}'] if cmax else [])), dic(entries))
    w = ctx.word('w', n, ['ab', 'b'] + ['ab'] + ['b'] * (n - 5) + ['b', 'abc'])
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, [])
    ctx.check(ctx.IFF(got, compound_formula(ctx, w, forms, flags, 1, cmax)), 'many parts')
    ctx.reach('eight parts', ctx.AND(got, cmax == 0, n == 8, ctx.eq(w, 'abbbbbba'[:n])))


def default_min(ctx, n):
    m = Maker(ctx)
    entries = [m.entry('e0', 'aba', 'CB'), m.entry('e1', 'ab', 'CE'), m.entry('e2', 'bab', 'CE'), m.entry('e3', 'abab', 'C')]
    flags = CompoundFlags('C', 'B', None, 'E')
    d = ctx.dictionary(aff(*flags.options()), dic(entries))
    w = ctx.word('w', n, 'ab')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, [])
    plain = ctx.OR([ctx.eq(w, g.text) for g in forms])
    ctx.check(ctx.IFF(got, ctx.OR(plain, compound_formula(ctx, w, forms, flags))), 'default minimum part length')


def affixed(ctx, n, decl):
    m = Maker(ctx)
    mine = ''.join(f for f in decl if f in 'CBE')
    entries = [m.entry('e0', 'ab', 'SQ' + mine), m.entry('e1', 'c', 'S' + mine)]
    extra = ''.join(f for f in decl if f in 'PX')
    rows = [m.affix('s', 'SF', 'S', '', 'y', maybe=extra + ('C' if 'C' in decl else 'B')),
            m.affix('q', 'PF', 'Q', '', 'x', maybe=extra)]
    flags = CompoundFlags('C' if 'C' in decl else None, 'B' if 'B' in decl else None, None, 'E' if 'E' in decl else None,
                          'P' if 'P' in decl else None, 'X' if 'X' in decl else None)
    d = ctx.dictionary(aff(*flags.options(), 'COMPOUNDMIN 1', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abcxy')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, rows)
    plain = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed()) for g in forms])
    for t, name in (('cabc', 'three parts'), ('abcy', 'with suffix'), ('abyc', 'inner suffix')):
        if len(t) == n:
            ctx.reach(name, ctx.AND(got, ctx.eq(w, t)))
    ctx.check(ctx.IFF(got, ctx.OR(plain, compound_formula(ctx, w, forms, flags, 1))), 'affixes inside compounds')


def placed(ctx, n):
    """Flags of affixes that permit a place in the compound."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'B', 'SQ'), m.entry('e1', 'c', 'E', 'SQ')]
    rows = [m.affix('s', 'SF', 'S', '', 'y', maybe='BMEP'), m.affix('q', 'PF', 'Q', '', 'x', maybe='BMEP')]
    flags = CompoundFlags(None, 'B', 'M', 'E', 'P')
    d = ctx.dictionary(aff(*flags.options(), 'COMPOUNDMIN 1', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abcxy')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, rows)
    plain = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed()) for g in forms])
    ctx.check(ctx.IFF(got, ctx.OR(plain, compound_formula(ctx, w, forms, flags, 1))), 'places permitted by affixes')
    e1, s = entries[1], rows[0]
    for t, name, yes in (('abcy', 'last part by its suffix', ctx.NOT(e1.carries('E'))), ('abxc', 'last part by its prefix', ctx.NOT(e1.carries('E'))),
                         ('abcyc', 'middle part by its suffix', s.carries('M')), ('xcc', 'first part by its prefix', True)):
        if len(t) == n:
            ctx.reach(name, ctx.AND(got, ctx.eq(w, t), yes))


def nested(ctx, n, kind):
    """Two affixes of a kind on one part."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'S', 'C'), m.entry('e1', 'c', 'S', 'C')]
    rows = [m.affix('s', kind, 'S', '', 'y', maybe='PX', always='T'), m.affix('t', kind, 'T', '', 'x', maybe='PX')]
    flags = CompoundFlags('C', None, None, None, 'P', 'X')
    opts = ['COMPLEXPREFIXES'] if kind == 'PF' else []
    d = ctx.dictionary(aff(*opts, *flags.options(), 'COMPOUNDMIN 1', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abcxy')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, rows, kind == 'PF')
    plain = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed()) for g in forms])
    ctx.check(ctx.IFF(got, ctx.OR(plain, compound_formula(ctx, w, forms, flags, 1))), 'two affixes inside compounds')
    for t, name in (('cyxc', 'inner twofold suffix'), ('cxyc', 'inner twofold prefix')):
        if len(t) == n:
            ctx.reach(name, ctx.AND(got, ctx.eq(w, t)))


def forbidding(ctx, n):
    """Entries that may only end a compound."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'X', 'C'), m.entry('e1', 'c', 'X', 'C'), m.entry('e2', 'ba', 'XC')]
    d = ctx.dictionary(aff('COMPOUNDFLAG C', 'COMPOUNDFORBIDFLAG X', 'COMPOUNDMIN 1'), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = d.lookup(w)
    ctx.observe('lookup', got)

    def splits(left):
        if not left:
            yield []
        for e in entries:
            if len(e.stem) <= left:
                for rest in splits(left - len(e.stem)):
                    yield [e] + rest
    ways = []
    for parts in splits(n):
        inside = [p.carries('C') for p in parts] + [ctx.NOT(p.carries('X')) for p in parts[:-1]]
        ways.append(ctx.AND(ctx.eq(w, ''.join(p.stem for p in parts)), *(inside if len(parts) > 1 else [])))
    ctx.check(ctx.IFF(got, ctx.OR(ways)), 'an entry with COMPOUNDFORBIDFLAG only ends a compound')
    ctx.reach('forbidden part at the end', n == 3 and ctx.AND(got, ctx.eq(w, 'cab'), entries[0].carries('X')))
    ctx.reach('forbidden part before others', n == 3 and ctx.AND(ctx.NOT(got), ctx.eq(w, 'abc'), entries[0].carries('X')))


def usage(ctx, n):
    """Parts with NEEDAFFIX and CIRCUMFIX."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'NSQ', 'C'), m.entry('e1', 'c', 'N', 'CSQ')]
    rows = [m.affix('s', 'SF', 'S', '', 'y', maybe='NX', always='P'), m.affix('q', 'PF', 'Q', '', 'x', maybe='NX')]
    flags = CompoundFlags('C', None, None, None, 'P')
    d = ctx.dictionary(aff(*flags.options(), 'NEEDAFFIX N', 'CIRCUMFIX X', 'COMPOUNDMIN 1', affixes=rows), dic(entries))
    w = ctx.word('w', n, 'abcxy')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    forms = generate(entries, rows)
    plain = ctx.OR([ctx.AND(ctx.eq(w, g.text), g.licensed(), g.standalone('N', 'X')) for g in forms])
    comp = compound_formula(ctx, w, forms, flags, 1, extra=lambda parts: ctx.AND([g.fits('N', 'X') for g in parts]))
    ctx.check(ctx.IFF(got, ctx.OR(plain, comp)), 'usage flags of parts')
    need = entries[1].carries('N')
    ctx.reach('part needs an affix', n == 3 and ctx.AND(ctx.NOT(got), ctx.eq(w, 'cab'), need))
    ctx.reach('part has its affix', n == 4 and ctx.AND(got, ctx.eq(w, 'cyab'), need))
    ctx.reach('circumfix inside', n == 5 and ctx.AND(got, ctx.eq(w, 'xcyab'), rows[0].carries('X')))
