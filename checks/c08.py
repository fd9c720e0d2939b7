"""C08: compound checks reject exactly the compounds they describe."""

from checks.lang import Affix, Maker, Entry, aff, dic, captype, case_variants, generate

REACH = ['compound accepted', 'dup rejects', 'triple rejects', 'pattern rejects', 'rep rejects', 'space entry rejects', 'case rejects',
         'forceucase rejects', 'forceucase accepted capitalised', 'simplified triple', 'affixed part rejected', 'unmodified stem rejected',
         'modified stem accepted', 'compound by a rule rejected', 'compound by a rule accepted', 'last pair of three rejects', 'dash at the boundary']
BOUNDS = {
    'quick': 'two-part compounds: both entries take every spelling of 1..3 letters over a two-letter alphabet; every subset of '
             'CHECKCOMPOUNDDUP/TRIPLE/PATTERN (5 patterns, with and without flags), CHECKCOMPOUNDREP with and without the replaced word '
             'in the dictionary, a spaced entry present or absent, CHECKCOMPOUNDCASE with entries in any letter case, FORCEUCASE, '
             'SIMPLIFIEDTRIPLE; 7 patterns (with "0" and flags on either side) over parts with a prefix, a suffix or an empty suffix '
             'on entries of 1..2 letters, the flags asked for being those of the entries or of the affixes; each check over compounds of three parts of 1..2 letters, by flags and by a COMPOUNDRULE; words up to 6 letters',
    'thorough': 'entries up to 4 letters, words up to 7',
}
OUTSIDE = 'SIMPLIFIEDTRIPLE in compounds of more than two parts, the checks beyond three parts; flags in patterns over compounds by rules; the replacement field of CHECKCOMPOUNDPATTERN; caseless scripts'
ASSUMPTIONS = ['COMPOUNDMIN 1, COMPOUNDWORDMAX 2 or 3']


def tasks(tier):
    out = []
    k = 3 if tier == 'quick' else 4
    for lu in range(1, k + 1):
        for lv in range(1, k + 1):
            for n in sorted({lu + lv, 2 * lu, 2 * lv}):
                if n > 2 * k - (k - 3):
                    continue
                for pat in (None, ('a', 'b'), ('ab', 'a'), ('b/X', 'b'), ('a', 'a/X'), ('b/X', 'a/Y')):
                    out.append(('local', dict(lu=lu, lv=lv, n=n, pat=pat)))
                out.append(('space', dict(lu=lu, lv=lv, n=n)))
                if lu <= 2 and lv <= 2:
                    out.append(('case', dict(lu=lu, lv=lv, n=n)))
                    out.append(('ucase', dict(lu=lu, lv=lv, n=n)))
            for lb in (1, 2, 3):
                out.append(('rep', dict(lu=lu, lv=lv, lb=lb)))
            if lu <= 2 and lv <= 2:
                out += [('three', dict(lu=lu, lv=lv, n=n, which=x)) for n in sorted({2 * lu + lv, lu + 2 * lv, 3 * lu, 3 * lv} if k > 3 else {2 * lu + lv, lu + 2 * lv})
                        for x in ('triple', 'pattern', 'space', 'rep', 'case', 'dup', 'ucase')]
                out += [('three', dict(lu=lu, lv=lv, n=n, which=x, rule=True)) for n in sorted({lu + lv, 2 * lu + lv})
                        for x in ('triple', 'plain pattern', 'space', 'rep', 'case', 'dup', 'ucase')]
                out += [('affixed', dict(lu=lu, lv=lv, n=n, pat=p)) for n in range(lu + lv, lu + lv + (3 if k < 4 else 4)) for p in PATTERNS]
            for n in (lu + lv - 1, lu + lv):
                out.append(('simplified', dict(lu=lu, lv=lv, n=n)))
    return out


BASE = ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2']


def stems(ctx, lu, lv, alphabet='ab'):
    return ctx.realize(ctx.word('u', lu, alphabet)), ctx.realize(ctx.word('v', lv, alphabet))


def pairs(entries, n):
    return [(a, b) for a in entries for b in entries if len(a.stem) + len(b.stem) == n]


def triple(l, r):
    t = (l[-2:] + r[:1], l[-1:] + r[:2])
    return any(len(x) == 3 and len(set(x)) == 1 for x in t)


def finish(ctx, d, w, plain, compounds, label):
    got = d.lookup(w)
    ctx.observe('lookup', got)
    spec = ctx.OR([ctx.eq(w, t) for t in plain] + [ctx.AND(ctx.eq(w, t), ok) for t, ok in compounds])
    ctx.check(ctx.IFF(got, spec), label)
    return got


def local(ctx, lu, lv, n, pat):
    m = Maker(ctx)
    u, v = stems(ctx, lu, lv)
    entries = [m.entry('e0', u, 'XY', always='C'), m.entry('e1', v, 'XY', always='C')]
    dup, trip = ctx.choice('dup', [False, True]), ctx.choice('triple', [False, True])
    opts = BASE + ['CHECKCOMPOUNDDUP'] * dup + ['CHECKCOMPOUNDTRIPLE'] * trip
    if pat:
        opts += ['CHECKCOMPOUNDPATTERN 1', f'CHECKCOMPOUNDPATTERN {pat[0]} {pat[1]}']
    d = ctx.dictionary(aff(*opts), dic(entries))
    w = ctx.word('w', n, 'ab')
    compounds = []
    for a, b in pairs(entries, n):
        bad = []
        if dup:
            bad.append(a.stem == b.stem)
        if trip:
            bad.append(triple(a.stem, b.stem))
        if pat:
            (end, _, f1), (beg, _, f2) = pat[0].partition('/'), pat[1].partition('/')
            bad.append(ctx.AND(a.stem.endswith(end), b.stem.startswith(beg), a.carries(f1) if f1 else True,
                               b.carries(f2) if f2 else True))
        compounds.append((a.stem + b.stem, ctx.NOT(ctx.OR(bad))))
    got = finish(ctx, d, w, [u, v], compounds, 'local compound checks')
    new = w != u and w != v
    if n == lu + lv:
        ctx.reach('compound accepted', ctx.AND(got, ctx.eq(w, u + v), new))
        if dup:
            ctx.reach('dup rejects', ctx.AND(ctx.NOT(got), u == v, ctx.eq(w, u + v)))
        if trip and not dup and not pat:
            ctx.reach('triple rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, u + v)))
        if pat and not dup and not trip:
            ctx.reach('pattern rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, u + v)))


def three(ctx, lu, lv, n, which, rule=False):
    """Every two neighbouring parts of a longer compound are checked, whether by flags or by a rule."""
    m = Maker(ctx)
    u, v = stems(ctx, lu, lv, 'aA' if which == 'case' else 'ab')
    entries = [m.entry('e0', u, 'X' if which in ('pattern', 'ucase') else '', always='C'), m.entry('e1', v, '', always='C')]
    opts, block = ['COMPOUNDMIN 1', 'COMPOUNDWORDMAX 3', *(['COMPOUNDRULE 1', 'COMPOUNDRULE C*'] if rule else BASE[:1])], []
    if which == 'dup':
        opts.append('CHECKCOMPOUNDDUP')

        def bad(a, b):
            return a.stem == b.stem
    elif which == 'ucase':
        opts.append('FORCEUCASE X')

        def bad(a, b):
            return ctx.OR([e.carries('X') for e in entries if e.stem == b.stem])
    elif which == 'plain pattern':
        opts += ['CHECKCOMPOUNDPATTERN 2', 'CHECKCOMPOUNDPATTERN a b', 'CHECKCOMPOUNDPATTERN bb a']

        def bad(a, b):
            return a.stem[-1] == 'a' and b.stem[0] == 'b' or a.stem.endswith('bb') and b.stem[0] == 'a'
    elif which == 'triple':
        opts.append('CHECKCOMPOUNDTRIPLE')

        def bad(a, b):
            return triple(a.stem, b.stem)
    elif which == 'case':
        opts.append('CHECKCOMPOUNDCASE')

        def bad(a, b):
            return a.stem[-1].isupper() or b.stem[0].isupper()
    elif which == 'pattern':
        opts += ['CHECKCOMPOUNDPATTERN 2', 'CHECKCOMPOUNDPATTERN a b', 'CHECKCOMPOUNDPATTERN b/X a']

        def bad(a, b):
            return ctx.OR(a.stem[-1] == 'a' and b.stem[0] == 'b', ctx.AND(a.stem[-1] == 'b', b.stem[0] == 'a', a.carries('X')))
    elif which == 'space':
        block = [ctx.choice('spaced', [u + ' ' + v, v + ' ' + u, u + ' ' + u])]

        def bad(a, b):
            return a.stem + ' ' + b.stem in block
    else:
        opts += [f'REP {len(REPS)}'] + [f'REP {a} {b}' for a, b in REPS] + ['CHECKCOMPOUNDREP']
        block = [ctx.choice('block', ['a', 'b', 'ab', 'aab', 'bb'])]

        def bad(a, b):
            return any(r in {u, v, *block} for r in replaced(a.stem + b.stem))
    d = ctx.dictionary(aff(*opts), dic(entries + [Entry(b) for b in block]))
    w = ctx.word('w', n, 'aA' if which == 'case' else 'abAB' if which == 'ucase' else 'ab')
    compounds = []

    def add(parts):
        text = ''.join(p.stem for p in parts)
        if len(text) == n and len(parts) > 1:
            pairs = list(zip(parts, parts[1:]))[-1 if which in ('dup', 'ucase') else 0:]
            ok = ctx.NOT(ctx.OR([bad(a, b) for a, b in pairs]))
            compounds.extend(cased(ctx, w, text, lambda s: True if which == 'ucase' and captype(s) in ('INIT', 'ALL') else ok))
            if len(parts) == 2 and rule:
                ctx.reach('compound by a rule rejected', ctx.AND(ctx.eq(w, text), ctx.NOT(got)))
                ctx.reach('compound by a rule accepted', ctx.AND(ctx.eq(w, text), got))
            if len(parts) == 3 and not ctx.possible(ctx.OR(bad(parts[0], parts[1]), ctx.NOT(bad(parts[1], parts[2])))):
                ctx.reach('last pair of three rejects', ctx.AND(ctx.eq(w, text), ctx.NOT(got)))
        if len(parts) < 3 and len(text) < n:
            for e in entries:
                add(parts + [e])
    got = d.lookup(w)
    ctx.observe('lookup', got)
    add([])
    alone = [t for t in (u, v, *block) if len(t) == n]
    ctx.check(ctx.IFF(got, ctx.OR([ctx.eq(w, t) for t in (plain_cased([Entry(t) for t in alone], n) if which in ('case', 'ucase') else alone)] +
                                  [ctx.AND(ctx.eq(w, t), ok) for t, ok in compounds])), 'checks between neighbouring parts')


PATTERNS = [('0/X', 'b'), ('0', '/Y'), ('b', 'a'), ('0', '0'), ('a/X', '0/Y'), ('/X', '/Y'), ('ab', 'ba')]
TABLES = [Affix('SF', 'S', '', 'b', flags='PX'), Affix('SF', 'S', '', '', flags='P'), Affix('PF', 'R', '', 'a', flags='PY')]


def affixed(ctx, lu, lv, n, pat):
    """Patterns over parts with affixes: text and flags of the part count; 0 asks for a part spelled as its stem."""
    m = Maker(ctx)
    u, v = stems(ctx, lu, lv)
    entries = [m.entry('e0', u, 'SX', always='C'), m.entry('e1', v, 'RY', always='C')]
    opts = BASE + ['COMPOUNDPERMITFLAG P', 'CHECKCOMPOUNDPATTERN 1', f'CHECKCOMPOUNDPATTERN {pat[0]} {pat[1]}']
    d = ctx.dictionary(aff(*opts, affixes=TABLES), dic(entries))
    w = ctx.word('w', n, 'ab')
    forms = [f for f in generate(entries, TABLES) if len(f.text) and len(f.suffixes) < 2]
    (end, _, f1), (beg, _, f2) = pat[0].partition('/'), pat[1].partition('/')

    def fits(form, text, flag, at_end):
        if text == '0':
            ok = form.text == form.entry.stem
        else:
            ok = form.text.endswith(text) if at_end else form.text.startswith(text)
        return ctx.AND(ok, form.carries(flag) if flag else True)
    compounds = []
    for a in forms:
        for b in forms:
            if len(a.text) + len(b.text) == n:
                bad = ctx.AND(fits(a, end, f1, True), fits(b, beg, f2, False))
                compounds.append((a.text + b.text, ctx.AND(a.licensed(), b.licensed(), ctx.NOT(bad))))
                here = ctx.AND(ctx.eq(w, a.text + b.text), a.licensed(), b.licensed(), bad)
                if a.suffixes and a.suffixes[0].add:
                    ctx.reach('affixed part rejected', here)
                elif not a.affixes and end == '0':
                    ctx.reach('unmodified stem rejected', here)
    got = d.lookup(w)
    ctx.observe('lookup', got)
    alone = [ctx.AND(ctx.eq(w, f.text), f.licensed()) for f in forms if len(f.text) == n]
    ctx.check(ctx.IFF(got, ctx.OR(alone + [ctx.AND(ctx.eq(w, t), ok) for t, ok in compounds])), 'patterns over affixed parts')
    if end == '0' and n == lu + lv + 1 and not f1 and not f2:
        ctx.reach('modified stem accepted', ctx.AND(got, ctx.eq(w, u + 'b' + v)))


def space(ctx, lu, lv, n):
    u, v = stems(ctx, lu, lv)
    spaced = ctx.choice('spaced', [None, 0, 1])
    entries = [Entry(u, 'C'), Entry(v, 'C')]
    block = [u + ' ' + v] if spaced == 0 else [v + ' ' + u] if spaced == 1 else []
    d = ctx.dictionary(aff(*BASE), dic(entries + [Entry(b) for b in block]))
    w = ctx.word('w', n, 'ab ' if n < 6 else 'ab')
    compounds = [(a.stem + b.stem, a.stem + ' ' + b.stem not in block) for a, b in pairs(entries, n)]
    got = finish(ctx, d, w, [u, v] + block, compounds, 'spaced entry')
    if spaced is not None and n == lu + lv:
        ctx.reach('space entry rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, block[0].replace(' ', ''))))


def cased(ctx, w, text, ok):
    """Pairs for every letter case in which the compound text may be written."""
    out = []
    for s in case_variants(text):
        k = captype(s)
        if s == text or k in ('INIT', 'ALL') and s.lower() == text or k == 'HUHINIT' and s[0].lower() + s[1:] == text or \
                k == 'ALL' and s[0] + s[1:].lower() == text:
            out.append((s, ok(s)))
    return out


def plain_cased(entries, n):
    out = []
    for e in entries:
        t = e.stem
        for s in case_variants(t):
            k = captype(s)
            if s == t or k in ('INIT', 'ALL') and s.lower() == t or k == 'HUHINIT' and s[0].lower() + s[1:] == t or \
                    k == 'ALL' and s.lower() == t.lower():
                if len(s) == n:
                    out.append(s)
    return out


def case(ctx, lu, lv, n):
    u, v = stems(ctx, lu, lv, 'aA-')
    entries = [Entry(u, 'C'), Entry(v, 'C')]
    on = ctx.choice('case', [True, False])
    d = ctx.dictionary(aff(*BASE, 'BREAK 0', *['CHECKCOMPOUNDCASE'] * on), dic(entries))
    w = ctx.word('w', n, 'aA-')
    compounds = []
    for a, b in pairs(entries, n):
        bad = on and (a.stem[-1].isupper() or b.stem[0].isupper()) and '-' not in (a.stem[-1], b.stem[0])
        compounds += cased(ctx, w, a.stem + b.stem, lambda s: not bad)
    got = finish(ctx, d, w, plain_cased(entries, n), compounds, 'capital letters at the boundary')
    if on and n == lu + lv:
        ctx.reach('case rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, u + v)))
        ctx.reach('dash at the boundary', ctx.AND(got, ctx.eq(w, u + v), u[-1] + v[0] == '-A'))


def ucase(ctx, lu, lv, n):
    m = Maker(ctx)
    u, v = stems(ctx, lu, lv, 'ab')
    entries = [m.entry('e0', u, 'F', always='C'), m.entry('e1', v, 'F', always='C')]
    d = ctx.dictionary(aff(*BASE, 'FORCEUCASE F'), dic(entries))
    w = ctx.word('w', n, 'abAB')
    compounds = []
    for a, b in pairs(entries, n):
        f = ctx.OR([e.carries('F') for e in entries if e.stem == b.stem])
        compounds += cased(ctx, w, a.stem + b.stem, lambda s: True if captype(s) in ('INIT', 'ALL') else ctx.NOT(f))
    got = finish(ctx, d, w, plain_cased(entries, n), compounds, 'FORCEUCASE on the last part')
    if n == lu + lv:
        t = u + v
        if t not in (u, v):
            ctx.reach('forceucase rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, t)))
            ctx.reach('forceucase accepted capitalised', ctx.AND(got, ctx.eq(w, t[0].upper() + t[1:]), entries[1].carries('F')))


REPS = [('ab', 'b'), ('b', 'aa'), ('^a', 'b'), ('ba$', 'ab')]


def rep(ctx, lu, lv, lb):
    u, v = stems(ctx, lu, lv)
    block = ctx.realize(ctx.word('b', lb, 'ab'))
    on = ctx.choice('rep', [True, False])
    entries = [Entry(u, 'C'), Entry(v, 'C')]
    opts = BASE + [f'REP {len(REPS)}'] + [f'REP {a} {b}' for a, b in REPS] + ['CHECKCOMPOUNDREP'] * on
    d = ctx.dictionary(aff(*opts), dic(entries + [Entry(block)]))
    n = lu + lv
    w = ctx.word('w', n, 'ab')
    words = {u, v, block}
    compounds = []
    for a, b in pairs(entries, n):
        t = a.stem + b.stem
        compounds.append((t, not (on and any(r in words for r in replaced(t)))))
    got = finish(ctx, d, w, sorted(words & {x for x in words if len(x) == n}), compounds, 'replacement in the compound')
    if on:
        ctx.reach('rep rejects', ctx.AND(ctx.NOT(got), ctx.eq(w, u + v)))


def replaced(t):
    out = []
    if len(t) < 2:
        return out
    for a, b in REPS:
        core = a.strip('^$')
        for i in range(len(t) - len(core) + 1):
            if t[i:i + len(core)] == core and (not a.startswith('^') or i == 0) and \
                    (not a.endswith('$') or i + len(core) == len(t)):
                out.append(t[:i] + b + t[i + len(core):])
    return out


def simplified(ctx, lu, lv, n):
    u, v = stems(ctx, lu, lv)
    if n < 1:
        return
    m = Maker(ctx)
    entries = [m.entry('e0', u, 'C'), m.entry('e1', v, 'C')]
    on = ctx.choice('simplified', [True, False])
    trip = ctx.choice('triple', [True, False])
    d = ctx.dictionary(aff(*BASE, *['CHECKCOMPOUNDTRIPLE'] * trip, *['SIMPLIFIEDTRIPLE'] * on), dic(entries))
    w = ctx.word('w', n, 'ab')
    compounds = [(a.stem + b.stem, ctx.AND(a.carries('C'), b.carries('C'), not (trip and triple(a.stem, b.stem)))) for a, b in pairs(entries, n)]
    if on:
        for a, b in pairs(entries, n + 1):
            l, r = a.stem, b.stem
            if len(l) >= 2 and l[-1] == l[-2] == r[0]:
                compounds.append((l[:-1] + r, ctx.AND(a.carries('C'), b.carries('C'), not (trip and triple(l[:-1], r)))))
    got = finish(ctx, d, w, [x for x in (u, v) if len(x) == n], compounds, 'simplified triple letters')
    if on and n == lu + lv - 1:
        ctx.reach('simplified triple', ctx.AND(got, w != u, w != v))
