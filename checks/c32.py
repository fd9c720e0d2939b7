"""C32: letter-case patterns are recognised and varied as defined."""

from checks.lang import aff, dic, Entry

REACH = ['lower case', 'capitalised', 'all capitals', 'mixed', 'mixed capitalised', 'no letters', 'sharp s', 'two sharp s', 'dotted capital', 'Turkic']
BOUNDS = {
    'quick': 'words of 1..8 characters over 9 (usual casing, with a digit and a dash) and of 1..7 over 7 (Turkic) characters; '
             'with CHECKSHARPS words of 1..6 characters over 4',
    'thorough': 'words one character longer',
}
OUTSIDE = 'other letters whose upper or lower case has several characters; title-case letters; order of the variants'
ASSUMPTIONS = []

USUAL = {'a': 'A', 'b': 'B', 'i': 'I', 'é': 'É'}
TURKIC = {'a': 'A', 'b': 'B', 'i': 'İ', 'ı': 'I'}
SHARP = {'s': 'S', 'a': 'A'}
ALPHABETS = {'usual': 'abABiéI1-', 'turkic': 'aAbiıİI', 'sharp': 'sSßa'}


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('pattern', dict(kind=k, n=n)) for k, last in (('usual', 8), ('turkic', 7), ('sharp', 6)) for n in range(1, last + 1 + more)] + \
        [('dotted', dict(n=n)) for n in range(1, 4 + more)]


def pairs(kind):
    return {'usual': USUAL, 'turkic': TURKIC, 'sharp': SHARP}[kind]


def casing(ctx, kind):
    opts = {'usual': [], 'turkic': ['LANG tr_TR'], 'sharp': ['LANG de_DE', 'CHECKSHARPS']}[kind]
    return ctx.dictionary(aff(*opts), dic([Entry('a')])).aff.casing


def lowered(w, up):
    return w.translate({ord(u): l for l, u in up.items()})


def raised(w, up, kind):
    return w.translate({**{ord(l): u for l, u in up.items()}, **({ord('ß'): 'SS'} if kind == 'sharp' else {})})


def same_sets(ctx, got, want):
    """Each is among the others (texts of fixed lengths)."""
    return ctx.AND([ctx.OR([ctx.eq(g, x) for x in want]) for g in got] + [ctx.OR([ctx.eq(g, x) for g in got]) for x in want])


def sharp_readings(text):
    """Each ss, from left to right, may stand for a sharp s."""
    i = text.find('ss')
    if i < 0:
        return [text]
    return [text[:i] + x + y for x in ('ss', 'ß') for y in sharp_readings(text[i + 2:])]


def pattern(ctx, kind, n):
    up = pairs(kind)
    c = casing(ctx, kind)
    w = ctx.word('w', n, ALPHABETS[kind])
    if kind == 'sharp':
        w = ctx.realize(w)
    captype, variants = c.variants(w)
    again, corrections = c.corrections(w)
    ctx.observe('variants', [captype.name, variants, corrections])
    ctx.check(again == captype and c.guess(w) == captype, 'one pattern')

    def small(x):
        return ctx.member(x, list(up) + ['ß'])

    def capital(x):
        return ctx.member(x, list(up.values()))
    smalls, capitals = [small(x) for x in w], [capital(x) for x in w]
    if kind == 'sharp':
        # a sharp s among capitals
        smalls = [ctx.AND(small(x), ctx.NOT(x == 'ß' and any(capital(y) for y in w))) for x in w]
    lower = ctx.AND(ctx.OR(smalls), ctx.NOT(ctx.OR(capitals)))
    all_ = ctx.AND(ctx.OR(capitals), ctx.NOT(ctx.OR(smalls)))
    letters = ctx.OR(smalls + capitals)
    rest_lower = ctx.AND(ctx.OR([small(x) for x in w[1:]]), ctx.NOT(ctx.OR(capitals[1:])))
    is_ = {'NO': lower, 'ALL': all_,
           'INIT': ctx.AND(capitals[0], rest_lower, ctx.NOT(all_)),
           'HUHINIT': ctx.AND(capitals[0], ctx.NOT(rest_lower), ctx.NOT(all_)),
           'HUH': ctx.AND(ctx.NOT(capitals[0]), ctx.NOT(lower), ctx.NOT(all_))}
    ctx.check(is_[captype.name], 'pattern of the letters')

    def lows(text):
        got = lowered(text, up)
        if kind == 'sharp' and 'SS' in text:
            return sharp_readings(got)
        return [got]
    low = lows(w)
    first = [x + w[1:] for x in lows(w[0])]
    title = [raised(w[0], up, kind) + x for x in (lows(w[1:]) if n > 1 else [''])]
    want = {'NO': [w], 'HUH': [w], 'INIT': [w] + low, 'HUHINIT': [w] + first, 'ALL': [w] + low + title}[captype.name]
    ctx.check(same_sets(ctx, variants, want), 'readings of the word in lookup')
    fix = {'NO': [w], 'HUH': [w] + low, 'INIT': [w] + low, 'HUHINIT': [w] + first + low + title, 'ALL': [w] + low + title}[captype.name]
    ctx.check(same_sets(ctx, corrections, fix), 'readings of the word in suggestions')
    ctx.check(same_sets(ctx, list(c.capitalize(w)), title), 'first letter raised, the rest lowered')
    ctx.check(ctx.eq(c.upper(w), raised(w, up, kind)), 'all letters raised')
    target = ctx.choice('target', ['NO', 'INIT', 'ALL', 'HUH', 'HUHINIT'])
    result = c.coerce(w, getattr(type(captype), target))
    ctx.observe('coerced', result)
    expected = {'NO': w, 'HUH': w, 'ALL': raised(w, up, kind)}.get(target)
    if expected is None:
        expected = raised(w[0], up, kind) + w[1:]
    ctx.check(ctx.eq(result, expected), 'suggestion in the pattern of the misspelling')
    for name, label in (('NO', 'lower case'), ('INIT', 'capitalised'), ('ALL', 'all capitals'), ('HUH', 'mixed'), ('HUHINIT', 'mixed capitalised')):
        ctx.reach(label, ctx.AND(captype.name == name, letters))
    ctx.reach('no letters', ctx.AND(captype.name == 'HUH', ctx.NOT(letters)))
    ctx.reach('Turkic', kind == 'turkic' and len(variants) > 1)
    ctx.reach('sharp s', kind == 'sharp' and captype.name == 'ALL' and 'ß' in w)
    ctx.reach('two sharp s', kind == 'sharp' and captype.name == 'ALL' and len(low) > 3)


def dotted(ctx, n):
    """Outside Turkic languages a dotted capital I has no lower case at the start of a word."""
    c = casing(ctx, 'usual')
    w = ctx.word('w', n, 'aAİ')
    low = c.lower(w)
    ctx.observe('lower', low)
    if w[0] == 'İ':
        ctx.check(len(low) == 0, 'no lower case')
        ctx.reach('dotted capital')
    else:
        ctx.check(len(low) == 1 and ctx.eq(low[0], w.translate({ord('A'): 'a', ord('İ'): 'i'})), 'lower case')
