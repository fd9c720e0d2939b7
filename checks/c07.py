"""C07: COMPOUNDRULE compounds follow the rules as regular expressions over flags."""

from itertools import product

from checks.lang import Maker, Entry, generate, aff, dic, sequences, texts_of_length

REACH = ['two parts', 'three parts', 'starred', 'rejected', 'onlyincompound part', 'multi-character flags', 'eight parts']
BOUNDS = {
    'quick': 'words of 2..6 characters; three entries (two of them homonyms) of 1-2 letters with every combination of three rule '
             'flags; 18 rules and rule pairs with *, ? and repeated flags; COMPOUNDMIN 1 and 2, COMPOUNDWORDMAX unset and 2; '
             'ONLYINCOMPOUND/NEEDAFFIX symbolic; long and numeric flags and flags with punctuation in parentheses; words of up to 9 one-letter parts with '
             'rules of up to eight elements',
    'thorough': 'words of 2..8 characters',
}
OUTSIDE = 'longer words'
ASSUMPTIONS = []

RULES = [['AB'], ['A*B'], ['AB*'], ['A?B'], ['AB?'], ['A*B*'], ['A*B?C'], ['AA'], ['ABA'], ['AB*A'], ['A?B?C?'], ['A*BA?C'], ['ABC'],
         ['A*'], ['AB', 'BC'], ['A*C', 'BC?'], ['AC*B', 'C*A']]


def tasks(tier):
    out = []
    for n in range(2, 7 if tier == 'quick' else 9):
        for r in RULES:
            out.append(('rules', dict(n=n, rules=r)))
        for r in (['A*B'], ['AB?C']):
            out.append(('limits', dict(n=n, rules=r, cmin=2, cmax=0)))
            out.append(('limits', dict(n=n, rules=r, cmin=1, cmax=2)))
            out.append(('usage', dict(n=n, rules=r)))
        for fmt in ('long', 'num', 'signs'):
            for r in ([0, 1], [0, '*', 1], [0, 1, '?', 2]):
                out.append(('notation', dict(n=n, rule=r, fmt=fmt)))
        for r in (['.B'], ['A*+'], ['[)']):
            out.append(('signs', dict(n=n, rules=r)))
    out += [('deep', dict(n=n, rules=r)) for n in (7, 8, 9) for r in (['A*B'], ['AB*C'], ['A?BA?B*CA*'], ['ABABABAC'], ['AB', 'CA*B*C*'])]
    return out


def elements(rule):
    out = []
    for x in rule:
        if x in ('*', '?'):
            out[-1] = (out[-1][0], x)
        else:
            out.append((x, ''))
    return out


def matches(items, flags):
    """The flag sequence matches the rule in full."""
    if not items:
        return not flags
    flag, q = items[0]
    if q != '*' and flags and flags[0] == flag and matches(items[1:], flags[1:]):
        return True
    if q == '*' and flags and flags[0] == flag and matches(items, flags[1:]):
        return True
    return q != '' and matches(items[1:], flags)


_WORDS = {}


def flag_words(rules, alphabet, k):
    key = repr((rules, alphabet, k))
    if key not in _WORDS:
        _WORDS[key] = [fs for fs in product(alphabet, repeat=k) if any(matches(elements(r), fs) for r in rules)]
    return _WORDS[key]


def rule_formula(ctx, w, entries, rules, alphabet, minlen=1, maxparts=0):
    forms = generate(entries, [])
    out = []
    for t in texts_of_length(forms, len(w), minlen):
        here = ctx.eq(w, t)
        if not ctx.possible(here):
            continue
        ways = []
        for parts in sequences(forms, t, minlen, maxparts):
            for fs in flag_words(rules, alphabet, len(parts)):
                ways.append(ctx.AND([g.entry.carries(f) for g, f in zip(parts, fs)]))
        out.append(ctx.AND(here, ctx.OR(ways)))
    return ctx.OR(out)


def rule_lines(rules):
    return [f'COMPOUNDRULE {len(rules)}'] + [f'COMPOUNDRULE {r}' for r in rules]


def run(ctx, n, entries, opts, rules, alphabet, minlen=1, maxparts=0, plain=None):
    d = ctx.dictionary(aff(*opts), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    if plain is None:
        plain = ctx.OR([ctx.eq(w, e.stem) for e in entries])
    else:
        plain = plain(w)
    spec = ctx.OR(plain, rule_formula(ctx, w, entries, rules, alphabet, minlen, maxparts))
    ctx.check(ctx.IFF(got, spec), 'accepted exactly when the flags match a rule')
    return w, got


def rules(ctx, n, rules):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'ABC'), m.entry('e1', 'c', 'ABC'), m.entry('e2', 'ab', 'BC')]
    w, got = run(ctx, n, entries, ['COMPOUNDMIN 1'] + rule_lines(rules), rules, 'ABC')
    if n == 3:
        ctx.reach('two parts', ctx.AND(got, ctx.eq(w, 'abc')))
        ctx.reach('rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, 'abc')))
    if n == 5:
        ctx.reach('three parts', ctx.AND(got, ctx.eq(w, 'abcab')))
    if n == 4 and rules == ['A*B']:
        ctx.reach('starred', ctx.AND(got, ctx.eq(w, 'cccc')))


def deep(ctx, n, rules):
    """Many parts and long rules."""
    m = Maker(ctx)
    entries = [m.entry('e0', 'a', 'AB'), m.entry('e1', 'b', 'ABC')]
    d = ctx.dictionary(aff('COMPOUNDMIN 1', *rule_lines(rules)), dic(entries))
    w = ctx.word('w', n, ['ab', 'a', 'ab'] + ['b', 'a'] * n)
    got = d.lookup(w)
    ctx.observe('lookup', got)
    ctx.check(ctx.IFF(got, rule_formula(ctx, w, entries, rules, 'ABC')), 'many parts')
    ctx.reach('eight parts', ctx.AND(got, n == 8, rules == ['ABABABAC']))


def limits(ctx, n, rules, cmin, cmax):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'ABC'), m.entry('e1', 'c', 'ABC'), m.entry('e2', 'abc', 'BC')]
    opts = [f'COMPOUNDMIN {cmin}'] + ([f'COMPOUNDWORDMAX {cmax}'] if cmax else []) + rule_lines(rules)
    run(ctx, n, entries, opts, rules, 'ABC', cmin, cmax)


def usage(ctx, n, rules):
    m = Maker(ctx)
    entries = [m.entry('e0', 'ab', 'ABCON'), m.entry('e1', 'c', 'ABCO')]
    opts = ['COMPOUNDMIN 1', 'ONLYINCOMPOUND O', 'NEEDAFFIX N'] + rule_lines(rules)

    def plain(w):
        return ctx.OR([ctx.AND(ctx.eq(w, e.stem), ctx.NOT(e.carries('O')), ctx.NOT(e.carries('N'))) for e in entries])
    w, got = run(ctx, n, entries, opts, rules, 'ABC', plain=plain)
    if n == 3:
        ctx.reach('onlyincompound part', ctx.AND(got, ctx.eq(w, 'abc'), entries[0].carries('O'), entries[0].carries('N')))


def notation(ctx, n, rule, fmt):
    """The same with long and numeric flags, one of which is a beginning of another, and with flags of other signs than letters."""
    names = {'long': ['xy', 'xz', 'zx'], 'num': ['1', '11', '2'], 'signs': ['-x', 'x-', '+.']}[fmt]
    fmt = 'num' if fmt == 'num' else 'long'
    sep = '' if fmt == 'long' else ','
    filler = 'qq' if fmt == 'long' else '999'
    entries = []
    for i, stem in enumerate(('ab', 'c')):
        has = {f: ctx.choice(f'e{i}.{f}', [True, False]) for f in names[:3 if 2 in rule else 2]}
        entries.append(Entry(stem, sep.join([f for f in has if has[f]] or [filler]), has))
    items = [names[x] if isinstance(x, int) else x for x in rule]
    text = ''.join(x if x in ('*', '?') else f'({x})' for x in items)
    w, got = run(ctx, n, entries, [f'FLAG {fmt}', 'COMPOUNDMIN 1'] + rule_lines([text]), [items], names)
    if n == 3:
        ctx.reach('multi-character flags', ctx.AND(got, ctx.eq(w, 'abc')))


def signs(ctx, n, rules):
    m = Maker(ctx)
    flags = ''.join(c for c in rules[0] if c not in '*?') + 'Z'
    entries = [m.entry('e0', 'ab', flags), m.entry('e1', 'c', flags)]
    run(ctx, n, entries, ['COMPOUNDMIN 1'] + rule_lines(rules), rules, flags)
