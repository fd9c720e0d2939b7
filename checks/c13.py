"""C13: a correct word one edit away is suggested."""

from checks.lang import Maker, Affix, aff, dic, captype

KINDS = ['adjacent swap', 'double swap', 'long swap', 'keyboard', 'upper case letter', 'extra', 'missing', 'moved', 'wrong', 'doubled', 'map',
         'rep', 'capitals', 'two words', 'two words with dash', 'spaced entry']
REACH = KINDS + ['affixed word', 'capitalised misspelling', 'misspelling in capitals', 'not suggested', 'compound', 'compound after other suggestions', 'fifteen suggestions', 'limit reached', 'simple word instead of a compound', 'default layout', 'not neighbours']

ROWS = ['qwertyuiop', 'asdfghjkl', 'zxcvbnm']
FAMILIES = [
    # options dict, affixes, entries (stem, optional flags), alphabet, longest word
    (dict(TRY='ab', KEY='cd|a'), [], [('abcd', ''), ('acb', 'N'), ('cad', ''), ('b', '')], 'abcd', 5),
    (dict(TRY='e'), [('SF', 'S', '', 'c', '.', True), ('PF', 'P', '', 'b', '.', True)], [('ab', 'SPN'), ('aec', 'N'), ('c', '')], 'abce', 4),
    (dict(TRY='', REP=[('b', 'cc'), ('^ca', 'b'), ('a$', 'c'), ('d', '_')], MAP=['bd', 'ce']), [],
     [('acc', ''), ('bcb', ''), ('ed', 'F'), ('a', ''), ('ec', '')], 'abcde', 4),
    (dict(TRY='', KEY='xa|b'), [], [('ababc', ''), ('abc', ''), ('acb', ''), ('cab', '')], 'abc', 6),
    (dict(TRY='a'), [], [('ab', ''), ('c', ''), ('a-c', 'N'), ('b c', '')], 'abc-', 4),
    (dict(TRY='ж', NOSPLITSUGS=True), [], [('ab', ''), ('c', ''), ('жc', '')], 'abcж', 4),
    (dict(TRY='b', KEY='ac'), [], [('ab', ''), ('Ca', ''), ('aCb', ''), ('BC', '')], 'abcABC', 3),
    (dict(TRY=''), [], [('abcdef', ''), ('fbcdea', ''), ('bcdaef', '')], 'abcdef', 0),
    (dict(TRY='a', KEY='ad|bc', REP=[('e', 'a')], MAP=['bd'], compounds=True), [], [('a', 'C'), ('bc', 'C'), ('cac', 'C'), ('aba', '')], 'abcde', 4),
    (dict(TRY='-', KEY='|'), [], [('ab', ''), ('c', ''), ('b-c', '')], 'abc', 3),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries of up to 5 entries (plain, affixed, with NOSUGGEST/FORBIDDENWORD, capitals, spaces and dashes), every '
             'misspelling of 1..4 (up to 6) characters over 3..6 letters; one family of 6-letter words whose misspelling is any '
             'rearrangement that keeps three letters; 13 to 17 words one edit away; every pair of neighbours on the default keyboard',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'more than 15 candidates, compounds of three parts'
ASSUMPTIONS = ['an entry with a space or dash matching the word ends the search as documented']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('edits', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1, f[4] + 1 + more) if f[4]]
    out.append(('edits', dict(fam=7, n=6)))
    out += [('keyboard', dict(row=r, upper=u)) for r in ROWS for u in (False, True)]
    out += [('limit', dict(v=v)) for v in range(2)]
    return out


def keyboard(ctx, row, upper):
    """The keyboard layout in absence of KEY."""
    correct = ctx.choice('correct', row)
    wrong = ctx.choice('wrong', [c for c in ''.join(ROWS) if not upper or c in row])
    d = ctx.dictionary(aff('MAXNGRAMSUGS 0', 'NOSPLITSUGS'), ['1', '1' + correct + '2' if not upper else correct + '12'])
    got = d.suggest('1' + wrong + '2' if not upper else wrong.upper() + '12')
    got = [ctx.realize(g) for g in got]
    ctx.observe('suggestions', got)
    a, b = ctx.realize(correct), ctx.realize(wrong)
    near = any(a + b in r or b + a in r for r in ROWS)
    if a != b:
        right = '1' + a + '2' if not upper else a.upper() + '12'
        ctx.check((right in got) == near, 'neighbours on the default keyboard')
    ctx.reach('default layout', near)
    ctx.reach('not neighbours', not near and a != b)


def limit(ctx, v):
    """As many words one edit away as may be suggested."""
    letters = 'bcdefghijklmnopqr'
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', ['a' + c, c + 'x' if i % 2 else 'a' + c][v], 'N' if i % 4 == 2 else '') for i, c in enumerate(letters)]
    d = ctx.dictionary(aff('TRY ' + letters, 'KEY |', 'NOSPLITSUGS', 'NOSUGGEST N', 'MAXNGRAMSUGS 0'), dic(entries))
    w = ctx.char('w0', 'a') + ctx.char('w1', 'xyb' if v == 0 else 'x')
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    word = ctx.realize(w)
    able = [e.stem for e in entries if e.stem != word and not ctx.realize(e.carries('N'))]
    if len(able) <= 15:
        ctx.check(all(s in got for s in able), 'words one edit away are suggested below the limit')
    ctx.reach('fifteen suggestions', len(able) == 15 and len(got) >= 15)
    ctx.reach('limit reached', len(able) > 15)


def swapped(w, i, j):
    return w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:]


def moved(w, i, j):
    rest = w[:i] + w[i + 1:]
    return rest[:j] + w[i] + rest[j:]


def ways(ctx, o, w, d):
    """Formulas: by which kinds of edits the word gives the correct word d."""
    n = len(w)
    out = {k: [] for k in KINDS}

    def add(kind, text):
        if len(text) == len(d):
            out[kind].append(ctx.eq(text, d))
    for i in range(n - 1):
        add('adjacent swap', swapped(w, i, i + 1))
    if n == 4:
        add('double swap', swapped(swapped(w, 0, 1), 2, 3))
    if n == 5:
        add('double swap', swapped(swapped(w, 0, 1), 3, 4))
        add('double swap', swapped(swapped(w, 1, 2), 3, 4))
    for i in range(n):
        for j in range(i + 2, min(n, i + 5)):
            add('long swap', swapped(w, i, j))
        for j in range(n):
            if abs(i - j) in (2, 3):
                add('moved', moved(w, i, j))
        if n > 1:
            add('extra', w[:i] + w[i + 1:])
    for c in o['TRY']:
        for i in range(n + 1):
            add('missing', w[:i] + c + w[i:])
            if i < n:
                add('wrong', w[:i] + c + w[i + 1:])
    if len(d) == n:
        layout = o.get('KEY', '')
        for i in range(n):
            others = [ctx.eq(w[j], d[j]) for j in range(n) if j != i]
            for p, k in enumerate(layout):
                near = [layout[q] for q in (p - 1, p + 1) if 0 <= q < len(layout) and layout[q] != '|']
                if k != '|' and d[i] in near:
                    out['keyboard'].append(ctx.AND(ctx.eq(w[i], k), *others))
            if d[i] != d[i].lower() and d[i].lower().upper() == d[i]:
                out['upper case letter'].append(ctx.AND(ctx.eq(w[i], d[i].lower()), *others))
        out['capitals'].append(ctx.eq(w.upper(), d) if d == d.upper() else False)
        for group in o.get('MAP', []):
            for x in group:
                for i in range(n):
                    if n > 1 and d[i] in group and d[i] != x:
                        out['map'].append(ctx.AND([ctx.eq(w[i], x)] + [ctx.eq(w[j], d[j]) for j in range(n) if j != i] +
                                                  [ctx.NOT(ctx.eq(w[j], x)) for j in range(i)]))
    if n >= 5:
        for i in range(n - 3):
            if len(d) == n - 2:
                out['doubled'].append(ctx.AND(ctx.eq(w[i:i + 2], w[i + 2:i + 4]), ctx.eq(w[:i] + w[i + 2:], d)))
    if n > 1:
        for pattern, replacement in o.get('REP', []):
            core, k = pattern.strip('^$'), len(pattern.strip('^$'))
            for i in range(n - k + 1):
                if pattern.startswith('^') and i > 0 or pattern.endswith('$') and i + k < n:
                    continue
                text = w[:i] + replacement.replace('_', ' ') + w[i + k:]
                if len(text) == len(d):
                    out['rep'].append(ctx.AND(ctx.eq(w[i:i + k], core), ctx.eq(text, d)))
    for sep in ' -':
        if sep in d and len(d) == n + 1:
            if sep == ' ' or 'a' in o['TRY'] or '-' in o['TRY']:
                out['spaced entry'].append(ctx.OR([ctx.eq(w[:i] + sep + w[i:], d) for i in range(1, n)]))
    return {k: ctx.OR(v) for k, v in out.items()}


def edits(ctx, fam, n):
    o, affixes, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    lines = ['MAXNGRAMSUGS 0', 'NOSUGGEST N', 'FORBIDDENWORD F'] + [f'{k} {o[k]}' for k in ('TRY', 'KEY') if o.get(k)]
    for k in ('REP', 'MAP'):
        if k in o:
            lines += [f'{k} {len(o[k])}'] + [f'{k} {r if k == "MAP" else " ".join(r)}' for r in o[k]]
    if o.get('NOSPLITSUGS'):
        lines.append('NOSPLITSUGS')
    if o.get('compounds'):
        lines += ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'MAXCPDSUGS 30', 'NOSPLITSUGS']
    d = ctx.dictionary(aff(*lines, affixes=[Affix(*a) for a in affixes]), dic(entries))
    if fam == 7:
        # at most three letters differ from the alphabetical order
        w = ctx.word('w', n, alphabet)
        ctx.assume(ctx.AND(ctx.eq(w[1], 'b'), ctx.OR(ctx.AND(ctx.eq(w[2], 'c'), ctx.eq(w[3], 'd')), ctx.AND(ctx.eq(w[2], 'c'), ctx.eq(w[5], 'f')))))
    else:
        w = ctx.word('w', n, alphabet)
    got = list(d.suggest(w))
    ctx.observe('suggestions', got)

    # words that may be suggested, with the condition under which they are
    words, compounds = [], []
    for e, (stem, maybe) in zip(entries, stems):
        ok = ctx.NOT(ctx.OR([e.carries(f) for f in maybe if f in 'NF']))
        words.append((stem, ok, False))
        if o.get('compounds'):
            for e2, (stem2, _) in zip(entries, stems):
                compounds.append((stem + stem2, ctx.AND(e.carries('C'), e2.carries('C'))))
        for kind, flag, _, add, _, _ in affixes:
            if flag in maybe:
                words.append((stem + add if kind == 'SF' else add + stem, ctx.AND(ok, e.carries(flag)), True))
        if len(affixes) == 2 and all(a[1] in maybe for a in affixes):
            words.append((affixes[1][3] + stem + affixes[0][3], ctx.AND(ok, *[e.carries(a[1]) for a in affixes]), True))

    def suggested(text):
        return ctx.OR([ctx.eq(g, text) for g in got if len(g) == len(text)])

    def judge(v, stop, recase, label):
        for text, ok, affixed in words:
            found = suggested(recase(text))
            for kind, one_edit in ways(ctx, o, v, text).items():
                cond = ctx.AND(one_edit, ok, ctx.NOT(len(text) == len(v) and ctx.eq(v, text)))
                if kind not in ('spaced entry', 'rep', 'capitals'):
                    cond = ctx.AND(cond, ctx.NOT(stop))
                if not ctx.possible(cond):
                    continue
                ctx.check(ctx.IMPLIES(cond, found), f'word one edit away is suggested: {kind}')
                ctx.reach(label or kind, cond)
                if affixed:
                    ctx.reach('affixed word', cond)
        if compounds:
            # found after simple words, unless these were corrected by capitals, REP or MAP
            simple = []
            for text, ok, _ in words:
                found_by = ways(ctx, o, v, text)
                simple += [ctx.AND(found_by[k], ok) for k in ('capitals', 'rep', 'map')]
            for text, ok in compounds:
                if text not in [t for t, _, _ in words]:
                    ctx.check(ctx.IMPLIES(ctx.OR(simple), ctx.NOT(suggested(text))), 'no compound after a simple word by capitals, REP or MAP')
                    ctx.reach('simple word instead of a compound', ctx.AND(ctx.OR(simple), ok, ctx.OR(ways(ctx, o, v, text).values())))
                for kind, one_edit in ways(ctx, o, v, text).items():
                    cond = ctx.AND(one_edit, ok, ctx.NOT(ctx.OR(simple)), ctx.NOT(len(text) == len(v) and ctx.eq(v, text)))
                    if ctx.possible(cond):
                        ctx.check(ctx.IMPLIES(cond, suggested(text)), f'compound one edit away is suggested: {kind}')
                        ctx.reach('compound', cond)
                        ctx.reach('compound after other suggestions', len(got) > 1 and ctx.AND(cond, ctx.NOT(ctx.eq(got[0], text))))
        if o.get('NOSPLITSUGS') or compounds:
            return
        single = [(t, ok) for t, ok, _ in words if ' ' not in t]
        for a, ok1 in single:
            for b, ok2 in single:
                if len(a) + len(b) != len(v):
                    continue
                cond = ctx.AND(ctx.eq(v, a + b), ok1, ok2, ctx.NOT(stop))
                if ctx.possible(cond):
                    for sep in (' ', '-') if 'a' in o['TRY'] or '-' in o['TRY'] else (' ',):
                        ctx.check(ctx.IMPLIES(cond, suggested(recase(a + sep + b))), 'two words are suggested')
                        ctx.reach('two words' if sep == ' ' else 'two words with dash', cond)

    def ends(v):
        return ctx.OR([ctx.AND(ways(ctx, o, v, t)['spaced entry'], ok) for t, ok, _ in words if ' ' in t or '-' in t])

    if fam != 6:
        judge(w, ends(w), lambda t: t, None)
        ctx.reach('not suggested', not got)
        return
    v = ctx.realize(w)
    k = captype(v)
    if k == 'NO':
        judge(w, False, lambda t: t, None)
    elif k == 'INIT':
        judge(v.lower(), False, lambda t: t[0].upper() + t[1:], 'capitalised misspelling')
        judge(v, False, lambda t: t[0].upper() + t[1:], 'capitalised misspelling')
    elif k == 'ALL':
        for x in (v, v.lower(), v[0] + v[1:].lower()):
            judge(x, False, lambda t: t.upper(), 'misspelling in capitals')
    elif k == 'HUH':
        for x in (v, v.lower()):
            judge(x, False, lambda t: t, 'mixed case misspelling')
    elif k == 'HUHINIT':
        for x in (v, v[0].lower() + v[1:], v.lower()):
            judge(x, False, lambda t: t[0].upper() + t[1:], 'mixed case misspelling')
