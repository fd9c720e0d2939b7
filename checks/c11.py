"""C11: each kind of edit produces exactly the documented candidates."""

ALPHA = 'abcdefgh'
REACH = ['swap', 'double swap', 'long swap', 'key', 'upper', 'extra', 'forgot', 'move', 'move to the end', 'badchar', 'doubled',
         'twowords', 'rep', 'rep phrase', 'map']
BOUNDS = {
    'quick': 'every word of 0..7 characters over 8 letters (0..5 for keyboard, TRY, REP and MAP edits), four keyboard layouts (some characters at several places) and every layout of up to 4 keys over 4 characters with words of up to 3, three TRY '
             'strings, REP table of 8 rows (overlapping occurrences included) with anchors and spaces, three MAP tables',
    'thorough': 'words of up to 9 (6) characters',
}
OUTSIDE = 'MAP options of several characters, MAP replacements that leave the first mapped character unchanged (documented not to be ' \
          'produced); characters whose upper case is longer than one character'
ASSUMPTIONS = ['whether a candidate equal to the word itself is produced is not judged; moving by 4 places is documented for '
               'spylls but not done, it is neither required nor rejected']


def tasks(tier):
    big, small = (7, 5) if tier == 'quick' else (9, 6)
    out = [(h, dict(n=n)) for n in range(big + 1) for h in ('swaps', 'moves', 'removals', 'doubled', 'words')]
    out += [(h, dict(n=n, v=v)) for n in range(small + 1) for h, k in (('keyboard', 4), ('tries', 4), ('maps', 3)) for v in range(k)]
    out += [('keyboard', dict(n=n, v=4)) for n in range(1, small - 1)]
    out += [('rep', dict(n=n)) for n in range(small + 1)]
    return out


def pmt():
    from spylls.hunspell.algo import permutations
    return permutations


def same(ctx, w, got, required, label, tolerated=()):
    """The yielded candidates are exactly the required ones (up to repetitions and the word itself)."""
    def eq(a, b):
        if isinstance(a, list) or isinstance(b, list):
            return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and ctx.AND([eq(x, y) for x, y in zip(a, b)])
        return len(a) == len(b) and ctx.eq(a, b)
    got = list(got)
    ctx.observe(label, got)
    for g in got:
        ctx.check(ctx.OR([eq(g, w)] + [eq(g, r) for r in required] + [eq(g, r) for r in tolerated]), label + ': nothing else is produced')
    for r in required:
        ctx.check(ctx.OR([eq(r, w)] + [eq(g, r) for g in got]), label + ': every candidate is produced')
    return got


def swapped(w, i, j):
    return w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:]


def swaps(ctx, n):
    w = ctx.word('w', n, ALPHA)
    required = [swapped(w, i, i + 1) for i in range(n - 1)]
    if n == 4:
        required.append(swapped(swapped(w, 0, 1), 2, 3))
    if n == 5:
        required += [swapped(swapped(w, 0, 1), 3, 4), swapped(swapped(w, 1, 2), 3, 4)]
    got = same(ctx, w, pmt().swapchar(w), required, 'adjacent swap')
    ctx.reach('swap', len(got) > 0)
    ctx.reach('double swap', n == 5 and len(got) > 0)
    got = same(ctx, w, pmt().longswapchar(w), [swapped(w, i, j) for i in range(n) for j in range(i + 2, min(n, i + 5))], 'long swap')
    ctx.reach('long swap', len(got) > 0)


def moved(w, i, j):
    rest = w[:i] + w[i + 1:]
    return rest[:j] + w[i] + rest[j:]


def moves(ctx, n):
    w = ctx.word('w', n, ALPHA)
    required = [moved(w, i, j) for i in range(n) for j in range(n) if abs(i - j) in (2, 3)]
    got = same(ctx, w, pmt().movechar(w), required, 'move', tolerated=[moved(w, i, j) for i in range(n) for j in range(n) if abs(i - j) == 4])
    ctx.reach('move', len(got) > 0)
    if n == 4:
        ctx.reach('move to the end', ctx.OR([ctx.AND(ctx.eq(g, 'bcda'), ctx.eq(w, 'abcd')) for g in got]))


def removals(ctx, n):
    w = ctx.word('w', n, ALPHA)
    got = same(ctx, w, pmt().extrachar(w), [w[:i] + w[i + 1:] for i in range(n)] if n > 1 else [], 'extra character')
    ctx.reach('extra', len(got) > 0)


def doubled(ctx, n):
    w = ctx.word('w', n, ALPHA)
    required = []
    if n >= 5:
        for i in range(n - 3):
            if w[i:i + 2] == w[i + 2:i + 4]:
                required.append(w[:i] + w[i + 2:])
    got = same(ctx, w, pmt().doubletwochars(w), required, 'doubled two characters')
    ctx.reach('doubled', len(got) > 0)


def words(ctx, n):
    w = ctx.word('w', n, ALPHA)
    got = same(ctx, w, pmt().twowords(w), [[w[:i], w[i:]] for i in range(1, n)], 'two words')
    ctx.reach('twowords', len(got) > 0)


LAYOUTS = ['', 'abc|de', 'ab|cad|b', 'abacaa|dd', None]


def keyboard(ctx, n, v):
    layout = LAYOUTS[v]
    w = ctx.word('w', n, ALPHA + 'A' if layout is not None else 'abC')
    if layout is None:
        layout = ctx.word('layout', ctx.choice('keys', [1, 2, 3, 4]), 'abC|')
    required = []
    for i in range(n):
        c = w[i]
        up = c.upper()
        if c != up:
            required.append(w[:i] + up + w[i + 1:])
        for p, k in enumerate(layout):
            if bool(k != '|') and bool(c == k):
                for q in (p - 1, p + 1):
                    if 0 <= q < len(layout) and bool(layout[q] != '|'):
                        required.append(w[:i] + layout[q] + w[i + 1:])
    got = same(ctx, w, pmt().badcharkey(w, layout), required, 'keyboard neighbour or upper case')
    ctx.reach('upper', len(got) > 0)
    ctx.reach('key', v > 0 and len(got) > n)


TRIES = ['', 'x', 'xyz', 'ax-']


def tries(ctx, n, v):
    chars = TRIES[v]
    w = ctx.word('w', n, ALPHA)
    got = same(ctx, w, pmt().forgotchar(w, chars), [w[:i] + c + w[i:] for i in range(n + 1) for c in chars], 'forgotten character')
    ctx.reach('forgot', len(got) > 0)
    got2 = same(ctx, w, pmt().badchar(w, chars), [w[:i] + c + w[i + 1:] for i in range(n) for c in chars], 'wrong character')
    ctx.reach('badchar', len(got2) > 0)
    if v == 2:
        for result in (got, got2):
            order = [chars.index(c) for g in result for c in chars if any(x == c for x in g)]
            ctx.check(order == sorted(order), 'TRY order is respected')


REP = [('a', 'xy'), ('bc', 'd'), ('^b', 'e'), ('c$', 'f'), ('^ad$', 'g_h'), ('d', '_'), ('aa', 'z'), ('fef', 'y')]


def rep(ctx, n):
    table = ctx.dictionary([f'REP {len(REP)}'] + ['REP ' + ' '.join(r) for r in REP], ['0']).aff.REP
    w = ctx.word('w', n, ALPHA)
    required = []
    if n > 1:
        for pattern, replacement in REP:
            core = pattern.strip('^$')
            k = len(core)
            for i in range(n - k + 1):
                if pattern.startswith('^') and i > 0 or pattern.endswith('$') and i + k < n:
                    continue
                if w[i:i + k] == core:
                    text = w[:i] + replacement.replace('_', ' ') + w[i + k:]
                    required.append(text)
                    if '_' in replacement:
                        p = i + replacement.index('_')
                        required.append([text[:p], text[p + 1:]])
    got = same(ctx, w, pmt().replchars(w, table), required, 'REP replacement')
    ctx.reach('rep', len(got) > 0)
    ctx.reach('rep phrase', any(isinstance(g, list) for g in got))


MAPS = [['ax'], ['ax', 'by'], ['axy']]


def maps(ctx, n, v):
    w = ctx.word('w', n, ALPHA)
    table = [set(m) for m in MAPS[v]]
    got = list(pmt().mapchars(w, table))
    ctx.observe('map', sorted(ctx.realize(got)))
    partner = {c: [o for o in m if o != c] for m in MAPS[v] for c in m}

    def mapped(a, b):
        return ctx.OR([ctx.eq(a, b)] + [ctx.AND(ctx.eq(a, c), ctx.eq(b, o)) for c in partner for o in partner[c]])
    for g in got:
        ctx.check(len(g) == n and ctx.AND([mapped(w[i], g[i]) for i in range(n)]), 'MAP: nothing else is produced')
    if n < 2:
        ctx.check(not got, 'MAP: nothing for words of one character')
        return
    # replacing the first character of each kind
    for c in partner:
        for i in range(n):
            first = ctx.AND([ctx.eq(w[i], c)] + [ctx.NOT(ctx.eq(w[j], c)) for j in range(i)])
            if not ctx.possible(first):
                continue
            for o in partner[c]:
                text = w[:i] + o + w[i + 1:]
                ctx.check(ctx.IMPLIES(first, ctx.OR([ctx.eq(g, text) for g in got])), 'MAP: every candidate is produced')
    ctx.reach('map', len(got) > 1)
