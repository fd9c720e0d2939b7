"""C35: MAP gives exactly the words with related characters replaced from left to right."""

from checks.lang import aff

REACH = ['one replacement', 'several replacements', 'group of characters replaced', 'replaced by a group', 'two tables', 'suggested', 'none', 'suggested after two replacements']
# rows as written, letters of the words, longest word
TABLES = [
    (['ab'], 'abc', 5),
    (['abc'], 'abcd', 4),
    (['ab', 'cd'], 'abcd', 4),
    (['ab', 'bc'], 'abcd', 4),
    (['a(aa)'], 'ab', 5),
    (['a(bc)', 'cd'], 'abcd', 4),
    (['(ab)(ba)c'], 'abc', 5),
    (['ß(ss)'], 'asß', 5),
    (['(abc)(d)'], 'abcd', 5),
    (['-(--)', ".'"], "a-.'", 4),
]
# rows, entries, letters, longest word
SUGGESTED = [
    (['ab'], ['aab', 'bb', 'abcb'], 'abc', 4),
    (['a(bc)', 'cd'], ['bcd', 'aad', 'ad', 'bcbc'], 'abcd', 4),
    (['ß(ss)', 'ae'], ['ssa', 'ße', 'esse'], 'aesß', 4),
]
BOUNDS = {
    'quick': f'{len(TABLES)} MAP tables (one and two rows, members of one to three characters, rows sharing a member), every word of 0..5 characters over '
             'two to four letters; suggestions from dictionaries of three or four entries for every word of 2..4 letters',
    'thorough': 'words one character longer',
}
OUTSIDE = 'larger tables; the order of candidates'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('candidates', dict(v=v, n=n)) for v, t in enumerate(TABLES) for n in range(t[2] + 1 + more)] + \
        [('suggested', dict(v=v, n=n)) for v, t in enumerate(SUGGESTED) for n in range(2, t[3] + 1 + more)]


def members(row):
    out, group = [], None
    for c in row:
        if c == '(':
            group = ''
        elif c == ')':
            out.append(group)
            group = None
        elif group is None:
            out.append(c)
        else:
            group += c
    return out


def derived(ctx, text, rows, start=0, guard=True, depth=1):
    """All results with the condition under which they arise: [(text, condition, member, other, number of replacements)]."""
    for row in rows:
        for x in row:
            k = len(x)
            for pos in range(start, len(text) - k + 1):
                here = ctx.AND(guard, ctx.eq(text[pos:pos + k], x), *[ctx.NOT(ctx.eq(text[p:p + k], x)) for p in range(start, pos)])
                if not ctx.possible(here):
                    continue
                for y in row:
                    if y != x:
                        new = text[:pos] + y + text[pos + k:]
                        yield new, here, x, y, depth
                        yield from derived(ctx, new, rows, pos + len(y), here, depth + 1)


def candidates(ctx, v, n):
    from spylls.hunspell.algo import permutations
    rows, letters, _ = TABLES[v]
    d = ctx.dictionary(aff(f'MAP {len(rows)}', *[f'MAP {r}' for r in rows]), ['1', 'a'])
    w = ctx.word('w', n, letters)
    got = list(permutations.mapchars(w, d.aff.MAP))
    ctx.observe('candidates', sorted(ctx.realize(got)))
    want = list(derived(ctx, w, [members(r) for r in rows])) if n > 1 else []
    for t, ok, x, y, depth in want:
        ctx.check(ctx.IMPLIES(ok, ctx.OR([ctx.eq(g, t) for g in got if len(g) == len(t)])), 'every candidate is produced')
        ctx.reach('one replacement', ctx.AND(depth == 1, ok))
        ctx.reach('several replacements', ctx.AND(depth > 2, ok))
        ctx.reach('group of characters replaced', ctx.AND(len(x) > 1, ok))
        ctx.reach('replaced by a group', ctx.AND(len(y) > 1, ok))
        ctx.reach('two tables', ctx.AND(len(rows) > 1, depth > 1, ok))
    for g in got:
        ctx.check(ctx.OR([ctx.AND(ok, ctx.eq(g, t)) for t, ok, *_ in want if len(g) == len(t)]), 'nothing else is produced')
    ctx.reach('none', n > 1 and not got)


def suggested(ctx, v, n):
    rows, entries, letters, _ = SUGGESTED[v]
    d = ctx.dictionary(aff('KEY |', 'NOSPLITSUGS', 'MAXNGRAMSUGS 0', f'MAP {len(rows)}', *[f'MAP {r}' for r in rows]), [str(len(entries)), *entries])
    w = ctx.word('w', n, letters)
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    for t, ok, _, _, depth in derived(ctx, w, [members(r) for r in rows]):
        for e in entries:
            if len(e) == len(t):
                hit = ctx.AND(ok, ctx.eq(t, e))
                ctx.check(ctx.IMPLIES(hit, e in got), 'a dictionary word among the candidates is suggested')
                ctx.reach('suggested', hit)
                ctx.reach('suggested after two replacements', ctx.AND(depth == 2, hit))
