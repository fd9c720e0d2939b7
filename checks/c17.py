"""C17: similarity metrics compute what they define."""

from itertools import combinations

ALPHA = 'abcdefgh'
REACH = ['lcs>1', 'common>0', 'prefix>0', 'ngram>2']
BOUNDS = {
    'quick': 'pairs of strings of lengths 0..4 x 0..4 over 8 letters (every equality pattern between the '
             'characters occurs), n-gram sizes 1..4, all option settings used by the library',
    'thorough': 'pairs of strings of lengths 0..5 x 0..5',
}
OUTSIDE = 'longer strings'
ASSUMPTIONS = []


def tasks(tier):
    n = 4 if tier == 'quick' else 5
    out = []
    for l1 in range(n + 1):
        for l2 in range(n + 1):
            out.append(('simple', dict(l1=l1, l2=l2)))
            out.append(('ngrams', dict(l1=l1, l2=l2)))
    return out


def pair(ctx, l1, l2):
    return ctx.word('s', l1, ALPHA), ctx.word('t', l2, ALPHA)


def is_subseq(sub, s):
    i = 0
    for c in s:
        if i < len(sub) and sub[i] == c:
            i += 1
    return i == len(sub)


def simple(ctx, l1, l2):
    from spylls.hunspell.algo import string_metrics as sm
    s, t = pair(ctx, l1, l2)
    lcs = sm.lcslen(s, t)
    com = sm.commoncharacters(s, t)
    left = sm.leftcommonsubstring(s, t)
    ctx.observe('result', [lcs, com, left])
    if lcs > 1:
        ctx.reach('lcs>1')
    if com > 0:
        ctx.reach('common>0')
    if left > 0:
        ctx.reach('prefix>0')
    # definitions
    n = min(l1, l2)
    best = 0
    for k in range(n, 0, -1):
        if any(is_subseq([s[i] for i in idx], t) for idx in combinations(range(l1), k)):
            best = k
            break
    ctx.check(lcs == best, 'LCS length')
    ctx.check(com == sum(1 for i in range(n) if s[i] == t[i]), 'characters in common positions')
    prefix = 0
    while prefix < n and s[prefix] == t[prefix]:
        prefix += 1
    ctx.check(left == prefix, 'common prefix length')


def occurs(ctx, sub, t):
    return ctx.OR([ctx.eq(t[i:i + len(sub)], sub) for i in range(len(t) - len(sub) + 1)])


def ngrams(ctx, l1, l2):
    from spylls.hunspell.algo import string_metrics as sm
    s, t = pair(ctx, l1, l2)
    size = ctx.choice('n', [1, 2, 3, 4])
    weighted = ctx.choice('weighted', [False, True])
    penalty = ctx.choice('penalty', ['', 'longer_worse', 'any_mismatch'])
    opts = {'weighted': weighted}
    if penalty:
        opts[penalty] = True
    res = sm.ngram(size, s, t, **opts)
    ctx.observe('result', res)
    if res > 2:
        ctx.reach('ngram>2')
    if l2 == 0:
        ctx.check(res == 0, 'n-gram score of the empty string')
        return
    score = 0
    for k in range(1, size + 1):
        found = missed = 0
        for i in range(l1 - k + 1):
            if occurs(ctx, s[i:i + k], t):
                found += 1
            elif weighted:
                missed += 1 + (1 if i == 0 or i == l1 - k else 0)
        score += found - missed
        if not weighted and found < 2:
            break
    diff = l2 - l1 if penalty == 'longer_worse' else abs(l2 - l1) if penalty else 0
    score -= max(0, diff - 2)
    ctx.check(res == score, 'n-gram score')
