"""C27: the affix index returns exactly the matching affixes."""

from itertools import product
from checks.lang import Maker, Entry, Affix, aff, dic

ALPHA = 'abcdefgh'
REACH = ['nothing found', 'several found', 'same key twice', 'empty key found', 'affix accepted', 'empty affix accepted', 'long key found']
BOUNDS = {
    'quick': 'tries of 3 keys of lengths 0..3 and of 4 keys of lengths 0..2 with every content over two letters, texts of 0..4 characters over 8 letters; '
             'keys of up to 16 characters three of which vary; '
             'dictionaries with 3 suffixes or prefixes of 0..2 symbolic characters (affix flags present or not)',
    'thorough': 'keys up to 4, texts up to 5 characters, affixes up to 3 characters',
}
OUTSIDE = 'larger tries'
ASSUMPTIONS = []


def tasks(tier):
    q = tier == 'quick'
    out = []
    seen = set()
    for k, top in ((3, 3 if q else 4), (4, 2)):
        for lens in product(range(top + 1), repeat=k):
            if tuple(sorted(lens)) in seen:
                continue
            seen.add(tuple(sorted(lens)))
            for n in sorted({0, max(lens), min(max(lens) + 1, 4 if q else 5)}):
                out.append(('trie', dict(lens=lens, n=n)))
    out += [('long', dict(k=k)) for k in range(4, 17 if q else 33, 3)]
    for kind in ('SF', 'PF'):
        for lens in product(range((2 if q else 3) + 1), repeat=3):
            if list(lens) == sorted(lens):
                for n in sorted(set(lens)):
                    out.append(('loaded', dict(kind=kind, lens=lens, n=n)))
    return out


def trie(ctx, lens, n):
    from spylls.hunspell.algo.trie import Trie
    keys = [ctx.word(f'k{i}', l, 'ab') for i, l in enumerate(lens)]
    text = ctx.word('t', n, ALPHA)
    how = ctx.choice('built by', ['put', 'set'])
    t = Trie()
    if how == 'put':
        for i, k in enumerate(keys):
            t.put(k, i)
    else:
        groups = []
        for i, k in enumerate(keys):
            for g in groups:
                if len(g[0]) == len(k) and g[0] == k:
                    g[1].append(i)
                    break
            else:
                groups.append((k, [i]))
        for k, values in groups:
            t.set(k, values)
    found = sorted(t.lookup(text))
    ctx.observe('found', found)
    for i, k in enumerate(keys):
        here = found.count(i)
        ctx.check(here <= 1, 'value found more often than stored')
        matching = len(k) <= n and ctx.eq(text[:len(k)], k)
        ctx.check(ctx.IFF(here == 1, matching), 'value found exactly under prefixes of the text')
    if not found:
        ctx.reach('nothing found')
    if len(found) > 1:
        ctx.reach('several found')
        same = [(i, j) for i in found for j in found if i < j and lens[i] == lens[j] > 0]
        if same:
            ctx.reach('same key twice')
    if any(lens[i] == 0 for i in found):
        ctx.reach('empty key found')


def long(ctx, k):
    """Long keys, of which the end, the middle and the beginning vary."""
    from spylls.hunspell.algo.trie import Trie
    shape = ['ab' if i in (0, k // 2, k - 1) else 'c' for i in range(k)]
    keys = [ctx.word('k0', k, shape), ctx.word('k1', k - 1, shape[:k - 1])]
    text = ctx.word('t', k, ['abz' if len(c) > 1 else 'cz' if i == 1 else 'c' for i, c in enumerate(shape)]) + ctx.choice('more', ['', 'a'])
    t = Trie()
    for i, key in enumerate(keys):
        t.put(key, i)
    found = sorted(t.lookup(text))
    ctx.observe('found', found)
    for i, key in enumerate(keys):
        ctx.check(ctx.IFF(i in found, ctx.eq(text[:len(key)], key)), 'value found exactly under prefixes of the text')
    ctx.reach('long key found', len(found) == 2)
    entry = Entry('qrs', 'X')
    for kind in ('SF', 'PF'):
        add = ctx.realize(keys[0])
        d = ctx.dictionary(aff(affixes=[Affix(kind, 'X', '', add, '.', True)]), dic([entry]))
        got = d.lookup('qrs' + text if kind == 'SF' else text + 'qrs')
        ctx.observe('lookup', got)
        ctx.check(ctx.IFF(got, ctx.eq(text, add) if len(text) == k else False), 'every affix at the end of the word is tried')


def loaded(ctx, kind, lens, n):
    m = Maker(ctx)
    adds = [ctx.realize(ctx.word(f'a{i}', l, 'ab')) for i, l in enumerate(lens)]
    entry = m.entry('e', 'qrs', 'XYZ')
    affixes = [Affix(kind, f, strip, add, '.', True) for f, strip, add in zip('XYZ', ('', '', 'qrs'[-1] if kind == 'SF' else 'q'), adds)]
    d = ctx.dictionary(aff(affixes=affixes), dic([entry]))
    t = ctx.word('t', n, 'abcdefgh')
    for j in range(2):
        base = ('qrs', 'qr' if kind == 'SF' else 'rs')[j]
        w = base + t if kind == 'SF' else t + base
        got = d.lookup(w)
        ctx.observe('lookup', got)
        if j == 0:
            want = [ctx.AND(ctx.eq(t, a), entry.carries(f)) for a, f in zip(adds[:2], 'XY') if len(a) == n]
            if n == 0:
                want.append(True)
        else:
            want = [ctx.AND(ctx.eq(t, adds[2]), entry.carries('Z'))] if lens[2] == n else []
        ctx.check(ctx.IFF(got, ctx.OR(want)), 'every affix at the end of the word is tried')
        if n:
            ctx.reach('affix accepted', got)
        elif j == 1 and lens[2] == 0:
            ctx.reach('empty affix accepted', got)
