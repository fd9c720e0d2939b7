"""C41: a word is split into two words exactly where both may be suggested."""

from checks.lang import Maker, aff, dic

REACH = ['split', 'two splits', 'joined by a dash', 'no dash', 'switched off', 'part not to be suggested', 'forbidden part', 'part with a suffix',
         'compounds', 'phrase by REP']
TRIES = ['', 'TRY a', 'TRY -b', 'TRY bc', 'TRY A']
# options, entries with the flags they may carry
COMPOUNDS = [
    (['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2'], [('a', 'CN'), ('b', 'C'), ('ba', 'C')]),
    (['COMPOUNDRULE 1', 'COMPOUNDRULE CD', 'COMPOUNDMIN 1'], [('a', 'CN'), ('b', 'CD'), ('ba', 'D')]),
]
BOUNDS = {
    'quick': f'words of 2..6 letters over two letters; four entries with NOSUGGEST, ONLYINCOMPOUND, FORBIDDENWORD and a suffix flag symbolic; {len(TRIES)} settings of '
             f'TRY, with and without NOSPLITSUGS; {len(COMPOUNDS)} dictionaries with compounds, words of 2..5 letters; phrases by REP over words of 2..4 letters',
    'thorough': 'words one letter longer',
}
OUTSIDE = 'words with capitals (C12, C16), entries with a space or dash (C38), more suggestions than the limits (C15)'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('simple', dict(n=n, t=t, off=off)) for n in range(2, 7 + more) for t in range(len(TRIES)) for off in (False, True) if not off or t < 3]
    out += [('compounds', dict(fam=i, n=n, t=t)) for i in range(len(COMPOUNDS)) for n in range(2, 6 + more) for t in (0, 1)]
    out += [('phrase', dict(n=n, t=t, off=off)) for n in range(2, 5 + more) for t in (0, 1, 2) for off in (False, True)]
    return out


def carried(ctx, entries):
    return [(e.stem, {f for f in e.has if ctx.realize(e.carries(f))}) for e in entries]


def splits(word, good, dash):
    """The splits in order, with the words separated by a space and, if dash, by a dash."""
    return [word[:i] + sep + word[i:] for i in range(1, len(word)) if good(word[:i]) and good(word[i:]) for sep in (' -' if dash else ' ')]


def suggested(ctx, d, w):
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    return [s for s in got if ' ' in s or '-' in s]


def simple(ctx, n, t, off):
    mk = Maker(ctx)
    entries = [mk.entry('p', 'a', 'N'), mk.entry('q', 'ab', 'NO'), mk.entry('r', 'b', 'F'), mk.entry('s', 'ba', 'S')]
    options = ['MAXNGRAMSUGS 0', 'NOSUGGEST N', 'ONLYINCOMPOUND O', 'FORBIDDENWORD F'] + [x for x in [TRIES[t]] if x] + (['NOSPLITSUGS'] if off else [])
    d = ctx.dictionary(aff(*options, affixes=[mk.affix('x', 'SF', 'S', '', 'b')]), dic(entries))
    w = ctx.word('w', n, 'ab')
    got = suggested(ctx, d, w)
    word = ctx.realize(w)
    flags = carried(ctx, entries)
    texts = [(s, f) for s, f in flags] + [(s + 'b', f) for s, f in flags if 'S' in f]
    dash = TRIES[t] in ('TRY a', 'TRY -b')
    want = [] if off else splits(word, lambda x: any(x == s and not f & {'N', 'O', 'F'} for s, f in texts), dash)
    ctx.check(got == want, 'exactly the splits into two words, in order')
    every = splits(word, lambda x: x in ('a', 'ab', 'b', 'ba', 'bab'), False)
    ctx.reach('split', len(got) == 1)
    ctx.reach('two splits', len(got) == 2 and not dash)
    ctx.reach('joined by a dash', any('-' in s for s in got))
    ctx.reach('no dash', bool(got) and t == 3)
    ctx.reach('switched off', off and bool(every) and not got)
    ctx.reach('part not to be suggested', not off and 'a ab' in every and 'N' in flags[0][1])
    ctx.reach('forbidden part', not off and 'ba b' in every and 'F' in flags[2][1])
    ctx.reach('part with a suffix', 'bab ba' in got)


def compounds(ctx, fam, n, t):
    options, stems = COMPOUNDS[fam]
    mk = Maker(ctx)
    entries = [mk.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    d = ctx.dictionary(aff('MAXNGRAMSUGS 0', 'MAXCPDSUGS 99', 'NOSUGGEST N', *options, *[x for x in [TRIES[t]] if x]), dic(entries))
    w = ctx.word('w', n, 'ab')
    got = suggested(ctx, d, w)
    word = ctx.realize(w)
    flags = [(s, f) for s, f in carried(ctx, entries) if 'N' not in f]
    last = 'D' if fam else 'C'

    def compound(x):
        return any(x == s1 + s2 and 'C' in f1 and last in f2 for s1, f1 in flags for s2, f2 in flags)
    want = splits(word, lambda x: any(x == s for s, _ in flags), t == 1)
    want += [s for s in splits(word, compound, t == 1) if s not in want]
    ctx.check(got == want, 'exactly the splits into two words, then into two compounds')
    ctx.reach('compounds', any(len(p) == 2 for s in got for p in s.split(' ')) and 'ab ab' in got)


def phrase(ctx, n, t, off):
    mk = Maker(ctx)
    entries = [mk.entry('p', 'a', 'N'), mk.entry('q', 'b', ''), mk.entry('r', 'ab', 'N')]
    d = ctx.dictionary(aff('MAXNGRAMSUGS 0', 'NOSUGGEST N', 'REP 2', 'REP c _', 'REP bb b_b', *[x for x in [TRIES[t]] if x], *(['NOSPLITSUGS'] if off else [])), dic(entries))
    w = ctx.word('w', n, 'abc')
    got = suggested(ctx, d, w)
    word = ctx.realize(w)
    flags = carried(ctx, entries)

    def good(x):
        return any(x == s and 'N' not in f for s, f in flags)
    want = []
    for a, b in (('c', ' '), ('bb', 'b b')):
        want += [r for i in range(len(word)) if word.startswith(a, i) for r in [word[:i] + b + word[i + len(a):]] if all(good(p) for p in r.split(' '))]
    want += [] if off else splits(word, good, t > 0)
    ctx.check(got == list(dict.fromkeys(want)), 'phrases by REP are joined by spaces only')
    ctx.reach('phrase by REP', 'a b' in got and word == 'acb')
