"""C18: n-gram suggestions are the best-scoring dictionary forms."""

import re

from checks import metrics as m
from checks.lang import Maker, Affix, aff, dic

REACH = ['plain entry', 'suffixed form', 'prefixed form', 'both affixes', 'same up to case', 'questionable', 'nothing with ONLYMAXDIFF', 'longer by four',
         'after an edit', 'spelled variant', 'many entries', 'ranked', 'crowd', 'after MAP']

# options, affixes (kind, flag, strip, add, condition, cross), entries (stem, symbolic flags), start of the word, letters, longest rest
FAMILIES = [
    (['KEY |'], [], [('abcd', ''), ('abdc', ''), ('abcdab', ''), ('dcba', ''), ('ab', '')], '', 'abcd', 5),
    (['KEY |'], [('SF', 'S', '', 'ing', '.', True), ('SF', 'S', 'e', 'en', 'e', True), ('PF', 'P', '', 'un', '[^x]', True),
                 ('PF', 'Q', 'b', 're', '.', False), ('SF', 'T', '', 's', '[^e]', False)],
     [('bake', 'SPQ'), ('barn', 'STP'), ('xarn', 'P')], None, None, 1),
    (['KEY |'], [], [('abcde', ''), ('Abcd', ''), ('ABce', ''), ('ABcd', ''), ('aBcdef', '')], 'ab', 'cdeC', 3),
    (['KEY |', 'TRY x'], [], [('abcd', ''), ('abcdefgh', ''), ('abcdefghi', ''), ('cdabcd', ''), ('abcabcab', '')], 'abc', 'abdefx', 2),
    (['KEY |'], [], [('abcd', ''), ('abce', ''), ('cbad\tph:abab', ''), ('bcda ph:aabb ph:cccd', '')], '', 'abcd', 4),
    (['KEY |', 'PHONE 1', 'PHONE A A'], [], [('abcd', ''), ('abdc', ''), ('dcba', '')], '', 'abcd', 4),
    (['KEY |', 'MAP 2', 'MAP dx', 'MAP b(ac)'], [], [('abcdab', ''), ('abcdba', ''), ('abddab', ''), ('cabcda', '')], 'abc', 'abdx', 3),
]
STARTS = ['bak_', 'unba_', 'rebarn_', 'unxarn_', 'barn_', 'unbake_', 'reak_', 'unbar_ing', 'unb_ken', 'unx_rns', 'ba_ing', 'reak_ing', 'unba_ns']
MAXDIFF = [None, '0', '5', '10']
BOUNDS = {
    'quick': 'seven dictionaries (plain entries; suffixes and prefixes with strip, condition and cross product, flags symbolic; entries in '
             'every letter case; lengths up to and beyond four characters longer; ph: spellings; with phonetic table; with MAP), MAXDIFF 0, 5, 10 or '
             'absent, ONLYMAXDIFF on or off, misspellings of up to 5 free characters over four letters; 130 entries; 14 entries of the same rank',
    'thorough': 'one more free character',
}
OUTSIDE = 'order among equally ranked suggestions; the cut to the best 200 forms'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = []
    for i, f in enumerate(FAMILIES):
        for n in range(2 if f[3] == '' else 0, f[5] + 1 + more):
            if f[3] is None:
                out += [('ranking', dict(fam=i, n=n, start=s)) for s in STARTS]
            else:
                out.append(('ranking', dict(fam=i, n=n, start=f[3])))
    return out + [('crowd', dict(n=n)) for n in (1, 2)] + [('many', dict(n=n)) for n in range(2, 4 + more)]


def forms(entry, affixes, word):
    """Forms considered for the word, with the flags needed: [(text, [flags])]."""
    stem = entry
    out = [(stem, [])]
    sfx = [a for a in affixes if a[0] == 'SF' and re.search('(?:' + a[4] + ')$', stem) and stem.endswith(a[2]) and word.endswith(a[3])]
    pfx = [a for a in affixes if a[0] == 'PF' and re.match(a[4], stem) and word.startswith(a[3])]
    for s in sfx:
        out.append((stem[:len(stem) - len(s[2])] + s[3], [s[1]]))
    for p in pfx:
        out.append((p[3] + stem[len(p[2]):], [p[1]]))
        for s in sfx:
            if p[5] and s[5]:
                out.append((p[3] + stem[len(p[2]):len(stem) - len(s[2])] + s[3], [p[1], s[1]]))
    return out


def expected(word, entries, affixes, flags, maxdiff, only, phonetic, earlier):
    """Groups of equally ranked suggestions, best first. entries: [(stem, variants)], flags: stem -> carried flags."""
    ranked = []
    low = word.lower()
    top = m.threshold(low)
    factor = 1.0 if maxdiff is None else (10 - int(maxdiff)) / 5
    for stem, variants in entries:
        if abs(len(stem) - len(word)) > 4:
            continue
        cands = [(v, stem) for v in variants]
        cands += [(f.lower(), f) for f, need in forms(stem, affixes, low) if all(x in flags[stem] for x in need)]
        for compared, real in cands:
            base = m.rough(low, compared)
            if base > top:
                ranked.append((m.precise(low, compared.lower(), factor, base, phonetic), real))
    ranked.sort(key=lambda r: -r[0])
    groups = []
    for score, real in ranked:
        if groups and groups[-1][0] == score:
            groups[-1][1].append(real)
        else:
            groups.append((score, [real]))
    same = [g for g in groups if g[0] > 1000]
    good = [g for g in groups if -100 <= g[0] <= 1000]
    if same:
        return same, False
    # questionable ones only when there is nothing better, and then the best one only
    if any(not any(e.lower() in x for e in earlier) for _, g in good for x in g):
        return good, False
    if only:
        return good, False
    return good + groups[len(good):][:1], True


def run(ctx, options, affixes, entries, lines, flags, w, maxdiff, only, phonetic=False):
    extra = ['MAXNGRAMSUGS 20'] + ([f'MAXDIFF {maxdiff}'] if maxdiff is not None else []) + (['ONLYMAXDIFF'] if only else [])
    tables = [Affix(*a) for a in affixes]
    d = ctx.dictionary(aff(*options, *extra, affixes=tables), lines)
    # phonetic suggestions come after the n-grams
    none = ctx.dictionary(aff(*[o for o in options if 'PHONE' not in o], 'MAXNGRAMSUGS 0', affixes=tables), lines)
    got, base = [ctx.realize(s) for s in d.suggest(w)], [ctx.realize(s) for s in none.suggest(w)]
    word = ctx.realize(w)
    flags = {s: {x for x, f in fs.items() if ctx.realize(f)} for s, fs in flags.items()}
    ctx.observe('suggestions', [got, base])
    ctx.check(got[:len(base)] == base, 'edit suggestions come first')
    added = got[len(base):]
    groups, questionable = expected(word, entries, affixes, flags, maxdiff, only, phonetic, base)
    return word, base, added, groups, questionable


def verdict(ctx, word, base, added, groups, questionable, phonetic=False):
    if any(s == word.upper() or s == word for s in base):
        return      # reliable edit: nothing more is suggested
    lists = [added[:len(added) - k] for k in range(min(len(added), 2 if phonetic else 0) + 1)]
    if questionable and groups and groups[-1][0] < -100:
        # of the best questionable suggestions only one is made
        best = groups[-1][1]
        ok = any(m.allowed_order(x, [g for _, g in groups[:-1]] + [[one]], base) for one in best for x in lists)
        ctx.check(ok, 'the best questionable form is suggested when there is nothing better')
    else:
        ctx.check(any(m.allowed_order(x, [g for _, g in groups], base) for x in lists), 'exactly the forms with sufficient score are suggested, best first')


def ranking(ctx, fam, n, start):
    options, affixes, stems, _, letters, _ = FAMILIES[fam]
    maxdiff = ctx.choice('maxdiff', MAXDIFF) if fam == 0 and n < 5 else '10' if fam == 6 else None
    only = ctx.choice('only', [False, True]) if maxdiff and fam == 0 or fam in (2, 4) else False
    mk = Maker(ctx)
    made = [mk.entry(f'e{i}', s.split()[0], f) for i, (s, f) in enumerate(stems)]
    lines = dic(made)
    if fam == 4:
        lines = [str(len(stems))] + [s for s, _ in stems]
    flags = {e.stem: {x: e.carries(x) for x in f} for e, (s, f) in zip(made, stems)}
    before, _, after = start.partition('_')
    w = before + ctx.word('w', n, letters or 'egns') + after
    entries = [(s.split()[0], re.findall('ph:([a-z]+)', s)) for s, _ in stems]
    word, base, added, groups, questionable = run(ctx, options, affixes, entries, lines, flags, w, maxdiff, only, fam == 5)
    if fam == 4 and any(alt in word for _, alts in entries for alt in alts):
        return      # ph: replacement, a reliable edit
    verdict(ctx, word, base, added, groups, questionable, fam == 5)
    plain = {e.stem for e in made}
    low = word.lower()
    ctx.reach('plain entry', len(added) > 0 and added[0] in plain)
    ctx.reach('ranked', len(added) > 2)
    ctx.reach('suffixed form', any(s not in plain and s[:2] == 'ba' for s in added))
    ctx.reach('prefixed form', any(s not in plain and s[:2] in ('un', 're') and s[-2:] in ('ke', 'rn') for s in added))
    ctx.reach('both affixes', any(s not in plain and s[:2] == 'un' and s[-3:] == 'ing' for s in added))
    ctx.reach('same up to case', any(s.lower() == low and s != low for s in added))
    ctx.reach('questionable', questionable and len(added) == 1)
    ctx.reach('nothing with ONLYMAXDIFF', only and not added and any(g[0] < -100 for g in groups) is False and not base)
    ctx.reach('longer by four', any(len(s) == len(word) + 4 for s in added))
    ctx.reach('after an edit', len(base) > 0 and len(added) > 0)
    ctx.reach('after MAP', fam == 6 and 'x' in word and word.replace('x', 'd') in base and len(added) > 0)
    ctx.reach('spelled variant', fam == 4 and any(s in ('cbad', 'bcda') for s in added))


def many(ctx, n):
    """The best entries are found among more entries than are examined in detail."""
    fill = ['xy' + a + b for a in 'ghijklmnop' for b in 'ghijklmnopqrs']
    stems = ['abcd'] + fill[:60] + ['bacd'] + fill[60:] + ['cdab']
    entries = [(s, []) for s in stems]
    w = 'ab' + ctx.word('w', n, 'abcd')
    word, base, added, groups, questionable = run(ctx, ['KEY |'], [], entries, [str(len(stems))] + stems, {s: {} for s in stems}, w, 10, False)
    verdict(ctx, word, base, added, groups, questionable)
    ctx.reach('many entries', len(added) > 0)


def crowd(ctx, n):
    """Many entries of the same rank."""
    stems = ['abcd' + c for c in 'ghijklmnopqrst']
    entries = [(s, []) for s in stems]
    w = 'abcd' + ctx.word('w', n, 'dxg')
    word, base, added, groups, questionable = run(ctx, ['KEY |'], [], entries, [str(len(stems))] + stems, {s: {} for s in stems}, w, 10, False)
    verdict(ctx, word, base, added, groups, questionable)
    ctx.reach('crowd', len(added) == 14)
