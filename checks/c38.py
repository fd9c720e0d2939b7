"""C38: an entry with a space or dash that the word equals ends the suggestions."""

from checks.lang import Maker, aff, dic, captype

REACH = ['entry with a space', 'entry with a dash', 'second of two entries', 'capitals before', 'replacement before', 'recased', 'no such entry', 'not to be suggested', 'word accepted', 'forbidden']
# options, entries with the flags they may carry, further entries, letters, longest word
FAMILIES = [
    (['TRY abc', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2'], [('a b', 'N'), ('a bc', 'N'), ('ab c', ''), ('b-c', 'N')], ['a', 'b/C', 'bc/C', 'AB'], 'abc', 5),
    (['TRY abc', 'REP 2', 'REP c b', 'REP ab c', 'FORBIDDENWORD F'], [('c b', 'F'), ('a cb', ''), ('ac-b', 'F')], ['a', 'b', 'ab', 'bb', 'CB', 'abb'], 'abc', 5),
    (['TRY bc', 'MAP 1', 'MAP bc'], [('b c', 'N'), ('b-b', ''), ('c bb', '')], ['bcb', 'c', 'cc', 'ccc'], 'bc', 5),
    (['TRY abc'], [('a b', 'N'), ('ab c', ''), ('B c', '')], ['a', 'ab', 'cb', 'bca'], 'abcABC', 4),
    (['TRY -b', 'NOSPLITSUGS'], [('b c', 'N'), ('c-b', ''), ('bc b', 'N')], ['b', 'c', 'cc', 'bcc'], 'bc', 5),
]
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries with three or four entries that have a space or a dash, some with NOSUGGEST or FORBIDDENWORD symbolic, further entries that edits, '
             'compounding, REP, MAP and n-grams reach; every word of 2..5 characters over two or three letters, of 2..4 in both cases',
    'thorough': 'words one character longer',
}
OUTSIDE = 'OCONV; entries with several spaces; REP replacements that contain a space; affixes'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('ends', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(2, f[4] + 1 + more)]


def replaced(options, word):
    for row in options:
        if row.startswith('REP ') and len(row.split()) == 3:
            _, a, b = row.split()
            for i in range(len(word)):
                if word.startswith(a, i):
                    yield word[:i] + b + word[i + len(a):]


def ends(ctx, fam, n):
    options, stems, others, letters, _ = FAMILIES[fam]
    mk = Maker(ctx)
    entries = [mk.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    lines = dic(entries)
    lines = [str(len(lines) - 1 + len(others))] + lines[1:] + others
    d = ctx.dictionary(aff('NOSUGGEST N', *options), lines)
    w = ctx.word('w', n, letters)
    got = [ctx.realize(s) for s in d.suggest(w)]
    ctx.observe('suggestions', got)
    word = ctx.realize(w)
    flags = {e.stem: {x for x in f if ctx.realize(e.carries(x))} for e, (_, f) in zip(entries, stems)}
    k = captype(word)
    low, rest = word.lower(), word[0] + word[1:].lower()
    spellings = [word] + {'NO': [], 'INIT': [low], 'ALL': [low, rest], 'HUH': [low], 'HUHINIT': [word[0].lower() + word[1:], low, rest]}[k]
    dash = any(row.startswith('TRY') and ('a' in row or '-' in row) for row in options)
    found = []
    for v in spellings:
        cuts = [v[:i] + sep + v[i:] for i in range(1, n) for sep in (' -' if dash else ' ')]
        found = [c for c in cuts if c in flags]
        allowed = [c for c in found if not flags[c]]
        ctx.reach('not to be suggested', any('N' in flags[c] for c in found))
        ctx.reach('forbidden', any('F' in flags[c] for c in found))
        if allowed:
            break
    else:
        ctx.reach('no such entry', bool(got))
        return
    first = allowed[0]
    cased = {first, first.upper() if k == 'ALL' else first[0].upper() + first[1:] if k in ('INIT', 'HUHINIT') else first}
    if k.startswith('HUH') and ' ' in first:
        # the second word gets the capital it is written with
        cased |= {t[:i + 1] + t[i + 1].upper() + t[i + 2:] for t in cased for i in [first.index(' ')]}
    ctx.check(bool(got) and got[-1] in cased, 'the entry is suggested and ends the suggestions')
    if k == 'NO':
        before = {word.upper(), *replaced(options, word)}
        ctx.check(set(got[:-1]) <= before, 'only capitals and replacements come before it')
        ctx.reach('capitals before', word.upper() in got)
        ctx.reach('replacement before', len([g for g in got[:-1] if g != word.upper()]) > 0)
        ctx.reach('second of two entries', found[0] != first)
    ctx.reach('entry with a space', ' ' in first)
    ctx.reach('entry with a dash', '-' in first)
    ctx.reach('recased', k != 'NO' and got[-1] != first)
    ctx.reach('word accepted', word in others)
