"""C15: suggestions are duplicate-free and within the declared limits."""

from checks.lang import Maker, Affix, aff, dic

REACH = ['several suggestions', 'n-gram limit reached', 'n-grams cut off', 'phonetic limit reached', 'compound suggested', 'compounds off',
         'no n-grams after reliable edit', 'dashes', 'converted', 'reliable edit and another', 'reliable compound', 'n-gram after other edits', 'fifteen', 'default limit reached', 'default limit of compounds reached']
BOUNDS = {
    'quick': 'six dictionaries (edits with case variants, REP, MAP and spaces; OCONV; dashes; compounds with MAXCPDSUGS 0..2 or default; n-grams with '
             'MAXNGRAMSUGS 0..5 or default, also with MAXDIFF 10; phonetic) and every misspelling up to 4..6 characters over 3..6 letters (n-gram and phonetic: two '
             'or three letters fixed); 18 words one edit away',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'larger dictionaries'
ASSUMPTIONS = []

EDITS = [
    (['TRY ab', 'KEY ab|c', 'REP 3', 'REP a bb', 'REP b _', 'REP ca c', 'MAP 1', 'MAP bc'],
     ['ab', 'Ab', 'ba', 'AB', 'a b', 'b'], 'abcAB', 4),
    (['TRY a-', 'OCONV 3', 'OCONV b a', 'OCONV bb b', 'OCONV ca ac'], ['ab', 'aa', 'ba', 'bb', 'ca', 'ac', 'a-b', 'b'], 'abc-', 4),
    (['TRY ab'], ['ab', 'b', 'a-b', 'ab-a', 'a'], 'abc-', 5),
]
NGRAM = ['abcdef', 'abcdeg', 'abcdeh', 'abcdfe', 'Abcdgg', 'bcde']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('distinct', dict(fam=i, n=n)) for i, f in enumerate(EDITS) for n in range(1, f[3] + 1 + more)]
    out += [('compounds', dict(n=n, limit=k)) for n in range(2, 6 + more) for k in (None, 0, 1, 2)]
    out += [('ngrams', dict(n=n, limit=k)) for n in range(1, 3 + more) for k in (None, 0, 1, 2, 5)]
    out += [('ngrams', dict(n=n, limit=k, loose=True)) for n in range(1, 3 + more) for k in (None, 3, 5)]
    out += [('phonetic', dict(n=n)) for n in range(1, 3 + more)]
    out += [('fifteen', dict(n=n)) for n in (2, 3)]
    out += [('reliable', dict(n=n)) for n in range(2, 4 + more)]
    out += [('reliable_compound', dict(n=n)) for n in range(2, 4 + more)]
    return out


def suggestions(ctx, d, w):
    return [ctx.realize(s) for s in d.suggest(w)]


def no_duplicates(ctx, got):
    ctx.check(len(set(got)) == len(got), 'no suggestion is given twice')


def distinct(ctx, fam, n):
    options, stems, alphabet, _ = EDITS[fam]
    d = ctx.dictionary(aff(*options), [str(len(stems))] + stems)
    got = suggestions(ctx, d, ctx.word('w', n, alphabet))
    ctx.observe('suggestions', got)
    no_duplicates(ctx, got)
    ctx.reach('several suggestions', len(got) > 2)
    ctx.reach('converted', fam == 1 and len(got) > 1)
    ctx.reach('dashes', fam == 2 and any('-' in s for s in got))


def fifteen(ctx, n):
    """More words one edit away than are suggested."""
    letters = 'bcdefghijklmnopqrs'
    d = ctx.dictionary(aff('TRY ' + letters, 'KEY |', 'NOSPLITSUGS', 'MAXNGRAMSUGS 0'), [str(len(letters))] + ['a' + c for c in letters])
    got = suggestions(ctx, d, ctx.word('w', n, ['a', 'bxy', 'bx'][:n]))
    ctx.observe('suggestions', got)
    no_duplicates(ctx, got)
    ctx.check(len(got) <= 15, 'no more than 15 simple words are suggested by edits')
    ctx.reach('fifteen', len(got) == 15)


def compounds(ctx, n, limit):
    stems = ['a/C', 'bc/C', 'cb/C', 'acb']
    options = ['TRY ab', 'COMPOUNDMIN 1', 'MAXNGRAMSUGS 0']
    d = ctx.dictionary(aff(*options, 'COMPOUNDFLAG C', *([] if limit is None else [f'MAXCPDSUGS {limit}'])), ['4'] + stems)
    simple = ctx.dictionary(aff(*options), ['4'] + stems)
    w = ctx.word('w', n, 'abcd')
    got = suggestions(ctx, d, w)
    ctx.observe('suggestions', got)
    no_duplicates(ctx, got)
    found = 0
    for s in got:
        words = s.replace('-', ' ').split(' ')
        if not simple.lookup(s) and not all(simple.lookup(x) for x in words):
            found += 1
    ctx.reach('default limit of compounds reached', limit is None and found == 3)
    ctx.check(found <= (3 if limit is None else limit), 'no more compounds than MAXCPDSUGS are suggested')
    ctx.reach('compound suggested', found > 0)
    ctx.reach('compounds off', limit == 0 and len(got) > 1)


def extras(ctx, w, with_, without):
    """Suggestions added by a method that comes after the edits."""
    got, base = suggestions(ctx, with_, w), suggestions(ctx, without, w)
    ctx.observe('suggestions', [got, base])
    no_duplicates(ctx, got)
    ctx.check(got[:len(base)] == base, 'edit suggestions come first')
    added = got[len(base):]
    for i, s in enumerate(added):
        earlier = base + added[:i]
        ctx.check(not any(e.lower() in s.lower() for e in earlier), 'n-gram or phonetic suggestions do not contain earlier ones')
    return base, added


def ngrams(ctx, n, limit, loose=False):
    options = ([] if limit is None else [f'MAXNGRAMSUGS {limit}']) + ['MAXDIFF 10'] * loose
    words = [str(len(NGRAM))] + NGRAM
    d, none = ctx.dictionary(aff(*options), words), ctx.dictionary(aff('MAXNGRAMSUGS 0'), words)
    w = 'abcd' + ctx.word('w', n, 'abcdefgxyz')
    base, added = extras(ctx, w, d, none)
    top = 4 if limit is None else limit
    ctx.check(len(added) <= top, 'no more n-gram suggestions than MAXNGRAMSUGS')
    ctx.reach('default limit reached', loose and limit is None and len(added) == 4)
    ctx.reach('n-gram limit reached', limit == 2 and len(added) == 2)
    ctx.reach('n-grams cut off', limit == 1 and len(added) == 1)


def phonetic(ctx, n):
    options = ['TRY c', 'MAXNGRAMSUGS 0']
    phone = ['PHONE 3', 'PHONE A A', 'PHONE B B', 'PHONE C B']
    stems = ['abbb', 'abcb', 'abbc', 'acbb', 'abcc', 'abb', 'dac']
    d, none = ctx.dictionary(aff(*options, *phone), ['7'] + stems), ctx.dictionary(aff(*options), ['7'] + stems)
    w = 'ab' + ctx.word('w', n, 'abcd')
    base, added = extras(ctx, w, d, none)
    ctx.check(len(added) <= 2, 'no more than two phonetic suggestions')
    ctx.reach('phonetic limit reached', len(added) == 2)


def reliable(ctx, n):
    m = Maker(ctx)
    options = ['REP 2', 'REP e d', 'REP f bc', 'NOSUGGEST N']
    stems = [('abcd', 'N'), ('ABC', 'N'), ('abc', 'N'), ('abgce', ''), ('abg dc', 'N')]
    entries = [m.entry(f'e{i}', s, f) for i, (s, f) in enumerate(stems)]
    d, none = ctx.dictionary(aff(*options), dic(entries)), ctx.dictionary(aff(*options, 'MAXNGRAMSUGS 0'), dic(entries))
    w = 'ab' + ctx.word('w', n, 'abcdefg')
    base, added = extras(ctx, w, d, none)
    free = {s: ctx.NOT(e.carries('N')) if f else True for e, (s, f) in zip(entries, stems)}
    k = n + 2
    conds = []
    for s in free:
        if s == s.upper() and len(s) == k:
            conds.append(ctx.AND(ctx.eq(w, s.lower()), free[s]))
        for pattern, replacement in (('e', 'd'), ('f', 'bc')):
            for i in range(k):
                text = w[:i] + replacement + w[i + 1:]
                if len(text) == len(s):
                    conds.append(ctx.AND(ctx.eq(w[i], pattern), ctx.eq(text, s), free[s]))
        if ' ' in s and len(s) == k + 1:
            conds.append(ctx.AND(ctx.eq(w, s.replace(' ', '')), free[s]))
    found = ctx.OR(conds)
    ctx.check(ctx.IMPLIES(found, not added), 'no n-gram suggestions after a reliable edit')
    ctx.reach('no n-grams after reliable edit', found)
    ctx.reach('reliable edit and another', ctx.AND(found, len(base) > 1, 'abcd' in base, 'abc' in base))


def reliable_compound(ctx, n):
    m = Maker(ctx)
    options = ['REP 1', 'REP e d', 'COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2', 'TRY a']
    entries = [m.entry('e0', 'ab', 'C'), m.entry('e1', 'cd', 'C'), m.entry('e2', 'abxcd'), m.entry('e3', 'AB', 'C')]
    d, none = ctx.dictionary(aff(*options), dic(entries)), ctx.dictionary(aff(*options, 'MAXNGRAMSUGS 0'), dic(entries))
    w = 'ab' + ctx.word('w', n, 'abcdex')
    base, added = extras(ctx, w, d, none)
    conds, c = [], [e.carries('C') for e in entries]
    for text, ok in (('abcd', ctx.AND(c[0], c[1])), ('cdab', ctx.AND(c[0], c[1])), ('cdcd', c[1]), ('abab', c[0]), ('abxcd', True)):
        if len(text) == n + 2:
            conds += [ctx.AND(ctx.eq(w[i], 'e'), ctx.eq(w[:i] + 'd' + w[i + 1:], text), ok) for i in range(n + 2)]
    conds.append(ctx.AND(c[3], ctx.eq(w, 'abab')) if n == 2 else False)
    found = ctx.OR(conds)
    ctx.check(ctx.IMPLIES(found, not added), 'no n-gram suggestions after a reliable edit giving a compound')
    ctx.reach('reliable compound', found)
    ctx.reach('n-gram after other edits', ctx.AND(len(base) > 0, len(added) > 0))
