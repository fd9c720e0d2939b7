"""C31: suggestions come in the order of the kinds of edits."""

from checks import c13
from checks.lang import Maker, aff, dic

ORDER = [['capitals'], ['rep'], ['spaced entry'], ['map'], ['adjacent swap', 'double swap'], ['long swap'], ['keyboard', 'upper case letter'], ['extra'],
         ['missing'], ['moved'], ['wrong'], ['doubled'], ['two words']]
FAMILIES = [
    # options, entries (stem, optional flags), alphabet, longest word
    (dict(TRY='ab', KEY='cd|a'), [('abcd', ''), ('abd', ''), ('acbd', 'N'), ('cad', ''), ('ad', '')], 'abcd', 5),
    (dict(TRY='c', KEY='ac|bd', REP=[('b', 'cc'), ('d', 'a')], MAP=['be', 'ca']), [('acc', ''), ('ace', ''), ('ca', ''), ('a', ''), ('ec', '')], 'abcde', 3),
    (dict(TRY='a', KEY='xb|d'), [('ababc', ''), ('abc', ''), ('acb', ''), ('cab', ''), ('ab', '')], 'abc', 6),
    (dict(TRY='ab'), [('ab', ''), ('b', ''), ('BA', ''), ('aba', ''), ('bb', 'N')], 'abc', 4),
    (dict(TRY='b', KEY='ac', ngram=True), [('abc', ''), ('cba', ''), ('abcb', ''), ('acab', ''), ('cabcab', '')], 'abc', 5),
    (dict(TRY='b', KEY='ab', compounds=True), [('ab', 'C'), ('ba', 'C'), ('abb', ''), ('bca', 'N')], 'abc', 5),
    (dict(TRY='c', REP=[('c', 'cc')]), [('a c', ''), ('acc', ''), ('ca', ''), ('b-c', ''), ('bcc', 'N')], 'abc', 4),
    (dict(TRY='e', KEY='be', MAP=['ad']), [('dbc', ''), ('bac', ''), ('cba', ''), ('aec', ''), ('aebc', '')], 'abcde', 3),
]
REACH = ['two kinds', 'two words last', 'similar word last', 'compound last'] + ['before others: ' + k[0] for k in ORDER[:-1] if k[0] != 'spaced entry'] + ['spaced entry after REP']
BOUNDS = {
    'quick': f'{len(FAMILIES)} dictionaries of up to 5 entries, every lower-case misspelling of 1..6 characters over 3..5 letters, '
             'in one family with n-gram suggestions, in one with compounds',
    'thorough': 'misspellings one character longer',
}
OUTSIDE = 'misspellings with capitals (each reading is searched in turn); the order within one kind; phonetic suggestions'
ASSUMPTIONS = ['a suggestion several kinds of edits give counts as the first of them']


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('order', dict(fam=i, n=n)) for i, f in enumerate(FAMILIES) for n in range(1, f[3] + 1 + more)]


def by_maps(ctx, o, w, text):
    """The text differs from the word by any number of MAP replacements."""
    if len(text) != len(w):
        return False
    places = [ctx.OR([ctx.eq(c, x)] + [ctx.AND(ctx.member(c, list(g))) for g in o.get('MAP', []) if x in g]) for c, x in zip(w, text)]
    return ctx.AND(places)


def order(ctx, fam, n):
    o, stems, alphabet, _ = FAMILIES[fam]
    m = Maker(ctx)
    entries = [m.entry(f'e{i}', s, 'N' if 'N' in f else '', always='C' if 'C' in f else '') for i, (s, f) in enumerate(stems)]
    lines = ['NOSUGGEST N', 'TRY ' + o['TRY']] if o['TRY'] else ['NOSUGGEST N']
    if not o.get('ngram'):
        lines.append('MAXNGRAMSUGS 0')
    if o.get('KEY'):
        lines.append('KEY ' + o['KEY'])
    if o.get('compounds'):
        lines += ['COMPOUNDFLAG C', 'COMPOUNDMIN 1', 'COMPOUNDWORDMAX 2', 'MAXCPDSUGS 30']
    for name in ('REP', 'MAP'):
        if o.get(name):
            lines += [f'{name} {len(o[name])}'] + [f'{name} ' + (x if name == 'MAP' else ' '.join(x)) for x in o[name]]
    d = ctx.dictionary(aff(*lines), dic(entries))
    w = ctx.word('w', n, alphabet)
    got = [ctx.realize(g) for g in d.suggest(w)]
    ctx.observe('suggestions', got)
    texts = [s for s, _ in stems]

    def ranks(text):
        """Conditions for: found by the edit kinds of each rank; the second list is the generous reading."""
        if (' ' in text or '-' in text) and text not in texts:
            a, _, b = text.replace('-', ' ').partition(' ')
            hit = ctx.eq(w, a + b) if len(a + b) == n else False
            return [False] * (len(ORDER) - 1) + [hit], None
        ways = c13.ways(ctx, o, w, text)
        strict = [ctx.OR([ways.get(k, False) for k in group]) for group in ORDER]
        generous = list(strict)
        generous[3] = ctx.OR(strict[3], by_maps(ctx, o, w, text))
        # the word itself may come from an edit that changes nothing
        return strict, [ctx.OR(g, len(text) == n and ctx.eq(w, text)) for g in generous]

    found = []
    for text in got:
        strict, generous = ranks(text)
        simple = ' ' in text or '-' in text or text in texts
        found.append((text, strict, generous or strict, simple))
    for i, (x, _, x_by, x_simple) in enumerate(found):
        for y, y_by, _, y_simple in found[i + 1:]:
            if x_simple and y_simple:
                for r in range(len(ORDER)):
                    # y could not have been found earlier than x was
                    earlier = y_by[r]
                    if ctx.possible(earlier):
                        ctx.check(ctx.IMPLIES(earlier, ctx.OR(x_by[:r + 1])), f'{ORDER[r][0]} comes before what other edits give')
            elif y_simple:
                # x is a compound, y a simple word: y must be similar only
                ctx.check(ctx.NOT(ctx.OR(y_by)), 'compounds come after simple words')
    if len(found) > 1:
        (x, x_by, _, sx), (y, y_by, _, sy) = found[0], found[-1]
        if sx and sy:
            ctx.reach('two kinds', ctx.AND(ctx.OR(x_by[:-1]), ctx.NOT(ctx.OR([ctx.AND(a, b) for a, b in zip(x_by, y_by)]))))
            for r in range(len(ORDER) - 1):
                ctx.reach('before others: ' + ORDER[r][0], ctx.AND(x_by[r], ctx.NOT(ctx.OR(y_by[:r + 1]))))
            ctx.reach('two words last', ctx.AND(y_by[-1], ' ' in y or '-' in y))
            ctx.reach('similar word last', o.get('ngram', False) and ctx.NOT(ctx.OR(y_by)))
        ctx.reach('spaced entry after REP', ctx.AND(x_by[1], y_by[2]))
        ctx.reach('compound last', sx and not sy)
