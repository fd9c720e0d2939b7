"""C19: phonetic codes follow the PHONE table."""

from checks import metrics as m
from checks.lang import aff

REACH = ['rule applied', 'second rule', 'optional letter', 'lookahead', 'start rule', 'end rule', 'dropped letter', 'empty replacement',
         'suggested phonetically', 'two suggestions', 'ranked by code', 'spelled variant', 'whole table', 'longer lookahead', 'in another letter case', 'other spelling farther away']

TABLES = [
    [('AB', 'X'), ('A', 'Y'), ('B', 'Z'), ('BA', 'W')],
    [('A(BC)', '1'), ('AA', '2'), ('A', '3'), ('C', 'C'), ('B(A)', '_')],
    [('AB-', '1'), ('ABC--', '2'), ('B', 'B'), ('A', 'A'), ('C', 'C')],
    [('A^', '1'), ('AB^', '2'), ('A', '3'), ('B$', '4'), ('B', '5'), ('CB$', '6'), ('C', '_')],
    [('A(BC)-', '1'), ('A-(BC)', '9') if False else ('AC', '2'), ('B(AC)^', '3'), ('C(AB)$', '4'), ('C', '5'), ('B', '6')],
    [('AB^$', '1'), ('AB$3', '2'), ('A<', '3'), ('BB5', '4'), ('B', '5'), ('CAB-^', '6'), ('C', 'CC')],
]
WORDS = ['abcab', 'Acbab', 'bacab', 'abcabb', 'babcabab', 'aabb', 'ccabc']
BOUNDS = {
    'quick': 'six tables with every kind of rule (several letters, optional letters, lookahead of one or two letters, start, end, both, '
             'priority digits, empty replacement, several rules per letter) and every word of 0..6 characters over four letters in either case; '
             'every rule of 1..3 letters over two letters with and without optional letters, up to two looked at, start and end marks, with words of 4 characters; '
             'phonetic suggestions for every word of up to 4 free characters over four letters, also capitalised and with two capitals, two tables, seven entries',
    'thorough': 'words one character longer',
}
OUTSIDE = 'rules all of whose letters are only looked at; lookahead combined with the end of the word; order among equally ranked suggestions'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    shapes = [(k, g, look, mark) for k in (1, 2, 3) for g in (0, 1) for look in range(min(3, k + g)) for mark in ('', '^', '$', '^$') if not (look and '$' in mark)]
    return [('rule', dict(k=k, group=g, look=look, mark=mark, n=4 + more)) for k, g, look, mark in shapes] + \
           [('codes', dict(table=i, n=n)) for i in range(len(TABLES)) for n in range(0, 7 + more)] + \
           [('phonetic', dict(table=i, start=s, n=n)) for i in (0, 2) for s in ('', 'ab', 'Ab', 'AB') for n in range(2, 4 + (not s) + more - (s == 'AB'))] + \
           [('limit', dict(n=n)) for n in range(2, 4 + more)]


def parse(rule):
    """(letters, optional letters, looked at, start, end)"""
    letters, optional, look, start, end = [], None, 0, False, False
    i = 0
    while i < len(rule):
        c = rule[i]
        if c == '(':
            j = rule.index(')', i)
            letters.append(rule[i + 1:j])
            i = j
        elif c == '-':
            look += 1
        elif c == '^':
            start = True
        elif c == '$':
            end = True
        elif c.isalpha():
            letters.append(c)
        i += 1
    return letters, look, start, end


def code(table, word):
    """Reference. Also returns what was used."""
    word = word.upper()
    out, pos, used = '', 0, set()
    while pos < len(word):
        for k, (rule, replacement) in enumerate(r for r in table if r[0][0] == word[pos]):
            letters, look, start, end = parse(rule)
            piece = word[pos:pos + len(letters)]
            if len(piece) == len(letters) and all(c in x for c, x in zip(piece, letters)) and not (start and pos > 0) and \
                    not (end and pos + len(letters) != len(word)):
                out += '' if replacement == '_' else replacement
                pos += len(letters) - look
                used.add('rule applied')
                used.update(name for name, yes in [('second rule', k > 0), ('optional letter', '(' in rule), ('lookahead', look > 0), ('start rule', start),
                                                   ('end rule', end), ('empty replacement', replacement == '_')] if yes)
                break
        else:
            used.add('dropped letter')
            pos += 1
    return out, used


def phone(table):
    return [f'PHONE {len(table)}'] + [f'PHONE {a} {b}' for a, b in table]


def codes(ctx, table, n):
    from spylls.hunspell.algo.phonet_suggest import metaphone
    rows = TABLES[table]
    d = ctx.dictionary(aff(*phone(rows)), ['1', 'ab'])
    w = ctx.word('w', n, ['abcdA'] + ['abcd'] * n)
    got = metaphone(d.aff.PHONE, w)
    ctx.observe('code', got)
    want, used = code(rows, ctx.realize(w))
    ctx.check(ctx.eq(got, want), 'phonetic code')
    for name in used:
        ctx.reach(name)
    ctx.reach('whole table', table == len(TABLES) - 1 and n > 3)


def rule(ctx, k, group, look, mark, n):
    """Every rule of one shape, before rules for single letters."""
    from spylls.hunspell.algo.phonet_suggest import metaphone
    text = ctx.realize(ctx.word('r', k, 'AB'))
    if group:
        text += ctx.choice('group', ['(AB)', '(BC)', '(C)'])
    rows = [(text + '-' * look + mark, '1'), ('A', '2'), ('B', '3')]
    d = ctx.dictionary(aff(*phone(rows)), ['1', 'ab'])
    w = ctx.word('w', n, 'abc')
    got = metaphone(d.aff.PHONE, w)
    ctx.observe('code', got)
    want, used = code(rows, ctx.realize(w))
    ctx.check(ctx.eq(got, want), 'phonetic code')
    ctx.reach('longer lookahead', look > 1 and 'lookahead' in used)


def ranked(word, rows, entries, base):
    """Groups of entries with equal rank, best first."""
    low = word.lower()
    wcode = code(rows, low)[0]
    out = []
    for stem, variants in entries:
        if abs(len(stem) - len(low)) > 3:
            continue
        if max(m.root_score(low, x) for x in [stem] + variants) <= 2:
            continue
        score = 2 * m.ngram(3, wcode, code(rows, stem)[0], penalty='longer')
        score += 2 * m.lcs(low, stem.lower()) - abs(len(low) - len(stem)) + m.prefix(low, stem.lower())
        out.append((score, stem))
    out.sort(key=lambda r: -r[0])
    groups = []
    for score, stem in out:
        if groups and groups[-1][0] == score:
            groups[-1][1].append(stem)
        else:
            groups.append((score, [stem]))
    return [g for _, g in groups]


def two_best(added, groups, base):
    """Whether `added` are the first two suggestions of the ranking (any order among equals)."""
    if len(added) < 2:
        return m.allowed_order(added, groups, base)
    left = [list(g) for g in groups]
    seen = [b.lower() for b in base]
    for s in added:
        for g in left:
            fresh = [x for x in g if not any(e in x.lower() for e in seen)]
            if fresh:
                if s not in fresh:
                    return False
                break
        else:
            return False
        seen.append(s.lower())
    return len(added) == 2


def suggested(ctx, rows, lines, entries, w):
    d = ctx.dictionary(aff('KEY |', 'MAXNGRAMSUGS 0', *phone(rows)), [str(len(lines))] + lines)
    none = ctx.dictionary(aff('KEY |', 'MAXNGRAMSUGS 0'), [str(len(lines))] + lines)
    got, base = [ctx.realize(s) for s in d.suggest(w)], [ctx.realize(s) for s in none.suggest(w)]
    word = ctx.realize(w)
    ctx.observe('suggestions', [got, base])
    ctx.check(got[:len(base)] == base, 'edit suggestions come first')
    return word, base, got[len(base):]


def phonetic(ctx, table, start, n):
    rows = TABLES[table]
    w = start + ctx.word('w', n, 'abcd')
    word, base, added = suggested(ctx, rows, WORDS, None, w)
    if word.upper() in base:
        return
    # in the letter case of the misspelling
    groups = ranked(word, rows, [(s, []) for s in WORDS], base)
    if start != start.lower():
        groups, added, base = [[s.lower() for s in g] for g in groups], [s.lower() for s in added], [s.lower() for s in base]
        ctx.reach('in another letter case', len(added) > 0)
    ctx.check(two_best(added, groups, base), 'the two best entries are suggested phonetically')
    ctx.reach('suggested phonetically', len(added) == 1)
    ctx.reach('two suggestions', len(added) == 2)
    same = [s for s in WORDS if code(rows, s)[0] == code(rows, word)[0]]
    ctx.reach('ranked by code', len(added) == 2 and added[0] in same and added[1] not in same)


def limit(ctx, n):
    """More entries than are examined, and entries with other spellings."""
    fill = ['ab' + a + b for a in 'ghijklmnop' for b in 'ghijklmnopq']
    entries = [('abcdb', [])] + [(s, []) for s in fill[:60]] + [('zzabz', ['abdc'])] + [(s, []) for s in fill[60:]] + [('abdcc', []), ('abdgc', ['zzzz'])]
    lines = [s + (f' ph:{v[0]}' if v else '') for s, v in entries]
    rows = [('AB', 'X'), ('C', 'C'), ('D', 'D'), ('B', 'B'), ('G', 'G'), ('Z(Z)', 'CD'), ('Z', '_')]
    w = 'abd' + ctx.word('w', n, 'cdg')
    word, base, added = suggested(ctx, rows, lines, None, w)
    if 'abdc' in word:
        return      # ph: replacement, a reliable edit
    groups = ranked(word, rows, entries, base)
    # of equally good codes at the limit any may be left out: only the best two matter here
    ctx.check(two_best(added, groups, base), 'the two best entries are suggested phonetically')
    ctx.reach('spelled variant', len(added) > 0)
    ctx.reach('other spelling farther away', 'abdgc' in added)
