"""C20: dictionary files are read entry by entry as written."""

from itertools import product

from checks.lang import aff, captype

REACH = ['flags', 'escaped slash', 'data', 'spaces kept', 'leading slash', 'several slashes', 'count skipped', 'no count', 'blank lines', 'same stem twice',
         'tab', 'sharp s', 'dotted i', 'repeated flag', 'colon in value', 'two values', 'digits later', 'several up to case']
BOUNDS = {
    'quick': 'every line of 1..4 characters over a letter, a capital, a digit, slash, backslash, space, tab and colon; every line made of a stem '
             'of 1..2, flags of 0..2 and data of up to 6 free characters; every first line of 1..4 characters; three entries in any '
             'arrangement; up to four entries equal up to case; words with capitals under default, German and Turkic casing',
    'thorough': 'free lines of 5 characters, stems of 3',
}
OUTSIDE = 'encodings (see C23), flag notations and aliases (see C22), IGNORE (see C10); a line beginning with a slash that has another slash'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('line', dict(n=n)) for n in range(1, 5 + more)]
    out += [('shape', dict(s=s, f=f, d=d)) for s in range(1, 3 + more) for f in range(3) for d in range(len(DATA))]
    out += [('first', dict(n=n)) for n in range(1, 5 + more)]
    out += [('order', dict(k=k)) for k in range(1, 4)]
    out += [('cased', dict(k=k)) for k in (3, 4, 5)]
    out += [('casing', dict(lang=lang, n=n)) for lang in ('', 'LANG tr', 'CHECKSHARPS') for n in range(1, 4 + more)]
    return out


# letters after the entry: fixed text and free characters
DATA = [
    ['\t', 'a:b '], [' po:', 'a:\t ', 'ab:'], ['\t', 'ab', 'ab:', ': '], [' is:', 'ab', ' ', 'po', 'oz', ':', 'a:'], [' a', 'ab ', 'b:', ':a', '12'],
    ['\tpo:a', ' \t', 'po:b', ' a', 'is:c'], ['\ta', 'b ', ' po:n', 'b ', ' is:m'],
    [' ', 'aZ2', 'bA_', ':b', 'a:'],
]


def slash(text):
    """Position of the first unescaped slash, or -1."""
    for i, c in enumerate(text):
        if c == '/' and (i == 0 or text[i - 1] != '\\'):
            return i
    return -1


def isword(c):
    return c.isalnum() or c == '_'


def parse(line):
    """(stem, flags, data) of a line."""
    end = len(line)
    for i in range(1, len(line)):
        if line[i] == '\t' or line[i] == ' ' and i + 3 < len(line) and isword(line[i + 1]) and isword(line[i + 2]) and line[i + 3] == ':':
            end = i
            break
    word, rest = line[:end], line[end:]
    data = {}
    for part in rest.split():
        tag, colon, value = part.partition(':')
        if colon and value:
            data.setdefault(tag, []).append(value)
    pos = slash(word)
    flags = ''
    if pos > 0:
        word, flags = word[:pos], word[pos + 1:]
    return word.replace('\\/', '/'), set(flags), data


def read(ctx, lines, *options):
    return ctx.dictionary(aff(*options), lines)


def show(ctx, words):
    return [(ctx.realize(w.stem), {ctx.realize(f) for f in w.flags}, {ctx.realize(k): [ctx.realize(x) for x in v] for k, v in w.data.items() if v})
            for w in words]


def judge(ctx, line):
    """One line between two others."""
    d = read(ctx, ['3', 'zz/Z', line, 'yy'])
    got = show(ctx, d.dic.words)
    ctx.observe('entries', [[s, sorted(f), sorted(x.items())] for s, f, x in got])
    text = ctx.realize(line)
    stripped = text.strip()
    others = [('zz', {'Z'}, {}), ('yy', set(), {})]
    if not stripped:
        ctx.check(got == others, 'blank lines give no entry')
        ctx.reach('blank lines')
        return
    if stripped[0] == '/':
        if '/' not in stripped[1:]:
            ctx.reach('leading slash')
        else:
            ctx.check(len(got) == 3, 'one entry per line')
            return
    want = parse(stripped)
    ctx.check(len(got) == 3 and got[0] == others[0] and got[2] == others[1], 'other lines are not affected')
    ctx.check(got[1][0] == want[0], 'stem')
    ctx.check(got[1][1] == want[1], 'flags')
    ctx.check(got[1][2] == want[2], 'data')
    found = d.dic.homonyms(want[0])
    ctx.check(len(found) == 1 + sum(1 for o in others if o[0] == want[0]), 'entry is found under its stem')
    ctx.reach('flags', len(want[1]) > 0)
    ctx.reach('repeated flag', '/' in stripped and len(want[1]) == 1 and stripped[-1:] == stripped[-2:-1])
    ctx.reach('escaped slash', '/' in want[0] and len(want[0]) > 1)
    ctx.reach('spaces kept', ' ' in want[0])
    ctx.reach('several slashes', '/' in want[1])
    ctx.reach('data', len(want[2]) > 0)
    ctx.reach('two values', any(len(v) > 1 for v in want[2].values()))
    ctx.reach('colon in value', any(':' in v[0] for v in want[2].values()))
    ctx.reach('tab', '\t' in stripped)
    ctx.reach('digits later', stripped.isdigit())


def line(ctx, n):
    judge(ctx, ctx.word('l', n, 'aA1/\\ \t:'))


def shape(ctx, s, f, d):
    stem = ctx.word('s', s, 'ab\\ /')
    flags = '/' + ctx.word('f', f, 'AB/ é') if f else ''
    data = ''
    for i, piece in enumerate(DATA[d]):
        data = data + (piece if i == 0 else ctx.char(f'd{i}', piece) if len(piece) < 4 or i % 2 else piece)
    judge(ctx, stem + flags + data)


def first(ctx, n):
    """The first line is a count or an entry."""
    line = ctx.word('l', n, 'a12 \t/')
    d = read(ctx, [line, 'zz'])
    got = show(ctx, d.dic.words)
    ctx.observe('entries', [s for s, _, _ in got])
    text = ctx.realize(line).strip()
    digits = len(text) - len(text.lstrip('12'))
    count = digits > 0 and (digits == len(text) or text[digits] in ' \t')
    ctx.check(got[-1][0] == 'zz', 'following entry')
    if count or not text:
        ctx.check(len(got) == 1, 'the leading count is no entry')
        ctx.reach('count skipped')
    else:
        ctx.check(len(got) == 2, 'a first line that is no count is an entry')
        ctx.reach('no count')


def order(ctx, k):
    """Entries keep their order, also with equal stems."""
    blank = ctx.choice('blank', ['', ' \t'])
    words = [ctx.word(f's{i}', 1, 'abA') + '/' + ctx.char(f'f{i}', 'XY') for i in range(k)]
    lines = ['9']
    for w in words:
        lines += [blank, w]
    d = read(ctx, lines)
    got = show(ctx, d.dic.words)
    texts = [ctx.realize(w) for w in words]
    ctx.observe('entries', [[s, sorted(f)] for s, f, _ in got])
    ctx.check([(s, f) for s, f, _ in got] == [(t[0], {t[2]}) for t in texts], 'entries in the order of the lines')
    for c in 'abA':
        ctx.check([f for _, f, _ in show(ctx, d.dic.homonyms(c))] == [{t[2]} for t in texts if t[0] == c], 'homonyms')
    ctx.reach('same stem twice', len({t[0] for t in texts}) < k)
    ctx.reach('blank lines', blank != '')


def cased(ctx, k):
    """Entries that are equal up to letter case."""
    words = ['aAb', ctx.word('w0', 2, 'aA') + 'b', ctx.word('w1', 2, 'aA') + 'B', 'AAB', 'x'][:k]
    d = read(ctx, [str(k)] + words)
    got = [ctx.realize(x.stem) for x in d.dic.homonyms('aab', ignorecase=True)]
    ctx.observe('found', got)
    texts = [ctx.realize(w) for w in words]
    ctx.check(got == [t for t in texts if t.lower() == 'aab'], 'all entries equal up to case are found, in order')
    ctx.check(all([ctx.realize(x.stem) for x in d.dic.homonyms(t)] == [s for s in texts if s == t] for t in texts), 'homonyms in order')
    ctx.reach('several up to case', len(got) == 4)


LETTERS = {'': 'aASi', 'LANG tr': 'aIİi', 'CHECKSHARPS': 'sSßa'}


def lowered(text, lang):
    """Lower-case spellings under which an entry may be found."""
    if captype(text) == 'NO':
        return {text}
    if lang == 'LANG tr':
        return {''.join({'I': 'ı', 'İ': 'i'}.get(c, c.lower()) for c in text)}
    low = text.lower()
    if lang == 'CHECKSHARPS' and 'SS' in text:
        out = {''}
        parts = low.replace('ss', '\n').split('\n')
        for i, part in enumerate(parts):
            out = {o + s + part for o in out for s in (['ss', 'ß'] if i else [''])}
        return out
    return {low}


def casing(ctx, lang, n):
    letters = LETTERS[lang]
    w = ctx.word('w', n, letters)
    d = read(ctx, ['2', 'zz', w], *([lang] if lang else []))
    text = ctx.realize(w)
    want = lowered(text, lang)
    every = {''.join(p) for k in range(1, n + 1) for p in product(letters.lower() + 'ıß', repeat=k)} | want
    found = sorted(x for x in every if d.dic.homonyms(x, ignorecase=True))
    ctx.observe('found under', found)
    if lang == 'CHECKSHARPS' and 'SSS' in text.replace('ß', 's').upper():
        return
    ctx.check(set(found) == want, 'found case-insensitively under exactly its lower-case spellings')
    ctx.check(all(ctx.realize(x.stem) == text for f in found for x in d.dic.homonyms(f, ignorecase=True)), 'found entry')
    ctx.reach('sharp s', len(want) > 1)
    ctx.reach('dotted i', lang == 'LANG tr' and 'I' in text)
