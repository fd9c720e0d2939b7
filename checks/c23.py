"""C23: file lines reach the parser unchanged, in order, exactly once."""

import os
import zipfile

REACH = ['blank line', 'stripped', 'byte-order mark', 'byte-order mark in UTF-8', 'mark inside kept', 'mark in the second line kept', 'no final newline', 'reopened', 'reopened after blank line',
         'reopened before the first line', 'zipped', 'declared encoding', 'undecodable', 'word with special letter', 'empty file', 'zipped and reopened', 'encoding by FLAG']
BOUNDS = {
    'quick': 'files of 0..3 lines of up to 3 symbolic characters (letters, space, tab, letters outside ASCII, byte-order mark), with and without final '
             'newline and leading byte-order mark, opened as Windows-1252 or UTF-8 and re-opened as UTF-8 after every number of lines; dictionaries in '
             'four encodings (UTF-8 also as declared by FLAG UTF-8), plain and zipped',
    'thorough': 'lines of 4 characters, 4 lines',
}
OUTSIDE = 'other line ends than newline; decoding itself (Python codecs)'
ASSUMPTIONS = []


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    out = [('lines', dict(k=k, n=n, bom=b, enc=e)) for k in range(0, 4 + more) for n in range(0, 4 + more - (k > 2)) for b in (False, True)
           for e in ('cp1252', 'utf-8')]
    out += [('reopen', dict(k=k, n=n, bom=b, after=j)) for k in range(1, 4 + more) for n in range(1, 3 + more + (k < 2) - (k > 3)) for b in (False, True) for j in range(0, k + 1)]
    out += [('zipped', dict(k=k, after=j, bom=b)) for k in (1, 2) for j in (None, 0, 1) for b in (False, True)]
    out += [('declared', dict(enc='UTF-8', packed=z, bom=b, by='FLAG')) for z in (False, True) for b in (False, True)]
    out += [('declared', dict(enc=e, packed=z, bom=b)) for e in ENCODINGS for z in (False, True) for b in (False, True) if e == 'UTF-8' or not b]
    return out


MARK = '\ufeff'
ENCODINGS = {'UTF-8': 'aéж', 'ISO8859-1': 'aéß', 'KOI8-R': 'aжЖ', 'ISO8859-2': 'ažŁ'}
WIDE = 'ab \té'


def as_windows(text):
    """What the UTF-8 bytes of the text look like in Windows-1252."""
    out = ''
    for c in text:
        out += 'Ã©' if c == 'é' else 'ï»¿' if c == MARK else c
    return out


def expected(lines, enc):
    """[(number, text)] of the non-blank lines of an UTF-8 file read in the given encoding."""
    out = []
    for i, text in enumerate(lines):
        if i == 0 and len(text) and text[0] == MARK:
            text = text[1:]
        text = (as_windows(text) if enc == 'cp1252' else text).strip()
        if len(text):
            out.append((i + 1, text))
    return out


def same(ctx, got, want):
    return len(got) == len(want) and ctx.AND(*[ctx.AND(n1 == n2, ctx.eq(t1, t2)) for (n1, t1), (n2, t2) in zip(got, want)])


def content(ctx, k, n, bom):
    """k lines of up to n characters, the first one with or without byte-order mark."""
    out = []
    for i in range(k):
        m = ctx.choice(f'len{i}', list(range(n + 1)))
        out.append(ctx.word(f'l{i}', m, WIDE + (MARK if i < 2 else '')))
    if bom and k:
        out[0] = MARK + out[0]
    return out


def make(ctx, lines):
    last = ctx.choice('newline', [True, False]) if lines else True
    ctx.reach('no final newline', not last)
    return ctx.files(txt=dict(lines=lines, encoding='utf-8', last_newline=last)) + '.txt'


def lines(ctx, k, n, bom, enc):
    from spylls.hunspell.readers.file_reader import FileReader
    text = content(ctx, k, n, bom)
    path = make(ctx, text)
    reader = FileReader(path) if enc == 'cp1252' else FileReader(path, encoding='UTF-8')
    got = list(reader)
    ctx.observe('lines', got)
    ctx.check(same(ctx, got, expected(text, enc)), 'lines in order with their numbers')
    ctx.reach('empty file', k == 0)
    ctx.reach('blank line', len(got) < k)
    ctx.reach('stripped', any(len(got[i][1]) < len(text[got[i][0] - 1]) for i in range(len(got)) if enc == 'utf-8' and not bom))
    ctx.reach('byte-order mark', bom and k > 0)
    ctx.reach('byte-order mark in UTF-8', bom and k > 0 and enc != 'cp1252')
    ctx.reach('mark inside kept', any(bool(MARK in t) for _, t in got))
    ctx.reach('mark in the second line kept', any(i == 2 and bool(MARK == t[0]) for i, t in got))


def run_reader(reader, after):
    got = []
    for _ in range(after):
        try:
            got.append(next(reader))
        except StopIteration:
            break
    count = len(got)
    reader.reset_encoding('UTF-8')
    got += list(reader)
    return got, count


def reopened(ctx, got, count, text, after):
    first, second = expected(text, 'cp1252'), expected(text, 'utf-8')
    ctx.check(count == min(after, len(first)), 'lines before re-opening')
    ctx.check(same(ctx, got, first[:count] + second[count:]), 'continues with the next line, losing and repeating none')
    ctx.reach('reopened', 0 < after < len(second) and not bool(same(ctx, first, second)))
    ctx.reach('reopened before the first line', after == 0 and len(second) > 0)
    ctx.reach('reopened after blank line', 0 < after < len(second) and second[after - 1][0] > after)


def reopen(ctx, k, n, bom, after):
    from spylls.hunspell.readers.file_reader import FileReader
    text = content(ctx, k, n, bom)
    reader = FileReader(make(ctx, text))
    got, count = run_reader(reader, after)
    ctx.observe('lines', got)
    reopened(ctx, got, count, text, after)


def pack(ctx, **texts):
    """Zip file with the given files."""
    path = os.path.join(ctx.tmpdir(), 'd.zip')
    with zipfile.ZipFile(path, 'w') as z:
        for name, data in texts.items():
            z.writestr('d.' + name, data)
    return path


def zipped(ctx, k, after, bom):
    from spylls.hunspell.readers.file_reader import ZipReader
    text = [ctx.realize(x) for x in content(ctx, k, 1 if k > 1 else 2, bom)]
    path = pack(ctx, txt=''.join(t + '\n' for t in text).encode('utf-8'))
    with zipfile.ZipFile(path) as z:
        reader = ZipReader(z.open('d.txt'))
        if after is None:
            got = list(reader)
            ctx.check(same(ctx, got, expected(text, 'cp1252')), 'zipped lines in order with their numbers')
        else:
            got, count = run_reader(reader, after)
            reopened(ctx, got, count, text, after)
            ctx.reach('zipped and reopened', after > 0)
    ctx.observe('lines', got)
    ctx.reach('zipped', len(got) > 0)


def declared(ctx, enc, packed, bom, by='SET'):
    """Words are found in the declared encoding."""
    import spylls.hunspell
    letters = ENCODINGS[enc]
    stem = ctx.word('s', 2, letters)
    flag = ctx.choice('blank', [[], [''], ['#']])
    codec = enc.lower()
    mark = MARK if bom else ''
    affix = [mark + f'{by} {enc}'] if not flag else [mark + flag[0], f'{by} {enc}']
    # FLAG UTF-8 declares the encoding, too
    name = letters[2] if by == 'FLAG' else 'A'
    affix = affix + [f'SFX {name} Y 1', f'SFX {name} 0 {letters[1]} .']
    entries = [mark + '2', 'zz', stem + '/' + name]
    if packed:
        path = pack(ctx, **{e: '\n'.join(ctx.realize(x) for x in ls).encode(codec) for e, ls in (('aff', affix), ('dic', entries))})
        d = spylls.hunspell.Dictionary.from_zip(path)
    else:
        d = spylls.hunspell.Dictionary.from_files(ctx.files(aff=dict(lines=affix, encoding=codec), dic=dict(lines=entries, encoding=codec, last_newline=False)))
    text = ctx.realize(stem)
    words = [ctx.realize(w.stem) for w in d.dic.words]
    ctx.observe('words', words)
    ctx.check(words == ['zz', text], 'entries')
    ctx.check(bool(d.lookup(stem)) and bool(d.lookup(stem + letters[1])), 'word in the declared encoding is accepted')
    ctx.reach('encoding by FLAG', by == 'FLAG')
    ctx.reach('declared encoding', enc != 'UTF-8')
    ctx.reach('word with special letter', not text.isascii())
    ctx.reach('undecodable', not text.isascii() and enc == 'UTF-8')
