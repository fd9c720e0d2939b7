"""C05: sharp s (CHECKSHARPS) and dotted/dotless i (LANG tr, az, crh)."""

from checks.lang import Maker, aff, dic

REACH = ['STRASSE for sharp s', 'sharp s kept in capitals', 'keepcase sharp s rejected', 'keepcase sharp s in SS', 'ss stays',
         'turkic capital', 'turkic usual pairing rejected', 'usual capital']
BOUNDS = {
    'quick': 'CHECKSHARPS on: words of 1..7 characters over s, S, sharp s, a, A against 10 entry texts with ss and sharp s, symbolic '
             'KEEPCASE; CHECKSHARPS off: words of 1..5; LANG tr, az, crh and none: words of 1..4 over i, I, dotted I, dotless i, a, A '
             'against entries of 1..3 letters in every lower/capital spelling',
    'thorough': 'words of 1..8 characters; Turkic words of 1..5',
}
OUTSIDE = 'sharp s adjacent to s (ambiguous readings of SSS); capital dotted I outside Turkic languages'
ASSUMPTIONS = []

GERMAN = ['ßa', 'aß', 'ssa', 'aßa', 'assa', 'Aßa', 'aßaß', 'assaß', 'aßass', 'Assa']


def tasks(tier):
    out = []
    for e in GERMAN:
        m = len(e) + e.count('ß')
        for n in range(max(1, len(e) - 1), min(m + 2, 8 if tier == 'quick' else 9)):
            out.append(('german', dict(entry=e, n=n)))
    for e in ('aß', 'ssa', 'aßa'):
        for n in range(len(e), 6):
            out.append(('no_sharps', dict(entry=e, n=n)))
    for lang in ('tr', 'az', 'crh', 'tr_TR', None):
        for s in range(1, 4):
            for n in range(1, 5 if tier == 'quick' else 6):
                if abs(n - s) <= 1:
                    out.append(('turkic', dict(lang=lang, s=s, n=n)))
    return out


def capitals(text):
    """All-capital spellings: every sharp s either kept or written SS."""
    out = ['']
    for c in text:
        out = [o + x for o in out for x in (('ß', 'SS') if c == 'ß' else (c.upper(),))]
    return out


def german_spellings(text):
    """Accepted spellings of a dictionary text, KEEPCASE aside."""
    out = {text}
    if text == text.lower():
        if text[0] != 'ß':
            out.add(text[0].upper() + text[1:])
    if text == text.lower() or text[0].isupper() and text[1:] == text[1:].lower():
        out.update(capitals(text))
    return sorted(out)


def german(ctx, entry, n):
    m = Maker(ctx)
    e = m.entry('e', entry, 'K')
    d = ctx.dictionary(aff('CHECKSHARPS', 'KEEPCASE K'), dic([e]))
    w = ctx.word('w', n, 'sSßaA')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    k = e.carries('K')
    out = []
    for text in german_spellings(entry):
        if len(text) != n:
            continue
        if 'ß' in entry:
            # KEEPCASE means here: no sharp s in an all-capitals word
            ok = ctx.NOT(k) if 'ß' in text and caps(text) else True
        else:
            ok = True if text == entry else ctx.NOT(k)
        out.append(ctx.AND(ctx.eq(w, text), ok))
    if entry == 'aßa':
        ctx.reach('STRASSE for sharp s', ctx.AND(got, ctx.eq(w, 'ASSA')))
        ctx.reach('sharp s kept in capitals', ctx.AND(got, ctx.eq(w, 'AßA')))
        ctx.reach('keepcase sharp s rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, 'AßA'), k))
        ctx.reach('keepcase sharp s in SS', ctx.AND(got, ctx.eq(w, 'ASSA'), k))
    if entry == 'assa':
        ctx.reach('ss stays', ctx.AND(got, ctx.eq(w, 'ASSA')))
    ctx.check(ctx.IFF(got, ctx.OR(out)), 'sharp s spellings')


def caps(text):
    letters = text.replace('ß', '')
    return bool(letters) and letters == letters.upper()


def no_sharps(ctx, entry, n):
    """Without CHECKSHARPS a sharp s is an ordinary lower-case letter."""
    d = ctx.dictionary(aff(), dic([Maker(ctx).entry('e', entry)]))
    w = ctx.word('w', n, 'sSßaA')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    ok = [entry]
    if entry[0] != 'ß':
        ok.append(entry[0].upper() + entry[1:])
    if 'ß' not in entry:
        ok.append(entry.upper())
    ctx.check(ctx.IFF(got, ctx.member(w, [t for t in ok if len(t) == n])), 'sharp s without CHECKSHARPS')


PAIRS = {True: {'i': 'İ', 'ı': 'I', 'a': 'A'}, False: {'i': 'I', 'a': 'A'}}


def turkic(ctx, lang, s, n):
    pairs = PAIRS[lang is not None]
    lows = ''.join(pairs)
    low = ctx.realize(ctx.word('stem', s, lows))
    cap = ctx.choice('capital entry', [False, True])
    up = ''.join(pairs[c] for c in low)
    entry = up[0] + low[1:] if cap else low
    d = ctx.dictionary(aff(*([f'LANG {lang}'] if lang else [])), dic([Maker(ctx).entry('e', entry)]))
    w = ctx.word('w', n, lows + ''.join(pairs.values()) if lang else 'iIaAı')
    got = d.lookup(w)
    ctx.observe('lookup', got)
    ok = {entry, up} if cap else {entry, up[0] + low[1:], up}
    if lang:
        ctx.reach('turkic capital', ctx.AND(got, ctx.eq(w, 'İa'), entry == 'ia'))
        ctx.reach('turkic usual pairing rejected', ctx.AND(ctx.NOT(got), ctx.eq(w, 'Ia'), entry == 'ia'))
    else:
        ctx.reach('usual capital', ctx.AND(got, ctx.eq(w, 'Ia'), entry == 'ia'))
    ctx.check(ctx.IFF(got, ctx.member(w, sorted(t for t in ok if len(t) == n))), 'dotted and dotless i')
