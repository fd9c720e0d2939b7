"""C28: conversion tables replace the longest match, once, left to right."""

from itertools import permutations
from checks.lang import aff, convert

REACH = ['converted', 'unchanged', 'longest of several', 'anchored']

SHAPES = [
    # row templates: digits stand for symbolic letters; replacement
    (('0', 'x'),),
    (('01', 'a'), ('2', 'xy')),
    (('012', 'x'), ('3', 'y')),
    (('01', 'a'), ('23', 'b')),
    (('_0', 'x'), ('12', 'b')),
    (('0_', 'x'), ('12', 'y')),
    (('_01', 'x'), ('2_', 'a'), ('3', 'z')),
    (('_0_', 'x'), ('12', 'ab')),
    (('0', 'a_b'), ('12', '_')),
    (('012', 'x'), ('34', 'y'), ('5', 'z')),
]
SPECIAL = [
    (('.', 'x'), ('a', 'y')),
    (('a.', 'x'), ('.a', 'y')),
    (('(', 'x'), (')', 'y')),
    (('*', 'x'), ('[', 'y'), ('+', 'z')),
    (('a*', 'x'), ('\\', 'y'), ('|', 'z')),
    (('^', 'x'), ('$', 'y')),
    (("’", "'"), ("''", '"')),
    (('?', 'a'), ('a?', 'b')),
    (('{', 'a'), ('a{2}', 'b'), ('-', '_')),
]
BOUNDS = {
    'quick': f'{len(SHAPES)} table shapes of 1..3 rows with every choice of pattern letters over two letters (patterns up to 3 '
             f'characters, anchored or not), every row order, every word up to 5 characters over 16 letters; {len(SPECIAL)} tables '
             'with special characters, words up to 4 characters',
    'thorough': 'words up to 7 and 5 characters',
}
OUTSIDE = 'rows whose patterns are equal apart from the anchors; patterns consisting only of anchors'
ASSUMPTIONS = ['patterns of one table are different']


def tasks(tier):
    q = tier == 'quick'
    return [('shapes', dict(s=s, which=k, n=n)) for s in range(len(SHAPES)) for k in ('ICONV', 'OCONV')
            for n in range(1, (5 if q else 7) + 1)] + \
           [('special', dict(s=s, n=n)) for s in range(len(SPECIAL)) for n in range(1, (4 if q else 5) + 1)]


def check(ctx, rows, which, w):
    order = ctx.choice('order', list(permutations(range(len(rows)))))
    lines = [f'{which} {len(rows)}'] + [f'{which} {rows[i][0]} {rows[i][1]}' for i in order]
    d = ctx.dictionary(aff(*lines), ['1', 'q'])
    got = getattr(d.aff, which)(w)
    ctx.observe('converted', got)
    want = convert(rows, w)
    ctx.check(len(got) == len(want) and ctx.eq(got, want), 'conversion result')
    changed = not (len(got) == len(w) and got == w)
    ctx.reach('converted' if changed else 'unchanged')
    return changed


def shapes(ctx, s, which, n):
    rows = []
    for pattern, replacement in SHAPES[s]:
        p = ''.join(ctx.realize(ctx.char(f'p{c}', 'ab')) if c.isdigit() else c for c in pattern)
        rows.append((p, replacement))
    ctx.assume(len({p.replace('_', '') for p, _ in rows}) == len(rows))
    w = ctx.word('w', n, 'abcdefghijklmnop')
    changed = check(ctx, rows, which, w)
    if s == 2 and changed and n == 3:
        ctx.reach('longest of several', ctx.AND(ctx.eq(w, rows[0][0]), rows[1][0] == rows[0][0][0]))
    if s == 4 and changed:
        ctx.reach('anchored')


def special(ctx, s, n):
    rows = SPECIAL[s]
    letters = ''.join(sorted({c for p, _ in rows for c in p} | set('abcdefgh2')))
    w = ctx.word('w', n, letters)
    check(ctx, list(rows), 'ICONV', w)
