"""C24: system dictionaries are found by name on the standard paths."""

REACH = ['first location', 'last location', 'several have it', 'none has it', 'dot in the name', 'other names only']

FOLDERS = ['/usr/share/hunspell', '/usr/share/myspell', '/usr/share/myspell/dicts', '/Library/Spelling', '/opt/openoffice.org/basis3.0/share/dict/ooo',
           '/usr/lib/openoffice.org/basis3.0/share/dict/ooo', '/opt/openoffice.org2.4/share/dict/ooo', '/usr/lib/openoffice.org2.4/share/dict/ooo',
           '/opt/openoffice.org2.3/share/dict/ooo', '/usr/lib/openoffice.org2.3/share/dict/ooo', '/opt/openoffice.org2.2/share/dict/ooo',
           '/usr/lib/openoffice.org2.2/share/dict/ooo', '/opt/openoffice.org2.1/share/dict/ooo', '/usr/lib/openoffice.org2.1/share/dict/ooo',
           '/opt/openoffice.org2.0/share/dict/ooo', '/usr/lib/openoffice.org2.0/share/dict/ooo']
NAMES = ['en_XX', 'en_US', 'a', 'en-x', 'x.affy']
BOUNDS = {
    'quick': 'each of the 16 standard locations may or may not have the dictionary (formulas, decided by the solver as the code asks), 5 fixed names and every '
             'name of 1..2 characters over letters, underscore, dash and dot; other dictionaries with similar names in every location',
    'thorough': 'names of 3 characters',
}
OUTSIDE = 'names with wildcards; locations that have only one of the two files; the search of the operating system itself (a virtual file system stands for it)'
ASSUMPTIONS = ['the standard locations are those of the original list, in its order']


def tasks(tier):
    return [('search', dict(name=x)) for x in NAMES] + [('search', dict(n=n)) for n in range(1, 3 if tier == 'quick' else 4)]


def search(ctx, name=None, n=None):
    import spylls.hunspell
    if name is None:
        name = ctx.realize(ctx.word('name', n, ['aZ_'] + ['a_-.'] * n))
    have = [ctx.boolean(f'has{i}') for i in range(len(FOLDERS))]
    files = {}
    for i, (folder, there) in enumerate(zip(FOLDERS, have)):
        for other, present in ((name, there), (name + 'x', True), ('x' + name, True)):
            stem = f'{chr(97 + i)}q' if other == name else 'wrong'
            files[f'{folder}/{other}.aff'] = (['SET UTF-8', 'TRY ' + stem], present)
            files[f'{folder}/{other}.dic'] = (['1', stem], present)
    ctx.system(FOLDERS, files)
    try:
        d = spylls.hunspell.Dictionary.from_system(name)
        got = [ctx.realize(w.stem) for w in d.dic.words] + [ctx.realize(d.aff.TRY)]
        error = ''
    except LookupError as e:
        got, error = None, ctx.realize(str(e))
    ctx.observe('found', got)
    none = ctx.AND([ctx.NOT(h) for h in have])
    if got is None:
        ctx.check(none, 'found when some location has it')
        ctx.check(name in error, 'the error names the dictionary')
        ctx.reach('none has it')
        ctx.reach('other names only')
        return
    ctx.check(ctx.NOT(none), 'error when no location has it')
    for i in range(len(FOLDERS)):
        stem = f'{chr(97 + i)}q'
        first = ctx.AND([have[i]] + [ctx.NOT(h) for h in have[:i]])
        ctx.check(ctx.IMPLIES(first, got == [stem, stem]), 'opened from the first location that has it')
    ctx.reach('first location', ctx.AND(have[0], got == ['aq', 'aq']))
    ctx.reach('last location', got == ['pq', 'pq'])
    ctx.reach('several have it', ctx.AND(have[0], have[1]))
    ctx.reach('dot in the name', '.' in name)
