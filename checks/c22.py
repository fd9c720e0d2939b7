"""C22: flag notation and aliases do not matter."""

REACH = ['accepted', 'rejected', 'alias used', 'affix flags used', 'compound accepted', 'rule accepted', 'pattern', 'case', 'data alias', 'circumfix', 'alias of two digits']

# how each abstract flag is written; 'z' is a flag no directive mentions
NOTATIONS = {
    'short': ('', {c: c for c in 'ABPNXCORKMz'}),
    'digits': ('', dict(zip('ABPNXCORKMz', '1234567890/'))),
    'long': ('FLAG long', dict(zip('ABPNXCORKMz', 'Ab BA aB NN nN CC oO cC kK Kk zz'.split()))),
    'num': ('FLAG num', {c: str(n) for c, n in zip('ABPNXCORKMz', (1, 11, 12345, 2, 22345, 21, 65000, 3, 12344, 13, 7))}),
    'utf8': ('FLAG UTF-8', dict(zip('ABPNXCORKMz', 'éÉłŁабАгß€ü'))),
}
BOUNDS = {
    'quick': 'four dictionary families (affixes with continuation flags and usage flags; flag-based compounds; COMPOUNDRULE with * and ?, and '
             'CHECKCOMPOUNDPATTERN; KEEPCASE, CIRCUMFIX and data), every subset of the flags on entries and affixes, in five notations each with '
             'and without AF aliases, and every word of up to 5 characters over the letters of the dictionary and one other; up to 12 aliases',
    'thorough': 'words one character longer',
}
OUTSIDE = 'suggestions'
ASSUMPTIONS = []

FAMILIES = ['affixes', 'compounds', 'rules', 'case']
DEEP = [('long', False), ('num', True), ('utf8', True)]      # one character more
LONGEST = {'affixes': 5, 'compounds': 4, 'rules': 4, 'case': 4}


def tasks(tier):
    more = 0 if tier == 'quick' else 1
    return [('same', dict(family=f, notation=x, alias=a, n=n)) for f in FAMILIES for x in NOTATIONS for a in (False, True)
            if (x, a) != ('short', False) for n in range(1, LONGEST[f] + more + ((x, a) in DEEP))] + [('data', dict(n=n)) for n in (1, 2, 11)] + \
        [('numbered', dict(notation=x)) for x in NOTATIONS]


class Writer:
    """Writes the same dictionary in a notation."""

    def __init__(self, notation, alias):
        self.head, self.table = NOTATIONS[notation]
        self.notation, self.alias = notation, alias
        self.aliases = []

    def flag(self, f):
        return self.table[f]

    def flags(self, fs):
        sep = ',' if self.notation == 'num' else ''
        return sep.join(self.table[f] for f in fs)

    def field(self, fs):
        """Flags after a slash."""
        if not self.alias:
            return '/' + self.flags(fs)
        if fs not in self.aliases:
            self.aliases.append(fs)
        return '/' + str(self.aliases.index(fs) + 1)

    def rule(self, items):
        if self.notation in ('long', 'num'):
            return ''.join(f'({self.table[f]}){q}' for f, q in items)
        return ''.join(self.table[f] + q for f, q in items)

    def aff(self, lines):
        af = []
        if self.alias and self.aliases:
            af = [f'AF {len(self.aliases)}'] + ['AF ' + self.flags(fs) for fs in self.aliases]
        return ['SET UTF-8'] + ([self.head] if self.head else []) + af + lines


def subset(ctx, name, flags):
    return ''.join(f for f in flags if ctx.choice(f'{name}.{f}', [False, True])) + 'z'


def same(ctx, family, notation, alias, n):
    if family == 'affixes':
        sets = [subset(ctx, 'e', 'APNX'), subset(ctx, 'a', 'BN')]
        letters = 'abcx'

        def write(w):
            entries = ['ab' + w.field(sets[0]), 'b' + w.field('Az')]
            s, p = w.field(sets[1]), w.field('Bz')
            return w.aff([f'NEEDAFFIX {w.flag("N")}', f'FORBIDDENWORD {w.flag("X")}',
                          f'SFX {w.flag("A")} Y 1', f'SFX {w.flag("A")} 0 c{s} .', f'SFX {w.flag("B")} Y 1', f'SFX {w.flag("B")} 0 a .',
                          f'PFX {w.flag("P")} Y 1', f'PFX {w.flag("P")} 0 c{p} a']), entries
    elif family == 'compounds':
        sets = [subset(ctx, 'e', 'ABCO'), subset(ctx, 'f', 'BM')]
        letters = 'abcx'

        def write(w):
            entries = ['a' + w.field(sets[0]), 'bc' + w.field(sets[1]), 'c' + w.field('AMz')]
            s = w.field('Cz')
            return w.aff(['COMPOUNDMIN 1', f'COMPOUNDBEGIN {w.flag("A")}', f'COMPOUNDLAST {w.flag("B")}', f'ONLYINCOMPOUND {w.flag("O")}',
                          f'COMPOUNDMIDDLE {w.flag("M")}', f'COMPOUNDPERMITFLAG {w.flag("C")}',
                          f'SFX {w.flag("M")} Y 1', f'SFX {w.flag("M")} 0 a{s} .']), entries
    elif family == 'rules':
        sets = [subset(ctx, 'e', 'ABC'), subset(ctx, 'f', 'ABM')]
        letters = 'abcx'

        def write(w):
            entries = ['a' + w.field(sets[0]), 'bc' + w.field(sets[1]), 'b' + w.field('Cz')]
            return w.aff(['COMPOUNDMIN 1', 'COMPOUNDRULE 2', 'COMPOUNDRULE ' + w.rule([('A', '*'), ('B', '?'), ('C', '')]),
                          'COMPOUNDRULE ' + w.rule([('B', ''), ('M', '')]), 'COMPOUNDFLAG ' + w.flag('M'),
                          'CHECKCOMPOUNDPATTERN 1', f'CHECKCOMPOUNDPATTERN c/{w.flag("M")} b/{w.flag("M")}']), entries
    else:
        sets = [subset(ctx, 'e', 'ABKX'), subset(ctx, 'f', 'AC')]
        letters = 'abAB'

        def write(w):
            entries = ['a' + w.field(sets[0]), 'Ab' + w.field('ACz')]
            s, p = w.field('Cz'), w.field(sets[1])
            return w.aff([f'KEEPCASE {w.flag("K")}', f'NOSUGGEST {w.flag("X")}', f'CIRCUMFIX {w.flag("C")}',
                          f'SFX {w.flag("A")} Y 1', f'SFX {w.flag("A")} 0 b{s} .', f'PFX {w.flag("B")} Y 1', f'PFX {w.flag("B")} 0 b{p} .']), entries
    results = []
    w = ctx.word('w', n, letters)
    for x in (Writer('short', False), Writer(notation, alias)):
        _, entries = write(x)
        affix, entries = write(x)
        d = ctx.dictionary(affix, [str(len(entries))] + entries)
        results.append(bool(d.lookup(w)))
    ctx.observe('answers', results)
    ctx.check(results[0] == results[1], 'same answer in any notation')
    yes = results[0]
    ctx.reach('accepted', yes)
    ctx.reach('rejected', not yes)
    ctx.reach('alias used', yes and alias)
    ctx.reach('affix flags used', family == 'affixes' and yes and n == 4)
    ctx.reach('compound accepted', family == 'compounds' and yes and n > 3)
    ctx.reach('rule accepted', family == 'rules' and yes and n > 2)
    ctx.reach('pattern', family == 'rules' and not yes and 'M' in sets[1] and n == 4)
    ctx.reach('case', family == 'case' and not yes and 'K' in sets[0])
    ctx.reach('circumfix', family == 'case' and yes and n == 3)


def numbered(ctx, notation):
    """Alias numbers of more than one digit; the same flags are a different alias."""
    wr = Writer(notation, True)
    sets = ['A', 'B', 'AB', 'P', 'AP', 'BP', 'ABP', 'N', 'AN', 'BN', 'ABN', 'X']
    for s in sets:
        wr.field(s)
    answers = []
    k, j = ctx.choice('alias', list(range(len(sets)))), ctx.choice('suffix alias', [0, 1, 2, 9, 10])
    w = 'ab' + ctx.word('w', 2, ['cd', 'dx'])
    for x in (Writer('short', False), wr):
        lines = [f'NEEDAFFIX {x.flag("N")}', f'FORBIDDENWORD {x.flag("X")}', f'SFX {x.flag("A")} Y 1', f'SFX {x.flag("A")} 0 c{x.field(sets[j])} .',
                 f'SFX {x.flag("B")} Y 1', f'SFX {x.flag("B")} 0 d .', f'PFX {x.flag("P")} Y 1', f'PFX {x.flag("P")} 0 x .']
        d = ctx.dictionary(x.aff(lines), ['1', 'ab' + x.field(sets[k])])
        answers.append([bool(d.lookup(t)) for t in ('ab', w[:3], w, 'x' + w[:3])])
    ctx.observe('answers', answers)
    ctx.check(answers[0] == answers[1], 'same answer with an alias of two digits')
    ctx.reach('alias of two digits', k > 8 and any(answers[0]))


def data(ctx, n):
    """AM aliases stand for the data."""
    rows = [ctx.choice(f'row{i}', ['po:noun', 'po:verb is:pl', 'ds:x']) if i in (0, n - 1) else 'ds:' + 'y' * i for i in range(n)]
    pick = ctx.choice('pick', list(range(n)))
    sep = ctx.choice('sep', ['\t', ' st:ab '])
    plain = ctx.dictionary(['SET UTF-8'], ['1', 'ab/A' + sep + rows[pick]])
    d = ctx.dictionary(['SET UTF-8', f'AM {n}'] + ['AM ' + r for r in rows], ['1', 'ab/A' + sep + str(pick + 1)])
    got = [[{k: sorted(v) for k, v in x.data.items() if v} for x in dd.dic.words] for dd in (d, plain)]
    ctx.observe('data', got)
    ctx.check(got[0] == got[1], 'alias stands for the data')
    ctx.check([x.stem for x in d.dic.words] == ['ab'] and d.lookup('ab'), 'entry')
    ctx.reach('data alias')
