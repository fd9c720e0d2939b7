"""
Independent description of what a Hunspell dictionary means, used as the oracle by several checks.
Everything here is written from the documentation (generation direction: stem + affixes -> text); it
shares no code with spylls. Flag presence may be a solver formula or a plain boolean.
"""

from sx.core import f_and, f_or, f_not


def parse_condition(text):
    """'[ab]c.' -> list of (negated, characters); None for any character."""
    out, i = [], 0
    while i < len(text):
        if text[i] == '.':
            out.append(None)
        elif text[i] == '[':
            j = text.index(']', i + 1)
            body = text[i + 1:j]
            out.append((True, body[1:]) if body.startswith('^') else (False, body))
            i = j
        else:
            out.append((False, text[i]))
        i += 1
    if out == [None]:
        return []      # "." is "no condition"
    return out


def matches(items, text):
    return all(item is None or ((c in item[1]) != item[0]) for item, c in zip(items, text))


class Affix:
    """One row of an SFX/PFX table. `has` maps flags to presence (formula or bool)."""

    def __init__(self, kind, flag, strip, add, cond='.', cross=True, flags='', has=None):
        self.kind, self.flag, self.strip, self.add, self.cond, self.cross = kind, flag, strip, add, cond, cross
        self.flags = flags
        self.has = has if has is not None else {f: True for f in flags}
        self.items = parse_condition(cond)

    def line(self):
        add = (self.add or '0') + ('/' + self.flags if len(self.flags) else '')
        return f'{self.kind}X {self.flag} {self.strip or "0"} ' + add + f' {self.cond}'

    def apply(self, text):
        """Result of adding the affix to the text, or None when it does not apply."""
        n = len(self.items)
        if len(text) < n:
            return None
        if self.kind == 'SF':
            if not text.endswith(self.strip) or not matches(self.items, text[len(text) - n:]):
                return None
            return text[:len(text) - len(self.strip)] + self.add
        if not text.startswith(self.strip) or not matches(self.items, text[:n]):
            return None
        return self.add + text[len(self.strip):]

    def carries(self, flag):
        return self.has.get(flag, False)


class Entry:
    def __init__(self, stem, flags='', has=None):
        self.stem, self.flags = stem, flags
        self.has = has if has is not None else {f: True for f in flags}

    def line(self):
        return self.stem + '/' + self.flags if len(self.flags) else self.stem

    def carries(self, flag):
        return self.has.get(flag, False)


class Form:
    """A stem with affixes; prefixes and suffixes are listed from the stem outwards."""

    def __init__(self, text, entry, prefixes=(), suffixes=()):
        self.text, self.entry, self.prefixes, self.suffixes = text, entry, tuple(prefixes), tuple(suffixes)

    @property
    def affixes(self):
        return self.prefixes + self.suffixes

    def carries(self, flag):
        """The flag is on the entry, its prefix or its (inner) suffix."""
        return f_or([self.entry.carries(flag)] + [a.carries(flag) for a in self.prefixes[:1] + self.suffixes[:1]])

    def licensed(self):
        """Flags permit each of the affixes."""
        conds = []
        p, s = self.prefixes[:1], self.suffixes[:1]
        for a in s:
            conds.append(f_or([self.entry.carries(a.flag)] + [x.carries(a.flag) for x in p]))
        for a in p:
            conds.append(f_or([self.entry.carries(a.flag)] + [x.carries(a.flag) for x in s]))
        for chain in (self.prefixes, self.suffixes):
            if len(chain) == 2:
                conds.append(chain[0].carries(chain[1].flag))
        return f_and(conds)

    def standalone(self, needaffix=None, circumfix=None, onlyincompound=None):
        """Usage flags permit the form as a whole word."""
        return f_and([self.fits(needaffix, circumfix),
                      f_not(self.carries(onlyincompound)) if onlyincompound else True])

    def fits(self, needaffix=None, circumfix=None):
        conds = []
        if needaffix:
            if not self.affixes:
                conds.append(f_not(self.entry.carries(needaffix)))
            else:
                conds.append(f_not(f_and([a.carries(needaffix) for a in self.affixes])))
        if circumfix:
            p = f_or([a.carries(circumfix) for a in self.prefixes[:1]])
            s = f_or([a.carries(circumfix) for a in self.suffixes[:1]])
            conds.append(f_or([f_and([p, s]), f_and([f_not(p), f_not(s)])]))
        return f_and(conds)

    def __repr__(self):
        return f'{self.text}<{[a.add for a in self.prefixes]}{self.entry.stem}{[a.add for a in self.suffixes]}>'


def generate(entries, affixes, complexprefixes=False):
    """All forms: up to one prefix and two suffixes (COMPLEXPREFIXES: two prefixes, one suffix)."""
    sfx = [a for a in affixes if a.kind == 'SF']
    pfx = [a for a in affixes if a.kind == 'PF']
    out = []
    for e in entries:
        suffixed = [(e.stem, ())]
        for s1 in sfx:
            t1 = s1.apply(e.stem)
            if t1 is None:
                continue
            suffixed.append((t1, (s1,)))
            if complexprefixes:
                continue
            for s2 in sfx:
                t2 = s2.apply(t1)
                if t2 is not None:
                    suffixed.append((t2, (s1, s2)))
        for text, ss in suffixed:
            out.append(Form(text, e, (), ss))
            for p1 in pfx:
                if ss and not (p1.cross and all(s.cross for s in ss)):
                    continue
                t1 = p1.apply(text)
                if t1 is None:
                    continue
                out.append(Form(t1, e, (p1,), ss))
                if not complexprefixes:
                    continue
                for p2 in pfx:
                    if ss and not p2.cross:
                        continue
                    t2 = p2.apply(t1)
                    if t2 is not None:
                        out.append(Form(t2, e, (p1, p2), ss))
    return out


def tables(affixes):
    """Affix tables in .aff notation (rows grouped by kind and flag, in order of appearance)."""
    groups = {}
    for a in affixes:
        groups.setdefault((a.kind, a.flag), []).append(a)
    lines = []
    for (kind, flag), rows in groups.items():
        lines.append(f'{kind}X {flag} {"Y" if rows[0].cross else "N"} {len(rows)}')
        lines.extend(r.line() for r in rows)
    return lines


def aff(*options, affixes=()):
    return ['SET UTF-8', *options, *tables(affixes)]


def dic(entries):
    return [str(len(entries)), *(e.line() for e in entries)]


class Maker:
    """Creates entries and affixes with symbolic flags for a harness."""

    def __init__(self, ctx):
        self.ctx = ctx

    def entry(self, name, stem, maybe='', always=''):
        text, has = self.ctx.flags(name, maybe) if maybe else ('', {})
        has = {**has, **{f: True for f in always}}
        return Entry(stem, always + text if always else text, has)

    def affix(self, name, kind, flag, strip, add, cond='.', cross=True, maybe='', always=''):
        text, has = self.ctx.flags(name, maybe) if maybe else ('', {})
        has = {**has, **{f: True for f in always}}
        return Affix(kind, flag, strip, add, cond, cross, always + text if always else text, has)


# Letter case

def captype(text):
    """NO, INIT, ALL, HUHINIT or HUH, from the definitions in the documentation."""
    cased = [c for c in text if c.lower() != c or c.upper() != c]
    uppers = [c for c in cased if c == c.upper() and c != c.lower()]
    if cased and not uppers:
        return 'NO'
    if cased and len(uppers) == len(cased):
        return 'ALL'
    first = text[:1] != '' and text[0] in uppers
    if first:
        return 'INIT' if len(uppers) == 1 and len(cased) > 1 else 'HUHINIT'
    return 'HUH'


def case_variants(text):
    out = ['']
    for c in text:
        out = [o + x for o in out for x in dict.fromkeys((c.lower(), c.upper()))]
    return out


def spellings(form):
    """
    Pairs (spelling, text it stands for) accepted on account of the form, as far as letter case goes.
    """
    text = form.text
    folded = Entry(form.entry.stem.lower())
    out = []
    for w in case_variants(text):
        kind = captype(w)
        if w == text:
            out.append((w, text))
        elif kind == 'INIT' and w.lower() == text:
            out.append((w, text))
        elif kind == 'HUHINIT' and w[0].lower() + w[1:] == text:
            out.append((w, text))
        elif kind == 'ALL' and (w.lower() == text or w[0] + w[1:].lower() == text):
            out.append((w, text))
        elif kind == 'ALL' and w.lower() == rebuild(form, folded):
            out.append((w, text))
    return out


def rebuild(form, entry):
    """The form's affixes applied to another entry (None when they do not apply)."""
    t = entry.stem
    for a in form.suffixes + form.prefixes:
        t = a.apply(t)
        if t is None:
            return None
    return t


# Compounds

def sequences(forms, text, minlen, maxparts):
    """All ways to write the text as two or more consecutive parts (lists of forms)."""
    by_text = {}
    for g in forms:
        by_text.setdefault(g.text, []).append(g)

    def rec(rest, n):
        if not rest:
            if n >= 2:
                yield []
            return
        if maxparts and n >= maxparts:
            return
        for k in range(max(1, minlen), len(rest) + 1):
            for g in by_text.get(rest[:k], ()):
                for tail in rec(rest[k:], n + 1):
                    yield [g] + tail
    yield from rec(text, 0)


def texts_of_length(forms, n, minlen=1):
    """Texts of the given length that are concatenations of form texts."""
    pieces = sorted({g.text for g in forms if len(g.text) >= minlen})
    layer = {0: {''}}
    for k in range(1, n + 1):
        layer[k] = {t + p for p in pieces if 0 < len(p) <= k for t in layer[k - len(p)]}
    return sorted(layer[n])


class CompoundFlags:
    """Names of the declared compounding flags (None: not declared)."""

    def __init__(self, any=None, begin=None, middle=None, end=None, permit=None, forbid=None):
        self.any, self.begin, self.middle, self.end, self.permit, self.forbid = any, begin, middle, end, permit, forbid

    def options(self):
        names = dict(COMPOUNDFLAG=self.any, COMPOUNDBEGIN=self.begin, COMPOUNDMIDDLE=self.middle, COMPOUNDEND=self.end,
                     COMPOUNDPERMITFLAG=self.permit, COMPOUNDFORBIDFLAG=self.forbid)
        return [f'{k} {v}' for k, v in names.items() if v]

    def part_ok(self, g, index, count):
        """Formula: the form may be the part number `index` of `count`."""
        first, last = index == 0, index == count - 1
        place = self.begin if first else self.end if last else self.middle
        conds = [g.licensed(), f_or([g.carries(f) for f in (self.any, place) if f])]
        for affixes, free in ((g.prefixes, first), (g.suffixes, last)):
            for a in affixes:
                if not free:
                    conds.append(a.carries(self.permit) if self.permit else False)
                if self.forbid:
                    conds.append(f_not(a.carries(self.forbid)))
        return f_and(conds)


def compound_formula(ctx, w, forms, flags, minlen=3, maxparts=0, extra=None):
    """Formula: the word is a permitted compound. `extra(parts)` may add a condition."""
    out = []
    for t in texts_of_length(forms, len(w), minlen):
        here = ctx.eq(w, t)
        if not ctx.possible(here):
            continue
        ways = []
        for parts in sequences(forms, t, minlen, maxparts):
            conds = [flags.part_ok(g, i, len(parts)) for i, g in enumerate(parts)]
            if extra:
                conds.append(extra(parts))
            ways.append(f_and(conds))
        ways = [x for x in ways if x is not False]
        if ways:
            out.append(f_and([here, f_or(ways)]))
    return f_or(out)


def convert(table, word):
    """
    Conversion by ICONV/OCONV rows: left to right, longest pattern matching at the position. Branches on
    the characters of the word.
    """
    rows = [(p.replace('_', ''), p.startswith('_'), p.endswith('_'), r.replace('_', ' ')) for p, r in table]
    rows.sort(key=lambda r: -len(r[0]))
    out, pos, n = '', 0, len(word)
    while pos < n:
        for text, start, end, replacement in rows:
            k = len(text)
            if pos + k > n or start and pos > 0 or end and pos + k < n:
                continue
            if word[pos:pos + k] == text:
                out, pos = out + replacement, pos + k
                break
        else:
            out, pos = out + word[pos], pos + 1
    return out
