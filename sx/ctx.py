"""
What a harness sees. The same harness runs in two modes: symbolically (inputs are symbolic, the code
is the instrumented one) and concretely (inputs come from a solver assignment, the code is the
unmodified one) for replaying counterexamples and validating sampled paths.
"""

import os
import sys
import shutil
import tempfile

from sx import core
from sx.core import f_and, f_or, f_not, f_iff, f_implies, s_eq, mk_ch, mk_str


class Violation(core.SxStop):
    def __init__(self, label, asg, detail=None):
        super().__init__(label)
        self.label, self.asg, self.detail = label, asg, detail


class CheckFailed(Exception):
    """Concrete mode: the property does not hold for this input."""
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class AssumptionFailed(Exception):
    pass


class Base:
    """Operations available in both modes."""
    AND = staticmethod(lambda *xs: f_and(xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs))
    OR = staticmethod(lambda *xs: f_or(xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs))
    NOT = staticmethod(f_not)
    IFF = staticmethod(f_iff)
    IMPLIES = staticmethod(f_implies)

    @staticmethod
    def eq(a, b):
        return s_eq(a, b)

    def word(self, name, length, alphabet):
        """String of the given length over the alphabet (or one alphabet per position)."""
        if isinstance(alphabet, str):
            alphabet = [alphabet] * length
        return core.join('', [self.char(f'{name}[{i}]', a) for i, a in zip(range(length), alphabet)])

    def boolean(self, name):
        """Symbolic truth value (not forked)."""
        raise NotImplementedError

    def flag(self, name, flag, absent='~'):
        """Character of a flag field: the flag or a filler no directive mentions."""
        return self.char(name, (flag, absent))

    def flags(self, name, flags, absent='~'):
        """
        Flag field in which each flag may be present. Returns (text, {flag: presence formula}).
        """
        chars = [(f, self.flag(f'{name}.{f}', f, absent)) for f in flags]
        text = core.join('', [c for _, c in chars])
        return text, {f: s_eq(c, f) for f, c in chars}

    @staticmethod
    def possible(f):
        """False when the formula is already known to be false here (cheap pruning of specifications)."""
        if isinstance(f, core.F):
            return f.quick(core.ENG.dom) is not False
        return bool(f)

    def member(self, s, texts):
        """Formula: the string is one of the texts."""
        return f_or([s_eq(s, t) for t in texts])


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, split=False):
        self.eng = eng
        self.split = split      # case-split every input at once
        self.observed = []
        self.reached = {}
        self.checks = 0
        self.solver_checks = 0
        self._n = 0

    def char(self, name, alphabet):
        v = self.eng.var(name, tuple(alphabet))
        if v.n == 1:
            return v.dom[0]
        c = mk_str((mk_ch(v, v.dom),))
        return core.realize(c) if self.split else c

    def boolean(self, name):
        v = self.eng.var(name, (False, True))
        return bool(core.U(v, 2)) if self.split else core.U(v, 2)

    def choice(self, name, values):
        values = list(values)
        v = self.eng.var(name, tuple(range(len(values))))
        for i in range(len(values) - 1):
            if core.U(v, 1 << i):
                return values[i]
        if len(values) > 1:
            self.eng.assume(core.U(v, 1 << (len(values) - 1)))
        return values[-1]

    def assume(self, cond):
        self.eng.assume(cond if isinstance(cond, core.F) else bool(cond))

    def check(self, cond, label='property'):
        self.checks += 1
        if not isinstance(cond, core.F):
            cond = bool(cond)
            if cond:
                return
        else:
            self.solver_checks += 1
        asg = self.eng.find(f_not(cond))
        if asg is not None:
            raise Violation(label, self.eng.assignment(asg))

    def observe(self, name, value):
        self.observed.append((name, value))

    def reach(self, name, cond=True):
        if name in self.eng.reached:
            return
        if self.eng.find(cond) is not None:
            self.eng.reached.add(name)

    def fresh(self):
        """Module-level state as in a new process."""
        from sx import instr
        instr.restore()

    def dictionary(self, aff, dic):
        from sx import vfs
        import spylls.hunspell
        self._n += 1
        path = f'/vfs/d{self._n}'
        vfs.put(path + '.aff', aff)
        vfs.put(path + '.dic', dic)
        return spylls.hunspell.Dictionary.from_files(path)

    def files(self, **files):
        """Files with a common name: extension=dict(lines, encoding, last_newline). Returns the path without extension."""
        from sx import vfs
        self._n += 1
        path = f'/vfs/f{self._n}'
        for ext, f in files.items():
            vfs.put(path + '.' + ext, **f)
        return path

    def system(self, folders, files):
        """Replaces folders of the system by virtual ones with the given files: {path: (lines, formula "exists")}."""
        from sx import vfs
        vfs.FOLDERS.update(folders)
        for path, (lines, present) in files.items():
            vfs.put(path, lines)
            vfs.PRESENT[path] = present

    def tmpdir(self):
        self._n += 1
        d = tempfile.mkdtemp(prefix='sx-')
        self.eng.tmpdirs.append(d)
        return d

    def realize(self, x):
        return core.deep_realize(x)


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, assign):
        self.assign = assign
        self.observed = []
        self.missing = []
        self.dirs = []
        self.inputs = {}
        self.unpatch = lambda: None

    def _idx(self, name, n):
        if name not in self.assign:
            self.missing.append(name)
            return 0
        return self.assign[name] % n

    def char(self, name, alphabet):
        alphabet = tuple(alphabet)
        if len(alphabet) == 1:
            return alphabet[0]
        c = alphabet[self._idx(name, len(alphabet))]
        self.inputs[name] = c
        return c

    def boolean(self, name):
        b = bool(self._idx(name, 2))
        self.inputs[name] = b
        return b

    def choice(self, name, values):
        values = list(values)
        v = values[self._idx(name, len(values))]
        self.inputs[name] = repr(v)
        return v

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def check(self, cond, label='property'):
        if not cond:
            raise CheckFailed(label)

    def observe(self, name, value):
        self.observed.append((name, plain(value)))

    def reach(self, name, cond=True):
        pass

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='sx-')
        self.dirs.append(d)
        return d

    def files(self, **files):
        d = self.tmpdir()
        for ext, f in files.items():
            text = ''.join(ln + '\n' for ln in f['lines'])
            if not f.get('last_newline', True) and text:
                text = text[:-1]
            with open(os.path.join(d, 'f.' + ext), 'wb') as file:
                file.write(text.encode(f.get('encoding', 'utf-8'), 'surrogateescape'))
        return os.path.join(d, 'f')

    def system(self, folders, files):
        root = self.tmpdir()
        for f in folders:
            os.makedirs(root + f, exist_ok=True)
        for path, (lines, present) in files.items():
            if present:
                with open(root + path, 'w', encoding='utf-8') as file:
                    file.write(''.join(ln + '\n' for ln in lines))
        self.unpatch = redirect(folders, root)

    def fresh(self):
        for name in [m for m in sys.modules if m == 'spylls' or m.startswith('spylls.')]:
            del sys.modules[name]

    def dictionary(self, aff, dic):
        import spylls.hunspell
        d = self.tmpdir()
        for ext, lines in (('aff', aff), ('dic', dic)):
            with open(os.path.join(d, 'd.' + ext), 'w', encoding='utf-8', errors='surrogateescape', newline='\n') as f:
                f.write(''.join(ln + '\n' for ln in lines))
        self.last = (list(aff), list(dic))
        return spylls.hunspell.Dictionary.from_files(os.path.join(d, 'd'))

    def realize(self, x):
        return x

    def close(self):
        self.unpatch()
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)


def redirect(folders, root):
    """Lets file functions see the folders of the scratch directory in place of those of the system. Returns a function that undoes it."""
    import builtins
    import io

    def real(path):
        try:
            p = os.fspath(path)
        except TypeError:
            return path
        return root + p if isinstance(p, str) and any(p == f or p.startswith(f + '/') for f in folders) else path

    def patched(f):
        return lambda path='.', *a, **k: f(real(path), *a, **k)
    places = [(builtins, 'open'), (io, 'open')] + [(os, x) for x in ('stat', 'lstat', 'scandir', 'listdir', 'access', 'open')]
    kept = [(m, name, getattr(m, name)) for m, name in places]
    for m, name, f in kept:
        setattr(m, name, patched(f))

    def undo():
        for m, name, f in kept:
            setattr(m, name, f)
    return undo


def plain(x):
    """JSON-able form of an observed value."""
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(i) for i in x)
    if isinstance(x, dict):
        return {str(plain(k)): plain(v) for k, v in x.items()}
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    return repr(x)
