"""
In-memory files with symbolic text for instrumented code. Paths under /vfs/ never touch the disk;
everything else goes to the real functions. Text is stored together with the encoding of the file and
converted character by character when opened in another encoding (a character that becomes several is
case-split); opened in binary mode it is case-split to concrete bytes. Folders of the system can be replaced
by virtual ones, in which the presence of a file may be a formula.
"""

import builtins
import codecs
import io
import os

from sx import core

PREFIX = '/vfs/'
FILES = {}
PRESENT = {}
FOLDERS = set()
ENCODINGS = {}
_real_open = builtins.open
_real_stat = os.stat
_real_lstat = os.lstat
_real_scandir = os.scandir
_real_listdir = os.listdir
_installed = False


class VFile:
    def __init__(self, name, lines):
        self.name = name
        self._lines = lines
        self._i = 0
        self.closed = False
        self.encoding = 'utf-8'
        self.errors = None
        self.newlines = '\n'

    def readline(self, size=-1):
        if self._i >= len(self._lines):
            return ''
        ln = self._lines[self._i]
        self._i += 1
        return ln

    def readlines(self, hint=-1):
        r = self._lines[self._i:]
        self._i = len(self._lines)
        return list(r)

    def read(self, size=-1):
        return core.join('', self.readlines())

    def __iter__(self):
        return self

    def __next__(self):
        ln = self.readline()
        if isinstance(ln, str) and ln == '':
            raise StopIteration
        return ln

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def seek(self, pos, whence=0):
        if pos == 0 and whence == 0:
            self._i = 0
            return 0
        raise core.Unsupported('seek in a symbolic file')

    def readable(self):
        return True


def lines_of(text):
    """Lines of the text, with their ends."""
    parts = text.split('\n')
    out = [p + '\n' for p in parts[:-1]]
    if len(parts[-1]):
        out.append(parts[-1])
    return out


def put(path, lines, encoding='utf-8', last_newline=True):
    """lines: list of strings without line ends."""
    text = [ln + '\n' for ln in lines]
    if text and not last_newline:
        text[-1] = lines[-1]
        if len(text[-1]) == 0:
            text.pop()
    FILES[path] = text
    ENCODINGS[path] = codecs.lookup(encoding).name


def clear():
    FILES.clear()
    PRESENT.clear()
    FOLDERS.clear()
    ENCODINGS.clear()


def recode(line, enc1, enc2, errors):
    """Line of a file in encoding enc1 read as enc2."""
    def conv(c):
        return c.encode(enc1, 'surrogateescape').decode(enc2, errors or 'strict')

    if type(line) is str:
        return line if line.isascii() else conv(line)
    out = []
    for c in line.e:
        if type(c) is str:
            out.append(conv(c))
            continue
        images = tuple(conv(x) for x in c.map)
        if all(len(x) == 1 for x in images):
            out.append(core.mk_str((core.mk_ch(c.var, images),)))
        else:
            out.append(conv(core.realize(core.mk_str((c,)))))
    return core.join('', out)


def _path(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, str) and (p.startswith(PREFIX) or FOLDERS and any(p == x or p.startswith(x + '/') for x in FOLDERS)):
        return p
    return None


def _there(p):
    """Whether the file exists (forks)."""
    p = os.path.normpath(p)
    return p in FILES and bool(PRESENT.get(p, True))


def vopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    p = _path(file)
    if p is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, *a, **k)
    if not _there(p):
        raise FileNotFoundError(2, 'No such file or directory', p)
    p = os.path.normpath(p)
    if 'b' in mode:
        data = ''.join(core.realize(x) for x in FILES[p]).encode(ENCODINGS[p], 'surrogateescape')
        return io.BytesIO(data)
    enc = codecs.lookup(encoding or 'utf-8').name
    lines = FILES[p]
    if enc != ENCODINGS[p]:
        lines = [recode(ln, ENCODINGS[p], enc, errors) for ln in lines]
    return VFile(p, lines)


def vcodecs_open(filename, mode='r', encoding=None, errors='strict', buffering=-1):
    if _path(filename) is None:
        return _real_codecs_open(filename, mode, encoding, errors, buffering)
    return vopen(filename, 'r', -1, encoding, errors)


_real_codecs_open = codecs.open


def vstat(path, *a, **k):
    p = _path(path) if not isinstance(path, int) else None
    if p is None:
        return _real_stat(path, *a, **k)
    if _there(p):
        return _real_stat(__file__)
    if os.path.normpath(p) in FOLDERS:
        return _real_stat(os.path.dirname(__file__))
    raise FileNotFoundError(2, 'No such file or directory', p)


def vlstat(path, *a, **k):
    return _real_lstat(path, *a, **k) if isinstance(path, int) or _path(path) is None else vstat(path)


class Entry:
    def __init__(self, folder, name):
        self.name = name
        self.path = os.path.join(folder, name)

    def is_file(self, follow_symlinks=True):
        return True

    def is_dir(self, follow_symlinks=True):
        return False

    is_symlink = is_dir

    def __fspath__(self):
        return self.path


class Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def vlistdir(path='.'):
    p = _path(path) if not isinstance(path, int) else None
    if p is None:
        return _real_listdir(path)
    folder = os.path.normpath(p)
    if folder not in FOLDERS:
        raise FileNotFoundError(2, 'No such file or directory', p)
    return [os.path.basename(f) for f in FILES if os.path.dirname(f) == folder and _there(f)]


def vscandir(path='.'):
    if isinstance(path, int) or _path(path) is None:
        return _real_scandir(path)
    return Scan(Entry(os.fspath(path), name) for name in vlistdir(path))


def install():
    global _installed
    if _installed:
        return
    builtins.open = vopen
    io.open = vopen
    codecs.open = vcodecs_open
    os.stat = vstat
    os.lstat = vlstat
    os.scandir = vscandir
    os.listdir = vlistdir
    _installed = True
