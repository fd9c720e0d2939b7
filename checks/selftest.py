"""Compares the symbolic execution with Python itself (VERIF_REPO=tools/selftest ./check selftest); decides no property."""

import importlib.util
import os

from sx import core

REACH = ['equal']
BOUNDS = {'quick': 'two texts of up to 3 characters of six'}
OUTSIDE = ''
ASSUMPTIONS = []
ALPHABET = 'abA é'
MAX_SPLIT = 400


def plain():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools/selftest/spylls/ops.py')
    spec = importlib.util.spec_from_file_location('plain_ops', path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def tasks(tier):
    only = os.environ.get('VERIF_ONLY')
    return [('run', dict(op=f.__name__, n=n, k=k)) for f in plain().OPS for n in range(3) for k in range(3) if not only or f.__name__ in only.split(',')]


_plain = None


def outcome(f, s, t):
    try:
        return ('value', f(s, t))
    except core.SxStop:
        raise
    except Exception as e:      # noqa: B902
        return ('raises', type(e).__name__, str(e)[:200])


def fixed(x):
    """Everything decided: a symbolic value on the path of one input."""
    x = core.deep_realize(x)
    if isinstance(x, (list, tuple)):
        return [fixed(i) for i in x]
    if isinstance(x, dict):
        return {k: fixed(v) for k, v in x.items()}
    if isinstance(x, core.F):
        return bool(x)
    return x


def run(ctx, op, n, k):
    global _plain
    from spylls import ops
    _plain = _plain or plain()
    s, t = ctx.word('s', n, ALPHABET), ctx.word('t', k, ALPHABET)
    got = outcome(getattr(ops, op), s, t)
    s, t = ctx.realize(s), ctx.realize(t)
    want = outcome(getattr(_plain, op), s, t)
    got, want = fixed(got), fixed(want)
    ctx.check(got == want, f'{op}({s!r}, {t!r}) = {got!r}, not {want!r}')
    ctx.reach('equal')
