"""Debugging aid: run one harness symbolically with all inputs pinned to given values.

    python3-vt tools/debug_path.py c03 plain '{"n": 1, "fam": 0}' '{"w[0]": 2}'
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(12000)
import importlib
from sx import core, instr, vfs
from sx.ctx import SymCtx

vfs.install()
instr.load()
mod = importlib.import_module('checks.' + sys.argv[1])
eng = core.Engine()
eng.reached, eng.tmpdirs = set(), []
params, pins = json.loads(sys.argv[3]), json.loads(sys.argv[4])
orig = eng.var


def var(name, dom):
    v = orig(name, dom)
    if name in pins:
        eng.assume(core.U(v, 1 << pins[name]))
    return v


eng.var = var
stack = [([], {})]
while stack:
    eng.reset(stack.pop())
    instr.restore()
    vfs.clear()
    core.ENG = eng
    ctx = SymCtx(eng)
    ctx.observe = lambda n, v: print('observe', n, v)
    try:
        getattr(mod, sys.argv[2])(ctx, **params)
        print('ok')
    except core.Infeasible:
        print('infeasible')
        continue
    except Exception as e:
        print(type(e).__name__, e, getattr(e, 'asg', ''))
        if os.environ.get('TB'):
            raise
    finally:
        stack.extend(eng.pending)
    print({v.name: [v.dom[i] for i in range(v.n) if eng.dom.get(v, v.full) >> i & 1] for v in eng.used.values()}, eng.cons)
    core.ENG = None
