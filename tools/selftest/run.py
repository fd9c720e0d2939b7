"""
Compares symbolic execution with Python itself on the operations of spylls/ops.py beside this file:
    python3-vt tools/selftest/run.py [operation...]
"""
import multiprocessing
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = HERE
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sx import runner                   # noqa: E402
from checks import selftest             # noqa: E402


def one(name):
    runner.W['module'] = 'selftest'
    bad = []
    paths = 0
    for n in range(3):
        for k in range(3):
            r = runner.explore(dict(task=0, harness='run', params=dict(op=name, n=n, k=k), prefixes=[([], {})], slice=60, validate=0))
            paths += r['paths']
            bad += [v['label'] for v in r['violations']] + r['inconclusive']
            if r['pending'] and not bad:
                bad.append('not finished')
    return name, paths, bad


def main():
    names = sys.argv[1:] or [f.__name__ for f in selftest.plain().OPS]
    with multiprocessing.Pool(int(os.environ.get('VERIF_JOBS', 4)), maxtasksperchild=1) as pool:
        results = list(pool.imap(one, names, chunksize=1))
    for name, paths, bad in results:
        if bad:
            print(name, paths, 'BAD', bad[0])
    print(len(results), 'operations,', sum(p for _, p, _ in results), 'paths,', sum(bool(b) for _, _, b in results), 'differ')
    sys.exit(any(b for _, _, b in results))


if __name__ == '__main__':
    main()
