"""
Runs harnesses concretely against the unmodified spylls: one JSON request per input line, one JSON
answer per output line. Started by the runner with /repo on the import path; also the replay tool:

    /opt/venv/bin/python -m sx.concrete REPLAY.json
"""

import importlib
import json
import os
import signal
import sys


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


def run(req):
    from sx.ctx import ConcreteCtx, CheckFailed, AssumptionFailed
    mod = importlib.import_module('checks.' + req['module'])
    fn = getattr(mod, req['harness'])
    ctx = ConcreteCtx(req['assign'])
    res = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(req.get('timeout', 20)))
    try:
        fn(ctx, **req['params'])
        res['outcome'] = 'holds'
    except CheckFailed as e:
        res['outcome'], res['label'] = 'fails', e.label
    except AssumptionFailed:
        res['outcome'] = 'outside'
    except Timeout:
        res['outcome'], res['label'] = 'timeout', 'no answer within the time limit'
    except Exception as e:                                      # raised by the code under test
        res['outcome'], res['label'] = 'raises', f'{type(e).__name__}: {e}'
    finally:
        signal.alarm(0)
        ctx.close()
    res['observed'] = ctx.observed
    res['inputs'] = ctx.inputs
    res['missing'] = ctx.missing
    if hasattr(ctx, 'last'):
        res['aff'], res['dic'] = ctx.last
    return res


def main():
    repo = os.environ.get('VERIF_REPO', '/repo')
    if repo not in sys.path:
        sys.path.insert(0, repo)
    if len(sys.argv) > 1:
        with open(sys.argv[1], encoding='utf-8') as f:
            req = json.load(f)
        res = run(req)
        print(json.dumps(res, ensure_ascii=False, indent=1))
        sys.exit(0 if res['outcome'] in ('holds', 'outside') else 1)
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        res = run(req)
        res['id'] = req.get('id')
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
