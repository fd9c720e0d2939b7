"""
Runs one check: explores every task of the property symbolically on all cores, replays
counterexamples and sampled paths on the unmodified code, writes the evidence file and reports.

    python3-vt -m sx.runner C01
"""

import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4

W = {}      # worker state


# ------------------------------------------------------------------------------ worker side

def worker_init(module):
    sys.setrecursionlimit(12000)
    threading.stack_size(512 * 1024 * 1024)
    W['module'] = module
    W['exec'] = None


def _in_thread(fn, *a):
    """Run in a thread with a large stack (instrumented code nests deeper)."""
    box = {}

    def go():
        try:
            box['r'] = fn(*a)
        except BaseException as e:          # noqa: B902 - handed to the caller
            box['e'] = e
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box['r']


def worker_setup():
    from sx import core, instr, vfs, rt
    if 'eng' not in W:
        vfs.install()
        instr.load()
        mod = importlib.import_module('checks.' + W['module'])
        eng = core.Engine(step_limit=getattr(mod, 'STEP_LIMIT', 300_000),
                          max_split=getattr(mod, 'MAX_SPLIT', 80))
        eng.reached = set()
        eng.tmpdirs = []
        W['eng'], W['mod'] = eng, mod


def explore(item):
    worker_setup()
    return _in_thread(_explore, item)


def _explore(item):
    from sx import core, instr, vfs, rt
    from sx.ctx import SymCtx, Violation
    eng, mod = W['eng'], W['mod']
    fn = getattr(mod, item['harness'])
    stack = list(item['prefixes'])
    t0 = time.perf_counter()
    q0, zt0, d0, f0 = eng.zb.queries, eng.zb.time, eng.decisions, eng.forced
    res = dict(task=item['task'], split=item.get('split', False), paths=0, infeasible=0, checks=0, solver_checks=0, violations=[],
               inconclusive=[], traces=[])
    rt.ENTERED.clear()
    while stack:
        prefix = stack.pop()
        eng.reset(prefix)
        instr.restore()
        vfs.clear()
        core.ENG = eng
        ctx = SymCtx(eng, item.get('split', False))
        status = 'done'
        try:
            fn(ctx, **item['params'])
        except core.Infeasible:
            status = 'infeasible'
        except Violation as v:
            status = 'violation'
            res['violations'].append(dict(label=v.label, assign=v.asg))
        except core.StepLimit:
            status = 'steps'
            asg = eng.find(True)
            if asg is not None:
                res['violations'].append(dict(label='no answer within the step limit', assign=eng.assignment(asg)))
        except core.Unsupported as e:
            status = 'unsupported'
            res['inconclusive'].append(str(e))
        except (Exception, RecursionError) as e:
            status = 'raised'
            import traceback
            asg = eng.find(True)
            if asg is not None:
                tb = traceback.extract_tb(e.__traceback__)
                where = ' < '.join(f'{os.path.basename(x.filename)}:{x.lineno}' for x in tb[-4:][::-1])
                res['violations'].append(dict(label=f'raises {type(e).__name__}: {e} at {where}',
                                              assign=eng.assignment(asg)))
        finally:
            core.ENG = None
        for d in eng.tmpdirs:
            shutil.rmtree(d, ignore_errors=True)
        eng.tmpdirs.clear()
        if status == 'infeasible':
            res['infeasible'] += 1
        else:
            res['paths'] += 1
        res['checks'] += ctx.checks
        res['solver_checks'] += ctx.solver_checks
        if status == 'done' and len(res['traces']) < item['validate']:
            core.ENG = eng
            asg = eng.find(True)
            core.ENG = None
            if asg is None:
                res['infeasible'] += 1
            else:
                full = dict(asg)
                from sx.ctx import plain
                obs = [(n, plain(core.evaluate(v, full))) for n, v in ctx.observed]
                res['traces'].append(dict(assign=eng.assignment(asg), observed=obs))
        stack.extend(eng.pending)
        if res['violations'] or res['inconclusive']:
            break
        if time.perf_counter() - t0 > item['slice']:
            break
    res['pending'] = stack
    res['queries'] = eng.zb.queries - q0
    res['solver_time'] = eng.zb.time - zt0
    res['decisions'] = eng.decisions - d0
    res['forced'] = eng.forced - f0
    res['time'] = time.perf_counter() - t0
    res['functions'] = sorted(rt.ENTERED)
    res['reached'] = sorted(eng.reached)
    return res


# ------------------------------------------------------------------------------ parent side

class Concrete:
    """A process running harnesses on the unmodified code."""

    def __init__(self):
        env = dict(os.environ, PYTHONPATH=f'{VERIF}:{REPO}', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   VERIF_REPO=REPO)
        self.p = subprocess.Popen([REAL_PYTHON, '-m', 'sx.concrete'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=VERIF, env=env, text=True, encoding='utf-8')

    def ask(self, req):
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('concrete process died')
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def run_check(prop, tier, seed):
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    modname = prop.lower()
    tasks = mod.tasks(tier)
    limit = float(os.environ.get('VERIF_TIME', getattr(mod, 'TIME', {}).get(tier, 600 if tier == 'quick' else 5400)))
    deadline = t0 + limit
    total = dict(paths=0, infeasible=0, checks=0, solver_checks=0, queries=0, solver_time=0.0, decisions=0, forced=0)
    per_task = [dict(paths=0, queries=0, time=0.0, validated=0) for _ in tasks]
    functions, reached = set(), set()
    inconclusive, samples = [], []
    confirmed, unconfirmed, split = [], [], {}
    validated, mismatches = 0, []
    todo = []
    want = max(2, min(12, 160 // max(1, len(tasks))))
    for i, (harness, params) in enumerate(tasks):
        todo.append(dict(task=i, harness=harness, params=params, prefixes=[([], {})], slice=1.5, validate=want))
    todo.reverse()

    validation = queue.Queue()
    val_out = []

    def validator():
        conc = None
        while True:
            job = validation.get()
            if job is None:
                break
            if conc is None:
                conc = Concrete()
            ti, tr = job
            harness, params = tasks[ti]
            try:
                r = conc.ask(dict(module=modname, harness=harness, params=params, assign=tr['assign']))
            except Exception as e:          # noqa: B902
                r = dict(outcome='error', label=repr(e))
                conc = None
            val_out.append((ti, tr, r))
        if conc:
            conc.close()

    ctx = mp.get_context('fork')
    vthreads = [threading.Thread(target=validator, daemon=True) for _ in range(2)]
    complete = True
    with cf.ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=worker_init, initargs=(modname,)) as pool:
        # fork the workers before starting threads
        list(pool.map(_noop, range(JOBS)))
        for t in vthreads:
            t.start()
        running = set()
        stop = False
        replayer = None

        def fallback(ti, reason):
            """The task is done again with every input case-split, because an operation could not be followed symbolically."""
            nonlocal todo, stop
            if ti in split:
                return False
            split[ti] = reason
            todo = [x for x in todo if x['task'] != ti]
            harness, params = tasks[ti]
            todo.insert(0, dict(task=ti, harness=harness, params=params, prefixes=[([], {})], slice=1.5, validate=want, split=True))
            return True
        while (todo and not stop) or running:
            while todo and not stop and len(running) < JOBS * 2:
                running.add(pool.submit(explore, todo.pop()))
            if not running:
                break
            done, running = cf.wait(running, return_when=cf.FIRST_COMPLETED, timeout=5)
            for fut in done:
                r = fut.result()
                ti = r['task']
                if ti in split and not r['split']:
                    continue
                for k in total:
                    total[k] += r[k]
                pt = per_task[ti]
                pt['paths'] += r['paths']
                pt['queries'] += r['queries']
                pt['time'] += r['time']
                functions.update(r['functions'])
                reached.update(r['reached'])
                for v in r['violations']:
                    # replay the counterexample on the real code
                    harness, params = tasks[ti]
                    req = dict(module=modname, harness=harness, params=params, assign=v['assign'], timeout=20)
                    replayer = replayer or Concrete()
                    answer = replayer.ask(req)
                    if answer['outcome'] in ('fails', 'raises', 'timeout'):
                        confirmed.append((ti, v, req, answer))
                        stop = True
                    elif not fallback(ti, 'counterexample not reproduced: ' + v['label']):
                        unconfirmed.append((ti, v, req, answer))
                        stop = True
                for x in r['inconclusive']:
                    if not fallback(ti, x):
                        inconclusive.append((ti, x))
                        stop = True
                for tr in r['traces']:
                    if pt['validated'] < want:
                        pt['validated'] += 1
                        validation.put((ti, tr))
                if r['pending'] and r['split'] == (ti in split):
                    harness, params = tasks[ti]
                    pend = r['pending']
                    k = min(len(pend), 4)
                    for j in range(k):
                        todo.append(dict(task=ti, harness=harness, params=params, prefixes=pend[j::k],
                                         slice=3.0, validate=max(0, min(2, want - pt['validated'])), split=ti in split))
            if time.time() > deadline and not stop:
                stop = True
                complete = False
            if time.time() > deadline + 60:
                # a path that does not return to the explorer
                complete = False
                for p in list(pool._processes.values()):
                    p.kill()
                break
        if todo:
            complete = False
    if replayer:
        replayer.close()
    for t in vthreads:
        validation.put(None)
    for t in vthreads:
        t.join()

    for ti, tr, r in val_out:
        if r['outcome'] == 'holds' and not r.get('missing') and \
                json.loads(json.dumps(tr['observed'])) == json.loads(json.dumps(r['observed'])):
            validated += 1
            if len(samples) < 6 and (not samples or samples[-1]['task'] != ti):
                samples.append(dict(task=ti, harness=tasks[ti][0], params=tasks[ti][1], inputs=r['inputs'],
                                    observed=r['observed'][:6]))
        else:
            mismatches.append(dict(task=ti, harness=tasks[ti][0], params=tasks[ti][1], assign=tr['assign'],
                                   symbolic=tr['observed'], concrete=r))

    # a validated path on which the real code itself fails is a counterexample as well
    for m in mismatches:
        if m['concrete']['outcome'] in ('fails', 'raises', 'timeout'):
            req = dict(module=modname, harness=m['harness'], params=m['params'], assign=m['assign'], timeout=20)
            confirmed.append((m['task'], dict(label='sampled path', assign=m['assign']), req, m['concrete']))

    missing_reach = sorted(set(getattr(mod, 'REACH', [])) - reached) if complete else []
    wall = time.time() - t0
    nviol = len(confirmed)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=total['decisions'] + total['forced'] + total['paths'],
            transitions=total['decisions'] * 2 + total['forced'],
            traces_validated_against_impl=validated,
            samples=samples,
            paths=total['paths'], infeasible_paths=total['infeasible'],
            assertions=total['checks'], assertions_decided_by_solver=total['solver_checks'],
            solver='z3', queries_discharged=total['queries'], solver_time_s=round(total['solver_time'], 2),
            functions_encoded=sorted(functions), witnesses_reached=sorted(reached),
            bounds=getattr(mod, 'BOUNDS', {}).get(tier) or getattr(mod, 'BOUNDS', {}).get('quick', ''),
            outside=getattr(mod, 'OUTSIDE', ''),
            tasks=[dict(harness=h, params=p, **{k: (round(v, 2) if isinstance(v, float) else v) for k, v in pt.items()})
                   for (h, p), pt in zip(tasks, per_task)],
            inconclusive=[f'{tasks[t][0]}: {x}' for t, x in inconclusive][:10],
            tasks_case_split={f'{tasks[t][0]} {tasks[t][1]}': x for t, x in list(split.items())[:20]},
            exhaustive=complete and not inconclusive and not confirmed and not unconfirmed,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'z3 and the symbolic runtime in /verif/sx are trusted; sampled paths are replayed on the real code',
            'file decoding is done by Python; symbolic file contents enter already decoded'],
        wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)

    print(f'{prop} [{tier}]: {total["paths"]} paths, {total["queries"]} solver queries '
          f'({total["solver_time"]:.1f} s), {validated} traces validated, {wall:.1f} s wall, exhaustive={evidence["coverage"]["exhaustive"]}')
    if confirmed:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for n, (ti, v, req, r) in enumerate(confirmed[:3]):
            path = os.path.join(rdir, f'{prop}-{n}.json')
            req = dict(req, result=r, label=v['label'],
                       how=f'cd {VERIF} && PYTHONPATH={VERIF}:{REPO} {REAL_PYTHON} -m sx.concrete {path}')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(req, f, ensure_ascii=False, indent=1)
            print(f'  {tasks[ti][0]} {json.dumps(tasks[ti][1], ensure_ascii=False)}: {v["label"]}; on the real code: '
                  f'{r["outcome"]} {r.get("label", "")}; inputs {json.dumps(r["inputs"], ensure_ascii=False)[:600]}')
            if os.environ.get('VERIF_SHOW'):
                print('   aff:', r.get('aff'), '\n   dic:', r.get('dic'), '\n   observed:', r.get('observed'))
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if unconfirmed:
        for ti, v, req, r in unconfirmed[:3]:
            print(f'ERROR: counterexample not reproduced: {tasks[ti][0]} {tasks[ti][1]} {v["label"]} {v["assign"]} -> {r}')
        return 3
    if mismatches:
        print('ERROR: symbolic execution disagrees with the real code:', json.dumps(mismatches[0], ensure_ascii=False)[:2000])
        return 3
    if inconclusive:
        print('ERROR: inconclusive:', inconclusive[:3])
        return 3
    if total['paths'] == 0 or missing_reach:
        print('ERROR: vacuous: paths', total['paths'], 'witnesses not reached', missing_reach)
        return 3
    if split:
        print(f'NOTE: {len(split)} of {len(tasks)} tasks case-split every input, because of', next(iter(split.values())))
    if not complete:
        print('NOTE: time budget used up before all paths were explored; the property held on the explored paths')
    return 0


def _noop(i):
    time.sleep(0.05)
    return i


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.dont_write_bytecode = True
    try:
        code = run_check(prop, tier, seed)
    except Exception:           # noqa: B902 - no verdict
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)


if __name__ == '__main__':
    main()
