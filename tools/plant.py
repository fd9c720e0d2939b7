"""Plants bugs: reads a Python file with BUGS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], aff, dic, body)}
and writes seeded/<id>/ for every bug confirmed in a scratch copy (tests pass, demo passes without and fails with the change).

    python3-vt tools/plant.py bugs.py [id...]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SH = '#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRE = '''import os
import tempfile

from spylls.hunspell import Dictionary


def dictionary(aff, dic):
    """Loads dictionary from two texts, with temporary files."""
    with tempfile.TemporaryDirectory() as folder:
        for ext, text in (('aff', aff), ('dic', dic)):
            with open(os.path.join(folder, 'demo.' + ext), 'w', encoding='utf-8') as file:
                file.write(text)
        return Dictionary.from_files(os.path.join(folder, 'demo'))


'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def tests(repo, tmp):
    script = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', f'. /opt/vp/env.sh; export PYTHONPATH={repo}')
    script = script.replace('/opt/vp/reports', tmp + '/reports').replace('cd /repo', f'cd {repo}')
    open(tmp + '/test.sh', 'w').write(script)
    run(f'bash {tmp}/test.sh {tmp}/tests.json', repo)
    return set(json.load(open(tmp + '/tests.json'))['passed'])


def main():
    base = None
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for name in sys.argv[2:] or bugs:
        b = bugs[name]
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree(REPO, repo, symlinks=True)
            demo = os.path.join(tmp, 'demo')
            os.mkdir(demo)
            open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
            open(os.path.join(demo, 'demo.py'), 'w', encoding='utf-8').write(PRE + b['body'].strip('\n') + '\n')
            ok = run(f'sh {demo}/demo.sh', repo)
            if ok.returncode:
                print(name, 'DEMO FAILS ON UNCHANGED TREE', ok.stdout, ok.stderr)
                continue
            base = base or tests(repo, tmp)
            for file, old, new in b['edits']:
                path = os.path.join(repo, 'spylls/hunspell', file)
                text = open(path, encoding='utf-8').read()
                if text.count(old) != 1:
                    print(f'{name}: {text.count(old)} occurrences of {old!r} in {file}')
                    continue
                open(path, 'w', encoding='utf-8').write(text.replace(old, new))
            bad = run(f'sh {demo}/demo.sh', repo)
            if not bad.returncode:
                print(name, 'DEMO PASSES WITH THE BUG')
                continue
            lost = base - tests(repo, tmp)
            if lost:
                print(name, 'BREAKS TESTS', sorted(lost))
                continue
            diff = run('git diff', repo).stdout
            first = run('git rev-list --max-parents=0 HEAD', repo).stdout.strip()
            for line in diff.splitlines():
                if line.startswith('-') and not line.startswith('---'):
                    if not any(line[1:] in run(f'git show {first}:spylls/hunspell/{file}', repo).stdout.splitlines() for file, _, _ in b['edits']):
                        print(name, 'CHANGES A LINE THAT IS NOT IN THE ORIGINAL', line)
            out = os.path.join(VERIF, 'seeded', name)
            os.makedirs(out, exist_ok=True)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(demo, f), out)
            open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8').write(diff)
            json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8'),
                      ensure_ascii=False, indent=1)
            print(name, 'planted;', (bad.stderr.strip().splitlines() or [''])[-1][:100])
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    main()
