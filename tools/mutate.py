"""
Mutation experiment: small changes of the code that keep the stable tests passing, and which checks notice them.

    python3-vt tools/mutate.py SCRATCH_DIR SEED COUNT [file filter] [function filter]

Works on copies of /repo under SCRATCH_DIR; results are appended to SCRATCH_DIR/results.jsonl.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUTATE_REPO', '/repo')
FIRST = {
    'string_metrics': 'C17 C18 C19 C15', 'permutations': 'C11 C29 C13', 'ngram_suggest': 'C18 C15 C14', 'phonet_suggest': 'C19 C14', 'trie': 'C27 C01',
    'capitalization': 'C04 C05 C16 C25', 'suggest': 'C15 C16 C13 C29 C14 C18 C19 C12 C25', 'lookup': 'C02 C01 C03 C04 C06 C07 C08 C09 C10',
    'readers/aff': 'C21 C22', 'readers/dic': 'C20 C29 C22', 'file_reader': 'C23', 'data/aff': 'C28 C07 C01 C08 C19 C21', 'data/dic': 'C20 C03', 'dictionary': 'C23 C25',
}
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
NAMES = {'any': 'all', 'all': 'any', 'startswith': 'endswith', 'endswith': 'startswith', 'find': 'rfind', 'lower': 'upper', 'upper': 'lower', 'max': 'min', 'min': 'max',
         'append': 'remove', 'match': 'search', 'search': 'match', 'nlargest': 'nsmallest', 'intersection': 'union', 'replace': None}


class Mutator(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.starts = [0]
        for line in source.encode().splitlines(True):
            self.starts.append(self.starts[-1] + len(line))
        self.data = source.encode()
        self.names, self.out = [], []
        self.docs = set()
        tree = ast.parse(source)
        for node in ast.walk(tree):
            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) \
                    and isinstance(node.body[0].value, ast.Constant):
                self.docs.add(id(node.body[0]))
                self.docs.add(id(node.body[0].value))
        self.visit(tree)

    def span(self, node):
        return self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset

    def text(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()

    def add(self, node, new, what):
        a, b = self.span(node)
        if self.names:
            self.out.append(dict(a=a, b=b, new=new, what=what, function='.'.join(self.names), line=node.lineno))

    def visit_ClassDef(self, node):
        self.names.append(node.name)
        for x in node.body:
            self.visit(x)
        self.names.pop()

    def visit_FunctionDef(self, node):
        if node.name in ('__repr__', '__str__'):
            return
        self.names.append(node.name)
        for d in node.args.defaults + [k for k in node.args.kw_defaults if k]:
            self.visit(d)
        for x in node.body:
            self.visit(x)
        self.names.pop()

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Compare(self, node):
        if len(node.ops) == 1 and type(node.ops[0]) in COMPARE:
            self.add(node, f'{self.text(node.left)} {COMPARE[type(node.ops[0])]} {self.text(node.comparators[0])}', 'compare')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        op = ' and ' if isinstance(node.op, ast.And) else ' or '
        for i in range(len(node.values)):
            rest = [self.text(v) for j, v in enumerate(node.values) if j != i]
            self.add(node, '(' + op.join(f'({r})' for r in rest) + ')', 'drop operand')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, self.text(node.operand), 'drop not')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if id(node) in self.docs:
            return
        if node.value is True or node.value is False:
            self.add(node, str(not node.value), 'boolean')
        elif type(node.value) is int:
            self.add(node, str(node.value + 1), 'constant')
            if node.value:
                self.add(node, str(node.value - 1), 'constant')

    def visit_JoinedStr(self, node):
        return

    def visit_BinOp(self, node):
        swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}.get(type(node.op))
        if swap and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(node)):
            self.add(node, f'{self.text(node.left)} {swap} {self.text(node.right)}', 'arithmetic')
        if isinstance(node.op, (ast.Add, ast.Sub)):
            self.add(node, self.text(node.left), 'drop term')
            self.add(node, self.text(node.right), 'drop term')
        self.generic_visit(node)

    def visit_Slice(self, node):
        if node.lower is not None and node.upper is not None:
            self.add(node, self.text(node.lower) + ':', 'slice')
            self.add(node, ':' + self.text(node.upper), 'slice')
        self.generic_visit(node)

    def visit_Call(self, node):
        name = node.func.attr if isinstance(node.func, ast.Attribute) else node.func.id if isinstance(node.func, ast.Name) else ''
        new = NAMES.get(name)
        if new:
            prefix = self.text(node.func)
            self.add(node.func, prefix[:len(prefix) - len(name)] + new, 'name')
        for k in node.keywords:
            if k.arg:
                rest = [self.text(a) for a in node.args] + [f'{q.arg}={self.text(q.value)}' if q.arg else '**' + self.text(q.value) for q in node.keywords if q is not k]
                self.add(node, f'{self.text(node.func)}({", ".join(rest)})', 'drop keyword')
        if len(node.args) == 2 and not node.keywords and not any(isinstance(x, ast.Starred) for x in node.args):
            self.add(node, f'{self.text(node.func)}({self.text(node.args[1])}, {self.text(node.args[0])})', 'swap arguments')
        if len(node.args) > 1 and not node.keywords:
            self.add(node, f'{self.text(node.func)}({", ".join(self.text(a) for a in node.args[:-1])})', 'drop argument')
        if isinstance(node.func, ast.Attribute) and name in ('strip', 'lower', 'upper', 'replace', 'sort', 'sorted', 'translate', 'union', 'copy'):
            self.add(node, self.text(node.func.value), 'drop call')
        self.generic_visit(node)

    def visit_If(self, node):
        t = self.text(node.test)
        self.add(node.test, f'True or ({t})', 'always')
        self.add(node.test, f'False and ({t})', 'never')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, self.text(node.body), 'then')
        self.add(node, self.text(node.orelse), 'else')
        self.generic_visit(node)

    def statement(self, node):
        self.add(node, 'pass', 'drop statement')

    def visit_Continue(self, node):
        self.statement(node)

    visit_Break = visit_Continue

    def visit_AugAssign(self, node):
        self.statement(node)
        self.generic_visit(node)

    def visit_Expr(self, node):
        if id(node) not in self.docs:
            self.statement(node)
            self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is None:
            self.statement(node)
        self.generic_visit(node)

    def visit_Assign(self, node):
        if isinstance(node.value, ast.Call) and isinstance(node.targets[0], ast.Name) and re.search(r'\b' + re.escape(node.targets[0].id) + r'\b', self.text(node.value)):
            self.statement(node)
        self.generic_visit(node)

    def comprehension_if(self, node):
        for g in node.generators:
            for cond in g.ifs:
                self.add(cond, f'True or ({self.text(cond)})', 'drop filter')
        self.generic_visit(node)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comprehension_if

    def visit_List(self, node):
        if 1 < len(node.elts) < 8 and isinstance(node.ctx, ast.Load):
            for i in range(len(node.elts)):
                self.add(node, '[' + ', '.join(self.text(e) for j, e in enumerate(node.elts) if j != i) + ']', 'drop element')
        self.generic_visit(node)


def mutants(only_file='', only_function=''):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, 'spylls')):
        for f in sorted(files):
            path = os.path.join(root, f)
            if f.endswith('.py') and only_file in path:
                source = open(path, encoding='utf-8').read()
                seen = set()
                for m in Mutator(source).out:
                    data = source.encode()
                    text = (data[:m['a']] + m['new'].encode() + data[m['b']:]).decode()
                    if text in seen or only_function not in m['function']:
                        continue
                    seen.add(text)
                    try:
                        if ast.dump(ast.parse(text)) == ast.dump(ast.parse(source)):
                            continue
                    except SyntaxError:
                        continue
                    m['file'] = os.path.relpath(path, REPO)
                    m['old'] = data[m['a']:m['b']].decode()
                    out.append(m)
    return out


def checks_for(m):
    module = m['file'][:-3].replace('/', '.')
    key = next((v for k, v in FIRST.items() if m['file'].endswith(k + '.py')), '').split()
    times, hit = {}, []
    for f in sorted(os.listdir('/verif/evidence')):
        if re.fullmatch(r'C\d\d\.json', f):
            e = json.load(open('/verif/evidence/' + f, encoding='utf-8'))
            times[f[:3]] = e.get('wall_s', 99)
            names = e.get('coverage', {}).get('functions_encoded', [])
            if any(n.split(':')[0] == module and (n.split(':')[1] == m['function'] or n.split(':')[1].startswith(m['function'] + '.')) for n in names):
                hit.append(f[:3])
    return [c for c in key if c in hit] + sorted((c for c in hit if c not in key), key=lambda c: times[c])


def test(repo, scratch):
    script = open('/opt/vp/test.sh', encoding='utf-8').read().replace('. /opt/vp/env.sh', f'. /opt/vp/env.sh; export PYTHONPATH={repo}') \
        .replace('/opt/vp/reports', scratch + '/reports').replace('cd /repo', f'cd {repo}').replace('timeout 300', 'timeout 40')
    path = os.path.join(scratch, 't.sh')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(script)
    r = subprocess.run(['bash', path, scratch + '/o.json'], capture_output=True, text=True)
    return '135 passed, 8 failed' in r.stdout


def main():
    base, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    todo = mutants(*sys.argv[4:6])
    print(len(todo), 'mutants')
    random.Random(seed).shuffle(todo)
    results = os.path.join(base, 'results.jsonl')
    done = set()
    if os.path.exists(results):
        for line in open(results, encoding='utf-8'):
            r = json.loads(line)
            done.add((r['file'], r['line'], r['old'], r['new']))
    scratch = os.path.join(base, f'w{os.getpid()}')
    os.makedirs(scratch)
    repo = os.path.join(scratch, 'repo')
    shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    for m in todo[:count]:
        if (m['file'], m['line'], m['old'], m['new']) in done:
            continue
        path = os.path.join(repo, m['file'])
        original = open(os.path.join(REPO, m['file']), 'rb').read()
        with open(path, 'wb') as f:
            f.write(original[:m['a']] + m['new'].encode() + original[m['b']:])
        t0 = time.time()
        m['tests'] = test(repo, scratch)
        m['by'] = None
        if m['tests']:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=scratch, VERIF_TIME='200')
            m['errors'] = []
            m['ran'] = checks_for(m)
            for c in m['ran']:
                r = subprocess.run(['./check', c], cwd=VERIF, env=env, capture_output=True, text=True)
                if r.returncode == 1:
                    m['by'] = c
                    break
                if r.returncode:
                    m['errors'].append([c, (r.stdout + r.stderr)[-300:]])
            print('killed by ' + m['by'] if m['by'] else 'SURVIVED', m['file'], m['line'], m['function'], repr(m['old'][:80]), '->', repr(m['new'][:80]),
                  m['errors'], round(time.time() - t0), flush=True)
        m['time'] = time.time() - t0
        with open(results, 'a', encoding='utf-8') as f:
            f.write(json.dumps(m) + '\n')
        with open(path, 'wb') as f:
            f.write(original)
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
