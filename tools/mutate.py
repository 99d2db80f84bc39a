"""Mutation campaign: small changes of /repo's package, each judged by the checks that cover the file.
usage: mutate.py OUT.jsonl [--files substring] [--sample N] [--seed S] [--workers W]
Survivors are to be read by hand: equivalent, outside every property, or a blind spot."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import time

REPO = '/repo'
CHECKS = {
    'models/base.py': 'C01 C02 C03 C04 C05 C16 C18',
    'models/ecm/__init__.py': 'C09 C06 C07 C08 C05 C04',
    'models/ecm/utils.py': 'C10 C24 C08 C06 C05 C04', 'models/ecm/components.py': 'C10 C24 C08 C09 C04', 'models/ecm/transient.py': 'C24 C03 C02',
    'models/ecm/ins_outs.py': 'C09 C19 C03', 'models/ecm/advancedSOH.py': 'C24', 'models/utils.py': 'C18 C16 C17',
    'filters/base.py': 'C14 C16 C12', 'filters/conversions.py': 'C11 C16', 'filters/distributions.py': 'C12 C14 C20',
    'kalman/unscented.py': 'C13 C14 C15', 'kalman/utils.py': 'C15 C13', 'online/joint.py': 'C16 C02', 'online/dual.py': 'C17 C02',
    'online/__init__.py': 'C16 C17 C02', 'online/utils/model.py': 'C16 C17 C14', 'simulator.py': 'C18 C04', 'offline/loss.py': 'C21',
    'offline/scipy.py': 'C22', 'interface/__init__.py': 'C19', 'interface/hdf5.py': 'C20 C19', 'extractors/': 'C23', 'models/thevenin/': 'C25 C02',
}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.Mod: '*', ast.FloorDiv: '*'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
CALLS = {'concatenate': None, 'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any', 'hstack': 'vstack', 'zeros': 'ones', 'ones': 'zeros',
         'repeat': 'tile', 'abs': 'square', 'exp': 'log', 'maximum': 'minimum', 'where': None}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        self.lines = [0]
        for li in src.split('\n'):
            self.lines.append(self.lines[-1] + len(li.encode()) + 1)
        self.b = src.encode()

    def at(self, n, end=False):
        return self.lines[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(self, n):
        return self.b[self.at(n):self.at(n, True)].decode()

    def put(self, n, new, what):
        if new != self.seg(n):
            self.out.append((self.at(n), self.at(n, True), new, what, '.'.join(self.stack), n.lineno))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        for s in n.body[1:] if ast.get_docstring(n) else n.body:
            self.visit(s)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if self.stack:
            self.put(n, 'pass', 'statement removed')
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, 'pass', 'refusal removed')

    def visit_Assign(self, n):
        if len(self.stack) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, 'pass', 'assignment removed')
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'assignment removed')
        self.visit(n.value)

    def visit_If(self, n):
        self.put(n.test, f'not ({self.seg(n.test)})', 'condition negated')
        self.put(n.test, 'False', 'condition false')
        self.put(n.test, 'True', 'condition true')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f'({self.seg(n.body)})', 'first branch')
        self.put(n, f'({self.seg(n.orelse)})', 'second branch')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for v in n.values:
            self.put(n, f'({self.seg(v)})', 'operand only')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, f'({self.seg(n.operand)})', 'sign or negation removed')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        op = SWAP.get(type(n.op))
        if op:
            self.put(n, f'({self.seg(n.left)}) {op} ({self.seg(n.right)})', 'operator')
            self.put(n, f'({self.seg(n.left)})', 'left operand')
            self.put(n, f'({self.seg(n.right)})', 'right operand')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for c in CMP.get(type(n.ops[0]), []):
                self.put(n, f'({self.seg(n.left)}) {c} ({self.seg(n.comparators[0])})', 'comparison')
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        pass

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), 'constant')
        elif isinstance(n.value, (int, float)):
            for d in ('+ 1', '- 1', '* 1.01'):
                self.put(n, f'({self.seg(n)} {d})', 'constant')

    def visit_Slice(self, n):
        for k in ('lower', 'upper'):
            v = getattr(n, k)
            if v is not None:
                self.put(v, f'({self.seg(v)}) + 1', 'slice')
                self.put(v, '', 'slice')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if name in ('model_copy', 'copy', 'flatten', 'get_mean') and isinstance(f, ast.Attribute):
            self.put(n, self.seg(f.value), 'copy removed')
        if CALLS.get(name):
            self.put(f, self.seg(f)[:-len(name)] + CALLS[name], 'function')
        if len(n.args) == 2 and name not in ('isinstance', 'getattr', 'Field'):
            self.b_args(n)
        for k in n.keywords:
            if k.arg and name != 'Field':
                a, b = self.lines[k.lineno - 1] + k.col_offset, self.at(k, True)
                while self.b[b:b + 1] in (b',', b' ') and self.b[b:b + 1]:
                    b += 1
                self.out.append((a, b, '', f'argument {k.arg} removed', '.'.join(self.stack), k.lineno))
        if name == 'Field':
            return
        self.generic_visit(n)

    def b_args(self, n):
        a, b = n.args
        self.out.append((self.at(a), self.at(b, True), f'{self.seg(b)}, {self.seg(a)}', 'arguments swapped', '.'.join(self.stack), n.lineno))

    def visit_Return(self, n):
        self.generic_visit(n)


def mutants(path):
    src = open(path, newline='').read().replace('\r\n', '\n')
    f = Finder(src)
    f.visit(ast.parse(src))
    for a, b, new, what, where, line in f.out:
        text = (f.b[:a] + new.encode() + f.b[b:]).decode()
        try:
            compile(text, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        yield dict(what=what, where=where, line=line, old=f.b[a:b].decode(), new=new), text


def run(args):
    m, text, slot_dir = args
    slot = slot_dir.pop()
    try:
        repo, ver = f'{slot}/repo', f'{slot}/verif'
        target = f'{repo}/{m["file"]}'
        keep = open(target).read()
        open(target, 'w').write(text)
        env = dict(os.environ, PYTHONPATH=f'{repo}:{ver}', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', VC_SERIAL='stop')
        m['checks'] = {}
        t0 = time.time()
        for c in m['by']:
            try:
                p = subprocess.run(['/opt/venv/bin/python', '-m', 'vc', c], cwd=ver, env=env, capture_output=True, text=True, timeout=700)
            except subprocess.TimeoutExpired:
                m['checks'][c] = 'timeout'
                continue
            v = [x for x in p.stdout.split('\n') if x.startswith('VIOLATION')]
            head = p.stdout.split('\n')[0][:200]
            m['checks'][c] = ('caught' + (' (no input)' if 'no-failing' in v[0] else '')) if v else f'{p.returncode} {head} {p.stderr[-200:] if p.returncode else ""}'
            if v:
                break
        m['s'] = round(time.time() - t0, 1)
        open(target, 'w').write(keep)
    finally:
        slot_dir.append(slot)
    return m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=7)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    todo = []
    for d, _, fs in os.walk(REPO + '/moirae'):
        for fn in fs:
            rel = os.path.relpath(os.path.join(d, fn), REPO)
            by = [v for k, v in CHECKS.items() if k in rel]
            if fn.endswith('.py') and by and a.files in rel:
                if 'thevenin' in rel:
                    by = [CHECKS['models/thevenin/']]
                for m, text in mutants(os.path.join(d, fn)):
                    todo.append((dict(file=rel, by=by[0].split(), **m), text))
    random.Random(a.seed).shuffle(todo)
    print(len(todo), 'mutants')
    if a.list:
        return
    if a.sample:
        todo = todo[:a.sample]
    slots = []
    for w in range(a.workers):
        s = f'/tmp/mutants.{os.getpid()}.{w}'
        os.makedirs(s + '/repo')
        shutil.copytree(REPO + '/moirae', s + '/repo/moirae')
        os.makedirs(s + '/verif')
        for x in ('vc', 'props', 'known_findings.txt'):
            (shutil.copytree if os.path.isdir('/verif/' + x) else shutil.copy)('/verif/' + x, f'{s}/verif/{x}')
        slots.append(s)
    names = list(slots)
    n = {}
    with open(a.out, 'a') as f, cf.ThreadPoolExecutor(a.workers) as ex:
        for m in ex.map(run, [(m, t, slots) for m, t in todo]):
            k = 'caught' if any(str(v).startswith('caught') for v in m['checks'].values()) else 'survived'
            m['verdict'] = k
            n[k] = n.get(k, 0) + 1
            f.write(json.dumps(m) + '\n')
            f.flush()
    for s in names:
        shutil.rmtree(s)
    print(n)


main()
