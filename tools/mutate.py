"""Mutation testing of the checks (development tool; not used by any check).

mutate.py list                       counts the mutants
mutate.py run OUT.jsonl K N SEED [FILE...]   worker K of N: tries a random order of mutants in scratch copies under /tmp/mut
"""
import ast, json, os, random, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'operatorstring': 'C01 C31 C02 C05', 'basis': 'C05 C04 C30 C10 C11 C09 C31 C02', 'algebra': 'C03 C06 C07 C31 C29 C02',
    'conversion': 'C08 C22 C31 C09', 'lattice': 'C12 C13 C15 C28 C31 C11', 'transformation': 'C14 C15 C16 C31',
    'core': 'C17 C18 C19 C29 C31', 'symmetrization': 'C20 C28 C31', 'diagonalization': 'C21 C22 C23 C24 C31',
    'tools': 'C26 C25 C03 C20 C18', 'algorithms': 'C27', 'visualization': 'C30 C32', 'config': 'C01 C02 C03 C04 C10'}
SKIPF = {'_ladder_operators_original', 'plot', '_killing_form', '_generate_center'}
SKIPP = ('plot', '_plot')


FUNCS = [('core', 'commuting', 'C17'), ('core', 'invariant', 'C18 C31'), ('core', 'Symmetric', 'C19 C31'), ('core', 'ladder', 'C29'), ('core', '_eigsh', 'C17 C18 C19'),
         ('diagonalization', '_apply_opstring', 'C21 C22'), ('diagonalization', '_to_matrix', 'C21 C31'), ('diagonalization', 'to_', 'C21 C31'),
         ('diagonalization', 'apply_tr', 'C24 C31'), ('diagonalization', '_reshape', 'C24'), ('diagonalization', 'reduced', 'C24 C31'), ('diagonalization', 'renyi', 'C24'),
         ('diagonalization', 'diagonalize_', 'C23 C31'), ('diagonalization', 'diagonalize', 'C22'),
         ('tools', 'gram', 'C25 C07'), ('tools', 'inters', 'C25 C19'), ('tools', 'spars', 'C25 C19'), ('tools', 'sort_sign', 'C26 C03'), ('tools', '', 'C26'),
         ('basis', 'Basis', 'C05 C31 C30'), ('basis', 'Operator', 'C04 C30 C31 C02'), ('basis', 'cluster', 'C10 C31 C09'), ('basis', 'distance', 'C11 C31'),
         ('transformation', 'symmetry_matrix', 'C16 C31'), ('transformation', '_symmetry', 'C16 C31'), ('transformation', '', 'C14 C15 C31'),
         ('symmetrization', 'symmetrize_basis', 'C20'), ('symmetrization', '_symmetrize_opstring', 'C20'), ('symmetrization', '', 'C28'),
         ('lattice', 'Lattice.distance', 'C13 C31'), ('lattice', '', 'C12 C13 C15 C31 C28'), ('conversion', 'conversion_matrix', 'C09 C31'), ('conversion', '', 'C08 C31'),
         ('algebra', '_operation', 'C03 C31 C02'), ('algebra', 'structure', 'C06 C31'), ('algebra', 'generate', 'C07 C31'), ('algebra', 'commutant', 'C06 C31'),
         ('algebra', 'liouv', 'C06 C31'), ('algebra', '_liouv', 'C06 C31'), ('algebra', '', 'C03 C31')]


def checks_for(m):
    for mod, pre, cs in FUNCS:
        if m['mod'] == mod and (m['func'].startswith(pre) or ('ladder' == pre and pre in m['func'])):
            return cs.split()
    return CHECKS[m['mod']].split()


class Gen(ast.NodeVisitor):
    def __init__(self, src, mod):
        self.src, self.mod, self.out, self.stack = src, mod, [], []
        self.lines = src.split('\n')
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        old = self.b[a:b].decode()
        if old != new and 'verbose' not in old and old not in ('1.0', '-1.0', 'coeff *= -1.0', 'coeffB *= -1.0', 'sign *= -1.0') and 'rand()' not in old:
            self.out.append(dict(mod=self.mod, func='.'.join(self.stack), line=n.lineno, kind=kind, a=a, b=b, old=old, new=new))

    def visit_FunctionDef(self, n):
        if n.name in SKIPF or n.name.startswith(SKIPP) or n.name in ('__repr__',):
            return
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_Raise(self, n):
        return

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print' and self.mod != 'visualization':
            return
        if self.stack:
            self.add(n, 'pass', 'del')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if self.stack:
            self.add(n, 'pass', 'del')
            op = {ast.Add: '-=', ast.Sub: '+=', ast.Mult: '/=', ast.Div: '*='}.get(type(n.op))
            if op:
                self.add(n, self.text(n.target) + ' ' + op + ' ' + self.text(n.value), 'aug')
        self.generic_visit(n)

    def visit_If(self, n):
        if self.stack:
            self.add(n.test, 'True', 'cond')
            self.add(n.test, 'False', 'cond')
            self.add(n.test, '(not (' + self.text(n.test) + '))', 'cond')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, 'True', 'cond')
        self.add(n.test, 'False', 'cond')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.add(n, 'break', 'flow')

    def visit_Break(self, n):
        self.add(n, 'continue' if 0 else 'pass', 'flow')

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            alts = {ast.Lt: ['<=', '>='], ast.LtE: ['<'], ast.Gt: ['>=', '<='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
                    ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}.get(type(n.ops[0]), [])
            for o in alts:
                self.add(n, '(' + self.text(n.left) + ' ' + o + ' ' + self.text(n.comparators[0]) + ')', 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if isinstance(n.values[0], ast.AST):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.add(n, '(' + o.join('(' + self.text(v) + ')' for v in n.values) + ')', 'bool')
            if len(n.values) > 2:
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                for i in range(len(n.values)):
                    self.add(n, '(' + o2.join('(' + self.text(v) + ')' for j, v in enumerate(n.values) if j != i) + ')', 'bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add(n, '(' + self.text(n.operand) + ')', 'not')
        elif isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            self.add(n, '(' + self.text(n.operand) + ')', 'neg')
        elif isinstance(n.op, ast.USub):
            self.add(n, self.text(n.operand), 'neg')
            return
        self.generic_visit(n)

    def visit_BinOp(self, n):
        alts = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.FloorDiv: ['*'], ast.Mod: ['*'], ast.Pow: ['*']}.get(type(n.op), [])
        for o in alts:
            self.add(n, '(' + self.text(n.left) + ' ' + o + ' ' + self.text(n.right) + ')', 'arith')
        if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub)):
            self.add(n, self.text(n.left), 'drop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True:
            self.add(n, 'False', 'const')
        elif v is False:
            self.add(n, 'True', 'const')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'const')
            if v > 0:
                self.add(n, str(v - 1), 'const')
        elif isinstance(v, float):
            if v in (0.0, 1.0, 2.0, 0.5, -1.0, 4.0):
                self.add(n, repr(v + 1.0), 'const')
            else:
                self.add(n, repr(v * 1e7), 'tol')
                self.add(n, '0.0', 'tol')
        elif isinstance(v, complex):
            self.add(n, '(-' + self.text(n) + ')', 'const')
        elif isinstance(v, str) and v in ('A', 'B', 'D', 'X', 'Y', 'Z', 'C', 'CDag', 'Pauli', 'Majorana', 'Fermion'):
            new = {'A': 'B', 'B': 'D', 'D': 'A', 'X': 'Y', 'Y': 'Z', 'Z': 'X', 'C': 'CDag', 'CDag': 'C', 'Pauli': 'Majorana', 'Majorana': 'Fermion', 'Fermion': 'Pauli'}[v]
            self.add(n, repr(new), 'str')

    def visit_Call(self, n):
        f = self.text(n.func)
        if f in ('np.conj', 'np.abs', 'np.real', 'np.imag', 'np.transpose', 'np.sort', 'np.copy', 'np.sqrt', 'sorted', 'set', 'list', 'np.array', 'abs', 'tuple', 'np.unique', 'copy.deepcopy') and len(n.args) >= 1:
            self.add(n, self.text(n.args[0]), 'unwrap')
        if f == 'range' and n.args:
            a = [self.text(x) for x in n.args]
            if len(a) == 1:
                self.add(n, 'range(1, ' + a[0] + ')', 'range')
                self.add(n, 'range(' + a[0] + ' - 1)', 'range')
            elif len(a) == 2:
                self.add(n, 'range(' + a[0] + ' + 1, ' + a[1] + ')', 'range')
                self.add(n, 'range(' + a[0] + ', ' + a[1] + ' - 1)', 'range')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('conj', 'copy', 'getH', 'strip', 'lower') and not n.args:
            self.add(n, self.text(n.func.value), 'unwrap')
        if f == 'min':
            self.add(n.func, 'max', 'fn')
        if f == 'max':
            self.add(n.func, 'min', 'fn')
        for kw in n.keywords:
            if kw.arg:
                self.visit(kw.value)
        self.visit(n.func)
        for x in n.args:
            self.visit(x)

    def visit_Attribute(self, n):
        if n.attr in ('H', 'T'):
            self.add(n, self.text(n.value), 'unwrap')
            if n.attr == 'H':
                self.add(n, self.text(n.value) + '.T', 'unwrap')
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.lower is not None:
            self.add(n.lower, '(' + self.text(n.lower) + ')+1', 'slice')
        if n.upper is not None:
            self.add(n.upper, '(' + self.text(n.upper) + ')-1', 'slice')


def mutants(repo='/repo'):
    out = []
    for mod in CHECKS:
        p = os.path.join(repo, 'qosy', mod + '.py')
        if not os.path.exists(p):
            continue
        src = open(p).read()
        g = Gen(src, mod)
        for n in ast.parse(src).body:
            g.visit(n)
        seen = set()
        for m in g.out:
            k = (m['mod'], m['a'], m['b'], m['new'])
            if k not in seen:
                seen.add(k)
                new = g.b[:m['a']] + m['new'].encode() + g.b[m['b']:]
                try:
                    compile(new, 'x', 'exec')
                except SyntaxError:
                    continue
                out.append(m)
    return out


def setup(base):
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(['cp', '-a', '/repo', base + '/repo'])
    os.makedirs(base + '/verif')
    for d in ('harness', 'run.sh', 'known_findings.json', 'regress'):
        if os.path.exists(os.path.join(V, d)):
            subprocess.check_call(['cp', '-a', os.path.join(V, d), base + '/verif/'])
    for f in ('run.sh', 'harness/main.py'):
        p = base + '/verif/' + f
        s = open(p).read().replace("REPO = '/repo'", "REPO = '{}/repo'".format(base)).replace('PYTHONPATH=/repo', 'PYTHONPATH={}/repo'.format(base))
        open(p, 'w').write(s)


def env_for(base, procs):
    e = dict(os.environ, PYTHONPATH=base + '/repo', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1', VERIF_PROCS=str(procs), VERIF_SHRINK_S='0', VERIF_BUDGET_S='250', PYTHONWARNINGS='ignore')
    return e


def run_tests(base, env):
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--deselect',
                        'tests/test_diagonalization.py::test_diagonalize_majumdar_ghosh', 'tests'], cwd=base + '/repo', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    return r.returncode == 0


def main():
    ms = mutants()
    if sys.argv[1] == 'list':
        from collections import Counter
        print(len(ms), Counter(m['mod'] for m in ms), Counter(m['kind'] for m in ms))
        return
    out, k, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    files = sys.argv[6:]
    if files:
        ms = [m for m in ms if m['mod'] in files]
    random.Random(seed).shuffle(ms)
    ms = ms[k::n]
    base = '/tmp/mut/w{}'.format(k)
    setup(base)
    env = env_for(base, 4)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['mod'], r['a'], r['b'], r['new']))
    for m in ms:
        if os.path.exists('/tmp/mut/stop'):
            break
        if (m['mod'], m['a'], m['b'], m['new']) in done:
            continue
        p = base + '/repo/qosy/' + m['mod'] + '.py'
        orig = open('/repo/qosy/' + m['mod'] + '.py', 'rb').read()
        t = time.time()
        rec = dict(m)
        try:
            open(p, 'wb').write(orig[:m['a']] + m['new'].encode() + orig[m['b']:])
            try:
                ok = run_tests(base, env)
            except subprocess.TimeoutExpired:
                ok = False
            rec['tests'] = ok
            if ok:
                rec['caught'] = None
                rec['rcs'] = {}
                for c in checks_for(m):
                    if not os.path.exists(base + '/verif/harness/props/' + c.lower() + '.py'):
                        continue
                    try:
                        r = subprocess.run(['bash', base + '/verif/run.sh', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                        rec['rcs'][c] = r.returncode
                    except subprocess.TimeoutExpired:
                        rec['rcs'][c] = 'timeout'
                        continue
                    if r.returncode == 1:
                        rec['caught'] = c
                        break
        finally:
            open(p, 'wb').write(orig)
        rec['wall'] = round(time.time() - t, 1)
        with open(out, 'a') as fh:
            fh.write(json.dumps(rec) + '\n')


if __name__ == '__main__':
    main()
