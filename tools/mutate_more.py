"""More mutants for mutate.py: thresholds, truncated loops and narrow integers (development tool; not used by any check).

mutate_more.py list | run OUT.jsonl K N SEED [FILE...]    as in mutate.py; env KINDS=tol,loop,int
"""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

KINDS = os.environ.get('KINDS', 'tol,loop,int').split(',')


class More(mutate.Gen):
    def visit(self, n):
        if isinstance(n, ast.FunctionDef) and (n.name in mutate.SKIPF or n.name.startswith(mutate.SKIPP) or n.name == '__repr__'):
            return
        named = isinstance(n, (ast.FunctionDef, ast.ClassDef))
        if named:
            self.stack.append(n.name)
        self.look(n)
        for c in ast.iter_child_nodes(n):
            self.visit(c)
        if named:
            self.stack.pop()

    def look(self, n):
        if 'tol' in KINDS and isinstance(n, ast.Constant) and isinstance(n.value, float) and 0 < abs(n.value) < 2e-5:
            for v in ('1e-5', '1e-3'):
                self.add(n, v, 'tol')
        if 'int' in KINDS and isinstance(n, ast.keyword) and n.arg == 'dtype' and isinstance(n.value, ast.Name):
            for v in dict(int=('np.int8', 'np.int16', 'np.int32'), complex=('np.complex64',), float=('np.float32',)).get(n.value.id, ()):
                self.add(n.value, v, 'dtype')
        if 'loop' in KINDS and isinstance(n, ast.comprehension):
            self.add(n.iter, 'list({})[:13]'.format(self.text(n.iter)), 'loop13')
        # loops that extend the list they run over are not sliced
        if 'loop' in KINDS and isinstance(n, ast.For) and not (isinstance(n.iter, ast.Name) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append'
                and isinstance(c.func.value, ast.Name) and c.func.value.id == n.iter.id for c in ast.walk(n))):
            self.add(n.iter, 'list({})[:13]'.format(self.text(n.iter)), 'loop13')


def mutants(repo='/repo'):
    old = mutate.Gen
    mutate.Gen = More
    try:
        return orig(repo)
    finally:
        mutate.Gen = old


orig = mutate.mutants
mutate.mutants = mutants
if __name__ == '__main__':
    mutate.main()
