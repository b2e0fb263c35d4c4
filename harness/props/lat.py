"""Generated lattices (as JSON cases) and an independent geometric model."""
import itertools
from hypothesis import strategies as st
import numpy as np

GRID = [[1.0], [2.0], [0.5], [1.5]]


@st.composite
def vectors(draw, dim):
    kind = draw(st.sampled_from(['cubic', 'scaled', 'tri', 'skew', 'skew']))
    if dim == 1:
        return [[draw(st.sampled_from([1.0, 2.0, 0.5, 1.5, 3.0, -1.0]))]]
    if kind == 'cubic':
        return np.eye(dim).tolist()
    if kind == 'scaled':
        return np.diag([draw(st.sampled_from([1.0, 2.0, 0.5, 1.5])) for _ in range(dim)]).tolist()
    if kind == 'tri':
        V = np.eye(dim)
        V[1, 0], V[1, 1] = 0.5, np.sqrt(3) / 2
        return V.tolist()
    for _ in range(20):
        V = [[draw(st.integers(-4, 4)) / 2.0 for _ in range(dim)] for _ in range(dim)]
        if abs(np.linalg.det(np.array(V))) > 0.2 and np.linalg.cond(np.array(V)) < 12:
            return V
    return np.eye(dim).tolist()


@st.composite
def lattice(draw, max_orbitals=24, named=True, max_cells=6, periodic=None, inside=True, dims=(1, 2, 3), max_atoms=3):
    dim = draw(st.sampled_from(dims))
    V = draw(vectors(dim))
    atoms, used = [], []
    for _ in range(draw(st.integers(1, 3)) if max_atoms == 3 else draw(st.integers(4, max_atoms))):
        # offsets in lattice coordinates, multiples of 1/12
        c = [draw(st.sampled_from([0, 0, 6, 4, 3, 8, 9, 2, 1])) if max_atoms == 3 else draw(st.integers(0, 11)) for _ in range(dim)]
        if not inside and draw(st.integers(0, 3)) == 0:
            c = [x + 12 * draw(st.integers(-1, 1)) for x in c]
        if tuple(x % 12 for x in c) in used:
            continue
        used.append(tuple(x % 12 for x in c))
        names = draw(st.sampled_from([['']] if not named else
                                     [[''], ['Up', 'Dn'], ['A'], ['B'], ['s', 'p'], ['Dn', 'Up'], ['A Up', 'A Dn'], ['px', 'py', 'pz']]))
        atoms.append([c, names])
    n_in = sum(len(a[1]) for a in atoms)
    cells, tot = [], n_in
    for _ in range(dim):
        hi = max(1, min(max_cells, max_orbitals // tot))
        k = draw(st.integers(1, hi))
        cells.append(k)
        tot *= k
    cells = draw(st.permutations(cells))
    per = [draw(st.booleans()) for _ in range(dim)] if periodic is None else [periodic] * dim
    return dict(V=V, atoms=atoms, cells=list(cells), periodic=per, form=draw(st.integers(0, 2)))


def atom_pos(case, c):
    return np.array(c, dtype=float) / 12.0 @ np.array(case['V'])


def build(case):
    import qosy
    V = [np.array(v) for v in case['V']]
    if case['form'] == 0:
        uc = qosy.UnitCell(V)
        for c, names in case['atoms']:
            uc.add_atom(atom_pos(case, c), orbitals=(None if names == [''] and len(c) == 2 else list(names)))
    else:
        uc = qosy.UnitCell(V, [atom_pos(case, c) for c, _ in case['atoms']], [list(n) for _, n in case['atoms']])
    per = case['periodic']
    return qosy.Lattice(uc, tuple(case['cells']), periodic_boundaries=(tuple(per) if case['form'] == 2 else list(per)), **({'precision': case['precision']} if 'precision' in case else {}))


def model(case):
    """Expected orbitals: list of (position, name, cell), in cell-major order."""
    V = np.array(case['V'])
    out = []
    for cell in itertools.product(*[range(n) for n in case['cells']]):
        for c, names in case['atoms']:
            for nm in names:
                out.append((np.array(cell, dtype=float) @ V + atom_pos(case, c), nm, cell))
    return out


def periods(case):
    return [n * np.array(v) for n, v, p in zip(case['cells'], case['V'], case['periodic']) if p]


def equivalent(case, r, q, tol=1e-6):
    """Is r - q an integer combination of the periods?"""
    d = np.asarray(r, dtype=float) - np.asarray(q, dtype=float)
    co = np.linalg.solve(np.array(case['V']).T, d)
    for x, n, p in zip(co, case['cells'], case['periodic']):
        if p:
            x = x / n
            x = x - np.round(x)
        if abs(x) > tol:
            return False
    return True


def find(case, orbs, r, name, tol=1e-6):
    return [i for i, (q, nm, _) in enumerate(orbs) if nm == name and equivalent(case, r, q, tol)]


def distance(case, r, q):
    """Brute-force shortest distance over periodic images, with a rigorous search range."""
    d = np.asarray(r, dtype=float) - np.asarray(q, dtype=float)
    B = periods(case)
    if not B:
        return float(np.linalg.norm(d))
    B = np.array(B)
    G = np.linalg.pinv(B)
    f = d @ G
    d0 = d - np.round(f) @ B
    f0 = d0 @ G
    rad = np.linalg.norm(d0)
    rng = [range(-int(np.ceil(rad * np.linalg.norm(G[:, i]) + abs(f0[i]))) - 1, int(np.ceil(rad * np.linalg.norm(G[:, i]) + abs(f0[i]))) + 2) for i in range(len(B))]
    best = rad
    for t in itertools.product(*rng):
        best = min(best, float(np.linalg.norm(d0 + np.array(t) @ B)))
    return best
