"""symmetrize_lattice against brute-force group orbits modulo lattice translations."""
import copy
import itertools
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip

S3 = np.sqrt(3.0) / 2


def rot2(n):
    a = 2 * np.pi / n
    return [[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]


E2 = [[1, 0], [0, 1]]
SYMS = {
    'chain': ([[1.0]], {'inv': [[-1]], 'id': [[1]]}),
    'square': ([[1.0, 0.0], [0.0, 1.0]], {'C4': [[0, -1], [1, 0]], 'C2': [[-1, 0], [0, -1]], 'mx': [[-1, 0], [0, 1]], 'md': [[0, 1], [1, 0]], 'id': E2}),
    'rect': ([[1.0, 0.0], [0.0, 2.0]], {'C2': [[-1, 0], [0, -1]], 'mx': [[-1, 0], [0, 1]], 'my': [[1, 0], [0, -1]]}),
    'tri': ([[1.0, 0.0], [0.5, S3]], {'C6': rot2(6), 'C3': rot2(3), 'C2': [[-1, 0], [0, -1]], 'mx': [[-1, 0], [0, 1]], 'my': [[1, 0], [0, -1]]}),
    'skew': ([[1.0, 0.0], [1.0, 1.0]], {'C4': [[0, -1], [1, 0]], 'mx': [[-1, 0], [0, 1]], 'md': [[0, 1], [1, 0]]}),
    'oblique': ([[1.0, 0.0], [0.3, 1.2]], {'C2': [[-1, 0], [0, -1]], 'id': E2}),
    'cube': (np.eye(3).tolist(), {'Cz': [[0, -1, 0], [1, 0, 0], [0, 0, 1]], 'C3': [[0, 0, 1], [1, 0, 0], [0, 1, 0]], 'inv': (-np.eye(3)).tolist(), 'mz': np.diag([1., 1., -1.]).tolist(),
                               'C2x': np.diag([1., -1., -1.]).tolist()}),
}


def closure(gens, dim):
    G = [np.eye(dim)]
    for g in G:
        for h in gens:
            q = h @ g
            if not any(np.max(np.abs(q - x)) < 1e-6 for x in G):
                G.append(q)
    return G


def strat(tier):
    @st.composite
    def s(draw):
        name = draw(st.sampled_from(sorted(SYMS)))
        V, syms = SYMS[name]
        dim = len(V)
        gens = draw(st.lists(st.sampled_from(sorted(syms)), min_size=0, max_size=3))
        n = draw(st.sampled_from([1, 1, 1, 2, 2, 3] if dim == 1 else [1, 1, 1, 2] if dim == 2 else [1]))
        atoms = []
        for _ in range(draw(st.integers(1, 3 if dim < 3 else 1))):
            c = [draw(st.sampled_from([0, 0, 6, 4, 3, 8, 1, -3])) for _ in range(dim)]
            if tuple(x % 12 for x in c) in [tuple(x % 12 for x in a[0]) for a in atoms]:
                continue
            atoms.append([c, draw(st.sampled_from([[''], ['A'], ['B'], ['Up', 'Dn']]))])
        scale = draw(st.sampled_from([1.0, 1.0, 2.0, 0.7]))
        return dict(lattice=name, gens=gens, n=n, atoms=atoms, cells=[draw(st.integers(1, 3)) for _ in range(dim)], scale=scale)
    return s()


def check(case, ev):
    import qosy
    V, syms = SYMS[case['lattice']]
    V = np.array(V) * case['scale']
    dim = len(V)
    gens = [np.array(syms[g], dtype=float) for g in case['gens']]
    G = closure(gens, dim)
    n = case['n']
    if len(G) * (n + 1) ** dim * len(case['atoms']) > 400:
        raise Skip()
    pos = lambda c: np.array(c, dtype=float) / 12.0 @ V
    uc = qosy.UnitCell([v.copy() for v in V])
    for c, names in case['atoms']:
        uc.add_atom(pos(c), orbitals=list(names))
    lat = qosy.Lattice(uc, tuple(case['cells']), periodic_boundaries=(True,) * dim)
    before = (str(lat), [v.tolist() for v in uc.lattice_vectors], [p.tolist() for p in uc.atom_positions], copy.deepcopy(uc.atom_orbitals))
    glist = [g.copy() for g in gens]
    new = qosy.symmetrize_lattice(lat, glist, num_expansions=n)
    after = (str(lat), [v.tolist() for v in uc.lattice_vectors], [p.tolist() for p in uc.atom_positions], copy.deepcopy(uc.atom_orbitals))
    require(before == after, 'the lattice given was changed')
    require(len(glist) == len(gens) and all(np.array_equal(a, b) for a, b in zip(glist, gens)), 'the generators were changed')
    W = np.array(new.unit_cell.lattice_vectors, dtype=float)
    require(W.shape == V.shape and np.allclose(W, (n + 1) * V, atol=1e-9), 'lattice vectors are {}, expected {}', W.tolist(), ((n + 1) * V).tolist())
    require(tuple(new.num_cells) == (1,) * dim and list(new.periodic_boundaries) == [True] * dim, 'not one periodic unit cell')
    inv = np.linalg.inv(W)

    def same(p, q):
        x = (p - q) @ inv
        return np.max(np.abs(x - np.round(x))) < 1e-6
    atoms = list(zip(new.unit_cell.atom_positions, new.unit_cell.atom_orbitals))
    for i in range(len(atoms)):
        for j in range(i):
            require(not (same(atoms[i][0], atoms[j][0]) and list(atoms[i][1]) == list(atoms[j][1])), 'an atom is duplicated: {} {}', atoms[j], atoms[i])

    def present(p, names):
        return any(same(p, q) and list(o) == list(names) for q, o in atoms)
    expected = []
    for c, names in case['atoms']:
        for m in itertools.product(range(n + 1), repeat=dim):
            p = pos(c) + np.array(m, dtype=float) @ V
            require(present(p, names), 'the atom of the enlarged cell at {} is missing', p)
            for g in G:
                q = g @ p
                if not any(same(q, r) and o == names for r, o in expected):
                    expected.append((q, names))
    for p, names in atoms:
        for g, nm in zip(gens, case['gens']):
            require(present(g @ p, names), 'the image of the atom at {} under {} is missing', p, nm)
    require(len(atoms) == len(expected), '{} atoms, the orbits of the original atoms have {}', len(atoms), len(expected))
    # the lattice lists an orbital for every atom
    require(len(new) == sum(len(o) for _, o in atoms), 'the lattice has {} orbitals', len(new))
    ev.label('lattice:' + case['lattice'], 'group:%d' % len(G), 'n:%d' % n)
    ev.nontrivial(len(G) > 1 and len(expected) > len(case['atoms']) * (n + 1) ** dim)


PROP = Prop(
    'C28',
    'Chains, square, rectangular, triangular, skewed, oblique and cubic unit cells of 1-3 atoms (positions on a grid, also outside of the cell, several orbital names) with 0-3 compatible point-group generators and 1-3 expansions. '
    'Non-trivial: a group of two or more elements that adds atoms to the enlarged cell.',
    [Sub('orbits', strat, check, 1600)],
    ['fully periodic lattices whose lattice vectors are compatible with the point group',
     'the atoms of the result are the orbits of the atoms of the enlarged original cell'])
