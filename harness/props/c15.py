"""Lattice symmetries against brute-force geometry."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props import lat, trans

H3 = float(np.sqrt(3) / 2)
POINT = {1: [[[1.0]], [[-1.0]], [[0.0]], [[2.0]]],
         2: [[[1, 0], [0, 1]], [[-1, 0], [0, -1]], [[0, -1], [1, 0]], [[0, 1], [1, 0]], [[1, 0], [0, -1]], [[-1, 0], [0, 1]],
             [[0.5, -H3], [H3, 0.5]], [[-0.5, -H3], [H3, -0.5]], [[0.5, H3], [H3, -0.5]], [[0, 0], [0, 0]], [[1, 0], [0, 0]], [[1, 1], [0, 1]]],
         3: [np.eye(3).tolist(), (-np.eye(3)).tolist(), [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, 1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, -1]],
             [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 0], [0, 0, 1]]]}


@st.composite
def sym_lattice(draw, names=True):
    L = draw(lat.lattice(max_orbitals=14, max_cells=6, named=names))
    if draw(st.booleans()):
        # equal numbers of cells and fully periodic: most point-group maps are allowed
        dim = len(L['V'])
        k = {1: L['cells'][0], 2: draw(st.integers(1, 3)), 3: draw(st.integers(1, 2))}[dim]
        L['cells'] = [k] * dim
        L['periodic'] = [True] * dim
    return L


SQ = [[1.0, 0.0], [0.0, 1.0]]
TRI = [[1.0, 0.0], [0.5, H3]]
DESIGNED = {
    # vectors, point group, sets of atoms (in twelfths of the vectors) that some of the group keeps
    'chain': ([[1.0]], POINT[1][:2], [[[0]], [[0], [6]], [[3], [9]], [[2], [4]], [[0], [4], [8]]]),
    'square': (SQ, POINT[2][:6], [[[0, 0]], [[0, 0], [6, 6]], [[6, 0], [0, 6]], [[3, 3], [9, 3], [3, 9], [9, 9]], [[3, 0], [9, 6]], [[3, 3], [9, 9]], [[0, 3], [6, 9]], [[0, 0], [6, 0], [0, 6]]]),
    'tri': (TRI, [POINT[2][i] for i in (0, 1, 6, 7, 8)] + [[[1, 0], [0, -1]], [[-1, 0], [0, 1]]], [[[0, 0]], [[6, 0], [0, 6], [6, 6]], [[0, 0], [6, 0], [0, 6]], [[4, 4], [8, 8]], [[0, 0], [4, 4]]]),
    'cubic': (np.eye(3).tolist(), POINT[3][:6], [[[0, 0, 0]], [[0, 0, 0], [6, 6, 6]], [[6, 6, 0], [6, 0, 6], [0, 6, 6]]]),
    'rect': ([[1.0, 0.0], [0.0, 2.0]], [POINT[2][i] for i in (0, 1, 4, 5)], [[[0, 0]], [[3, 3], [9, 9]], [[3, 0], [9, 6]], [[0, 2], [6, 10]]]),
}


@st.composite
def designed(draw, t):
    V, group, sets = DESIGNED[draw(st.sampled_from(sorted(DESIGNED)))]
    dim = len(V)
    names = draw(st.sampled_from([[''], [''], ['A'], ['Up', 'Dn'], ['px', 'py']]))
    atoms = [[c, names] for c in draw(st.sampled_from(sets))]
    if draw(st.booleans()):
        k = draw(st.integers(1, {1: 12, 2: 4, 3: 2}[dim]))
        cells = [k] * dim
    else:
        cells = [draw(st.integers(1, {1: 12, 2: 4, 3: 2}[dim])) for _ in range(dim)]
    L = dict(V=V, atoms=atoms, cells=cells, periodic=[draw(st.integers(0, 4)) > 0 for _ in range(dim)], form=draw(st.integers(0, 2)))
    N = len(lat.model(L))
    pair = [draw(st.integers(0, N - 1)), draw(st.integers(0, N - 1))]
    if draw(st.integers(0, 3)) == 0:
        pair = [0, N - 1]
    case = dict(t=t, L=L, R=draw(st.sampled_from(group)), mode=draw(st.sampled_from(['pair', 'pair', 'cells', 'zero', 'half'])), pair=pair,
                cells=[draw(st.integers(-5, 5)) for _ in range(dim)])
    pool = sorted(draw(st.permutations(range(N)))[:draw(st.integers(1, min(N, draw(gen.tail(5, 24)))))])
    case['ss'] = [draw(gen.pm_string(t, pool)) for _ in range(3)]
    return case


def strat_space(tier):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 2)):
            return draw(designed(draw(st.sampled_from(['Pauli', 'Majorana']))))
        L = draw(sym_lattice())
        N = len(lat.model(L))
        dim = len(L['V'])
        R = draw(st.sampled_from(POINT[dim][:2] * 2 + POINT[dim]))
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        mode = draw(st.sampled_from(['pair', 'pair', 'cells', 'zero', 'odd']))
        case = dict(t=t, L=L, R=R, mode=mode, pair=[draw(st.integers(0, N - 1)), draw(st.integers(0, N - 1))],
                    cells=[draw(st.integers(-5, 5)) for _ in range(dim)])
        pool = sorted(draw(st.permutations(range(N)))[:draw(st.integers(1, min(N, draw(gen.tail(5, 24)))))])
        case['ss'] = [draw(gen.pm_string(t, pool)) for _ in range(3)]
        return case
    return s()


SPINS = [['Up', 'Dn'], ['Dn', 'Up'], ['A Up', 'A Dn'], ['A Up', 'B Dn', 'A Dn', 'B Up'], ['x', 'Up', 'Dn'], ['Up', 'Dn', 's'], ['Up'], ['s'], ['Dn']]


def strat_spin(tier):
    @st.composite
    def s(draw):
        L = draw(lat.lattice(max_orbitals=draw(gen.tail(12, 40, 5)), max_cells=4, named=False))
        ok = draw(st.integers(0, 4)) > 0
        up, dn = draw(st.sampled_from(trans.NAMES))
        L['atoms'] = [[c, [x.replace('Up', up).replace('Dn', dn) for x in draw(st.sampled_from(SPINS[:6] + [SPINS[7]] if ok else SPINS))]] for c, _ in L['atoms']]
        if draw(st.booleans()):
            L['periodic'] = [draw(st.booleans()) for _ in L['periodic']]
        N = len(lat.model(L))
        t = draw(st.sampled_from(['Majorana', 'Majorana', 'Pauli']))
        pool = sorted(draw(st.permutations(range(N)))[:draw(st.integers(1, min(N, draw(gen.tail(6, 24, 5)))))])
        return dict(t=t, L=L, up=up, dn=dn, ss=[draw(gen.pm_string(t, pool)) for _ in range(3)])
    return s()


def same(got, want, what):
    require(ref.close(ref.op_poly(got), want), '{}: got {} expected {}', what, ref.op_poly(got), want)


def check_space(case, ev):
    import qosy
    L, t = case['L'], case['t']
    orbs = lat.model(L)
    R = np.array(case['R'], dtype=float)
    lattice = lat.build(L)
    items = list(lattice)
    i, j = case['pair']
    d = {'pair': lambda: items[j][0] - R @ items[i][0],
         'cells': lambda: np.array(case['cells'], dtype=float) @ np.array(L['V']),
         'half': lambda: 0.5 * np.array(case['cells'], dtype=float) @ np.array(L['V']),
         'zero': lambda: np.zeros(len(R)),
         'odd': lambda: 0.37 * np.array(L['V'])[0]}[case['mode']]()
    perm = []
    for (r, nm, _) in items:
        f = lat.find(L, items, R @ np.array(r) + d, nm)
        perm.append(f[0] if f else -1)
    valid = sorted(perm) == list(range(len(items)))
    before = [np.array(x[0]) for x in items]
    try:
        T = qosy.space_group_symmetry(lattice, R, d)
    except ValueError as e:
        require(not valid, 'the symmetry R={} d={} was rejected: {}', R.tolist(), d.tolist(), e)
        ev.label('rejected')
        return
    require(valid, 'the map R={} d={} with image {} was accepted', R.tolist(), d.tolist(), perm)
    for s in case['ss']:
        same(T.apply(gen.mk_os(s)), trans.act(['perm', perm], t, gen.ref_os(s)), 'R={} d={} on {}'.format(R.tolist(), d.tolist(), gen.show(s)))
    require(all(np.array_equal(a, b[0]) for a, b in zip(before, lattice)), 'the lattice was changed')
    ev.label('accepted', 'dim:{}'.format(len(R)))
    ev.nontrivial(perm != list(range(len(perm))))


def check_spin(case, ev):
    import qosy
    L, t, up, dn = case['L'], case['t'], case['up'], case['dn']
    lattice = lat.build(L)
    items = list(lattice)
    perm, down = [], []
    for (r, nm, cell) in items:
        partner = nm.replace(up, dn) if up in nm else nm.replace(dn, up)
        m = [k for k, (q, nn, cc) in enumerate(items) if nn == partner and lat.equivalent(L, r, q)]
        perm.append(m[0] if m else -1)
        down.append(dn in nm)
    default = (up, dn) == ('Up', 'Dn')
    what = 'spin flip on orbitals {}'.format([x[1] for x in items])
    try:
        F = qosy.spin_flip_symmetry(lattice) if default else qosy.spin_flip_symmetry(lattice, up_name=up, dn_name=dn)
    except ValueError:
        require(-1 in perm, '{} was rejected', what)
        ev.label('rejected')
        F = None
    if F is not None:
        require(-1 not in perm, '{} was accepted', what)
        for s in case['ss']:
            same(F.apply(gen.mk_os(s)), trans.act(['perm', perm], t, gen.ref_os(s)), '{} on {}'.format(what, gen.show(s)))
            same((F * F).apply(gen.mk_os(s)), gen.ref_os(s), 'squared ' + what)
    if t == 'Majorana':
        P = qosy.spin_parity_symmetry(lattice) if default else qosy.spin_parity_symmetry(lattice, up_name=up, dn_name=dn)
        for s in case['ss']:
            n = sum(1 for o, l in zip(s[1], s[2]) if o in 'AB' and down[l])
            same(P.apply(gen.mk_os(s)), ref.scale(gen.ref_os(s), -1.0 if n % 2 else 1.0), 'spin parity (down orbitals {}) on {}'.format([k for k, x in enumerate(down) if x], gen.show(s)))
    ev.label('type:' + t)
    ev.nontrivial(F is not None and any(perm[l] != l for s in case['ss'] for l in s[2]))


PROP = Prop(
    'C15',
    'Space-group maps (two thirds on square, rectangular, triangular, cubic lattices and chains of up to 64 orbitals with atoms on symmetric positions; identity, inversion, reflections, square, triangular and cubic rotations, singular and shearing matrices; displacements that connect two orbitals, '
    'lattice vectors beyond the period, or off-lattice) and spin flips and parities (several naming schemes, missing partners, spinless orbitals) on generated lattices of up to 14 '
    'orbitals with any boundaries; the orbital map is found by brute force and applied exactly, and invalid maps must be rejected. '
    'Non-trivial: an accepted map that is not the identity and (spin) moves an orbital of the strings.',
    [Sub('space_group', strat_space, check_space, 7000), Sub('spin', strat_spin, check_spin, 3600)])
