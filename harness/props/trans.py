"""Generated transformations (JSON cases): builders and their exact action on reference polynomials.

Case kinds: ['T'], ['PH'], ['perm', [..]], ['TS', lat, up, dn, form], ['SP', lat, up, dn], ['SF', lat, up, dn],
['rot', axis, cos, sin], ['mul', t1, t2] (t1*t2), ['pow', t, n].
An exact action is (image of single generators, antiunitary flag); it is extended to polynomials as an (anti)automorphism.
"""
from hypothesis import strategies as st
import numpy as np
import ref

NAMES = [('Up', 'Dn'), ('u', 'd'), ('+', '-'), ('spin up', 'spin down')]


@st.composite
def spin_lattice(draw, N=6):
    """A list of (atom position, names) for a 1D lattice of exactly N orbitals, with names containing up and dn."""
    up, dn = draw(st.sampled_from(NAMES))
    cells = draw(st.sampled_from([c for c in range(1, N + 1) if N % c == 0]))
    atoms = []
    left = N // cells
    while left:
        base = draw(st.sampled_from([[up, dn], [up, dn], [dn, up], ['A ' + up, 'A ' + dn], ['B ' + dn, 'B ' + up], [up, 'x', dn], ['x']]))
        if len(base) > left:
            base = ['x'] if left == 1 else [up, dn]
        atoms.append(base)
        left -= len(base)
    return [atoms, cells, draw(st.booleans())], up, dn


def build_lattice(L):
    import qosy
    atoms, cells, per = L
    uc = qosy.UnitCell([np.array([float(len(atoms))])])
    for i, names in enumerate(atoms):
        uc.add_atom(np.array([float(i)]), orbitals=list(names))
    return qosy.Lattice(uc, (cells,), periodic_boundaries=(per,))


def lattice_orbitals(L):
    atoms, cells, per = L
    return [(c, i, nm) for c in range(cells) for i, names in enumerate(atoms) for nm in names]


def spin_maps(L, up, dn):
    orbs = lattice_orbitals(L)
    idx = {o: i for i, o in enumerate(orbs)}
    perm, down = [], []
    for (c, i, nm) in orbs:
        if up in nm:
            perm.append(idx[(c, i, nm.replace(up, dn))])
        elif dn in nm:
            perm.append(idx[(c, i, nm.replace(dn, up))])
        else:
            perm.append(idx[(c, i, nm)])
        down.append(dn in nm)
    return perm, down


@st.composite
def simple(draw, t, N, custom=True):
    kinds = ['T', 'perm', 'perm', 'perm', 'cyc']
    if t == 'Majorana':
        kinds += ['PH', 'TS', 'SP', 'SF']
    else:
        kinds += ['SF']
    if custom:
        kinds += ['rot']
    k = draw(st.sampled_from(kinds))
    if k in ('T', 'PH'):
        return [k]
    if k == 'perm':
        return ['perm', draw(st.permutations(range(N)))]
    if k == 'cyc':
        # products of disjoint transpositions or a cyclic shift
        p = list(range(N))
        if draw(st.booleans()):
            s = draw(st.integers(0, N))
            p = [(i + s) % N for i in range(N)]
        else:
            for i in range(0, N - 1, 2):
                if draw(st.booleans()):
                    p[i], p[i + 1] = p[i + 1], p[i]
        return ['perm', p]
    if k == 'rot':
        c, s = draw(st.sampled_from([(0.6, 0.8), (0.0, 1.0), (-1.0, 0.0), (0.8, -0.6)]))
        return ['rot', draw(st.sampled_from(['X', 'Y', 'Z'] if t == 'Pauli' else ['D'])), c, s]
    L, up, dn = draw(spin_lattice(N))
    return [k, L, up, dn] + ([draw(st.integers(0, 1)) if (up, dn) == ('Up', 'Dn') else 1] if k == 'TS' else [])


def orbitals(T):
    """Number of labels on which the transformation is defined."""
    if T[0] == 'perm':
        return len(T[1])
    if T[0] in ('TS', 'SP', 'SF'):
        return len(lattice_orbitals(T[1]))
    if T[0] == 'mul':
        return min(orbitals(T[1]), orbitals(T[2]))
    if T[0] == 'pow':
        return orbitals(T[1])
    return 10 ** 9


@st.composite
def word(draw, t, N, max_len=4, custom=True):
    n = draw(st.integers(1, max_len))
    T = draw(simple(t, N, custom))
    for _ in range(n - 1):
        k = draw(st.integers(0, 3))
        if k == 0 and n <= 3:
            T = ['pow', T, draw(st.integers(0, 4))]
        else:
            U = draw(simple(t, N, custom))
            T = ['mul', T, U] if draw(st.booleans()) else ['mul', U, T]
    return T


# ------------------------------------------------------------------ qosy objects
def _rot_table(axis, c, s):
    if axis == 'Z':
        return {'X': [(c, 'X'), (s, 'Y')], 'Y': [(c, 'Y'), (-s, 'X')], 'Z': [(1.0, 'Z')]}
    if axis == 'X':
        return {'Y': [(c, 'Y'), (s, 'Z')], 'Z': [(c, 'Z'), (-s, 'Y')], 'X': [(1.0, 'X')]}
    if axis == 'Y':
        return {'Z': [(c, 'Z'), (s, 'X')], 'X': [(c, 'X'), (-s, 'Z')], 'Y': [(1.0, 'Y')]}
    return {'A': [(c, 'A'), (s, 'B')], 'B': [(c, 'B'), (-s, 'A')], 'D': [(1.0, 'D')]}


def _rot_rule(os, info):
    import itertools
    import qosy
    table = _rot_table(*info)
    coeffs, strs = [], []
    for choice in itertools.product(*[table[str(o)] for o in os.orbital_operators]):
        x = 1.0
        for f, _ in choice:
            x *= f
        if x == 0.0:
            continue
        coeffs.append(x)
        # the number of a and b operators, hence the prefactor, does not change
        strs.append(qosy.OperatorString([o for _, o in choice], list(os.orbital_labels), os.op_type))
    return qosy.Operator(coeffs, strs, op_type=os.op_type)


def build(T):
    import qosy
    k = T[0]
    if k == 'T':
        return qosy.time_reversal()
    if k == 'PH':
        return qosy.particle_hole()
    if k == 'perm':
        return qosy.label_permutation(list(T[1]))
    if k == 'SF':
        return qosy.spin_flip_symmetry(build_lattice(T[1]), up_name=T[2], dn_name=T[3])
    if k == 'SP':
        return qosy.spin_parity_symmetry(build_lattice(T[1]), T[2], T[3])
    if k == 'TS':
        lat = build_lattice(T[1])
        return qosy.time_reversal(lat if T[4] == 0 else (lat, T[2], T[3]))
    if k == 'rot':
        return qosy.Transformation(_rot_rule, tuple(T[1:]))
    if k == 'mul':
        return build(T[1]) * build(T[2])
    if k == 'pow':
        return build(T[1]) ** T[2]
    raise ValueError(k)


# ------------------------------------------------------------------ exact action
def antiunitary(T):
    k = T[0]
    if k in ('T', 'TS'):
        return True
    if k == 'mul':
        return antiunitary(T[1]) != antiunitary(T[2])
    if k == 'pow':
        return antiunitary(T[1]) and T[2] % 2 == 1
    return False


def image(T, t, op, l):
    """Exact image (polynomial) of a single orbital operator X, Z (Pauli) or a, b (Majorana)."""
    S = lambda o, m: ref.single(t, o, m)
    k = T[0]
    if k == 'T':
        if t == 'Pauli':
            return ref.scale(S(op, l), -1)
        return S(op, l) if op == 'A' else ref.scale(S(op, l), -1)
    if k == 'PH':
        return S(op, l) if op == 'A' else ref.scale(S(op, l), -1)
    if k == 'perm':
        return S(op, T[1][l])
    if k == 'rot':
        out = {}
        for c, o in _rot_table(*T[1:])[op]:
            out = ref.add(out, S(o, l), c)
        return out
    perm, down = spin_maps(T[1], T[2], T[3])
    if k == 'SF':
        return S(op, perm[l])
    if k == 'SP':
        return ref.scale(S(op, l), -1 if down[l] else 1)
    if k == 'TS':
        # a_up -> a_dn, b_up -> -b_dn, a_dn -> -a_up, b_dn -> b_up
        s = -1 if op == 'B' else 1
        if down[l]:
            s = -s
        return ref.scale(S(op, perm[l]), s)
    raise ValueError(k)


def act(T, t, p):
    """Exact action on a polynomial."""
    k = T[0]
    if k == 'mul':
        return act(T[1], t, act(T[2], t, p))
    if k == 'pow':
        for _ in range(T[2]):
            p = act(T[1], t, p)
        return p
    A = ref.alg(t)
    anti = antiunitary(T)
    out = {}
    for key, c in p.items():
        q = {m: (np.conj(c) if anti else c) * v for m, v in A.one.items()}
        if t == 'Pauli':
            x, z = key
            n = max(x.bit_length(), z.bit_length())
            for l in range(n):
                if (x >> l) & 1:
                    q = A.mul(q, image(T, t, 'X', l))
                if (z >> l) & 1:
                    q = A.mul(q, image(T, t, 'Z', l))
        else:
            m = key
            while m:
                j = (m & -m).bit_length() - 1
                m &= m - 1
                q = A.mul(q, image(T, t, 'A' if j % 2 == 0 else 'B', j // 2))
        out = ref.add(out, q)
    return ref.clean(out, 1e-13)


def has(T, kind):
    return T[0] == kind or any(isinstance(x, list) and x and isinstance(x[0], str) and T[0] in ('mul', 'pow') and has(x, kind) for x in T[1:])


def count(T, kind):
    """How often the kind is applied when T acts."""
    if T[0] == 'mul':
        return count(T[1], kind) + count(T[2], kind)
    if T[0] == 'pow':
        return T[2] * count(T[1], kind)
    return int(T[0] == kind)


def describe(T):
    if T[0] == 'mul':
        return '({}*{})'.format(describe(T[1]), describe(T[2]))
    if T[0] == 'pow':
        return '{}^{}'.format(describe(T[1]), T[2])
    return T[0] + (str(T[1]) if T[0] == 'perm' else '')
