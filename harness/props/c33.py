"""Calls have no memory and no side effects: histories of calls over a pool of objects."""
import contextlib
import io
import json
import os
import random
import select
import subprocess
import sys
import warnings

import numpy as np
import scipy.sparse as ss
from hypothesis import strategies as st

from core import Prop, Skip, Sub, Violation, fail, require
import gen
from props import lat, trans

N = 3


# ---------------------------------------------------------------- worlds
@st.composite
def world(draw):
    t = draw(st.sampled_from(['Pauli', 'Majorana']))
    pool = list(range(N))
    L = draw(lat.lattice(max_orbitals=6, max_cells=3, dims=(1, 2)))
    small = st.integers(-2, 2)
    return dict(
        t=t, strings=[draw(gen.pm_string(t, pool)) for _ in range(3)],
        ops=draw(gen.ops_list(t, pool, min_size=3, max_size=3, max_terms=3, complex_=draw(st.integers(0, 3)) == 0)),
        bases=[draw(gen.strings_list(t, pool, min_size=2, max_size=7)), draw(st.one_of(
            gen.strings_list(t, pool, min_size=2, max_size=7),
            st.permutations(gen.all_strings(t, pool, [2])).flatmap(lambda x: st.integers(5, 12).map(lambda k: list(x)[:k]))))],
        perms=[draw(st.permutations(pool)) for _ in range(2)], T=draw(trans.word(t, N, max_len=2, custom=False)),
        L=L, vec=[[draw(small), draw(small)] for _ in range(2 ** N)],
        mats=[[[draw(small) for _ in range(3)] for _ in range(4)] for _ in range(2)],
        edges=[[draw(st.booleans()) for _ in range(5)] for _ in range(5)],
        ints=draw(st.lists(st.integers(0, 6), min_size=1, max_size=7)))


CALLS = {}


def call(f):
    CALLS[f.__name__] = f
    return f


class World:
    """The objects of a case; calls share them."""

    def __init__(self, case):
        import qosy
        self.case, self.t = case, case['t']
        self.strings = [gen.mk_os(s) for s in case['strings']]
        self.ops = [gen.mk_op(o) for o in case['ops']]
        self.bases = [gen.mk_basis(b) for b in case['bases']]
        self.perms = [list(p) for p in case['perms']]
        self.parrays = [np.array(p) for p in case['perms']]
        self.P = [qosy.label_permutation(list(p)) for p in case['perms']]
        self.T = trans.build(case['T'])
        self.lattice = lat.build(case['L'])
        v = np.array([complex(a, b) for a, b in case['vec']])
        v[0] += 5.0
        self.vec = v / np.linalg.norm(v)
        self.vec2 = np.conj(self.vec[::-1]).copy()
        self.mats = [np.array(m, dtype=float) for m in case['mats']]
        self.cmats = [self.mats[0] + 1j * self.mats[1], self.mats[1] - 1j]
        self.adj = [[j for j in range(5) if j != i and (case['edges'][i][j] or case['edges'][j][i])] for i in range(5)]
        self.ints = list(case['ints'])
        self.labels = list(range(N))
        self.gens = [np.array([[-1.0]])] if self.lattice.dim == 1 else [-np.eye(2)]
        full = gen.all_strings(self.t, [0, 1], [0, 1, 2])
        self.full = gen.mk_basis(full)
        self.H = qosy.Operator([1.0, 0.5, -0.75], [gen.mk_os(s) for s in ([['Pauli', ['Z'], [0], 0], ['Pauli', ['Z'], [1], 0], ['Pauli', ['X', 'X'], [0, 1], 0]]
                                                                        if self.t == 'Pauli' else [['Majorana', ['D'], [0], 0], ['Majorana', ['D'], [1], 0], ['Majorana', ['A', 'B'], [0, 1], 0]])])

    def mat(self, i):
        return (self.mats + self.cmats)[i % 4]

    def snapshot(self):
        import qosy
        lt = self.lattice
        return dict(strings=[canon(s) for s in self.strings], ops=[raw_op(o) for o in self.ops + [self.H]], bases=[raw_basis(b) for b in self.bases + [self.full]],
                    perms=[self.perms, [p.tolist() for p in self.parrays], [list(map(int, p.info)) for p in self.P]],
                    lattice=[len(lt), [[p.tolist(), n, list(c)] for p, n, c in lt], [v.tolist() for v in lt.unit_cell.lattice_vectors],
                             [[np.array(p).tolist(), list(n)] for p, n in zip(lt.unit_cell.atom_positions, lt.unit_cell.atom_orbitals)], [int(x) for x in lt.num_cells],
                             [bool(x) for x in lt.periodic_boundaries]],
                    arrays=[[m.tobytes().hex(), m.dtype.str, list(m.shape)] for m in [self.vec, self.vec2] + self.mats + self.cmats], adj=[list(a) for a in self.adj], ints=list(self.ints), labels=list(self.labels),
                    gens=[g.tolist() for g in self.gens], tables=[sorted(map(repr, qosy.PRODUCT_DICT.items())), repr([qosy.PAULI_OPS, qosy.MAJORANA_OPS, qosy.FERMION_OPS, qosy.VALID_OPS])],
                    **process_state())


def process_state():
    s = np.random.get_state()
    return {'the numpy print options': repr(sorted(np.get_printoptions().items())), 'the numpy error handling': repr(np.geterr()), 'the warning filters': repr(warnings.filters),
            'the random state': hash(random.getstate()), 'the numpy random state': [hash(s[1].tobytes())] + list(s[2:]), 'the working directory': os.getcwd(),
            'the environment': hash(frozenset(os.environ.items())), 'the recursion limit': sys.getrecursionlimit()}


def raw_op(o):
    return [o.op_type, [str(s) for _, s in o], np.asarray(o.coeffs, dtype=complex).tobytes().hex(), raw_basis(o._basis)]


def raw_basis(b):
    return [[str(s) for s in b], [b.index(s) for s in b], len(b)]


# ---------------------------------------------------------------- canonical forms of results
def canon(x):
    import qosy
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {'re': float(np.real(x)), 'im': float(np.imag(x))}
    if isinstance(x, qosy.OperatorString):
        return 'S:{}:{}'.format(x.op_type, x)
    if isinstance(x, qosy.Operator):
        return {'op': x.op_type, 'terms': [[canon(s), canon(complex(c))] for c, s in x]}
    if isinstance(x, qosy.Basis):
        return {'basis': [canon(s) for s in x], 'at': [int(x.index(s)) for s in x]}
    if isinstance(x, qosy.Lattice):
        return {'lattice': [[canon(p), n, list(map(int, c))] for p, n, c in x]}
    if ss.issparse(x):
        return canon(x.toarray())
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'c' and x.ndim:
            return {'re': x.real.tolist(), 'im': x.imag.tolist(), 'shape': list(x.shape)}
        return [canon(y) for y in x] if x.ndim else canon(x.item())
    if isinstance(x, dict):
        return [[canon(k), canon(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [canon(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(canon(y) for y in x)
    raise TypeError('no canonical form of a {}'.format(type(x)))


def same(a, b, scale=1e-8):
    """Equality of canonical forms up to rounding."""
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= scale * (1 + abs(a))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class Span:
    """A result that is only defined up to a change of basis of its columns."""

    def __init__(self, vecs, rest=()):
        self.raw, self.rest = vecs, rest

    def canon(self):
        V = self.raw.toarray() if ss.issparse(self.raw) else np.array(self.raw)
        if V.shape[1] == 0:
            return [list(V.shape), canon(self.rest)]
        q, _ = np.linalg.qr(V)
        return [list(V.shape), canon(np.array(q @ q.conj().T, dtype=complex)), canon(self.rest)]


def spoil(x, keep):
    """Overwrite everything mutable in a result (strings, lattices and transformations are left alone)."""
    import qosy
    if isinstance(x, Span):
        spoil(x.raw, keep)
        spoil(x.rest, keep)
    elif id(x) in keep:
        return
    elif isinstance(x, qosy.Operator):
        x.coeffs = np.asarray(x.coeffs)
        x.coeffs[...] = 7.0
        x._basis += qosy.OperatorString([], [], x.op_type) if qosy.OperatorString([], [], x.op_type) not in x._basis else gen.mk_os([x.op_type, ['X' if x.op_type == 'Pauli' else 'A' if x.op_type == 'Majorana' else 'CDag'], [77], 0])
    elif isinstance(x, qosy.Basis):
        if len(x):
            t = x[0].op_type
            x += gen.mk_os([t, ['X' if t == 'Pauli' else 'A' if t == 'Majorana' else 'CDag'], [78], 0])
    elif ss.issparse(x):
        if hasattr(x, 'data') and isinstance(x.data, np.ndarray) and x.data.dtype.kind in 'fc':
            x.data[...] = 7.0
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fci':
            x[...] = 7
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, keep)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v, keep)
        if isinstance(x, list):
            x.clear()


# ---------------------------------------------------------------- the calls
def q():
    import qosy
    return qosy


def S(W, i): return W.strings[i % 3]
def O(W, i): return W.ops[i % 3]
def B(W, i): return W.bases[i % 2]
def MODE(i): return ['commutator', 'anticommutator'][i % 2]


@call
def string_product(W, a, b, c): return q().product(S(W, a), S(W, b))
@call
def string_commutator(W, a, b, c): return q().commutator(S(W, a), S(W, b))
@call
def operator_product(W, a, b, c): return q().product(O(W, a), O(W, b))
@call
def operator_commutator(W, a, b, c): return q().commutator(O(W, a), O(W, b))
@call
def operator_anticommutator(W, a, b, c): return q().anticommutator(O(W, a), O(W, b))
@call
def add(W, a, b, c): return O(W, a) + O(W, b)
@call
def subtract(W, a, b, c): return O(W, a) - O(W, b)
@call
def scale(W, a, b, c): return (0.5 + b) * O(W, a)
@call
def scale_right(W, a, b, c): return O(W, a) * (1j if b % 2 else 1.0)
@call
def negate(W, a, b, c): return -O(W, a)
@call
def norm(W, a, b, c): return O(W, a).norm(order=[None, 1, 2, np.inf][b % 4])
@call
def clean(W, a, b, c): return O(W, a).remove_zeros(tol=[1e-12, 1.0][b % 2])
@call
def to_basis_vector(W, a, b, c): return O(W, a).to_vector(O(W, a)._basis + B(W, b), fmt=['numpy', 'csc'][c % 2])
@call
def basis_sum(W, a, b, c): return B(W, a) + B(W, b)
@call
def basis_grow(W, a, b, c):
    r = q().Basis(list(B(W, a)))
    r += B(W, b)
    r += S(W, c)
    return r
@call
def operator_grow(W, a, b, c):
    r = q().Operator(op_type=W.t)
    r += O(W, a)
    r -= O(W, b)
    r += O(W, a)
    return r
@call
def operator_of_list(W, a, b, c):
    cs, oss = [float(i + 1) for i in range(len(B(W, a)))], list(B(W, a))
    return q().Operator(cs, oss)
@call
def conversion(W, a, b, c): return q().convert(O(W, a), ['Pauli', 'Majorana', 'Fermion'][b % 3] if W.t == 'Majorana' else ['Pauli', 'Majorana'][b % 2], include_identity=bool(c % 2))
@call
def string_conversion(W, a, b, c): return q().convert(S(W, a), 'Majorana' if W.t == 'Pauli' else ['Pauli', 'Fermion'][b % 2], include_identity=bool(c % 2))
@call
def basis_change(W, a, b, c): return q().conversion_matrix(B(W, a), q().cluster_basis(N, W.labels, 'Fermion' if W.t == 'Majorana' and c % 2 else ['Majorana', 'Pauli'][W.t == 'Majorana'], include_identity=True))
@call
def constants(W, a, b, c): return q().structure_constants(B(W, a), B(W, b), operation_mode=MODE(c), return_extended_basis=True)
@call
def liouvillian(W, a, b, c): return q().liouvillian_matrix(B(W, a), O(W, b), operation_mode=MODE(c), return_extended_basis=True)
@call
def liouvillian_of_operators(W, a, b, c): return q().liouvillian_matrix(list(W.ops), O(W, b), operation_mode=MODE(c), return_extended_basis=True)
@call
def commutant(W, a, b, c): return q().commutant_matrix(B(W, a), O(W, b), operation_mode=MODE(c))
@call
def lie_algebra(W, a, b, c): return q().generate_lie_algebra(q().Basis(list(B(W, a))[:3]))
@call
def lie_algebra_of_operators(W, a, b, c):
    h = [q().Operator(np.real(o.coeffs)[:n], list(o._basis)[:n], op_type=W.t) for o, n in ((O(W, a), 2), (O(W, b), 1))]
    r = q().generate_lie_algebra(h, tol=1e-8)
    return [len(r), r[:3]]
@call
def symmetry_of_operators(W, a, b, c):
    l = [q().Operator([1.0, 0.5], [x, y]) for x, y in zip(list(W.full)[1::2], list(W.full)[2::2])]
    return q().symmetry_matrix(l, q().label_permutation([1, 0]))
@call
def commuting_of_operators(W, a, b, c):
    l = [q().Operator([1.0, 0.5], [x, y]) for x, y in zip(list(W.full)[1::2], list(W.full)[2::2])]
    (v, m, e, _) = q().commuting_operators(l, W.H, operation_mode=MODE(c), return_superoperator=True)
    return Span(v, (m, np.sort(e)))
@call
def invariant_of_operators(W, a, b, c):
    l = [q().Operator([1.0, 0.5], [x, y]) for x, y in zip(list(W.full)[1::2], list(W.full)[2::2])]
    (v, m, e, _) = q().invariant_operators(l, q().time_reversal(), operation_mode=MODE(c), return_superoperator=True)
    return Span(v, (m, np.sort(e)))
@call
def ladder(W, a, b, c):
    from qosy.core import _ladder_operators
    with contextlib.redirect_stdout(io.StringIO()):
        (v, e) = _ladder_operators(W.full, W.H, return_operators=False)
    return Span(v, (np.sort(np.real(e)),)) if len(e) else None
@call
def space_group(W, a, b, c):
    L = q().lattice.chain(3, periodic=True, orbital_names=[[''], ['Up', 'Dn']][c % 2])
    return list(map(int, q().space_group_symmetry(L, np.array([[[1.0], [-1.0]][a % 2]]).reshape(1, 1), np.array([float(b % 3)])).info))
@call
def transform(W, a, b, c): return [W.T, W.P[b % 2], W.T * W.P[b % 2], W.P[b % 2] ** 2][c % 4].apply(O(W, a))
@call
def transform_string(W, a, b, c): return [W.T, W.P[b % 2], W.T * W.P[b % 2], W.P[b % 2] ** 2][c % 4].apply(S(W, a))
@call
def permutation(W, a, b, c): return q().label_permutation([W.perms[b % 2], W.parrays[b % 2]][c % 2]).apply(O(W, a))
@call
def own_permutation(W, a, b, c):
    # a transformation does not change with the list it was made from
    p = [list, np.array][c % 2](W.perms[b % 2])
    T = q().label_permutation(p)
    r = canon(T.apply(O(W, a)))
    p[0], p[1] = int(p[1]), int(p[0])
    require(same(r, canon(T.apply(O(W, a)))), 'a label permutation changed with the {} it was made from', type(p).__name__)
    return r
@call
def own_cell(W, a, b, c):
    # a unit cell does not add its atoms to the lists it was made from
    lists = [[np.eye(2)[0], np.eye(2)[1]], [np.zeros(2)], [['Up', 'Dn'][:1 + a % 2]]]
    cells = [q().UnitCell(*lists[:2 + b % 2]) if b % 2 else q().UnitCell(lists[0], lists[1], list(lists[2])) for _ in range(2)]
    cells[0].add_atom(np.array([0.5, 0.25]), ['Up'])
    require([len(x) for x in lists] == [2, 1, 1], 'adding an atom to a unit cell changed the lists it was made from to {}', lists)
    return [[[canon(p), n] for p, n in zip(x.atom_positions, x.atom_orbitals)] for x in cells]
@call
def symmetry(W, a, b, c): return q().symmetry_matrix(B(W, a), [W.T, W.P[b % 2]][c % 2])
@call
def commuting(W, a, b, c):
    (v, m, e, _) = q().commuting_operators(W.full, O(W, a) if b % 2 else W.H, operation_mode=MODE(c), return_superoperator=True)
    return Span(v, (m, np.sort(e)))
@call
def invariant(W, a, b, c):
    (v, m, e, _) = q().invariant_operators(W.full, q().label_permutation([1, 0]), operation_mode=MODE(c), return_superoperator=True)
    return Span(v, (m, np.sort(e)))
@call
def generator(W, a, b, c):
    g = q().SymmetricOperatorGenerator(W.full)
    g.add_symmetry(W.H)
    if a % 2:
        g.add_symmetry(q().label_permutation([1, 0]), operation_mode=MODE(b))
    mode = ['cumulative', 'noncumulative'][c % 2]
    r = g.generate(mode=mode, verbose=False)
    ops = g.projected_output_operators[-1] if hasattr(g, 'projected_output_operators') and len(g.projected_output_operators) else g.output_operators[-1]
    ops = ops if isinstance(ops, list) else []
    V = np.zeros((len(W.full), len(ops)), dtype=complex)
    for j, o in enumerate(ops):
        for x, s in o:
            V[W.full.index(s), j] += x
    return Span(V, ([len(x) for x in g.output_operators],))
@call
def clusters(W, a, b, c): return q().cluster_basis([1, 2, [2], [1, 3]][a % 4], W.labels, [W.t, 'Fermion'][b % 2], include_identity=bool(c % 2))
@call
def local_strings(W, a, b, c): return q().distance_basis(W.lattice, 1 + a % 2, [0.5, 1.0, 1.5][b % 3], W.t) if len(W.lattice) else None
@call
def lookup(W, a, b, c):
    (p, n, _) = list(W.lattice)[a % len(W.lattice)]
    return [W.lattice.index(p, n), W.lattice.index(p + 0.01, n), W.lattice.distance(a % len(W.lattice), b % len(W.lattice)), W.lattice.distance(p, p + 0.5)]
@call
def search(W, a, b, c):
    from qosy.algorithms import selected_ci, selected_ci_greedy, selected_ci_simple, selected_ci_greedy_simple
    f = [selected_ci_simple, selected_ci, selected_ci_greedy_simple, selected_ci_greedy][a % 4]
    start = q().Operator([1.0], [list(W.full)[b % len(W.full)]])
    with contextlib.redirect_stdout(io.StringIO()):
        (best, norm, ops, norms) = f(start, W.H, 1 + c % 2, **({} if a % 4 == 2 else dict(max_basis_size=8)))
    # eigenvectors of degenerate eigenvalues are not unique
    return [float(norm) if np.isfinite(norm) else 'none', [float(x) for x in norms], [[canon(s) for s in o._basis] for o in ops]]
@call
def drawing(W, a, b, c):
    import matplotlib.pyplot as plt
    try:
        plt.figure()
        if a % 2:
            q().plot(W.lattice, with_labels=bool(b % 2), with_unit_cell=bool(c % 2))
        else:
            for l in range(min(len(W.lattice), 3)):
                q().plot_opstring(q().OperatorString(['X'], [l], 'Pauli'), W.lattice, weight=[0.5, -1.0][b % 2])
        ax = plt.gca()
        return [[[float(x) for x in l.get_xdata()], [float(x) for x in l.get_ydata()], str(l.get_color())] for l in ax.lines] + [[t.get_text() for t in ax.texts]]
    finally:
        plt.close('all')
@call
def string_orbits(W, a, b, c): return q().symmetrize_basis(B(W, a), [W.P[0], W.P[1]][:1 + b % 2])
@call
def lattice_orbits(W, a, b, c): return q().symmetrize_lattice(W.lattice, W.gens, num_expansions=a % 2) if all(W.lattice.periodic_boundaries) else None
@call
def relabel(W, a, b, c): return q().relabel_orbitals(''.join('X {}\n'.format(i) for i in range(len(W.lattice))), W.lattice)
@call
def printed(W, a, b, c):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        q().print_operators(list(W.ops), keywords=[None, ['0'], ['X', 'A']][a % 3], norm_order=[None, 1][b % 2])
    return f.getvalue()
@call
def printed_vectors(W, a, b, c):
    n = len(B(W, a))
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        q().print_vectors(B(W, a), np.eye(n)[:, :2] + 0.5, norm_order=np.inf)
    return f.getvalue()
@call
def matrix(W, a, b, c): return q().to_matrix(q().convert(O(W, a), 'Pauli', include_identity=True), N)
@call
def vector_of_matrix(W, a, b, c): return q().to_vector(ss.csr_matrix(np.outer([W.vec, W.vec2][b % 2], W.vec.conj())), gen.mk_basis(gen.all_strings('Pauli', [0, 2])), N)
@call
def operator_of_matrix(W, a, b, c): return q().to_operator(ss.csr_matrix(np.outer(W.vec, W.vec.conj())), gen.mk_basis(gen.all_strings('Pauli', [0, 1], [1, 2])), N)
@call
def spectrum(W, a, b, c):
    o = O(W, a)
    h = q().Operator(np.real(o.coeffs), list(o._basis), op_type=W.t)
    return np.asarray(q().diagonalize(h, N)[0])
@call
def free_spectrum(W, a, b, c):
    if W.t == 'Pauli':
        return None
    (e0, e, _, _) = q().diagonalize_quadratic(W.H, N)
    return [float(e0), np.sort(e)]
@call
def tight_binding(W, a, b, c):
    op = q().Operator([1.0, 0.5, -0.25], [q().opstring('CDag 0 C 0'), q().opstring('CDag 1 C 0'), q().opstring('CDag 2 C 1')])
    return [np.asarray(q().diagonalize_quadratic_tightbinding(op, N)[0]), np.sort(q().diagonalize_bdg(op, N)[0])]
@call
def permuted_state(W, a, b, c): return q().apply_transformation(W.P[a % 2], [W.vec, W.vec2][b % 2], N)
@call
def reduced(W, a, b, c): return q().reduced_density_matrix([W.vec, W.vec2, (W.vec, W.vec2), (W.vec2, W.vec), (W.vec, W.vec)][c % 5], [[0], [1, 2], [2, 0], [], [0, 1, 2], [2, 1, 0]][a % 6], N)
@call
def entropy(W, a, b, c): return float(q().renyi_entropy(q().reduced_density_matrix(W.vec, [0, 1], N), n=2 + a % 3))
@call
def orthonormal(W, a, b, c): return q().gram_schmidt([W.mat(a), ss.csc_matrix(W.mat(a))][b % 2], tol=1e-9)
@call
def sparse_span(W, a, b, c):
    m = W.mat(a)
    if np.linalg.matrix_rank(m) < m.shape[1]:
        return None
    if m.shape[1] < 2:
        return None
    return Span(q().sparsify(m, orthogonalize=bool(b % 2)))
@call
def common_span(W, a, b, c):
    A, C = (W.mat(a), W.mat(b))
    if min(np.linalg.matrix_rank(A), np.linalg.matrix_rank(C)) < 3:
        A, C = (q().gram_schmidt(m, tol=1e-9) for m in (A, C))
    if 0 in (A.shape[1], C.shape[1]):
        return None
    return Span(q().intersection(A, C))
@call
def cliques(W, a, b, c): return sorted(sorted(int(x) for x in y) for y in q().maximal_cliques(W.adj))
@call
def components(W, a, b, c): return [sorted(int(x) for x in y) for y in q().connected_components(W.adj, mode=['DFS', 'BFS', None][a % 3])]
@call
def sort_with_sign(W, a, b, c): return q().sort_sign(W.ints, method=['insertionsort', 'mergesort'][a % 2])
@call
def sort_indices(W, a, b, c): return q().argsort(W.ints)
@call
def uniques(W, a, b, c): return q().remove_duplicates(W.ints)
@call
def composed(W, a, b, c): return q().compose_permutations([W.perms, W.parrays][c % 2][a % 2], [W.perms, W.parrays][c // 2 % 2][b % 2])
@call
def swapped(W, a, b, c): return q().swap('a b c d'[a % 4:], 'a', 'c') + q().replace('x1 x12 x3', {'x1': 'y', 'x12': 'z'})
@call
def parsed(W, a, b, c): return [q().opstring(str(S(W, a)), op_type=W.t), q().opstring('1.0 X 1 Y 2 '), q().opstring('1j CDag 3 C 1')]


def evaluate(W, c):
    r = CALLS[c[0]](W, *c[1:])
    return r, (r.canon() if isinstance(r, Span) else canon(r))


def shown(c):
    return '{}({}, {}, {})'.format(*c)


# ---------------------------------------------------------------- histories
@st.composite
def calls(draw, lo, hi):
    names = sorted(CALLS)
    some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4)) if draw(st.booleans()) else names
    arg = st.integers(0, 5)
    return [[draw(st.sampled_from(some)), draw(arg), draw(arg), draw(arg)] for _ in range(draw(st.integers(lo, hi)))]


def strat_history(tier):
    @st.composite
    def s(draw):
        c = draw(calls(3, 9))
        return dict(world=draw(world()), calls=c, order=draw(st.permutations(range(len(c)))))
    return s()


@contextlib.contextmanager
def settings():
    """Settings of the process that nobody would set by accident; the old ones are restored."""
    a, b = random.getstate(), np.random.get_state()
    with np.printoptions(precision=5, linewidth=71, threshold=900), np.errstate(under='warn'), warnings.catch_warnings():
        warnings.filterwarnings('ignore', message='a message nobody sends')
        random.seed(20191)
        np.random.seed(20191)
        try:
            yield process_state()
        finally:
            random.setstate(a)
            np.random.set_state(b)


def check_history(case, ev):
    with settings() as start:
        history(case, ev, start)


def history(case, ev, start):
    W = World(case['world'])
    now = process_state()
    require(now == start, 'building the objects changed {}', [k for k in start if start[k] != now[k]])
    before = W.snapshot()
    keep = set()
    first = []
    for c in case['calls']:
        raw, r = evaluate(W, c)
        first.append(r)
        after = W.snapshot()
        if after != before:
            fail('{} changed its arguments: {}', shown(c), [k for k in before if before[k] != after[k]])
        spoil(raw, keep)
        after = W.snapshot()
        if after != before:
            fail('changing the result of {} changes its arguments: {}', shown(c), [k for k in before if before[k] != after[k]])
    for c, r in reversed(list(zip(case['calls'], first))):
        raw, again = evaluate(W, c)
        require(same(r, again), '{} gave {} and, repeated after {} other calls, {}', shown(c), json.dumps(r)[:400], len(first), json.dumps(again)[:400])
        spoil(raw, keep)
    V = World(case['world'])
    for i in case['order']:
        c, r = case['calls'][i], first[i]
        _, again = evaluate(V, c)
        require(same(r, again), '{} gave {} and, for equal arguments in a different history, {}', shown(c), json.dumps(r)[:400], json.dumps(again)[:400])
    require(V.snapshot() == before, 'the arguments were changed')
    with np.printoptions(precision=3, suppress=True, floatmode='fixed', sign=' ', linewidth=40):
        for i in case['order']:
            c, r = case['calls'][i], first[i]
            _, again = evaluate(V, c)
            require(same(r, again), '{} gave {} and, with other print options of numpy, {}', shown(c), json.dumps(r)[:400], json.dumps(again)[:400])
    ev.label(*sorted(set(c[0] for c in case['calls'])))
    ev.nontrivial(len(case['calls']) >= 2 and any(r not in (None, []) for r in first))


# ---------------------------------------------------------------- other processes
WORKER = r'''
import sys, json, io, contextlib, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, {here!r})
sys.path.insert(0, {repo!r})
import numpy, scipy
import main; main.bootstrap()
from props import c33
out = sys.stdout
print('ready', flush=True)
for line in sys.stdin:
    case = json.loads(line)
    with contextlib.redirect_stdout(io.StringIO()):
        r = c33.remote(case)
    out.write(json.dumps(r) + '\n')
    out.flush()
'''
_workers = {}


def remote(case):
    W = World(case['world'])
    res = [None] * len(case['calls'])
    for i in case['order']:
        try:
            res[i] = evaluate(W, case['calls'][i])[1]
        except Exception as e:
            res[i] = 'raised {}: {}'.format(type(e).__name__, e)
    return res


def ask(seed, case):
    w = _workers.get(seed)
    if w is None or w[0] != os.getpid() or w[1].poll() is not None:
        import qosy
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        repo = os.path.dirname(os.path.dirname(os.path.abspath(qosy.__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.Popen([sys.executable, '-c', WORKER.format(here=here, repo=repo)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, bufsize=1)
        w = _workers[seed] = (os.getpid(), p)
        if not read(p, 120):
            raise Skip()
    p = w[1]
    p.stdin.write(json.dumps(case) + '\n')
    p.stdin.flush()
    line = read(p, 120)
    if not line:
        p.kill()
        raise Violation('no result from the process with hash seed {}'.format(seed))
    return json.loads(line)


def read(p, seconds):
    if not select.select([p.stdout], [], [], seconds)[0]:
        return None
    return p.stdout.readline()


def check_process(case, ev):
    here = remote(dict(case, order=list(range(len(case['calls'])))))
    for seed in (1, 2, 3):
        there = ask(seed, case)
        for c, a, b in zip(case['calls'], here, there):
            require(same(a, b), '{} gave {} here and {} in a process with hash seed {}', shown(c), json.dumps(a)[:400], json.dumps(b)[:400], seed)
    for c, a in zip(case['calls'], here):
        require(not (isinstance(a, str) and a.startswith('raised ')), '{} {}', shown(c), a)
    ev.label(*sorted(set(c[0] for c in case['calls'])))
    ev.nontrivial(len(case['calls']) >= 2 and any(r not in (None, []) for r in here))


PROP = Prop(
    'C33',
    'Pools of strings, operators, bases, permutations, a transformation, a lattice, a state, matrices and a graph, and sequences of 3-9 of {} kinds of calls over them. History: after each call the pool and the state of the process (numpy print options and error handling, warning filters, random states, environment) are compared with their '
    'snapshot, the result is overwritten and the pool compared again; the calls are repeated in reverse order over the same pool, and in another order over a rebuilt one, and have to give the same results (up to rounding, null spaces up to a '
    'change of basis). Process: the calls are made in three other processes with different hash seeds and other histories. Non-trivial: two or more calls with a result.'.format(len(CALLS)),
    [Sub('history', strat_history, check_history, 6000), Sub('process', strat_history, check_process, 2000)],
    ['strings, lattices and transformations in results are not overwritten, and arrays that a lattice hands out are not either'])
