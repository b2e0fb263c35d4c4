"""Calls with one contradiction among well-formed arguments must raise; the same call without it must not."""
import contextlib
import io
import warnings
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import lat

JUNK = [5, 2.5, 'X 1', None, 1j, ('X', 1), {'a': 1}, 'foo']
MODES = ['foo', 'comm', 'Commutator', 'anti-commutator', '', 'anti', 'COMMUTATOR', 'commutators']
TYPES = ['Spin', 'pauli', '', 'Boson', 'majorana', 'Paulis', 'Fermions', None]
OPS = {'Pauli': ['X', 'Y', 'Z'], 'Majorana': ['A', 'B', 'D'], 'Fermion': ['CDag', 'C']}
PF = {'Pauli': [1j, -1, 2.0, -1j, 0.5, 0.0], 'Majorana': [-1, 2.0, -1j, 0.5, 0.0], 'Fermion': [-1, 2.0, -1j, 0.5, 0.0]}

KINDS = {}


def kind(*types, **kw):
    def deco(f):
        KINDS[f.__name__] = (f, types or ('Pauli', 'Majorana', 'Fermion'))
        return f
    return deco


class Mat:
    """The generated material of a case, as fresh qosy objects."""

    def __init__(self, case):
        import qosy
        self.q = qosy
        self.case = case
        self.t, self.t2 = case['t'], case['t2']
        self.n = case['n']
        self.k = case['k']
        self.string = case['string']
        self.other = case['other']
        self.strings = case['strings']
        self.watch = []

    def pick(self, xs, i=0):
        return xs[self.k[i] % len(xs)]

    def os(self, s=None):
        return self.keep(gen.mk_os(s or self.string))

    def basis(self, strings=None):
        return self.keep(gen.mk_basis(strings or self.strings))

    def op(self, which='A'):
        return self.keep(gen.mk_op(self.case[which]))

    def bos(self, which='A'):
        return gen.mk_op(self.case[which])

    def keep(self, x):
        self.watch.append((x, snap(x)))
        return x

    def perm(self):
        return list(self.case['perm'])

    def lattice(self):
        return lat.build(self.case['lattice'])


def snap(x):
    import qosy
    if isinstance(x, (qosy.Operator, qosy.Basis, qosy.OperatorString)):
        return type(x).__name__, str(x), getattr(x, 'op_type', None)
    if isinstance(x, np.ndarray):
        return x.dtype, x.shape, x.tobytes()
    if isinstance(x, qosy.Lattice):
        return [(tuple(p), nm, tuple(c)) for p, nm, c in x]
    if isinstance(x, (list, tuple)):
        return type(x), [snap(y) for y in x]
    return repr(x)


PAM = ('Pauli', 'Majorana')


# ---- strings
@kind()
def string_counts(m):
    t, ops, labels, pf = m.string
    if len(ops) < 1:
        raise Skip()
    bad = m.pick([list(labels)[:-1], list(labels) + [max(labels) + 1]])
    p = 1j if pf else 1.0
    return lambda: m.q.OperatorString(list(ops), bad, t, prefactor=p) if t == 'Fermion' else m.q.OperatorString(list(ops), bad, t), \
        lambda: m.q.OperatorString(list(ops), list(labels), t, prefactor=p) if t == 'Fermion' else m.q.OperatorString(list(ops), list(labels), t)


@kind()
def string_type(m):
    t, ops, labels, pf = m.string
    return lambda: m.q.OperatorString(list(ops), list(labels), m.pick(TYPES)), lambda: m.q.OperatorString(list(ops), list(labels), t)


@kind()
def string_foreign(m):
    t, ops, labels, pf = m.string
    if not ops:
        raise Skip()
    bad = list(ops)
    bad[m.k[0] % len(ops)] = m.pick(OPS[m.t2] + ['Q', 'x', 'I', 'c', ''], 1)
    return lambda: m.q.OperatorString(bad, list(labels), t), lambda: m.q.OperatorString(list(ops), list(labels), t)


@kind()
def string_other_type(m):
    t, ops, labels, pf = m.string
    if not ops:
        raise Skip()
    return lambda: m.q.OperatorString(list(ops), list(labels), m.t2), lambda: m.q.OperatorString(list(ops), list(labels), t)


@kind()
def string_prefactor(m):
    t, ops, labels, pf = m.string
    bad = m.pick(PF[t])
    if t == 'Majorana':
        # the prefactor of a Majorana string is determined by its operators: a wrong one may be replaced by the right one
        def call():
            try:
                os = m.q.OperatorString(list(ops), list(labels), t, prefactor=bad)
            except ValueError:
                raise
            if ref.close(ref.os_poly(os), gen.ref_os(m.string)):
                raise ValueError('replaced')
        return call, lambda: m.q.OperatorString(list(ops), list(labels), t)
    return lambda: m.q.OperatorString(list(ops), list(labels), t, prefactor=bad), lambda: m.q.OperatorString(list(ops), list(labels), t)


@kind('Pauli', 'Majorana')
def string_repeated_label(m):
    t, ops, labels, pf = m.string
    if not ops:
        raise Skip()
    i = m.k[0] % len(ops)
    bad = list(labels)[:i + 1] + list(labels)[i:]
    bops = list(ops)[:i + 1] + [m.pick(OPS[t], 1)] + list(ops)[i + 1:]
    return lambda: m.q.OperatorString(bops, bad, t), lambda: m.q.OperatorString(list(ops), list(labels), t)


@kind()
def name_invalid(m):
    t, ops, labels, pf = m.string
    name = str(gen.mk_os(m.string)).strip()
    if not ops:
        raise Skip()
    body = ' '.join('{} {}'.format(o, l) for o, l in zip(ops, labels))
    i = m.k[0] % len(ops)
    mixed = ' '.join('{} {}'.format(m.pick(OPS[m.t2], 1) if j == i else o, l) for j, (o, l) in enumerate(zip(ops, labels)))
    choices = [body + ' ' + ops[-1], '2 ' + body, '-1 ' + body, '1j 1j ' + body, 'Q ' + body, '0.5 ' + body]
    if len(ops) > 1:
        choices += [mixed, mixed, mixed]
    if t == 'Pauli':
        choices.append('1j ' + body)
    bad = m.pick(choices, 2)
    return lambda: m.q.opstring(bad), lambda: m.q.opstring(name)


@kind()
def name_type(m):
    t, ops, labels, pf = m.string
    if not ops:
        bad = m.pick(['', 'I', '1', '1.0'])
        return lambda: m.q.opstring(bad), lambda: m.q.opstring(bad, t)
    name = str(gen.mk_os(m.string))
    return lambda: m.q.opstring(name, m.t2), lambda: m.q.opstring(name, t)


# ---- bases and operators
@kind()
def basis_repeated(m):
    oss = [gen.mk_os(s) for s in m.strings]
    i, j = m.k[0] % len(oss), m.k[1] % (len(oss) + 1)
    bad = oss[:j] + [gen.mk_os(m.strings[i])] + oss[j:]
    m.keep(bad)
    return lambda: m.q.Basis(bad), lambda: m.q.Basis(oss)


@kind()
def basis_objects(m):
    oss = [gen.mk_os(s) for s in m.strings]
    j = m.k[0] % (len(oss) + 1)
    bad = oss[:j] + [m.pick([x for x in JUNK if not isinstance(x, dict)], 1)] + oss[j:]
    return lambda: m.q.Basis(bad), lambda: m.q.Basis(oss)


@kind()
def basis_add(m):
    b = m.basis()
    x = m.pick(JUNK + [m.bos(), [gen.mk_os(m.string)]])

    def iadd():
        c = b
        c += x
    return (lambda: b + x) if m.k[1] % 2 else iadd, lambda: gen.mk_basis(m.strings) + gen.mk_os(m.string)


@kind()
def operator_counts(m):
    oss = [gen.mk_os(s) for s in m.strings]
    c = np.arange(1.0, len(oss) + 1)
    bad = m.pick([c[:-1], np.append(c, 2.0), np.append(c, 0.0), list(c) + [1.0, 2.0]])
    m.keep(oss)
    form = (lambda x: m.q.Basis(x)) if m.k[1] % 2 else (lambda x: x)
    return lambda: m.q.Operator(bad, form(oss)), lambda: m.q.Operator(c, form(oss))


@kind()
def operator_mixed(m):
    oss = [gen.mk_os(s) for s in m.strings]
    i = m.k[0] % (len(oss) + 1)
    bad = oss[:i] + [gen.mk_os(m.other)] + oss[i:]
    form = (lambda x: m.q.Basis(x)) if m.k[1] % 2 else (lambda x: x)
    return lambda: m.q.Operator(np.ones(len(bad)), form(bad)), lambda: m.q.Operator(np.ones(len(oss)), form(oss))


@kind()
def operator_type(m):
    oss = [gen.mk_os(s) for s in m.strings]
    return lambda: m.q.Operator(np.ones(len(oss)), oss, op_type=m.pick([m.t2, m.t2, 'Spin', 'pauli'])), lambda: m.q.Operator(np.ones(len(oss)), oss, op_type=m.t)


@kind()
def operator_repeated(m):
    oss = [gen.mk_os(s) for s in m.strings]
    i = m.k[0] % len(oss)
    bad = oss + [gen.mk_os(m.strings[i])]
    return lambda: m.q.Operator(np.ones(len(bad)), bad), lambda: m.q.Operator(np.ones(len(oss)), oss)


@kind()
def operator_empty(m):
    return m.pick([lambda: m.q.Operator(), lambda: m.q.Operator([], []), lambda: m.q.Operator([], m.q.Basis()), lambda: m.q.Operator(op_type='Spin'), lambda: m.q.Operator([], [], op_type='pauli')]), \
        lambda: m.q.Operator(op_type=m.t)


@kind()
def operator_strings(m):
    bad = m.pick([5, 'X 1', {'X': 1}, (gen.mk_os(m.string),), gen.mk_os(m.string)])
    return lambda: m.q.Operator([1.0], bad), lambda: m.q.Operator([1.0], [gen.mk_os(m.string)])


@kind()
def operator_sum_types(m):
    a, b = m.op('A'), m.op('P')
    if m.k[1] % 3 == 0:
        b = m.keep(m.q.Operator(op_type=m.t2))
    c = m.bos('B')

    def iadd():
        x = a
        x += b

    def isub():
        x = a
        x -= b
    return m.pick([lambda: a + b, lambda: a - b, lambda: b + a, lambda: b - a, iadd, isub]), lambda: (a + c, a - c)


@kind()
def operator_sum_objects(m):
    a = m.op('A')
    x = m.pick(JUNK + [gen.mk_os(m.string), gen.mk_basis(m.strings)])

    def iadd():
        y = a
        y += x
    return m.pick([lambda: a + x, lambda: a - x, iadd], 1), lambda: a + m.bos('B')


@kind()
def operator_times(m):
    a = m.op('A')
    x = m.pick(['a', m.bos('B'), gen.mk_os(m.string), None, gen.mk_basis(m.strings), {}])
    return m.pick([lambda: a * x, lambda: x * a], 1), lambda: (a * 2.0, 2j * a)


@kind()
def operator_vector(m):
    a = m.op('A')
    have = [s for _, _, s in m.case['A'][1]]
    basis = m.basis(have)
    i = m.k[0] % len(have)
    missing = [s for j, s in enumerate(have) if j != i]
    choices = [lambda: a.to_vector(basis, fmt=m.pick(['dense', 'list', '', 'CSC', 'numpyy'], 1)), lambda: a.to_vector(gen.mk_basis([m.other]))]
    if missing:
        small = m.basis(missing)
        choices += [lambda: a.to_vector(small), lambda: a.to_vector(small, fmt='csc')]
    return m.pick(choices, 2), lambda: (a.to_vector(basis), a.to_vector(basis, fmt='csc'))


@kind()
def basis_missing(m):
    b = m.basis()
    oss = [repr(s) for s in m.strings]
    if repr(m.string) in oss:
        raise Skip()
    x = m.os(m.pick([m.string, m.other]))
    return lambda: b.index(x), lambda: b.index(gen.mk_os(m.strings[m.k[0] % len(m.strings)]))


# ---- algebra
ALG = ['product', 'commutator', 'anticommutator']


@kind(*PAM)
def algebra_types(m):
    f = getattr(m.q, m.pick(ALG))
    if m.k[1] % 2:
        a, b, c = m.os(), m.os(m.other), gen.mk_os(m.strings[0])
    else:
        a, b, c = m.op('A'), m.op('P'), m.bos('B')
        if m.k[1] % 3 == 0:
            b = m.keep(m.q.Operator(op_type=m.t2))
    return (lambda: f(a, b)) if m.k[2] % 2 else (lambda: f(b, a)), lambda: f(a, c)


@kind(*PAM)
def algebra_objects(m):
    f = getattr(m.q, m.pick(ALG))
    if m.k[1] % 2:
        a, b, c = m.os(), m.pick(JUNK + [m.bos('B'), gen.mk_basis(m.strings)], 2), gen.mk_os(m.strings[0])
    else:
        a, b, c = m.op('A'), m.pick(JUNK + [gen.mk_os(m.string), gen.mk_basis(m.strings)], 2), m.bos('B')
    return (lambda: f(a, b)) if m.k[3] % 2 else (lambda: f(b, a)), lambda: f(a, c)


def algebra_calls(m, basis, op, T=None):
    """Functions of (basis, operator, mode) of the library."""
    q = m.q
    return [lambda mode: q.structure_constants(basis, gen.mk_basis([s for _, _, s in m.case['A'][1]]), operation_mode=mode),
            lambda mode: q.liouvillian_matrix(basis, op, operation_mode=mode),
            lambda mode: q.commutant_matrix(basis, op, operation_mode=mode),
            lambda mode: q.commuting_operators(basis, op, operation_mode=mode),
            lambda mode: generator(m, basis, op, mode)]


def generator(m, basis, sym, mode='commutator', how='cumulative'):
    g = m.q.SymmetricOperatorGenerator(basis)
    g.add_symmetry(sym, operation_mode=mode)
    g.generate(verbose=False, mode=how)
    return g


@kind(*PAM)
def algebra_mode(m):
    b = m.basis() if m.k[1] % 2 else m.keep([m.bos('B')])
    a = m.op('A')
    fs = algebra_calls(m, b, a)
    if not m.k[1] % 2:
        fs = fs[1:4]
    f = m.pick(fs)
    return lambda: f(m.pick(MODES, 2)), lambda: (f('commutator'), f('anticommutator'))


@kind(*PAM)
def algebra_bases(m):
    """A basis of one type with an operator of another."""
    q = m.q
    b = m.basis()
    p = m.op('P')
    if not m.case['P'][1]:
        raise Skip()
    good = m.bos('A')
    pb = gen.mk_basis([s for _, _, s in m.case['P'][1]])
    gb = gen.mk_basis([s for _, _, s in m.case['A'][1]])
    calls = [(lambda x: q.liouvillian_matrix(b, x), p, good), (lambda x: q.commutant_matrix(b, x), p, good), (lambda x: q.commuting_operators(b, x), p, good),
             (lambda x: q.structure_constants(b, x), pb, gb), (lambda x: q.structure_constants(x, b), pb, gb), (lambda x: generator(m, b, x), p, good),
             (lambda x: q.liouvillian_matrix([m.bos('B')], x), p, good), (lambda x: q.core._ladder_operators(b, x), p, None), (lambda x: generator(m, b, x, how='noncumulative'), p, good)]
    f, bad, ok = m.pick(calls)
    return lambda: f(bad), (lambda: f(ok)) if ok is not None else None


@kind(*PAM)
def algebra_basis_objects(m):
    q = m.q
    a = m.op('A')
    x = m.pick([5, 'X 1', None, 2.5, {'a': 1}, [5], ['X'], [gen.mk_os(m.string)], gen.mk_os(m.string)], 1)
    b = gen.mk_basis(m.strings)
    T = q.label_permutation(m.perm())
    f = m.pick([lambda y: q.liouvillian_matrix(y, a), lambda y: q.commutant_matrix(y, a), lambda y: q.commuting_operators(y, a), lambda y: q.symmetry_matrix(y, T), lambda y: q.invariant_operators(y, T)])
    return lambda: f(x), lambda: f(b)


@kind(*PAM)
def symmetry_objects(m):
    """A symmetry that is neither an Operator nor a Transformation."""
    q = m.q
    b = m.basis()
    x = m.pick([5, 'X 1', None, gen.mk_os(m.string), gen.mk_basis(m.strings), [m.bos()]], 1)
    a = m.bos('A')
    T = q.label_permutation(m.perm())
    how = m.pick(['cumulative', 'noncumulative'], 2)
    f, ok = m.pick([(lambda y: q.commuting_operators(b, y), a), (lambda y: q.invariant_operators(b, y), T), (lambda y: q.symmetry_matrix(b, y), T), (lambda y: generator(m, b, y, how=how), a),
                    (lambda y: q.liouvillian_matrix(b, y), a)])
    return lambda: f(x), lambda: f(ok)


@kind(*PAM)
def invariant_mode(m):
    q = m.q
    b = m.basis()
    T = q.label_permutation(m.perm())
    f = m.pick([lambda mode: q.invariant_operators(b, T, operation_mode=mode), lambda mode: generator(m, b, T, mode), lambda mode: generator(m, b, T, mode, 'noncumulative')])
    return lambda: f(m.pick(MODES, 1)), lambda: (f('commutator'), f('anticommutator'))


@kind(*PAM)
def generator_mode(m):
    b = m.basis()
    a = m.op('A')
    return lambda: generator(m, b, a, how=m.pick(['foo', '', 'Cumulative', 'non-cumulative', None, 'all'])), lambda: (generator(m, b, a), generator(m, b, a, how='noncumulative'))


# ---- conversion
@kind()
def convert_type(m):
    x = m.pick([lambda: m.os(), lambda: m.op('A')])()
    to = m.pick(['Spin', 'pauli', '', 'Boson', None, 'Paulis', 5], 1)
    return lambda: m.q.convert(x, to), lambda: m.q.convert(x, m.t)


@kind()
def convert_object(m):
    x = m.pick(JUNK + [gen.mk_basis(m.strings), [m.bos()]])
    return lambda: m.q.convert(x, m.t), lambda: m.q.convert(m.bos(), m.t)


# ---- transformations
@kind(*PAM)
def permutation_invalid(m):
    p = m.perm()
    i, j = m.k[0] % len(p), m.k[1] % len(p)
    bad = list(p)
    how = m.k[2] % 4
    if how == 0:
        if i == j:
            raise Skip()
        bad[i] = bad[j]
    elif how == 1:
        bad[i] = len(p) + m.k[1] % 3
    elif how == 2:
        bad[i] = -1 - m.k[1] % 3
    else:
        bad = [x + 1 for x in bad]
    arr = (lambda x: np.array(x)) if m.k[3] % 2 else list
    return lambda: m.q.label_permutation(arr(bad)), lambda: m.q.label_permutation(arr(p))


@kind(*PAM)
def apply_outside(m):
    """A permutation applied to orbitals it does not permute."""
    p = m.perm()
    T = m.q.label_permutation(p)
    l = len(p) + m.k[0] % 3
    s = [m.t, list(m.string[1]) + [m.pick(OPS[m.t], 1)], list(m.string[2]) + [l], 0]
    if m.string[2] and max(m.string[2]) >= len(p):
        raise Skip()
    bad = m.os(s)
    return lambda: T.apply(bad), lambda: T.apply(gen.mk_os(m.string))


def transformations(m):
    q = m.q
    L = lat.build(m.case['spinful'])
    return {'perm': q.label_permutation(list(range(12))), 'time': q.time_reversal(), 'spin-time': q.time_reversal(L), 'ph': q.particle_hole(), 'cc': q.charge_conjugation(), 'parity': q.spin_parity_symmetry(L)}


@kind('Fermion')
def transform_fermion(m):
    T = transformations(m)
    x = m.pick([lambda: m.os(), lambda: m.op('A')])()
    if not m.string[1] or max(m.string[2]) >= 12 or any(max(s[2] + [0]) >= 12 or not s[1] for _, _, s in m.case['A'][1]):
        raise Skip()
    name = m.pick(['perm', 'time', 'ph', 'cc', 'parity'], 1)
    return lambda: T[name].apply(x), lambda: T[name].apply(m.q.opstring('A 0 B 1'))


@kind('Pauli')
def transform_pauli(m):
    T = transformations(m)
    x = m.os()
    if not m.string[1]:
        raise Skip()
    name = m.pick(['ph', 'cc', 'parity'])
    return lambda: T[name].apply(x), lambda: T[name].apply(m.q.opstring('A 0 B 1'))


@kind(*PAM)
def transform_object(m):
    T = transformations(m)[m.pick(['perm', 'time', 'ph', 'cc', 'parity', 'spin-time'])]
    x = m.pick(JUNK + [gen.mk_basis(m.strings), [m.bos()]], 1)
    return lambda: T.apply(x), lambda: T.apply(m.q.opstring('A 0 B 1'))


@kind(*PAM)
def transform_power(m):
    T = transformations(m)[m.pick(['perm', 'time', 'ph'])]
    x = m.pick([-1, -2, 0.5, 1.5, 'a', None, 1j, 2.5], 1)
    return lambda: T ** x, lambda: (T ** 2, T ** 0)


@kind(*PAM)
def transform_product(m):
    T = transformations(m)[m.pick(['perm', 'time', 'ph'])]
    x = m.pick([5, 'a', None, m.bos(), gen.mk_os(m.string)], 1)
    return lambda: T * x, lambda: T * T


@kind(*PAM)
def transform_lattice(m):
    """A lattice without the required spin partners or symmetry."""
    q = m.q
    L = m.keep(lat.build(m.case['spinful']))
    how = m.k[0] % 4
    c = dict(m.case['spinful'])
    if how == 0:
        names = m.pick([['Up'], ['Dn'], ['Up', 'Up2'], ['Up', 'A'], ['Dn', 'X']], 1)
        c['atoms'] = [c['atoms'][0][:1] + [names]] + c['atoms'][1:]
        bad = lat.build(c)
        return lambda: q.spin_flip_symmetry(bad), lambda: q.spin_flip_symmetry(L)
    if how == 1:
        c['atoms'] = [c['atoms'][0][:1] + [m.pick([['Up'], ['Dn']], 1)]] + c['atoms'][1:]
        bad = lat.build(c)
        return lambda: q.time_reversal(bad), lambda: q.time_reversal(L)
    if how == 2:
        bad = m.pick([5, 'Up', ('Up', 'Dn'), (L, 'Up'), [L]], 1)
        return lambda: q.time_reversal(bad), lambda: q.time_reversal((L, 'Up', 'Dn'))
    # a translation by a fraction of a cell, or by a full cell along an open direction
    dim = len(c['V'])
    d = 0.37 * np.array(c['V'][m.k[1] % dim])
    ax = m.k[1] % dim
    if m.k[2] % 2 and not c['periodic'][ax]:
        d = np.array(c['V'][ax], dtype=float)
    return lambda: q.space_group_symmetry(L, np.eye(dim), d), lambda: q.space_group_symmetry(L, np.eye(dim), np.zeros(dim))


# ---- matrices and states
@kind('Pauli')
def matrix_outside(m):
    q = m.q
    labs = [l for _, _, s in m.case['A'][1] for l in s[2]]
    if not labs or max(labs) > 5 or len(m.case['A'][1]) < 1:
        raise Skip()
    n = max(labs) + 1
    a = m.op('A')
    bad = m.k[0] % n
    good = n + m.k[2] % 2
    B = gen.mk_basis([s for _, _, s in m.case['A'][1]])
    f = m.pick([lambda k: q.to_matrix(a, k), lambda k: q.diagonalize(a, k), lambda k: [q.to_matrix(os, k) for _, os in a], lambda k: q.to_vector(np.eye(2 ** k), B, k)], 1)
    return lambda: f(bad), lambda: f(good)


@kind('Majorana', 'Fermion')
def matrix_type(m):
    x = m.pick([lambda: m.os(), lambda: m.op('A')])()
    labs = [l for _, _, s in m.case['A'][1] for l in s[2]] + list(m.string[2]) + [0]
    if max(labs) > 5:
        raise Skip()
    n = max(labs) + 1
    if m.k[1] % 3 == 0:
        x = m.pick(JUNK, 2)
    return lambda: m.q.to_matrix(x, n), lambda: m.q.to_matrix(m.q.Operator([1.0], [m.q.opstring('X 0')]), n)


@kind('Pauli', 'Majorana', 'Fermion')
def quadratic_type(m):
    """Operators that are not quadratic, not of the right type or act outside of the orbitals."""
    q = m.q
    fs = {'quad': q.diagonalize_quadratic, 'bdg': q.diagonalize_bdg, 'tb': q.diagonalize_quadratic_tightbinding}
    names = ['quad', 'bdg', 'tb']
    i, j = sorted([m.k[0] % 4, (m.k[0] + 1 + m.k[1] % 3) % 4])
    good = {'quad': q.Operator([0.5, 1.0], [q.opstring('A {} B {}'.format(i, j)), q.opstring('D {}'.format(i))]),
            'bdg': q.Operator([0.5, 1.0], [q.opstring('CDag {} C {}'.format(j, i)), q.opstring('CDag {} C {}'.format(i, i))]),
            'tb': q.Operator([0.5, 1.0], [q.opstring('CDag {} C {}'.format(j, i)), q.opstring('CDag {} C {}'.format(i, i))])}
    name = m.pick(names, 2)
    f = fs[name]
    how = m.k[3] % 4
    n = 5
    if how == 0:
        x = q.Operator([1.0], [q.opstring('X {}'.format(i))])
    elif how == 1:
        if name == 'quad':
            x = good['quad'] + q.Operator([0.7], [q.opstring(m.pick(['D 0 D 1', 'A 0 D 2', 'A 1', 'A 0 B 1 A 2', 'A 0 A 1 B 2 B 3', 'D 0 D 1 D 2'], 4))])
        else:
            x = good[name] + q.Operator([0.7], [q.opstring(m.pick(['CDag 0 CDag 1 C 1 C 0', 'CDag 1', 'CDag 0 CDag 1 C 2', 'CDag 0 CDag 1 CDag 2 C 3'], 4))])
    elif how == 2:
        if name != 'tb':
            raise Skip()
        x = good['tb'] + q.Operator([0.7], [q.opstring('CDag {} CDag {}'.format(i, j))])
    else:
        x = good[name]
        n = 1 + m.k[4] % (j)
        if n > j:
            raise Skip()
    m.keep(x)
    return lambda: f(x, n), lambda: f(good[name], 5)


@kind('Pauli')
def state_sizes(m):
    q = m.q
    p = m.perm()
    n = len(p)
    if n > 5:
        raise Skip()
    v = np.zeros(2 ** n, dtype=complex)
    v[m.k[0] % 2 ** n] = 1.0
    m.keep(v)
    T = q.label_permutation(p)
    bad = m.pick([lambda: q.apply_transformation(T, v, n - 1), lambda: q.apply_transformation(T, np.append(v, v), n + 1), lambda: q.apply_transformation(q.time_reversal(), v, n),
                  lambda: q.reduced_density_matrix(v, [n], n), lambda: q.reduced_density_matrix(v, [0, n + m.k[2] % 3], n)], 1)
    return bad, lambda: (q.apply_transformation(T, v, n), q.reduced_density_matrix(v, [n - 1], n))


# ---- bases from clusters, lattices, tools, printing
@kind()
def cluster_invalid(m):
    q = m.q
    labels = m.case['pool']
    k = 1 + m.k[0] % len(labels)
    how = m.k[1] % 3
    bad_t = m.pick([x for x in TYPES if x is not None], 2)
    if how == 0:
        return lambda: q.cluster_basis(k, labels, bad_t), lambda: q.cluster_basis(k, labels, m.t)
    if how == 1:
        bad = m.pick(['1', 1.5, None, {'a': 1}], 2)
        return lambda: q.cluster_basis(bad, labels, m.t), lambda: q.cluster_basis(k, labels, m.t)
    L = lat.build(m.case['lattice'])
    R = 1.0
    return lambda: q.distance_basis(L, 1, R, bad_t), lambda: q.distance_basis(L, 1, R, m.t)


@kind('Pauli')
def lattice_invalid(m):
    q = m.q
    c = m.case['lattice']
    dim = len(c['V'])
    good = lat.build(c)
    uc = good.unit_cell
    cells = list(c['cells'])
    if m.k[0] % 2:
        bad = m.pick([cells[:-1], cells + [2]], 1)
        return lambda: q.Lattice(uc, bad), lambda: q.Lattice(uc, cells)
    per = list(c['periodic'])
    badp = m.pick([per[:-1], per + [True]], 1)
    return lambda: q.Lattice(uc, cells, periodic_boundaries=badp), lambda: q.Lattice(uc, cells, periodic_boundaries=per)


@kind('Pauli')
def lattice_label(m):
    L = m.keep(lat.build(m.case['lattice']))
    N = len(L)
    bad = N + m.k[0] % 4
    return m.pick([lambda: L.distance(0, bad), lambda: L.distance(bad, 0), lambda: L.position(bad)], 1), lambda: (L.distance(0, N - 1), L.position(N - 1))


@kind(*PAM)
def vectors_size(m):
    q = m.q
    b = m.basis()
    n = len(m.strings)
    V = m.keep(np.ones((n, 2)))
    W = m.keep(np.ones((max(0, n + m.pick([-1, 1, 2])), 2)))
    which = m.k[1] % 2
    if which:
        return lambda: q.print_vectors(b, W), lambda: q.print_vectors(b, V)
    A, B = m.keep(np.eye(n + 1)), W
    if W.shape[0] == n + 1:
        B = m.keep(np.eye(n + 2))
    return lambda: q.intersection(A, B), lambda: q.intersection(A, A)


@kind()
def printing_type(m):
    a = m.keep([m.bos('A')])
    return lambda: m.q.print_operators(a, convert_to=m.pick(['Spin', 'pauli', 'Boson'])), lambda: m.q.print_operators(a, convert_to=m.t)


@kind(*PAM)
def lie_objects(m):
    q = m.q
    x = m.pick([5, 'X', None, {'a': 1}, m.bos()], 1)
    ok = gen.mk_basis([['Pauli', [o], [0], 0] for o in 'XYZ'])
    return lambda: q.generate_lie_algebra(x), lambda: q.generate_lie_algebra(ok)


@kind(*PAM)
def ladder_objects(m):
    q = m.q
    a = m.op('A')
    x = m.pick([5, 'X', None, [m.bos('B')], [], gen.mk_os(m.string)], 1)
    f = m.pick([lambda y: q.core._ladder_operators(y, a), lambda y: q.core._inverse_ladder_operators(y, a)])
    return lambda: f(x), None


@kind('Pauli')
def sort_method(m):
    v = m.keep(m.perm())
    bad = m.pick(['quick', '', None, 'Insertionsort', 'bubble'], 1)
    return lambda: m.q.sort_sign(v, method=bad), lambda: m.q.sort_sign(v)


@st.composite
def material(draw, names):
    k = draw(st.sampled_from(names))
    t = draw(st.sampled_from(KINDS[k][1]))
    t2 = draw(st.sampled_from([x for x in ('Pauli', 'Majorana', 'Fermion') if x != t]))
    pool = draw(st.sampled_from([[0, 1], [0, 1, 2], [0, 2, 3], [1, 4, 5], [0, 1, 2, 3]]))
    dim = draw(st.sampled_from([1, 1, 2]))
    sp = dict(V=np.eye(dim).tolist(), atoms=[[[0] * dim, ['Up', 'Dn']]] + ([[[6] * dim, ['Up', 'Dn']]] if draw(st.booleans()) else []),
              cells=[draw(st.integers(2, 4)) for _ in range(dim)], periodic=[draw(st.booleans()) for _ in range(dim)], form=1)
    string = gen.string(t, pool)
    if k.split('_')[0] in ('string', 'name') and draw(st.integers(0, 4)) == 0:
        # long strings
        big = list(range(draw(st.integers(9, 24))))
        string = gen.fermion_string(big, max_cdag=len(big)) if t == 'Fermion' else gen.pm_string(t, big, min_ops=9)
    return dict(kind=k, t=t, t2=t2, n=len(pool), pool=pool, k=draw(st.lists(st.integers(0, 59), min_size=5, max_size=5)),
                string=draw(string), other=draw(gen.string(t2, pool, min_ops=1)), strings=draw(gen.strings_list(t, pool, max_size=5, max_ops=3)),
                A=draw(gen.operator(t, pool, min_ops=1, max_ops=3)), B=draw(gen.operator(t, pool, min_ops=1, max_ops=3)), P=draw(gen.operator(t2, pool, min_ops=1, max_ops=3)),
                perm=draw(st.permutations(list(range(draw(st.integers(max(pool) + 1, 6)))))), spinful=sp, lattice=draw(lat.lattice(max_orbitals=8, max_cells=4)))


def strat_for(prefixes):
    names = [k for k in KINDS if k.split('_')[0] in prefixes]

    def strat(tier):
        return material(names)
    strat.names = names
    return strat


def check(case, ev):
    f, _ = KINDS[case['kind']]
    m = Mat(case)
    bad, good = f(m)
    watch = list(m.watch)
    out = io.StringIO()
    err = r = None
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r = bad()
        except Exception as e:
            err = e
    require(err is not None, 'the call with a contradiction ({}) returned {} instead of raising an error', case['kind'], repr(str(r))[:160])
    for x, before in watch:
        require(snap(x) == before, '{}: the rejected call changed an argument from {} to {}', case['kind'], before, snap(x))
    # the same call without the contradiction is accepted
    if good is not None:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                good()
            except Exception as e:
                fail('{}: the call without the contradiction raised {}: {}', case['kind'], type(e).__name__, e)
    ev.label('kind:' + case['kind'], 'type:' + case['t'], 'error:' + type(err).__name__)
    ev.nontrivial(good is not None)


OBJ = strat_for(['string', 'name', 'basis', 'operator'])
ALGEBRA = strat_for(['algebra', 'symmetry', 'invariant', 'generator', 'convert', 'lie', 'ladder'])
REST = strat_for(['permutation', 'apply', 'transform', 'matrix', 'quadratic', 'state', 'cluster', 'lattice', 'vectors', 'printing', 'sort'])
assert set(OBJ.names) | set(ALGEBRA.names) | set(REST.names) == set(KINDS)

PROP = Prop(
    'C31',
    'Generated strings, names, bases, operators, lattices, permutations, vectors and states of every type, in a call with exactly one contradiction of {} kinds (wrong counts, types, prefactors, repeated labels or '
    'strings, foreign operators or objects, unknown modes, types and formats, invalid permutations and symmetries, non-quadratic operators, orbitals or sizes out of range). The call must raise an error and leave its '
    'arguments as they were. Non-trivial: the same call without the contradiction is run as well and must be accepted.'.format(len(KINDS)),
    [Sub('objects', OBJ, check, 5000), Sub('algebra', ALGEBRA, check, 4000), Sub('rest', REST, check, 4000)],
    ['any exception counts as a rejection', 'calls whose result would be computed from no strings at all are not contradictions'])
