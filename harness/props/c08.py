"""Conversion between operator types against exact algebra, matrices and round trips."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref

TYPES = ['Pauli', 'Majorana', 'Fermion']


@st.composite
def jw_pool(draw, n=5):
    k = draw(st.integers(1, n))
    hi = draw(st.sampled_from([k - 1, k + 1, 8, 13]))
    hi = max(hi, k - 1)
    return sorted(draw(st.lists(st.integers(0, hi), min_size=k, max_size=k, unique=True)))


@st.composite
def pair(draw):
    a = draw(st.sampled_from(TYPES))
    b = draw(st.sampled_from([x for x in TYPES if x != a])) if draw(st.integers(0, 11)) else a
    return a, b


def max_ops(a, b):
    return 5 if 'Fermion' in (a, b) else 8


def strat_string(tier):
    @st.composite
    def s(draw):
        a, b = draw(pair())
        n = max_ops(a, b)
        if n == 8:
            n = draw(gen.tail(8, 14))
        pool = draw(jw_pool(n) if 'Pauli' in (a, b) else gen.label_pool(1, n))
        if 'Pauli' in (a, b) and 'Fermion' in (a, b):
            pool = sorted(set(x % 7 for x in pool))
        return dict(s=draw(gen.string(a, pool)), to=b, id=draw(st.sampled_from([True, False, None])))
    return s()


def strat_operator(tier):
    @st.composite
    def s(draw):
        a, b = draw(pair())
        pool = draw(jw_pool(4) if 'Pauli' in (a, b) else gen.label_pool(1, 4))
        if 'Pauli' in (a, b) and 'Fermion' in (a, b):
            pool = [x % 6 for x in pool]
            pool = sorted(set(pool))
        return dict(o=draw(gen.scaled(draw(gen.operator(a, pool, min_terms=0, max_terms=6, complex_=draw(st.booleans()), zero=True)))), to=b,
                    id=draw(st.sampled_from([True, False, None])))
    return s()


def strat_dense(tier):
    @st.composite
    def s(draw):
        a, b = draw(pair())
        n = draw(st.integers(1, 4))
        return dict(n=n, o=draw(gen.operator(a, list(range(n)), max_terms=4, complex_=True)), to=b)
    return s()


def vacuum(p):
    """<0|O|0> of a Majorana polynomial."""
    out = 0
    for m, c in p.items():
        # non-vanishing only if the monomial is a product of -i a_j b_j pairs: a_j b_j = i d_j, d_j|0> = |0>
        k, x = c, m
        while x:
            low = (x & -x).bit_length() - 1
            if low % 2 or not (x >> (low + 1)) & 1:
                k = 0
                break
            k = k * 1j
            x &= ~(3 << low)
        out += k
    return out


def identity_part(t_from, t_to, p):
    """Coefficient of the identity string when the exact value p (in the algebra of t_to) is written in strings of t_to."""
    if t_to == 'Fermion':
        return vacuum(p)
    return p.get(ref.alg(t_to).idkey, 0)


def exact(t_from, t_to, p):
    if (t_from == 'Pauli') == (t_to == 'Pauli'):
        return p
    return ref.maj_to_pauli(p) if t_to == 'Pauli' else ref.pauli_to_maj(p)


def judge(res, a, b, p, ident, what):
    scale = 10 * ref.size(p) + 1e-5
    import qosy
    require(isinstance(res, qosy.Operator), '{}: result is a {}', what, type(res))
    require(res.op_type == b, '{}: type of the result is {}', what, res.op_type)
    keys = [str(o) for _, o in res]
    require(len(set(keys)) == len(keys), '{}: a string is repeated', what)
    require(all(o.op_type == b for _, o in res), '{}: a string has the wrong type', what)
    got = ref.op_poly(res)
    want = exact(a, b, p)
    if a == b or ident:
        require(ref.near(got, want, scale), '{}: {} is not the given operator, difference {}', what, keys, ref.diff(got, want))
        return
    idc = identity_part(a, b, want)
    one = ref.alg(b).idkey
    dropped = ref.clean(ref.add(want, {one: idc}, -1), 1e-13 * scale)
    if 'Fermion' in (a, b):
        require(ref.near(got, dropped, scale), '{}: {} is not the operator without its identity component, difference {}', what, keys, ref.diff(got, dropped))
    else:
        require(ref.near(got, dropped, scale) or ref.near(got, want, scale), '{}: {} is not the operator up to its identity component, difference {}', what, keys, ref.diff(got, want))


def call(x, to, ident):
    import qosy
    return qosy.convert(x, to) if ident is None else qosy.convert(x, to, include_identity=ident)


def canonical(res, what):
    """Every string is in one of the documented forms (up to the order in which it would be constructed)."""
    for _, o in res:
        labs = [int(x) for x in o.orbital_labels]
        if o.op_type != 'Fermion':
            require(labs == sorted(set(labs)), '{}: labels of {} are not sorted', what, o)
        else:
            cd = [l for l, x in zip(labs, o.orbital_operators) if x == 'CDag']
            c = labs[len(cd):]
            require([str(x) for x in o.orbital_operators] == ['CDag'] * len(cd) + ['C'] * len(c), '{}: {} is not normal ordered', what, o)
            require(cd == sorted(set(cd)) and c == sorted(set(c), reverse=True), '{}: labels of {} are not ordered', what, o)
            require((len(cd), cd) >= (len(c), c[::-1]), '{}: {} breaks the lexicographic convention', what, o)


def check_string(case, ev):
    import qosy
    s, b = case['s'], case['to']
    a = s[0]
    os = gen.mk_os(s)
    before = str(os)
    res = call(os, b, case['id'])
    what = 'convert({}, {}, {})'.format(gen.show(s), b, case['id'])
    judge(res, a, b, gen.ref_os(s), case['id'], what)
    require(all(abs(np.imag(c)) < 1e-12 for c in res.coeffs), '{}: complex coefficients {} for a Hermitian string', what, res.coeffs)
    canonical(res, what)
    require(str(os) == before, 'the string was changed')
    back = qosy.convert(qosy.convert(os, b, include_identity=True), a, include_identity=True)
    require(ref.close(ref.op_poly(back), gen.ref_os(s)), '{}: converting back gives {}', what, [str(o) for _, o in back])
    back = back.remove_zeros(tol=1e-10)
    require(len(back) == 1 and back._basis[0] == os and abs(back.coeffs[0] - 1) < 1e-9, '{}: converting back gives {} strings', what, len(back))
    ev.label('{}->{}'.format(a, b), 'ops:{}'.format(len(s[1])))
    ev.nontrivial(a != b and len(s[1]) >= 2)


def check_operator(case, ev):
    import qosy
    o, b = case['o'], case['to']
    a = o[0]
    op = gen.mk_op(o)
    before = str(op)
    res = call(op, b, case['id'])
    judge(res, a, b, gen.ref_op(o), case['id'], 'convert(operator of {} terms, {}, {})'.format(len(o[1]), b, case['id']))
    require(str(op) == before, 'the operator was changed')
    require(len(res.coeffs) == len(res), 'coefficients and strings differ in number')
    if all(x[1] == 0 for x in o[1]):
        require(all(abs(np.imag(c)) < 1e-10 * (ref.size(gen.ref_op(o)) + 1e-5) for c in res.coeffs), 'complex coefficients for a Hermitian operator')
    back = qosy.convert(qosy.convert(op, b, include_identity=True), a, include_identity=True)
    require(ref.near(ref.op_poly(back), gen.ref_op(o), 10 * ref.size(gen.ref_op(o)) + 1e-5), 'converting back differs by {}', ref.diff(ref.op_poly(back), gen.ref_op(o)))
    ev.label('{}->{}'.format(a, b))
    ev.nontrivial(a != b and len(o[1]) >= 2)


def check_dense(case, ev):
    import qosy
    o, b, n = case['o'], case['to'], case['n']
    op = gen.mk_op(o)
    M = ref.op_matrix(op, n)
    R = ref.op_matrix(qosy.convert(op, b, include_identity=True), n)
    require(np.allclose(M, R, atol=1e-9), '{} -> {}: matrices differ by {}', o[0], b, np.max(np.abs(M - R)))
    S = ref.op_matrix(qosy.convert(op, b), n)
    D = M - S
    require(np.allclose(D, D[0, 0] * np.eye(2 ** n), atol=1e-9), '{} -> {}: differs by more than a multiple of the identity', o[0], b)
    ev.nontrivial(o[0] != b and len(o[1]) >= 2)


PROP = Prop(
    'C08',
    'Strings of up to 8 (5 with fermions, 3 creation and 3 annihilation operators) orbital operators and operators of up to 6 '
    'complex terms, all pairs of types, with, without and by default without the identity; labels up to 70000 (13 where '
    'Jordan-Wigner strings are involved). Exact algebra oracle, matrices on up to 4 orbitals, and the round trip. '
    'Non-trivial: different types and a string of two or more operators or an operator of two or more terms.',
    [Sub('string', strat_string, check_string, 10000),
     Sub('operator', strat_operator, check_operator, 4000),
     Sub('matrix', strat_dense, check_dense, 2000)],
    ['Jordan-Wigner orbitals are labelled by non-negative integers in their order'])
