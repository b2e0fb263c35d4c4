from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref

MODES = ['product', 'commutator', 'anticommutator']


def strat_strings(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, draw(gen.tail(9, 26))))
        a = draw(gen.pm_string(t, pool))
        if draw(st.integers(0, 5)) == 0:
            b = [a[0], [draw(st.sampled_from(gen.PM[t])) for _ in a[1]], a[2], 0]
        else:
            b = draw(gen.pm_string(t, pool))
        return dict(a=a, b=b)
    return s()


def strat_ops(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, draw(gen.tail(5, 9))))
        n = draw(gen.tail(draw(gen.tail(4, 8, 4)), 30, 12))
        return dict(a=draw(gen.scaled(draw(gen.operator(t, pool, min_terms=0, max_terms=n, complex_=True, zero=True)))),
                    b=draw(gen.scaled(draw(gen.operator(t, pool, min_terms=0, max_terms=n, complex_=True, zero=True)))))
    return s()


def strat_laws(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, 4))
        return dict(ops=[draw(gen.operator(t, pool, max_terms=3, complex_=True)) for _ in range(3)], c=draw(gen.coeff(True)))
    return s()


def strat_dense(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.integers(1, 4))
        return dict(n=n, a=draw(gen.operator(t, list(range(n)), max_terms=5, complex_=True)),
                    b=draw(gen.operator(t, list(range(n)), max_terms=5, complex_=True)))
    return s()


def check_strings(case, ev):
    import qosy
    a, b = case['a'], case['b']
    t = a[0]
    A = ref.alg(t)
    oa, ob = gen.mk_os(a), gen.mk_os(b)
    pa, pb = gen.ref_os(a), gen.ref_os(b)
    for mode in MODES:
        (c, o) = getattr(qosy, mode)(oa, ob)
        want = ref.OPERATION[mode](t, pa, pb)
        if not want:
            require(abs(c) < 1e-12, '{}({}, {}) should vanish, got {} {}', mode, gen.show(a), gen.show(b), c, o)
            continue
        require(o is not None, '{}({}, {}) vanished', mode, gen.show(a), gen.show(b))
        require(o.op_type == t, 'type of result is {}', o.op_type)
        labels = [int(l) for l in o.orbital_labels]
        require(labels == sorted(set(labels)), 'labels of the result are not sorted and unique: {}', o)
        got = ref.scale(ref.os_poly(o), complex(c))
        require(ref.close(got, want), '{}({}, {}) = {} {} is wrong', mode, gen.show(a), gen.show(b), c, o)
        require(o == gen.mk_os([t, [str(x) for x in o.orbital_operators], labels, 0]), 'result string not canonical: {}', o)
    over = len(set(a[2]) & set(b[2]))
    ev.label('type:' + t, 'overlap:{}'.format(over), 'commute' if not ref.comm(t, pa, pb) else 'anticommute')
    ev.nontrivial(over >= 1)


def check_ops(case, ev):
    import qosy
    a, b = case['a'], case['b']
    t = a[0]
    A = ref.alg(t)
    oa, ob = gen.mk_op(a), gen.mk_op(b)
    pa, pb = gen.ref_op(a), gen.ref_op(b)
    before = (str(oa), str(ob))
    for mode in MODES:
        r = getattr(qosy, mode)(oa, ob)
        require(r.op_type == t, 'type of result is {}', r.op_type)
        want = ref.OPERATION[mode](t, pa, pb)
        require(ref.near(ref.op_poly(r), want, ref.size(pa) * ref.size(pb) + 1e-5), '{} of operators differs from the exact result by {}', mode, ref.diff(ref.op_poly(r), want))
        require(len(set(os for _, os in r)) == len(r), 'result lists a string twice')
        require(len(r.coeffs) == len(r), 'coefficients and strings differ in number')
    require((str(oa), str(ob)) == before, 'the operands were modified')
    ev.label('type:' + t, 'terms:{}x{}'.format(len(a[1]), len(b[1])))
    ev.nontrivial(len(a[1]) >= 2 and len(b[1]) >= 2)


def check_laws(case, ev):
    import qosy
    A, B, C = [gen.mk_op(o) for o in case['ops']]
    c = complex(*case['c'])

    def eq(x, y, name):
        d = (x - y)
        n = d.norm() if len(d) else 0.0
        require(n < 1e-8 * (1 + (x.norm() if len(x) else 0)), '{} violated by {}', name, n)
    P, K, Q = qosy.product, qosy.commutator, qosy.anticommutator
    eq(P(P(A, B), C), P(A, P(B, C)), 'associativity')
    eq(K(A, B), P(A, B) - P(B, A), '[A,B]=AB-BA')
    eq(Q(A, B), P(A, B) + P(B, A), '{A,B}=AB+BA')
    eq(K(A, B), -K(B, A), 'antisymmetry')
    eq(Q(A, B), Q(B, A), 'symmetry')
    eq(K(A, B + c * C), K(A, B) + c * K(A, C), 'linearity')
    eq(P(A + c * C, B), P(A, B) + c * P(C, B), 'linearity')
    eq(K(A, K(B, C)) + K(B, K(C, A)) + K(C, K(A, B)), qosy.Operator(op_type=A.op_type), 'Jacobi')
    eq(K(A, P(B, C)), P(K(A, B), C) + P(B, K(A, C)), 'Leibniz')
    ev.nontrivial(K(A, B).norm() > 1e-6 and K(B, C).norm() > 1e-6)


def check_dense(case, ev):
    import qosy
    n = case['n']
    oa, ob = gen.mk_op(case['a']), gen.mk_op(case['b'])
    ma, mb = ref.op_matrix(oa, n), ref.op_matrix(ob, n)
    for mode, want in (('product', ma @ mb), ('commutator', ma @ mb - mb @ ma), ('anticommutator', ma @ mb + mb @ ma)):
        got = ref.op_matrix(getattr(qosy, mode)(oa, ob), n)
        require(np.allclose(got, want, atol=1e-8), '{} differs from matrix algebra by {}', mode, np.max(np.abs(got - want)))
    ev.nontrivial(np.max(np.abs(ma @ mb - mb @ ma)) > 1e-8)


PROP = Prop(
    'C03',
    'Pairs of Pauli or Majorana strings (up to 9 orbital operators, shared label pools up to 70000, including identical '
    'supports) and pairs/triples of operators with complex coefficients; exact polynomial oracle over bit masks, matrix '
    'oracle on up to 4 orbitals, and algebraic laws. Non-trivial: overlapping supports (strings), two or more terms in '
    'both operands (operators), non-vanishing commutators (laws, matrices).',
    [Sub('strings', strat_strings, check_strings, 14000),
     Sub('operators', strat_ops, check_ops, 5000),
     Sub('laws', strat_laws, check_laws, 1600),
     Sub('matrices', strat_dense, check_dense, 1600)],
    ['both operands are of the same type'])
