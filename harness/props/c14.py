"""Transformations as (anti)automorphisms."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props import trans


def pick_N(draw):
    return draw(st.sampled_from([2, 3, 4, 6, 6, 8, 12, 12, 24, 40, 150, 300]))


def strat_act(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = pick_N(draw)
        T = draw(trans.word(t, N, max_len=4 if N <= 6 else 2, custom=N <= 6))
        rot = trans.count(T, 'rot')
        if rot > 8:
            T, rot = ['T'], 0         # cost grows exponentially
        most = 4 if rot == 0 else max(1, min(4, 10 // rot))
        N = min(N, trans.orbitals(T))
        pool = sorted(draw(st.permutations(range(N)))[:draw(st.integers(1, min(N, draw(gen.tail(10, 40, 5)))))])
        return dict(t=t, T=T, s=draw(gen.pm_string(t, pool, max_ops=most if rot else None)),
                    o=draw(gen.scaled(draw(gen.operator(t, pool, min_terms=0, max_terms=4, zero=True, max_ops=most)))), tup=draw(st.booleans()))
    return s()


def strat_laws(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([2, 3, 4, 5, 7, 9, 12]))
        T = draw(trans.word(t, N, max_len=2))
        U = draw(trans.word(t, N, max_len=2))
        N = min(N, trans.orbitals(T), trans.orbitals(U))
        pool = list(range(N))
        if trans.has(T, 'rot') or trans.has(U, 'rot'):
            pool = pool[:2]
        n = draw(st.integers(0, 2) if len(pool) == 2 else st.integers(0, 5) | st.integers(6, 17))
        return dict(t=t, T=T, U=U, a=draw(gen.pm_string(t, pool)), b=draw(gen.pm_string(t, pool)), n=n,
                    o=draw(gen.operator(t, pool, max_terms=3)))
    return s()


def judge(op, t, want, what, scale=1.0):
    import qosy
    require(isinstance(op, qosy.Operator) and op.op_type == t, '{}: result is {}', what, type(op))
    require(len(op.coeffs) == len(op), '{}: coefficients and strings differ in number', what)
    require(len(set(map(str, (o for _, o in op)))) == len(op), '{}: a string is repeated', what)
    got = ref.op_poly(op)
    require(ref.near(got, want, scale), '{}: got {} expected {}', what, got, want)
    for _, o in op:
        labs = [int(x) for x in o.orbital_labels]
        require(labs == sorted(set(labs)), '{}: labels of {} are not sorted', what, o)


def check_act(case, ev):
    import qosy
    t, T = case['t'], case['T']
    U = trans.build(T)
    os, op = gen.mk_os(case['s']), gen.mk_op(case['o'])
    before = (str(os), str(op))
    p = gen.ref_os(case['s'])
    want = trans.act(T, t, p)
    what = '{} on {}'.format(trans.describe(T), gen.show(case['s']))
    r = U.apply(os)
    judge(r, t, want, what)
    require(all(abs(np.imag(c)) < 1e-12 for c in r.coeffs), '{}: complex coefficients {}', what, r.coeffs)
    require(abs(r.norm() - 1.0) < 1e-9, '{}: norm changes to {}', what, r.norm())
    q = gen.ref_op(case['o'])
    judge(U.apply(op), t, trans.act(T, t, q), trans.describe(T) + ' on an operator', ref.size(q) + 1e-5)
    require((str(os), str(op)) == before, 'the argument was changed')
    ev.label('type:' + t, 'kind:' + T[0])
    ev.nontrivial(len(case['s'][1]) >= 2 and not ref.close(want, p))


def eqop(x, y):
    return ref.close(ref.op_poly(x), ref.op_poly(y))


def check_laws(case, ev):
    import qosy
    t = case['t']
    T, U = trans.build(case['T']), trans.build(case['U'])
    a, b = gen.mk_os(case['a']), gen.mk_os(case['b'])
    # products of strings, by qosy's own algebra
    (c, ab) = qosy.product(a, b)
    lhs = np.conj(c) * T.apply(ab) if trans.antiunitary(case['T']) else c * T.apply(ab)
    rhs = qosy.product(T.apply(a), T.apply(b))
    require(eqop(lhs, rhs), '{} does not preserve the product of {} and {}', trans.describe(case['T']), gen.show(case['a']), gen.show(case['b']))
    # composition: (T*U) acts as U first, then T
    op = gen.mk_op(case['o'])
    TU = T * U
    require(eqop(TU.apply(op), T.apply(U.apply(op))), '(T*U) does not act as T after U for T={}, U={}', trans.describe(case['T']), trans.describe(case['U']))
    require(eqop((T * U * T).apply(op), T.apply(U.apply(T.apply(op)))), 'T*U*T is not the threefold composition')
    # the factors are unaffected by having been multiplied
    judge(T.apply(a), t, trans.act(case['T'], t, gen.ref_os(case['a'])), 'T after multiplication')
    # powers
    n = case['n']
    x = op
    for _ in range(n):
        x = T.apply(x)
    require(eqop((T ** n).apply(op), x), '{}**{} is not the {}-fold action', trans.describe(case['T']), n, n)
    # documented orders
    for k, W in (('T', qosy.time_reversal()), ('PH', qosy.particle_hole())):
        if k == 'T' or t == 'Majorana':
            require(eqop((W ** 2).apply(a), qosy.Operator([1.0], [a])), 'the square of {} is not the identity on {}', k, a)
    if case['T'][0] == 'TS':
        perm, down = trans.spin_maps(*case['T'][1:4])
        nab = sum(1 for o, l in zip(case['a'][1], case['a'][2]) if o in 'AB' and perm[l] != l)
        require(eqop((T * T).apply(a), (-1.0) ** nab * qosy.Operator([1.0], [a])), 'the square of spinful time reversal is not the fermion parity on {}', a)
        require(eqop((T ** 4).apply(a), qosy.Operator([1.0], [a])), 'T^4 is not the identity')
    if case['T'][0] == 'perm':
        p = case['T'][1]
        order, q = 1, list(p)
        while q != list(range(len(p))):
            q = [p[i] for i in q]
            order += 1
        require(eqop((T ** order).apply(a), qosy.Operator([1.0], [a])), 'a permutation of order {} does not return', order)
    ev.label('type:' + t, 'T:' + case['T'][0])
    ev.nontrivial(len(case['a'][1]) >= 1 and len(case['b'][1]) >= 1 and not ref.close(trans.act(case['T'], t, gen.ref_os(case['a'])), gen.ref_os(case['a'])))


PROP = Prop(
    'C14',
    'Words of up to 4 time reversals, particle-hole transformations, label permutations of up to 300 labels, spin flips, spin parities, spinful time reversals '
    '(several naming schemes, with spinless orbitals present) and user-defined rotations with multi-term rules, their products and powers (0-17), on strings of up to 6 '
    'operators and Hermitian operators of up to 4 terms; compared with an exact (anti)automorphism determined by the documented action on single operators, and '
    'with the laws of products, composition, powers and documented orders. Non-trivial: a string of two or more operators that is changed (action), changed factors (laws).',
    [Sub('action', strat_act, check_act, 9000), Sub('laws', strat_laws, check_laws, 4000)],
    ['coefficients of transformed operators are real, as documented'])
