from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref


def strat_family(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, draw(gen.tail(8, 24))))
        n = draw(st.integers(2, draw(gen.tail(5, 9, 2))))
        return dict(t=t, pw=[draw(st.sampled_from([0, 0, -1, -3, -5, -7, 2])) for _ in range(n)], items=[draw(gen.pm_string(t, pool)) for _ in range(n)])
    return s()


def strat_dense(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        n = draw(st.integers(1, draw(gen.tail(4, 7))))
        pool = list(range(n))
        return dict(t=t, n=n, items=[draw(gen.string(t, pool)) for _ in range(draw(st.integers(1, 3)))])
    return s()


def strat_force(tier):
    # the caller supplies a prefactor (the documentation says it is computed automatically)
    @st.composite
    def s(draw):
        pool = draw(gen.label_pool(1, draw(gen.tail(6, 24))))
        return dict(s=draw(gen.pm_string('Majorana', pool, min_ops=1)), pf=draw(st.integers(0, 1)), parse=draw(st.booleans()))
    return s()


def check_family(case, ev):
    import qosy
    t = case['t']
    A = ref.alg(t)
    objs = [gen.mk_os(s) for s in case['items']]
    polys = [ref.os_poly(o) for o in objs]
    for s, o, p in zip(case['items'], objs, polys):
        require(ref.close(A.dag(p), p), '{} is not Hermitian (prefactor {})', gen.show(s), o.prefactor)
        require(ref.close(A.mul(p, p), A.one), '{} does not square to the identity', gen.show(s))
        (c, q) = qosy.product(o, o)
        require(abs(c - 1) < 1e-12 and len(q.orbital_labels) == 0 and q.op_type == t,
                'product of {} with itself is {} {}', gen.show(s), c, q)
        (c, q) = qosy.commutator(o, o)
        require(abs(c) < 1e-12, 'a string does not commute with itself: {}', gen.show(s))
        if s[1]:
            require(abs(p.get(A.idkey, 0)) < 1e-12, '{} is not traceless', gen.show(s))
    for i in range(len(objs)):
        for j in range(len(objs)):
            want = 1.0 if case['items'][i] == case['items'][j] else 0.0
            got = A.mul(A.dag(polys[i]), polys[j]).get(A.idkey, 0)
            require(abs(got - want) < 1e-12, 'overlap of {} and {} is {}', gen.show(case['items'][i]), gen.show(case['items'][j]), got)
            (c, q) = qosy.product(objs[i], objs[j])
            isid = len(q.orbital_labels) == 0
            require(isid == (want == 1.0), 'product of {} and {} is {} {}', gen.show(case['items'][i]), gen.show(case['items'][j]), c, q)
    # the Hilbert-Schmidt norm reported for an operator of distinct strings
    coeffs, strs = [], []
    for k, s in enumerate(case['items']):
        if s not in strs:
            strs.append(s)
            coeffs.append(10.0 ** case['pw'][k] * (k + 1) * (0.5 if k % 2 else -1.0) * (1j if k % 3 == 2 else 1))
    op = qosy.Operator(coeffs, [gen.mk_os(s) for s in strs])
    p = ref.op_poly(op)
    hs = np.sqrt(abs(A.mul(A.dag(p), p).get(A.idkey, 0)))
    require(abs(op.norm() - hs) < 1e-13 * hs, 'norm {} but the Hilbert-Schmidt norm is {}', op.norm(), hs)
    for k in range(len(coeffs)):
        # so that no single large coefficient hides the others
        sub = [(c, gen.mk_os(s)) for c, s in zip(coeffs, strs) if abs(c) <= abs(coeffs[k])]
        hs = np.sqrt(sum(abs(c) ** 2 for c, _ in sub))
        got = qosy.Operator([c for c, _ in sub], [s for _, s in sub]).norm()
        require(abs(got - hs) < 1e-13 * hs, 'norm {} but the Hilbert-Schmidt norm is {}', got, hs)
    ev.label('type:' + t, 'maxops:{}'.format(max(len(s[1]) for s in case['items'])))
    ev.nontrivial(max(len(s[1]) for s in case['items']) >= 2)


def check_dense(case, ev):
    n = case['n']
    objs = [gen.mk_os(s) for s in case['items']]
    mats = [ref.os_matrix(o, n) for o in objs]
    for s, o, m in zip(case['items'], objs, mats):
        require(np.allclose(m, m.conj().T), '{} is not Hermitian', gen.show(s))
        require(np.allclose(m, ref.dense(s[0], gen.ref_os(s), n)), 'matrix of {} differs from its definition', gen.show(s))
        if case['t'] != 'Fermion':
            require(np.allclose(m @ m, np.eye(2 ** n)), '{} does not square to 1', gen.show(s))
            if s[1]:
                require(abs(np.trace(m)) < 1e-9, '{} is not traceless', gen.show(s))
    if case['t'] != 'Fermion':
        for i in range(len(objs)):
            for j in range(len(objs)):
                want = 1.0 if case['items'][i] == case['items'][j] else 0.0
                require(abs(np.trace(mats[i].conj().T @ mats[j]) / 2 ** n - want) < 1e-9, 'not orthonormal: {} {}',
                        gen.show(case['items'][i]), gen.show(case['items'][j]))
    ev.label('type:' + case['t'])
    ev.nontrivial(any(len(s[1]) >= 2 for s in case['items']))


def check_force(case, ev):
    import qosy
    s = case['s']
    if case['parse']:
        o = qosy.opstring(('1j ' if case['pf'] else '1.0 ') + ' '.join('{} {}'.format(a, b) for a, b in zip(s[1], s[2])))
    else:
        o = qosy.OperatorString(s[1], s[2], 'Majorana', prefactor=(1j if case['pf'] else 1.0))
    p = ref.os_poly(o)
    require(ref.close(ref.MajAlg.dag(p), p), 'the Majorana string built from {} with prefactor {} is not Hermitian: {}',
            gen.show(s), '1j' if case['pf'] else '1.0', o)
    require(o == gen.mk_os(s), 'prefactor not chosen automatically for {}', gen.show(s))
    ev.nontrivial()


PROP = Prop(
    'C02',
    'Families of 2-9 Pauli or Majorana strings with up to 8 orbital operators on labels up to 70000, dense matrices of '
    'all three types on up to 5 orbitals, and Majorana strings built with an explicit prefactor. Non-trivial: some '
    'string has at least two orbital operators.',
    [Sub('family', strat_family, check_family, 8000),
     Sub('dense', strat_dense, check_dense, 3000),
     Sub('prefactor', strat_force, check_force, 3000)],
    ['the value of a string is read from its documented attributes (operators, labels, prefactor, type)'])
