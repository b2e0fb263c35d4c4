"""Structure constants, Liouvillian and commutant matrices against exact products."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props.c03 import MODES


def strat_sc(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, 5))
        return dict(t=t, mode=draw(st.sampled_from(MODES + [None])), A=draw(gen.strings_list(t, pool, max_size=draw(gen.tail(12, 40)))), B=draw(gen.strings_list(t, pool, max_size=draw(gen.tail(6, 20)))),
                    tuple=draw(st.booleans()), ext=draw(st.booleans()))
    return s()


def strat_l(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, 5))
        case = dict(t=t, mode=draw(st.sampled_from(MODES + [None])), H=draw(gen.scaled(draw(gen.operator(t, pool, min_terms=0, max_terms=draw(gen.tail(7, 25)), complex_=draw(st.booleans()), zero=True)))))
        if draw(st.booleans()):
            case['basis'] = draw(gen.strings_list(t, pool, min_size=0, max_size=draw(gen.tail(16, 60))))
        else:
            case['ops'] = [draw(gen.scaled(o, 8)) for o in draw(gen.ops_list(t, pool, max_size=draw(gen.tail(7, 20)), max_terms=draw(gen.tail(5, 12)), complex_=draw(st.booleans()), zero=True))]
        return case
    return s()


def polys_from(M, ext):
    """Read columns of a matrix in the extended basis back as polynomials."""
    M = np.asarray(M.todense())
    strs = [ref.os_poly(o) for o in ext]
    out = []
    for j in range(M.shape[1]):
        p = {}
        for i in range(M.shape[0]):
            if M[i, j] != 0:
                p = ref.add(p, strs[i], complex(M[i, j]))
        out.append(p)
    return out


def distinct(ext):
    keys = [tuple(sorted(ref.os_poly(o))) for o in ext]
    require(len(set(keys)) == len(keys), 'a string is listed twice in the extended basis')


def check_sc(case, ev):
    import qosy
    t, mode = case['t'], case['mode']
    bA, bB = gen.mk_basis(case['A']), gen.mk_basis(case['B'])
    sA, sB = str(bA), str(bB)
    kw = {} if mode is None else dict(operation_mode=mode)
    f = ref.OPERATION[mode or 'commutator']
    res = qosy.structure_constants(bA, bB, return_extended_basis=True, return_data_tuple=case['tuple'], **kw)
    (sc, ext) = res
    distinct(ext)
    used = set()
    require(set(sc.keys()) == set(bB), 'structure constants are not given for exactly the strings of the second basis')
    for b in case['B']:
        m = sc[gen.mk_os(b)]
        if case['tuple']:
            import scipy.sparse as ss
            (r, c, d) = m
            require(len(r) == len(c) == len(d), 'lists differ in length')
            m = ss.csr_matrix((d, (r, c)), shape=(len(ext), len(bA)), dtype=complex)
        require(m.shape == (len(ext), len(bA)), 'shape is {}', m.shape)
        got = polys_from(m, ext)
        for a, g in zip(case['A'], got):
            want = f(t, gen.ref_os(a), gen.ref_os(b))
            require(ref.close(g, want), '{} of {} and {}: got {} expected {}', mode, gen.show(a), gen.show(b), g, want)
            used.update(want)
    require(len(used) == len(ext), 'extended basis has {} strings, {} occur', len(ext), len(used))
    if not case['tuple'] and case['ext']:
        only = qosy.structure_constants(bA, bB, **kw)
        for b in bB:
            require(abs(only[b] - sc[b]).sum() == 0, 'structure constants depend on return_extended_basis')
    require((str(bA), str(bB)) == (sA, sB), 'a basis was changed')
    ev.label('mode:{}'.format(mode), 'type:' + t)
    ev.nontrivial(len(used) >= 2)


def check_l(case, ev):
    import qosy
    t, mode = case['t'], case['mode']
    H = gen.mk_op(case['H'])
    strH = str(H)
    if 'basis' in case:
        basis = gen.mk_basis(case['basis'])
        elems = [gen.ref_os(s) for s in case['basis']]
        before = str(basis)
    else:
        basis = [gen.mk_op(o) for o in case['ops']]
        elems = [gen.ref_op(o) for o in case['ops']]
        before = [str(o) for o in basis]
    h = gen.ref_op(case['H'])
    kw = {} if mode is None else dict(operation_mode=mode)
    f = ref.OPERATION[mode or 'commutator']
    (L, ext) = qosy.liouvillian_matrix(basis, H, return_extended_basis=True, **kw)
    distinct(ext)
    require(L.shape == (len(ext), len(elems)), 'shape of the Liouvillian is {}, expected {}', L.shape, (len(ext), len(elems)))
    got = polys_from(L, ext)
    want = [f(t, e, h) for e in elems]
    for j, (g, w) in enumerate(zip(got, want)):
        require(ref.near(g, w, ref.size(elems[j]) * ref.size(h) + 1e-5), '{} of element {} with the operator: got {} expected {}', mode, j, g, w)
    (C, ext2) = qosy.commutant_matrix(basis, H, return_extended_basis=True, **kw)
    M = np.asarray(L.todense())
    require(np.allclose(np.asarray(C.todense()), M.conj().T @ M, atol=1e-8), 'commutant matrix is not L^dagger L')
    require([str(o) for o in ext2] == [str(o) for o in ext], 'extended bases of Liouvillian and commutant matrix differ')
    L1 = qosy.liouvillian_matrix(basis, H, **kw)
    C1 = qosy.commutant_matrix(basis, H, **kw)
    require(np.allclose(np.asarray(L1.todense()), M, atol=1e-9), 'Liouvillian depends on return_extended_basis')
    require(np.allclose(np.asarray(C1.todense()), M.conj().T @ M, atol=1e-8), 'commutant matrix depends on return_extended_basis')
    # Gram matrix of the exact results, without reference to the extended basis
    W = ref.vec_matrix(want)
    require(np.allclose(np.asarray(C1.todense()), W.conj().T @ W, atol=1e-7), 'commutant matrix is not the Gram matrix of the exact {}s', mode or 'commutator')
    require((str(basis) if 'basis' in case else [str(o) for o in basis]) == before and str(H) == strH, 'an argument was changed')
    ev.label('mode:{}'.format(mode), 'type:' + t, 'strings' if 'basis' in case else 'operators')
    ev.nontrivial(len(case['H'][1]) >= 2 and sum(1 for w in want if w) >= 2)


PROP = Prop(
    'C06',
    'Bases of up to 64 strings or lists of up to 7 complex operators, an operator of up to 7 complex terms, all three modes '
    'and the default one, read back through the returned extended basis and compared with exact bit-mask products. '
    'Non-trivial: two or more resulting strings (structure constants) or two or more non-vanishing columns for an operator of two or more terms.',
    [Sub('structure_constants', strat_sc, check_sc, 5000),
     Sub('liouvillian', strat_l, check_l, 5000)])
