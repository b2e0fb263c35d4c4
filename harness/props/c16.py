"""Symmetry matrices against the independent exact action."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import trans


@st.composite
def closed_strings(draw, t, N, T, max_size=40):
    """Strings closed under the (monomial) transformations T, by brute force."""
    base = draw(gen.strings_list(t, list(range(N)), max_size=4))
    return base


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([2, 3, 4, 5]))
        T = draw(trans.word(t, N, max_len=2))
        U = draw(trans.word(t, N, max_len=2))
        case = dict(t=t, T=T, U=U, close=draw(st.booleans()))
        pool = list(range(N if not (trans.has(T, 'rot') or trans.has(U, 'rot')) else 2))
        if draw(st.booleans()):
            case['basis'] = draw(gen.strings_list(t, pool, max_size=16))
        else:
            cplx = draw(st.booleans()) and not trans.antiunitary(T)
            case['ops'] = draw(gen.ops_list(t, pool, max_size=6, max_terms=draw(st.sampled_from([1, 4])), complex_=cplx))
        return case
    return s()


def herm_key(t, p):
    (k, _), = p.items()
    return k


def close_strings(case, strings):
    """Close a list of string polynomials under T and U (supports of the exact images)."""
    t = case['t']
    keys = []
    todo = [next(iter(gen.ref_os(s))) for s in strings]
    while todo:
        k = todo.pop(0)
        if k in keys:
            continue
        keys.append(k)
        if len(keys) > 80:
            return None
        for T in (case['T'], case['U']):
            todo.extend(trans.act(T, t, {k: 1.0}))
    return keys


def key_to_string(t, k):
    if t == 'Pauli':
        x, z = k
        out = [(l, 'Y' if (x >> l) & 1 and (z >> l) & 1 else 'X' if (x >> l) & 1 else 'Z') for l in range(max(x.bit_length(), z.bit_length())) if ((x | z) >> l) & 1]
    else:
        out = []
        for l in range((k.bit_length() + 1) // 2):
            b = (k >> (2 * l)) & 3
            if b:
                out.append((l, {1: 'A', 2: 'B', 3: 'D'}[b]))
    return [t, [o for _, o in out], [l for l, _ in out], 0]


def check(case, ev):
    import qosy
    t = case['t']
    T, U = trans.build(case['T']), trans.build(case['U'])
    if 'basis' in case:
        strings = case['basis']
        closed = False
        if case['close']:
            keys = close_strings(case, strings)
            if keys is not None:
                strings = [key_to_string(t, k) for k in keys]
                closed = True
        basis = gen.mk_basis(strings)
        elems = [gen.ref_os(s) for s in strings]
        inputs = strings
        before = str(basis)
    else:
        closed = False
        basis = [gen.mk_op(o) for o in case['ops']]
        elems = [gen.ref_op(o) for o in case['ops']]
        before = [str(o) for o in basis]
    imgs = [trans.act(case['T'], t, e) for e in elems]
    n = len(elems)
    W = ref.vec_matrix(elems + imgs)
    A, B = W[:, :n], W[:, n:]
    if 'ops' in case:
        if not ref.gap_ok(A) or ref.rank(A) < n:
            raise Skip()
    want = np.linalg.lstsq(A, B, rcond=None)[0]
    M = qosy.symmetry_matrix(basis, T)
    require(M.shape == (n, n), 'shape is {}', M.shape)
    M = np.asarray(M.todense())
    what = 'matrix of {} in {}'.format(trans.describe(case['T']), 'strings' if 'basis' in case else 'operators')
    require(np.allclose(M, want, atol=1e-8), '{}: entry off by {}', what, np.max(np.abs(M - want)))
    require((str(basis) if 'basis' in case else [str(o) for o in basis]) == before, 'the basis was changed')
    if closed:
        require(np.allclose(M.conj().T @ M, np.eye(n), atol=1e-8), '{}: not unitary on a closed space', what)
        MU = np.asarray(qosy.symmetry_matrix(basis, U).todense())
        MTU = np.asarray(qosy.symmetry_matrix(basis, T * U).todense())
        require(np.allclose(MTU, M @ MU, atol=1e-8), 'matrix of a product is not the product of the matrices ({}, {})', trans.describe(case['T']), trans.describe(case['U']))
        # in any other orthonormal or independent basis of the same space, as operators
        r = np.random.RandomState(n)
        Q = np.linalg.qr(r.normal(size=(n, n)))[0] if n % 2 else r.normal(size=(n, n)) + 3 * np.eye(n)
        if np.linalg.cond(Q) < 1e3 and n <= 20:
            ops = [qosy.Operator(Q[:, j].copy(), [gen.mk_os(s) for s in inputs], op_type=t) for j in range(n)]
            MO = np.asarray(qosy.symmetry_matrix(ops, T).todense())
            require(np.allclose(MO, np.linalg.solve(Q, M @ Q), atol=1e-6), '{}: wrong in a basis of operators', what)
    ev.label('type:' + t, 'closed' if closed else 'projected', 'strings' if 'basis' in case else 'operators', 'kind:' + case['T'][0])
    ev.nontrivial(n >= 2 and np.any(np.abs(want - np.diag(np.diag(want))) > 1e-9))


PROP = Prop(
    'C16',
    'Bases of up to 80 strings (as generated, or closed under two transformations by brute force) and lists of up to 6 independent operators (complex coefficients for unitary transformations), with words of up to 2 '
    'transformations of all kinds including user-defined multi-term rotations; every column is compared with the (least-squares projected) exact image, and on closed '
    'spaces unitarity, products and other operator bases are checked. Non-trivial: two or more elements and an off-diagonal matrix.',
    [Sub('matrix', strat, check, 9000)],
    ['for a list of operators, components outside of its span are removed by orthogonal projection of the coefficient vectors'])
