"""Ladder operators and the inverse search against brute force on the adjoint action."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref


def normal(t, labels_ops):
    """Pauli/Majorana string from [(label, op)]."""
    labels_ops = sorted(labels_ops)
    return [t, [o for _, o in labels_ops], [l for l, _ in labels_ops], 0]


@st.composite
def hermitian_op(draw, t, pool):
    """A Hermitian operator: fields, hopping, couplings, or arbitrary terms (string cases are Hermitian)."""
    kind = draw(st.sampled_from(['field', 'field', 'uniform', 'quad', 'chain', 'any', 'any']))
    terms = {}

    def put(c, s):
        terms.setdefault(repr(s), [c, 0.0, s])
    val = st.sampled_from([0.5, 1.0, 1.0, 1.5, 2.0, -1.0, -0.5, 0.25, 3.0])
    if draw(st.integers(0, 2)) == 0:
        # nearly degenerate spectra
        d = draw(st.sampled_from([3e-2, 1e-2, 3e-3, 1e-3]))
        val = st.sampled_from([1.0, 1.0, 1.0 + d, 1.0 - d, 0.5, 0.5 + d, 1.0 + 2 * d])
    P = gen.PM[t]
    if kind in ('field', 'uniform'):
        op = draw(st.sampled_from(P))
        if kind == 'uniform' or t == 'Majorana':
            op = P[2]
        c0 = draw(val)
        for l in pool:
            if kind == 'uniform' or draw(st.booleans()):
                put(c0 if kind == 'uniform' else draw(val), [t, [op], [l], 0])
    elif kind == 'quad' and t == 'Majorana':
        for i in range(len(pool)):
            for j in range(i):
                for o1 in 'AB':
                    for o2 in 'AB':
                        if draw(st.integers(0, 2)) == 0:
                            put(draw(val), [t, [o1, o2], [pool[j], pool[i]], 0])
            if draw(st.booleans()):
                put(draw(val), [t, ['D'], [pool[i]], 0])
    elif kind in ('quad', 'chain'):
        for a, b in zip(pool, pool[1:]):
            J = draw(val)
            for o in P:
                put(J if kind == 'chain' else draw(val), [t, [o, o], [a, b], 0])
        if draw(st.booleans()):
            put(draw(val), [t, [P[2]], [pool[0]], 0])
    else:
        for _ in range(draw(st.integers(1, 5))):
            s = draw(gen.pm_string(t, pool))
            c = draw(val) if draw(st.booleans()) else draw(gen.real_coeff())
            put(c, s)
    if not terms:
        put(1.0, [t, [P[2]], [pool[0]], 0])
    return [t, list(terms.values())]


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.sampled_from([1, 2, 2, 3, 3] if tier == 'quick' else [1, 2, 3, 3]))
        pool = draw(st.sampled_from([list(range(n)), [0, 1, 4][:n], [2, 3, 11][:n]]))
        O = draw(hermitian_op(t, pool))
        kind = draw(st.sampled_from(['complete', 'sizes', 'subset', 'closed', 'random', 'holes']))
        return dict(t=t, pool=pool, O=O, kind=kind, pick=draw(st.lists(st.integers(0, 999), min_size=1, max_size=14)),
                    order=draw(st.integers(0, 99)), sizes=draw(st.lists(st.integers(0, n), min_size=1, max_size=2, unique=True)),
                    unit=draw(st.sampled_from([0, 0, 0, 0, 10, -10, -20])), spars=draw(st.booleans()), ops=draw(st.booleans()), tol=draw(st.sampled_from(['default', 1e-12, 1e-10])))
    return s()


def make_strings(case):
    t, pool = case['t'], case['pool']
    kind = case['kind']
    full = gen.all_strings(t, pool, case['sizes'] if kind == 'sizes' else None)
    if kind in ('random', 'subset'):
        idx = sorted({p % len(full) for p in case['pick']})
        out = [full[i] for i in idx]
    elif kind == 'holes':
        bad = {p % len(full) for p in case['pick'][:3]}
        out = [f for i, f in enumerate(full) if i not in bad]
        if not out:
            out = full
    elif kind == 'closed':
        # closed under commutation with O, from a few strings, optionally without the last found
        byk = {next(iter(gen.ref_os(f))): f for f in full}
        Op = gen.ref_op(case['O'])
        todo = [next(iter(gen.ref_os(full[p % len(full)]))) for p in case['pick'][:2]]
        seen = []
        while todo:
            k = todo.pop(0)
            if k in seen:
                continue
            seen.append(k)
            todo.extend(sorted(ref.comm(t, Op, {k: 1.0})))
        out = [byk[k] for k in seen]
    else:
        out = full
    r = np.random.RandomState(case['order'])
    if case['order'] % 3:
        out = [out[i] for i in r.permutation(len(out))]
    return out


def adjoint(t, Op, strings):
    """Exact [O, S_b] columns and S_b columns in a common list of monomials."""
    elems = [gen.ref_os(s) for s in strings]
    imgs = [ref.comm(t, Op, e) for e in elems]
    W = ref.vec_matrix(elems + imgs)
    return W[:, :len(elems)], W[:, len(elems):], elems


def adjoint_eigen(B, L):
    """Exact eigenoperators of the adjoint action inside the span of the columns of B (orthonormal: strings).

    The adjoint action of a Hermitian operator is Hermitian, so its eigenoperators in span(B) are the eigenvectors of its
    projection K whose image does not leave the span; in every eigenspace of K they are a null space.  (Reducing the
    span step by step to an invariant one is unstable.)  Returns eigenvalues and coefficient vectors; Skip if ambiguous."""
    n = B.shape[1]
    require(np.allclose(B.conj().T @ B, np.eye(n), atol=1e-12), 'reference: strings are not orthonormal')
    K = B.conj().T @ L
    require(n == 0 or np.max(np.abs(K - K.conj().T)) < 1e-9 * (1 + np.max(np.abs(K))), 'reference: adjoint action not Hermitian')
    w, v = np.linalg.eigh(0.5 * (K + K.conj().T))
    scale = max(1.0, np.max(np.abs(L), initial=0.0))
    out_w, out_v = [np.zeros(0)], [np.zeros((n, 0), dtype=complex)]
    gaps = np.diff(w)
    if np.any((gaps > 1e-9 * scale) & (gaps < 1e-5 * scale)):
        raise Skip()
    for inds in np.split(np.arange(n), np.where(gaps > 1e-6 * scale)[0] + 1):
        if not len(inds):
            continue
        V = v[:, inds]
        res = L @ V - B @ (V * w[inds])
        s = np.linalg.svd(res, compute_uv=False)
        if np.any((s > 1e-8 * scale) & (s < 1e-4 * scale)):
            raise Skip()
        N = np.linalg.svd(res)[2][int(np.sum(s > 1e-6 * scale)):].conj().T
        out_w.append(np.full(N.shape[1], np.mean(w[inds])))
        out_v.append(V @ N)
    return np.concatenate(out_w), np.hstack(out_v)


def check(case, ev):
    import qosy
    t = case['t']
    strings = make_strings(case)
    if not strings or len(strings) > 70:
        raise Skip()
    Op = gen.ref_op(case['O'])
    B, L, elems = adjoint(t, Op, strings)
    w, V = adjoint_eigen(B, L)
    scale = max(1.0, np.max(np.abs(w)) if len(w) else 1.0)
    if np.any((np.abs(w) > 1e-8 * scale) & (np.abs(w) < 1e-3)):
        raise Skip()
    pos = w > 1e-5
    wp = np.sort(w[pos])
    gaps = np.diff(wp)
    if np.any((gaps > 1e-8) & (gaps < 1e-4)):
        raise Skip()
    basis = gen.mk_basis(strings)
    unit = 2.0 ** case.get('unit', 0)      # the same operator in other units of energy
    O = gen.mk_op([t, [[re * unit, im * unit, s] for re, im, s in case['O'][1]]])
    before = (str(basis), str(O))
    kw = dict(sparsification=case['spars'], return_operators=case['ops'])
    if case['tol'] != 'default':
        kw['tol'] = case['tol']
    R, lam = qosy.core._ladder_operators(basis, O, **kw)
    require((str(basis), str(O)) == before, 'arguments were changed')
    lam = np.asarray(lam) / unit
    require(len(lam) == len(wp), 'found {} raising operators, there are {} (eigenvalues {} against {})', len(lam), len(wp), np.round(lam, 6), np.round(wp, 6))
    if not len(wp):
        require(len(R) == 0 if case['ops'] else R.shape == (len(strings), 0), 'operators without eigenvalues')
        ev.label('type:' + t, 'kind:' + case['kind'], 'none')
        return
    require(np.allclose(np.sort(np.real(lam)), wp, atol=1e-6) and np.max(np.abs(np.imag(lam))) < 1e-9, 'eigenvalues {} should be {}', lam, wp)
    require(np.all(np.diff(np.real(lam)) > -1e-8), 'eigenvalues are not in ascending order')
    cols = []
    if case['ops']:
        require(len(R) == len(wp), 'number of operators differs from the number of eigenvalues')
        keys = {}
        for op in R:
            got = ref.op_poly(op)
            vec = np.zeros(len(strings), dtype=complex)
            for c, s in op:
                require(s in basis, 'operator contains a string outside the basis')
                vec[basis.index(s)] += c
            require(op.op_type == t, 'operator has type {}', op.op_type)
            cols.append(vec)
        C = np.array(cols).T
    else:
        C = np.asarray(R)
        require(C.shape == (len(strings), len(wp)), 'vectors have shape {}', C.shape)
    res = L @ C - (B @ C) * np.real(lam)
    require(np.max(np.abs(res)) < 1e-7 * scale, 'commutation relation fails by {} for some operator', np.max(np.abs(res)))
    require(np.allclose(np.linalg.norm(C, axis=0), 1.0, atol=1e-9), 'operator norms are {}', np.linalg.norm(C, axis=0))
    require(ref.rank(B @ C, tol=1e-7) == len(wp), 'raising operators are dependent')
    if not case['spars']:
        require(np.allclose(C.conj().T @ C, np.eye(len(wp)), atol=1e-8), 'raising operators are not orthonormal')
    n_inv = V.shape[1]
    ev.label('type:' + t, 'kind:' + case['kind'], 'invariant' if n_inv == len(strings) else 'partly',
             'degenerate' if np.any(gaps < 1e-8) else 'distinct', 'sparsified' if case['spars'] else 'plain', 'ops' if case['ops'] else 'vectors')
    ev.nontrivial(n_inv >= 3 and len(wp) >= 2)


def strat_inv(tier):
    base = strat(tier)

    @st.composite
    def s(draw):
        case = dict(draw(base))
        case['source'] = draw(st.sampled_from(['eigen', 'eigen', 'eigen', 'mix', 'random']))
        case['which'] = draw(st.integers(0, 50))
        case['scale'] = draw(st.sampled_from([1.0, 1.0, 2.0, -0.5, 0.1]))
        case['phase'] = draw(st.sampled_from([0, 0, 1]))
        case['R'] = draw(gen.operator(case['t'], case['pool'], complex_=True, max_terms=3, min_ops=1))
        return case
    return s()


def check_inv(case, ev):
    import qosy
    t = case['t']
    strings = make_strings(case)
    if not strings or len(strings) > 70:
        raise Skip()
    # a ladder operator: an eigenoperator of O in the complete space of strings, or any operator
    if case['source'] == 'random':
        terms = case['R'][1]
        rs = [s for _, _, s in terms]
        rc = np.array([complex(a, b) for a, b, _ in terms])
    else:
        full = gen.all_strings(t, case['pool'])
        if len(full) > 70:
            raise Skip()
        Op = gen.ref_op(case['O'])
        B, L, _ = adjoint(t, Op, full)
        w, V = adjoint_eigen(B, L)
        V = B @ V
        pos = np.where(w > 1e-3)[0]
        if not len(pos):
            raise Skip()
        k = pos[case['which'] % len(pos)]
        v = V[:, k]
        if case['source'] == 'mix':
            v = v + V[:, pos[(case['which'] + 1) % len(pos)]]
        x = np.linalg.lstsq(B, v, rcond=None)[0]
        keep = np.abs(x) > 1e-9 * np.max(np.abs(x))
        rs = [s for s, kp in zip(full, keep) if kp]
        rc = x[keep]
    rc = rc * case['scale'] * (1j if case['phase'] else 1.0)
    R = qosy.Operator(rc.copy(), [gen.mk_os(s) for s in rs], op_type=t)
    Rp = ref.op_poly(R)
    if not ref.clean(Rp, 1e-12):
        raise Skip()
    B, L, elems = adjoint(t, Rp, strings)
    L = -L    # [S_a, R]
    W = ref.vec_matrix(elems + [ref.comm(t, e, Rp) for e in elems] + [Rp])
    n = len(elems)
    B, L, r = W[:, :n], W[:, n:2 * n], W[:, 2 * n]
    s = np.linalg.svd(L, compute_uv=False)
    top = s[0] if len(s) else 0.0
    if top and np.any((s > 1e-14 * top) & (s < 1e-13 * top)) or np.any((s > 1e-12 * top) & (s < 1e-4 * top)) or (0 < top < 1e-3):
        raise Skip()
    u, sv, vh = np.linalg.svd(L)
    rk = int(np.sum(sv > 1e-6 * top)) if top > 1e-12 else 0
    null = vh[rk:].conj().T
    resid = np.linalg.norm(r - u[:, :rk] @ (u[:, :rk].conj().T @ r)) / np.linalg.norm(r)
    if 1e-10 < resid < 1e-4:
        raise Skip()
    exists = resid < 1e-9
    basis = gen.mk_basis(strings)
    before = (str(basis), str(R))
    kw = dict(sparsification=case['spars'], return_operators=case['ops'])
    if case['tol'] != 'default':
        kw['tol'] = case['tol']
    part, hom = qosy.core._inverse_ladder_operators(basis, R, **kw)
    require((str(basis), str(R)) == before, 'arguments were changed')

    def vec(op):
        out = np.zeros(n, dtype=complex)
        for c, os in op:
            require(os in basis, 'operator contains a string outside the basis')
            out[basis.index(os)] += c
        return out
    if case['ops']:
        require(isinstance(hom, list) and all(isinstance(h, qosy.Operator) for h in hom), 'homogeneous solutions are not a list of Operators')
        H = np.array([vec(h) for h in hom]).T.reshape(n, len(hom))
    else:
        H = np.asarray(hom)
    require(H.shape == (n, null.shape[1]), '{} operators of the basis commute with it, found {}', null.shape[1], H.shape)
    if H.shape[1]:
        require(np.max(np.abs(L @ H)) < 1e-7 * max(1.0, top), 'a homogeneous solution does not commute (by {})', np.max(np.abs(L @ H)))
        require(ref.rank(H, tol=1e-7) == H.shape[1], 'homogeneous solutions are dependent')
        require(np.allclose(np.linalg.norm(H, axis=0), 1.0, atol=1e-8), 'homogeneous solutions are not normalised')
    require((part is not None) == exists, 'a particular solution {} but {}', 'exists' if exists else 'does not exist', 'none was returned' if part is None else 'one was returned')
    if exists:
        p = vec(part) if case['ops'] else np.asarray(part)
        require(p.shape == (n,), 'particular solution has shape {}', p.shape)
        require(abs(np.linalg.norm(p) - 1) < 1e-8, 'particular solution has norm {}', np.linalg.norm(p))
        y = L @ p
        lam = np.vdot(r, y) / np.vdot(r, r)
        require(np.linalg.norm(y - lam * r) < 1e-7 * max(1.0, top), 'not an eigenoperator of the particular solution (by {})', np.linalg.norm(y - lam * r))
        require(abs(lam.imag) < 1e-8 and lam.real > 1e-9, 'eigenvalue of the particular solution is {}', lam)
    ev.label('type:' + t, 'source:' + case['source'], 'exists' if exists else 'no-solution', 'null' if null.shape[1] else 'no-null')
    ev.nontrivial(n >= 3 and rk >= 2 and (exists or null.shape[1] > 0))


PROP = Prop(
    'C29',
    'Hermitian Pauli and Majorana operators (commutators of Fermion strings are unsupported) (fields, uniform fields, quadratic forms, chains, arbitrary) on 1-3 sites with labels also beyond 0..N-1 and coefficients also multiplied by 2^10, 2^-10 or 2^-20, in complete, fixed-size, '
    'random, closed and punctured bases of strings in any order. The raising operators are compared with a brute-force diagonalisation of the adjoint action, keeping the eigenoperators whose image stays in '
    'the basis (number, eigenvalues, equation, norm, independence); the inverse search with the exact null space and image of S -> [S, R] for R an eigenoperator, a mixture or arbitrary. '
    'Non-trivial: at least two raising operators in an invariant space of dimension three or more; or at least three strings, rank two or more and a solution or commuting operators.',
    [Sub('raising', strat, check, 3000), Sub('inverse', strat_inv, check_inv, 3000)],
    ['the eigenvalues of the adjoint action that are used are separated by 1e-4 or coincide to 1e-8'])
