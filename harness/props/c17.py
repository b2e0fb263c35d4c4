"""commuting_operators against exact commutators and a brute-force null space."""
from hypothesis import strategies as st
import numpy as np
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref

NM = {'Pauli': ['X', 'Y', 'Z'], 'Majorana': ['A', 'B', 'D']}


@st.composite
def symmetric_op(draw, t, pool):
    """Operators that commute with many others: uniform sums, chains, single strings."""
    k = draw(st.sampled_from(['sum', 'bonds', 'heis', 'string', 'random', 'random']))
    if k == 'sum':
        o = draw(st.sampled_from(NM[t]))
        cs = [draw(st.sampled_from([1.0, 1.0, 1.0, -1.0, 2.0])) for _ in pool]
        return [t, [[c, 0.0, [t, [o], [l], 0]] for c, l in zip(cs, pool)]]
    if k in ('bonds', 'heis') and len(pool) >= 2:
        if t == 'Majorana':
            kinds = [('A', 'B'), ('B', 'A')] if k == 'heis' else [draw(st.sampled_from([('A', 'B'), ('D', 'D'), ('A', 'A')]))]
        else:
            kinds = [('X', 'X'), ('Y', 'Y'), ('Z', 'Z')] if k == 'heis' else [draw(st.sampled_from([('X', 'X'), ('Z', 'Z'), ('X', 'Y')]))]
        bonds = [(pool[i], pool[i + 1]) for i in range(len(pool) - 1)]
        if len(pool) > 2 and draw(st.booleans()):
            bonds.append((pool[0], pool[-1]))
        J = draw(st.sampled_from([1.0, -0.5, 0.25]))
        terms = [[J * (-1.0 if (t == 'Majorana' and a == 'B') else 1.0), 0.0, [t, [a, b], list(p), 0]] for p in bonds for a, b in kinds]
        if draw(st.booleans()):
            o = 'Z' if t == 'Pauli' else 'D'
            h = draw(st.sampled_from([1.0, 0.5]))
            terms += [[h, 0.0, [t, [o], [l], 0]] for l in pool]
        return [t, terms]
    if k == 'string':
        return [t, [[draw(gen.real_coeff()), 0.0, draw(gen.string(t, pool))]]]
    return draw(gen.operator(t, pool, min_terms=0, max_terms=5, zero=True))


@st.composite
def basis_or_ops(draw, t, pool, max_size=20):
    """('basis', strings) or ('ops', operators); often k-local cluster sets."""
    if draw(st.integers(0, 2)) != 0:
        if len(pool) >= 4 and max_size == 20 and draw(st.integers(0, 9)) == 0:
            return 'basis', gen.all_strings(t, pool, [0, 1, 2] if draw(st.booleans()) else [1, 2])
        if draw(st.booleans()):
            k = draw(st.integers(1, 2))
            p = pool[:4] if k == 1 else pool[:3]
            return 'basis', gen.all_strings(t, p, [n for n in range(k + 1) if n > 0 or draw(st.booleans())])
        return 'basis', draw(gen.strings_list(t, pool, max_size=max_size))
    if draw(st.booleans()):
        # full rank change of basis of a family of strings
        strs = draw(gen.strings_list(t, pool, max_size=7))
        n = len(strs)
        ops = []
        for j in range(n):
            terms = [[1.0 * draw(st.sampled_from([1, 2, -1])), 0.0, strs[j]]]
            for i in range(j):
                c = draw(st.sampled_from([0, 0, 1, -1, 0.5]))
                if c:
                    terms.append([c, 0.0, strs[i]])
            ops.append([t, terms])
        return 'ops', ops
    return 'ops', draw(gen.ops_list(t, pool, max_size=6, max_terms=3))


@st.composite
def phases(draw, ops):
    """Multiply some of the terms by complex phases (the operators are no longer Hermitian)."""
    out = []
    for t, terms in ops:
        new = []
        for re, im, s in terms:
            z = complex(re, im) * draw(st.sampled_from([1, 1, 1j, -1j, 0.6 + 0.8j]))
            new.append([z.real, z.imag, s])
        out.append([t, new])
    return out


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, 5))
        kind, elems = draw(basis_or_ops(t, pool))
        H = draw(symmetric_op(t, pool))
        if draw(st.integers(0, 3)) == 0 and H[1]:
            # a weak perturbation: operators that nearly, but not quite, commute
            have = [x[2] for x in H[1]]
            new = [x for x in draw(gen.strings_list(t, pool, max_size=3)) if x not in have]
            H = [t, H[1] + [[draw(st.sampled_from([1e-3, 3e-4, -1e-4, 1e-2])), 0.0, x] for x in new]]
        if kind == 'ops' and draw(st.integers(0, 2)) == 0:
            elems = draw(phases(elems))
        if kind == 'ops' and draw(st.integers(0, 2)) == 0 and elems:
            # H among the operators
            elems = elems + [H] if H[1] else elems
        return {'t': t, kind: elems, 'H': H, 'mode': draw(st.sampled_from(['commutator', 'commutator', 'anticommutator', None])),
                'sparse': draw(st.booleans())}
    return s()


def elements(case):
    import qosy
    if 'basis' in case:
        return gen.mk_basis(case['basis']), [gen.ref_os(s) for s in case['basis']]
    return [gen.mk_op(o) for o in case['ops']], [gen.ref_op(o) for o in case['ops']]


def text(b):
    return str(b) if not isinstance(b, list) else [str(o) for o in b]


def check(case, ev):
    import qosy
    t = case['t']
    mode = case['mode']
    basis, elems = elements(case)
    n = len(elems)
    f = ref.acomm if mode == 'anticommutator' else ref.comm
    Href = gen.ref_op(case['H'])
    K = ref.vec_matrix([f(t, Href, e) for e in elems])
    if 'ops' in case:
        A = ref.vec_matrix(elems)
        if not ref.gap_ok(A) or ref.rank(A) < n:
            raise Skip()
    s = np.linalg.svd(K, compute_uv=False) if K.size else np.zeros(0)
    if np.any((s > 1e-8) & (s < 5e-5)):
        raise Skip()
    close = bool(np.any((s > 1e-8) & (s < 3e-3)))
    N = ref.nullspace(K, 1e-6)
    dim = N.shape[1]
    H = gen.mk_op(case['H'])
    before, hb = text(basis), str(H)
    kw = {} if mode is None else dict(operation_mode=mode)
    vecs = qosy.commuting_operators(basis, H, **kw)
    require(text(basis) == before and str(H) == hb, 'an argument was changed')

    def judge(v, what):
        require(v.ndim == 2 and v.shape[0] == n, '{}: shape is {}', what, v.shape)
        require(np.allclose(v.conj().T @ v, np.eye(v.shape[1]), atol=1e-8), '{}: vectors are not orthonormal', what)
        if K.size and v.size:
            require(np.max(np.abs(K @ v)) < 1.5e-5, '{}: a returned operator does not {} (residual {:.2g})', what, 'anticommute' if mode == 'anticommutator' else 'commute', np.max(np.abs(K @ v)))
        require(v.shape[1] == dim, '{}: {} vectors, the space has dimension {}', what, v.shape[1], dim)
    judge(vecs, 'dense')
    (v2, com, evals, evecs) = qosy.commuting_operators(basis, H, return_superoperator=True, **kw)
    judge(v2, 'dense with superoperator')
    com = np.asarray(com.todense())
    require(com.shape == (n, n) and np.allclose(com, K.conj().T @ K, atol=1e-8 * max(1.0, np.max(np.abs(com)))), 'the superoperator is not the Gram matrix of the {}s', mode or 'commutator')
    evecs = np.asarray(evecs)
    require(len(evals) == n and evecs.shape == (n, n) and np.allclose(com @ evecs, evecs * evals[None, :], atol=1e-7 * max(1.0, np.max(np.abs(com)))) and
            np.allclose(evecs.conj().T @ evecs, np.eye(n), atol=1e-8), 'eigenvalues and eigenvectors do not belong to the superoperator')
    if case['sparse'] and n - 2 > dim and not close:        # ARPACK needs fewer than n - 1 vectors
        k = dim + 1
        try:
            (v3, com3, evals3, evecs3) = qosy.commuting_operators(basis, H, num_vecs=k, return_superoperator=True, **kw)
        except ArpackError:
            ev.label('arpack failed')         # the iterative solver gave up on a degenerate spectrum
        else:
            sparse(K, com, dim, k, v3, com3, evals3, evecs3)
            ev.label('sparse')
    # a larger cutoff: all eigenvectors below it, found in any gap of the spectrum
    true = np.linalg.eigvalsh(com)
    gaps = [i for i in range(n - 1) if true[i + 1] - true[i] > 1e-3 * max(1.0, true[-1]) and true[i + 1] + true[i] > 0]
    if case['sparse'] and gaps:
        i = gaps[len(text(basis)[0]) % len(gaps)]
        cut = 0.5 * (true[i] + true[i + 1])
        v5 = qosy.commuting_operators(basis, H, tol=cut, **kw)
        require(v5.shape == (n, i + 1), 'with the cutoff {} there are {} vectors, but {} eigenvalues lie below it', cut, v5.shape, i + 1)
        require(np.allclose(v5.conj().T @ v5, np.eye(i + 1), atol=1e-8), 'with a cutoff the vectors are not orthonormal')
        r = com @ v5 - v5 @ (v5.conj().T @ com @ v5)
        require(np.max(np.abs(r)) < 1e-7 * max(1.0, true[-1]) and np.linalg.eigvalsh(v5.conj().T @ com @ v5)[-1] < cut, 'with the cutoff {} other vectors are returned', cut)
        ev.label('cutoff')
    more = n - 1 + len(case['H'][1]) % 4
    if case['sparse'] and more >= max(1, dim):              # all or almost all vectors
        judge(qosy.commuting_operators(basis, H, num_vecs=more, **kw), '%d of %d vectors' % (more, n))
    if close:
        ev.label('nearly commuting')
    if any(term[1] for o in case.get('ops', []) for term in o[1]):
        ev.label('complex operators')
    ev.label('type:' + t, 'mode:' + str(mode), 'operators' if 'ops' in case else 'strings')
    ev.nontrivial(0 < dim < n)


def sparse(K, com, dim, k, v, com3, evals, evecs):
    """An iterative solver may miss copies of degenerate eigenvalues, but what it finds must be right."""
    n = com.shape[0]
    true = np.linalg.eigvalsh(com)
    scale = max(1.0, true[-1])
    require(evecs.shape == (n, k) and len(evals) == k, 'sparse: {} eigenvalues, {} requested', len(evals), k)
    require(np.allclose(com @ evecs, evecs * evals[None, :], atol=1e-6 * scale), 'sparse: eigenvalues and eigenvectors do not belong to the superoperator')
    require(np.allclose(evecs.conj().T @ evecs, np.eye(k), atol=1e-7), 'sparse: eigenvectors are not orthonormal')
    require(np.allclose(np.asarray(com3.todense()), com, atol=1e-12 * scale), 'sparse: a different superoperator')
    require(np.allclose(np.unique(np.round(np.sort(evals), 6))[:1], np.round(true[:1], 6), atol=1e-5), 'sparse: the lowest eigenvalue {} is missing', true[0])
    if np.all(np.diff(true[:k + 1]) > 1e-3):
        require(np.allclose(np.sort(evals), true[:k], atol=1e-6 * scale), 'sparse: not the lowest eigenvalues')
    found = int(np.sum(np.abs(evals) < 1e-7))
    require(v.ndim == 2 and v.shape == (n, found), 'sparse: {} vectors for {} zero eigenvalues', v.shape, found)
    require(found <= dim and (found > 0 or dim == 0), 'sparse: {} vectors, the space has dimension {}', found, dim)
    if found:
        require(np.max(np.abs(K @ v)) < 1e-4, 'sparse: a returned operator does not commute')
        require(np.allclose(v.conj().T @ v, np.eye(found), atol=1e-8), 'sparse: vectors are not orthonormal')
    if dim <= 1:
        require(found == dim, 'sparse: {} vectors, the space has dimension {}', found, dim)


PROP = Prop(
    'C17',
    'Bases of up to 106 strings (all 1- and 2-local strings, or random) and lists of up to 7 independent operators (also with complex coefficients) on up to 5 labels, searched with uniform sums, chains, single strings and random Hermitian operators (a quarter with weak extra terms), in both modes, '
    'with the dense solver and with the sparse solver for one vector more than the dimension. The null space is computed from exact commutators. Non-trivial: the space is neither empty nor everything.',
    [Sub('search', strat, check, 14000)],
    ['cases where a singular value of the exact commutators lies between 1e-8 and 5e-5 are skipped',
     'the iterative sparse solver may miss copies of a degenerate eigenvalue: what it returns is checked, not that it is complete, unless the spectrum is simple'])
