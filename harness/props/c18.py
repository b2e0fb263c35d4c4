"""invariant_operators against the exact action of the transformation and a brute-force null space."""
from hypothesis import strategies as st
import numpy as np
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import trans
from props.c16 import close_strings, key_to_string
from props.c17 import elements, text, phases

PLUS = ['commutator', 'commute', 'Commute', 'symmetry']
MINUS = ['anticommutator', 'anticommute', 'Anticommute', 'antisymmetry']


@st.composite
def combos(draw, strs, max_ops=7):
    """Operators that are combinations of the given strings (triangular, hence independent)."""
    n = min(len(strs), max_ops)
    near = draw(st.integers(0, 2)) == 0        # operators that nearly, but not quite, have a symmetry
    ops = []
    for j in range(n):
        terms = [[draw(st.sampled_from([1.0, 2.0, -1.0])), 0.0, strs[j]]]
        for i in range(len(strs)):
            if i < j or i >= n:
                c = draw(st.sampled_from([0, 0, 0, 1, -1, 0.5]))
                if c:
                    terms.append([c, 0.0, strs[i]])
        if near and len(terms) > 1:
            k = draw(st.integers(0, len(terms) - 1))
            terms[k][0] *= 1 + draw(st.sampled_from([0, 0, 0.02, -0.005, 0.003]))
        ops.append([draw(st.just(strs[0][0])), terms])
    return draw(st.permutations(ops))


@st.composite
def near_orbits(draw, t, T, strs, sign):
    """Sums of strings over the powers of T, which are (anti-)invariant or nearly so: one coefficient is changed by a little."""
    ops, used = [], set()
    for s in strs[:6]:
        p, q = {}, gen.ref_os(s)
        if set(q) & used:
            continue
        for m in range(12):
            p = ref.add(p, q, sign ** m)
            q = trans.act(T, t, q)
            if ref.close(q, gen.ref_os(s)) and (sign > 0 or m % 2):
                break
        p = ref.clean(p, 1e-9)
        if not p or len(p) > 12 or set(p) & used:
            p = gen.ref_os(s)
        used |= set(p)
        terms = []
        for k in sorted(p):
            x = key_to_string(t, k)
            c = complex(p[k] / gen.ref_os(x)[k])
            terms.append([c.real, c.imag, x])
        i = draw(st.integers(0, len(terms) - 1))
        f = 1 + draw(st.sampled_from([0, 0, 0.02, 0.006, -0.003, 0.002]))
        terms[i] = [terms[i][0] * f, terms[i][1] * f, terms[i][2]]
        ops.append([t, terms])
    return ops


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([2, 3, 4, 5]))
        T = draw(trans.word(t, N, max_len=3))
        case = dict(t=t, T=T, mode=draw(st.sampled_from([None] + PLUS * 2 + MINUS)), sparse=draw(st.booleans()))
        rot = trans.has(T, 'rot')
        pool = list(range(2 if rot else N))
        k = draw(st.integers(0, 3))
        strs = draw(gen.strings_list(t, pool, max_size=12, max_ops=2 if rot else None))
        if k != 0:
            keys = close_strings(dict(t=t, T=T, U=T), strs)
            if keys is not None and len(keys) <= 40:
                strs = [key_to_string(t, q) for q in keys]
                if draw(st.integers(0, 3)) == 0 and len(strs) > 1:
                    strs = strs[1:]
        if draw(st.booleans()):
            case['basis'] = strs
        elif draw(st.integers(0, 3)) == 0:
            case['ops'] = draw(near_orbits(t, T, strs, -1.0 if case['mode'] in MINUS else 1.0))
        elif draw(st.integers(0, 2)):
            case['ops'] = draw(combos(strs, draw(st.sampled_from([7, 7, 12, 20]))))
        else:
            case['ops'] = draw(gen.ops_list(t, pool, max_size=6, max_terms=4, max_ops=2 if rot else None))
        if 'ops' in case and not trans.antiunitary(T) and draw(st.booleans()):
            case['ops'] = draw(phases(case['ops']))
        return case
    return s()


def N_(case):
    return sum(len(str(x)) for x in case['T'])


def strat_orbits(tier):
    """Vectors spread over many strings: long cycles of label permutations."""
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        big = draw(st.sampled_from([12, 27, 33, 60, 90]))
        cuts = draw(st.lists(st.integers(1, big), max_size=4))
        N = big + draw(st.integers(0, 6))
        order = draw(st.sampled_from(['identity', 'stride', 'random']))
        labels = list(range(N))
        if order == 'stride':
            labels = labels[::2] + labels[1::2]
        elif order == 'random':
            labels = draw(st.permutations(labels))
        perm = list(range(N))
        ends = sorted(set([0] + [c for c in cuts if c < N] + [N]))
        for a, b in zip(ends, ends[1:]):
            cyc = labels[a:b]
            for x, y in zip(cyc, cyc[1:] + cyc[:1]):
                perm[x] = y
        T = ['perm', perm]
        if draw(st.integers(0, 3)) == 0:
            T = ['mul', T, ['T']] if draw(st.booleans()) else ['pow', T, draw(st.integers(2, 3))]
        names = gen.PM[t]
        strs = []
        if draw(st.integers(0, 3)) or N > 60:
            ops = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))
            strs = [[t, [o], [l], 0] for o in ops for l in range(N)]
            if draw(st.booleans()):
                strs.append([t, [], [], 0])
        else:
            # strings on pairs of labels, from a few pairs
            pairs = set()
            for _ in range(draw(st.integers(1, 2))):
                i, j = draw(st.integers(0, N - 1)), draw(st.integers(0, N - 1))
                if i == j:
                    continue
                for _ in range(60):
                    pairs.add((min(i, j), max(i, j)))
                    i, j = perm[i], perm[j]
            o = draw(st.sampled_from(names))
            strs = [[t, [o, o], [i, j], 0] for i, j in sorted(pairs)] or [[t, [o], [0], 0]]
        drop = draw(st.integers(0, 3))
        if drop == 0 and len(strs) > 1:
            i = draw(st.integers(0, len(strs) - 1))
            strs = strs[:i] + strs[i + 1:]
        if draw(st.booleans()):
            strs = draw(st.permutations(strs))
        case = dict(t=t, T=T, mode=draw(st.sampled_from([None] + PLUS + MINUS)), sparse=draw(st.booleans()))
        if draw(st.integers(0, 4)) == 0:
            # one operator spread over many strings, and others
            k = draw(st.integers(0, 4))
            case['ops'] = [[t, [[1.0, 0.0, x] for x in strs[k:]]]] + [[t, [[1.0, 0.0, x]]] for x in strs[:k]]
        else:
            case['basis'] = strs
        return case
    return s()


def image(case):
    """Images of the elements under the complex-linear extension of the action on Hermitian strings."""
    t, T = case['t'], case['T']
    if 'basis' in case:
        return [trans.act(T, t, gen.ref_os(s)) for s in case['basis']]
    out = []
    for _, terms in case['ops']:
        p = {}
        for re, im, s in terms:
            p = ref.add(p, trans.act(T, t, gen.ref_os(s)), complex(re, im))
        out.append(ref.clean(p, 1e-13))
    return out


def check(case, ev):
    import qosy
    t, mode = case['t'], case['mode']
    sign = -1.0 if mode in MINUS else 1.0
    basis, elems = elements(case)
    n = len(elems)
    imgs = image(case)
    W = ref.vec_matrix(elems + imgs)
    A, B = W[:, :n], W[:, n:]
    if 'ops' in case and (not ref.gap_ok(A, 1e-11, 3e-2) or ref.rank(A) < n):
        raise Skip()
    K = B - sign * A
    s = np.linalg.svd(K, compute_uv=False)
    if np.any((s > 1e-8) & (s < 1e-3)):
        raise Skip()
    dim = ref.nullspace(K, 1e-6).shape[1]
    T = trans.build(case['T'])
    before = text(basis)
    what = '{} ({}) in {}'.format(trans.describe(case['T']), mode, 'operators' if 'ops' in case else 'strings')
    kw = {} if mode is None else dict(operation_mode=mode)

    def judge(v):
        require(v.ndim == 2 and v.shape[0] == n, '{}: shape is {}', what, v.shape)
        if v.size:
            require(np.max(np.abs(K @ v)) < 1e-4, '{}: a returned operator is not mapped to {} itself (residual {:.2g})', what, 'minus' if sign < 0 else '', np.max(np.abs(K @ v)))
        require(v.shape[1] == dim, '{}: {} vectors, the space has dimension {}', what, v.shape[1], dim)
        require(ref.rank(v) == dim, '{}: the vectors are dependent', what)
        require(np.allclose(np.linalg.norm(v, axis=0), 1.0, atol=1e-9), '{}: vectors are not normalised', what)
    vecs = qosy.invariant_operators(basis, T, **kw)
    judge(vecs)
    require(text(basis) == before, 'the basis was changed')
    (v2, sup, evals, evecs) = qosy.invariant_operators(basis, T, return_superoperator=True, **kw)
    judge(v2)
    S = np.asarray(sup.todense())
    require(S.shape == (n, n) and np.allclose(S, S.conj().T, atol=1e-9), '{}: the superoperator is not Hermitian', what)
    if dim:
        require(np.max(np.abs(S @ v2)) < 1e-7, '{}: the superoperator does not annihilate the returned vectors', what)
    require(np.sum(np.abs(np.linalg.eigvalsh(S)) < 1e-7) == dim, '{}: the superoperator does not annihilate exactly the returned space', what)
    evecs = np.asarray(evecs)
    require(len(evals) == n and np.allclose(S @ evecs, evecs * np.asarray(evals)[None, :], atol=1e-7), '{}: eigenvalues and eigenvectors do not belong to the superoperator', what)
    if case['sparse'] and n - 2 > dim:
        k = dim + 1
        try:
            (v3, sup3, evals3, evecs3) = qosy.invariant_operators(basis, T, num_vecs=k, return_superoperator=True, **kw)
        except ArpackError:
            ev.label('arpack failed')
        else:
            require(evecs3.shape == (n, k) and len(evals3) == k and np.allclose(S @ evecs3, evecs3 * np.asarray(evals3)[None, :], atol=1e-6), '{}: sparse eigenpairs are wrong', what)
            require(np.allclose(np.asarray(sup3.todense()), S, atol=1e-10), '{}: sparse: a different superoperator', what)
            found = int(np.sum(np.abs(evals3) < 1e-7))
            require(v3.shape == (n, found) and found <= dim and (found > 0 or dim == 0), '{}: sparse: {} vectors, the space has dimension {}', what, v3.shape[1], dim)
            if found:
                require(np.max(np.abs(K @ v3)) < 1e-4 and np.allclose(v3.conj().T @ v3, np.eye(found), atol=1e-8), '{}: sparse vectors are wrong or not orthonormal', what)
            ev.label('sparse')
    true = np.linalg.eigvalsh(S)
    gaps = [i for i in range(n - 1) if true[i + 1] - true[i] > 1e-3 and true[i] + true[i + 1] > 1e-3]
    if case['sparse'] and gaps and true[0] > -1e-9:
        i = gaps[N_(case) % len(gaps)]
        cut = 0.5 * (true[i] + true[i + 1])
        v5 = qosy.invariant_operators(basis, T, tol=cut, **kw)
        require(v5.shape == (n, i + 1), '{}: with the cutoff {} there are {} vectors, but {} eigenvalues lie below it', what, cut, v5.shape, i + 1)
        r = S @ v5 - v5 @ np.linalg.lstsq(v5, S @ v5, rcond=None)[0]
        require(np.max(np.abs(r)) < 1e-7, '{}: with the cutoff {} other vectors are returned', what, cut)
        ev.label('cutoff')
    more = n - 1 + N_(case) % 4
    if case['sparse'] and more >= max(1, dim):
        judge(qosy.invariant_operators(basis, T, num_vecs=more, **kw))
    ev.label('type:' + t, 'sign:%+d' % sign, 'operators' if 'ops' in case else 'strings', 'kind:' + case['T'][0])
    ev.label('complex' if any(im for _, ts in case.get('ops', []) for _, im, _ in ts) else 'real', 'n>=25' if n >= 25 else 'n<25')
    ev.nontrivial(0 < dim < n)


PROP = Prop(
    'C18',
    'Bases of up to 40 strings (random, closed under the transformation, or closed up to one string) and lists of up to 7 independent, not necessarily orthogonal operators, with words of up to 3 transformations of all kinds, both signs and all spellings of the mode; '
    'lists also with complex coefficients; long cycles of up to 96 labels on one- and two-label strings; the null space is computed from the exact images. Non-trivial: the space is neither empty nor everything.',
    [Sub('search', strat, check, 6000), Sub('orbits', strat_orbits, check, 800)],
    ['cases where a singular value of the exact constraint lies between 1e-8 and 1e-3, and lists of nearly dependent operators, are skipped',
     'invariance is that of the complex-linear extension of the action on Hermitian strings (antiunitary transformations conjugate coefficients, which is immaterial for Hermitian operators)',
     'the iterative sparse solver may miss copies of a degenerate eigenvalue: what it returns is checked, not that it is complete'])
