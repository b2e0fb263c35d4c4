"""gram_schmidt, sparsify, intersection."""
from hypothesis import strategies as st
import numpy as np
import scipy.sparse as ss
from core import Prop, Sub, fail, require, Skip
import ref

GRID = st.one_of(st.sampled_from([0, 0, 0, 1, -1, 2]), st.integers(-4, 4))


@st.composite
def columns(draw, n, k, cplx=False, scale=True):
    """n rows, k columns of small integers (or Gaussian integers) as [[re, im] ...] lists of columns."""
    cols = []
    for j in range(k):
        kind = draw(st.sampled_from(['new', 'new', 'new', 'zero', 'copy', 'sum', 'unit']))
        if kind == 'zero':
            c = [[0, 0]] * n
        elif kind == 'copy' and cols:
            f = draw(st.sampled_from([1, -1, 2]))
            c = [[f * a, f * b] for a, b in cols[draw(st.integers(0, len(cols) - 1))]]
        elif kind == 'sum' and len(cols) > 1:
            x, y = cols[draw(st.integers(0, len(cols) - 1))], cols[draw(st.integers(0, len(cols) - 1))]
            f = draw(st.sampled_from([1, -1, 2]))
            c = [[a + f * p, b + f * q] for (a, b), (p, q) in zip(x, y)]
        elif kind == 'unit':
            i = draw(st.integers(0, n - 1))
            c = [[int(i == r), 0] for r in range(n)]
        else:
            c = [[draw(GRID), draw(GRID) if cplx else 0] for _ in range(n)]
        cols.append(c)
    return cols


def matrix(cols, n, cplx, scale=1.0):
    M = np.array([[complex(a, b) for a, b in c] for c in cols], dtype=complex).reshape(len(cols), n).T * scale
    return np.ascontiguousarray(M if cplx else M.real)


def well(M, lo=1e-9, hi=1e-3):
    """All prefixes of the columns have singular values that are clearly zero or clearly not, relative to the largest."""
    for j in range(1, M.shape[1] + 1):
        s = np.linalg.svd(M[:, :j], compute_uv=False)
        if s[0] and np.any((s / s[0] > lo) & (s / s[0] < hi)):
            return False
    return True


def rank(M):
    if 0 in M.shape:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    return int(np.sum(s > 1e-6 * max(s[0], 1e-300)))


def same_span(A, B, tol=1e-6):
    ra, rb = rank(A), rank(B)
    if ra != rb:
        return False
    if ra == 0:
        return True
    Ua = np.linalg.svd(A, full_matrices=False)[0][:, :ra]
    Ub = np.linalg.svd(B, full_matrices=False)[0][:, :rb]
    return np.max(np.abs(Ub - Ua @ (Ua.conj().T @ Ub))) < tol


def strat_gs(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 9 if tier == 'quick' else 12)) if draw(st.integers(0, 9)) else draw(st.integers(10, 30))
        cplx = draw(st.booleans())
        k = draw(st.integers(0, n + 2))
        return dict(n=n, cplx=cplx, cols=draw(columns(n, k, cplx)), scale=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 250.0])),
                    form=draw(st.sampled_from(['dense', 'dense', 'csr', 'csc'])), tol=draw(st.sampled_from([1e-10, 1e-8, 1e-6, 0.0, 'default'])),
                    order=draw(st.sampled_from(['C', 'F'])))
    return s()


def call_gs(M, case):
    import qosy
    if case['form'] == 'dense':
        A = np.asarray(M, order=case['order'])
        keep = A.copy()
        Q = qosy.tools.gram_schmidt(A) if case['tol'] == 'default' else qosy.tools.gram_schmidt(A, tol=case['tol'])
        require(np.array_equal(A, keep), 'the matrix was changed')
        require(isinstance(Q, np.ndarray) and not np.shares_memory(Q, A), 'the result is not a new dense matrix')
        return Q
    A = ss.csr_matrix(M) if case['form'] == 'csr' else ss.csc_matrix(M)
    Q = qosy.tools.gram_schmidt(A) if case['tol'] == 'default' else qosy.tools.gram_schmidt(A, tol=case['tol'])
    require(np.array_equal(A.toarray(), M), 'the matrix was changed')
    require(ss.issparse(Q), 'a sparse matrix gives a result that is not sparse')
    return Q.toarray()


def check_gs(case, ev):
    n = case['n']
    M = matrix(case['cols'], n, case['cplx'], case['scale'])
    k = M.shape[1]
    if not well(M):
        raise Skip()
    r = rank(M)
    if case['tol'] in (0.0, 'default') and r < k:
        raise Skip()                        # with zero tolerance dependent columns are documented not to be discarded
    Q = call_gs(M, case)
    require(Q.shape == (n, r), 'the shape of the result is {} for a matrix of rank {}', Q.shape, r)
    if r:
        require(np.allclose(Q.conj().T @ Q, np.eye(r), atol=1e-7), 'the columns are not orthonormal')
    # prefix by prefix
    for j in range(1, k + 1):
        rj = rank(M[:, :j])
        require(same_span(M[:, :j], Q[:, :rj]), 'the first {} columns do not span the space of the first {} given ones', rj, j)
        if rj > (rank(M[:, :j - 1]) if j > 1 else 0):
            # each vector points along the given column
            ov = np.vdot(Q[:, rj - 1], M[:, j - 1])
            require(abs(ov.imag) < 1e-7 * np.linalg.norm(M) and ov.real > 0, 'vector {} does not point along the new part of column {}', rj - 1, j - 1)
    ev.label('form:' + case['form'], 'dependent' if r < k else 'independent')
    ev.nontrivial(r >= 2 and n >= 3)


def strat_near(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(2, 12))
        cplx = draw(st.booleans())
        cols = draw(columns(n, draw(st.integers(1, max(1, n // 2))), cplx))
        near = [[draw(st.integers(0, 10)), draw(st.integers(0, len(cols) - 1)), draw(st.sampled_from([0, 1, -1, 2])), draw(st.integers(0, len(cols) - 1)),
                 draw(st.integers(0, n - 1)), draw(st.integers(3, 8))] for _ in range(draw(st.integers(1, max(1, n // 2))))]
        return dict(n=n, cplx=cplx, cols=cols, near=near, scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0])),
                    form=draw(st.sampled_from(['dense', 'dense', 'csr', 'csc'])), tol=draw(st.sampled_from([1e-12, 0.0, 'default'])),
                    order=draw(st.sampled_from(['C', 'F'])))
    return s()


def check_near(case, ev):
    """Columns that are nearly but not exactly combinations of others: the result is orthonormal to working precision."""
    n = case['n']
    M = list(matrix(case['cols'], n, case['cplx'], case['scale']).T)
    for pos, a, f, b, i, p in case['near']:
        c = M[a] + f * M[b]
        c = c + (10.0 ** -p) * np.linalg.norm(c) * np.eye(n)[i]
        M.insert(pos % (len(M) + 1), c)
    M = np.ascontiguousarray(np.array(M).T)
    u = np.linalg.norm(M, axis=0)
    if np.any(u == 0) or M.shape[1] > n:
        raise Skip()
    for j in range(1, M.shape[1] + 1):
        s = np.linalg.svd(M[:, :j] / u[:j], compute_uv=False)
        if s[-1] < 2e-9:
            raise Skip()                    # too close to dependent
    Q = call_gs(M, case)
    k = M.shape[1]
    require(Q.shape == (n, k), 'the shape of the result is {} for a matrix of rank {}', Q.shape, k)
    require(np.max(np.abs(Q.conj().T @ Q - np.eye(k))) < 1e-10, 'the columns are orthonormal only to {:.1e}', np.max(np.abs(Q.conj().T @ Q - np.eye(k))))
    for j in range(1, k + 1):
        a = M[:, j - 1] / u[j - 1]
        require(np.linalg.norm(a - Q[:, :j] @ (Q[:, :j].conj().T @ a)) < 1e-10, 'column {} is outside of the span of the first {} results', j, j)
        ov = np.vdot(Q[:, j - 1], a)
        require(ov.real > 0 and abs(ov.imag) < 1e-10, 'vector {} does not point along the new part of column {}', j - 1, j - 1)
    ev.label('near-form:' + case['form'], 'smallest:1e{}'.format(int(np.floor(np.log10(s[-1])))))
    ev.nontrivial(s[-1] < 1e-3)


def strat_sp(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 9 if tier == 'quick' else 12)) if draw(st.integers(0, 9)) else draw(st.integers(10, 30))
        cplx = draw(st.booleans())
        k = draw(st.integers(1, min(n, 6 if n < 10 else 12)))
        return dict(small=[[draw(st.integers(0, n - 1)), draw(st.integers(0, k - 1)), draw(st.integers(3, 7))] for _ in range(draw(st.sampled_from([0, 0, 2, 4])))], n=n, cplx=cplx, cols=draw(columns(n, k, cplx)), scale=draw(st.sampled_from([1.0, 1.0, 1e-3, 250.0])), orth=draw(st.sampled_from([True, False, None])))
    return s()


def check_sp(case, ev):
    import qosy
    n = case['n']
    M = matrix(case['cols'], n, case['cplx'], case['scale'])
    k = M.shape[1]
    for i, j, p in case.get('small', []):
        M[i, j] *= 10.0 ** -p               # small entries
    if not well(M) or rank(M) < k:
        raise Skip()                        # a basis of a space is required
    keep = M.copy()
    kw = {} if case['orth'] is None else dict(orthogonalize=case['orth'])
    Q = qosy.tools.sparsify(M, **kw)
    require(np.array_equal(M, keep), 'the matrix was changed')
    require(Q.shape == (n, k), 'the shape of the result is {}', Q.shape)
    require(np.all(np.isfinite(Q)) and same_span(M, Q, 1e-9), 'the span was changed')
    if k > 1:
        require(np.allclose(np.linalg.norm(Q, axis=0), 1.0, atol=1e-8), 'the columns are not normalised')
        if case['orth'] is not False:
            require(np.allclose(Q.conj().T @ Q, np.eye(k), atol=1e-7), 'the columns are not orthonormal')
        nz = np.sum(np.abs(Q) > 1e-9, axis=0)
        amb = np.any((np.abs(Q) > 1e-13) & (np.abs(Q) < 1e-9))
        require(amb or np.all(np.diff(nz) >= 0), 'the vectors are not ordered by sparsity: {}', nz)
        if case['orth'] is False:
            # in echelon form: k-1 entries of each vector can be eliminated
            require(amb or np.sum(nz) <= k * n - k * (k - 1) // 2, 'the vectors are not sparsified')
    ev.label('orthogonal' if case['orth'] is not False else 'echelon', 'columns:%d' % k)
    ev.nontrivial(k >= 2 and n >= 3)


def strat_in(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 8 if tier == 'quick' else 11)) if draw(st.integers(0, 9)) else draw(st.integers(9, 24))
        cplx = draw(st.booleans())
        if n >= 3 and draw(st.booleans()):
            # planted dimensions: d common directions, p and q others
            d = draw(st.integers(1, n - 2))
            p = draw(st.integers(1, n - d - 1))
            q = draw(st.integers(1, n - d - p))
            r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
            cols = [[[int(x), int(y) * cplx] for x, y in r.randint(-3, 4, size=(n, 2))] for _ in range(d + p + q)]
            return dict(n=n, cplx=cplx, common=cols[:d], a=cols[d:d + p], b=cols[d + p:], rot=draw(st.integers(0, 10 ** 6)))
        common = draw(columns(n, draw(st.integers(0, max(1, n // 2))), cplx))
        a = draw(columns(n, draw(st.integers(0, 3)), cplx))
        b = draw(columns(n, draw(st.integers(0, 3)), cplx))
        if draw(st.integers(0, 5)) == 0:
            b = []
        rot = draw(st.integers(0, 10 ** 6))
        return dict(n=n, cplx=cplx, common=common, a=a, b=b, rot=rot)
    return s()


def onb(M, seed, cplx):
    """Randomly rotated orthonormal basis of the column space."""
    r = rank(M)
    if r == 0:
        return np.zeros((M.shape[0], 0), dtype=M.dtype)
    U = np.linalg.svd(M, full_matrices=False)[0][:, :r]
    rs = np.random.RandomState(seed)
    R = np.linalg.qr(rs.normal(size=(r, r)) + (1j * rs.normal(size=(r, r)) if cplx else 0))[0]
    return U @ R


def check_in(case, ev):
    import qosy
    n, cplx = case['n'], case['cplx']
    A = matrix(case['common'] + case['a'], n, cplx)
    B = matrix(case['common'] + case['b'], n, cplx)
    if not well(A) or not well(B):
        raise Skip()
    V, W = onb(A, case['rot'], cplx), onb(B, case['rot'] + 1, cplx)
    s = np.linalg.svd(V.conj().T @ W, compute_uv=False) if V.shape[1] and W.shape[1] else np.zeros(0)
    if np.any((1 - s > 1e-12) & (1 - s < 1e-5)):
        raise Skip()                        # nearly common directions
    d = int(np.sum(1 - s < 1e-12))
    v0, w0 = V.copy(), W.copy()
    X = qosy.tools.intersection(V, W)
    require(np.array_equal(V, v0) and np.array_equal(W, w0), 'an argument was changed')
    require(X.shape == (n, d), 'the intersection has shape {} but dimension {}', X.shape, d)
    if d:
        require(np.allclose(X.conj().T @ X, np.eye(d), atol=1e-7), 'the vectors are not orthonormal')
        require(np.allclose(V @ (V.conj().T @ X), X, atol=1e-6) and np.allclose(W @ (W.conj().T @ X), X, atol=1e-6), 'the vectors are not in both spaces')
    require(same_span(X, qosy.tools.intersection(W, V)) if d else qosy.tools.intersection(W, V).shape[1] == 0, 'the intersection is not symmetric')
    ev.label('dim:%d' % d, 'complex' if cplx else 'real')
    ev.nontrivial(d >= 1 and V.shape[1] > d and W.shape[1] > d)


PROP = Prop(
    'C25',
    'Real and complex matrices of up to 9 rows (thorough 12) with columns that are new, zero, unit vectors, copies or combinations of earlier ones, at several scales, dense (both memory orders) and sparse; pairs of spaces with planted intersections in random orthonormal bases. '
    'Cases whose singular values are neither clearly zero nor clearly nonzero are skipped. Non-trivial: two or more independent columns in three or more dimensions; a proper intersection of dimension one or more.',
    [Sub('gram_schmidt', strat_gs, check_gs, 6000), Sub('nearly dependent columns', strat_near, check_near, 4000), Sub('sparsify', strat_sp, check_sp, 5000), Sub('intersection', strat_in, check_in, 5000)],
    ['a zero tolerance keeps dependent columns, as documented, so those are given a positive tolerance', 'sparsify is given linearly independent columns'])
