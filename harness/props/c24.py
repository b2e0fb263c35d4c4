"""apply_transformation, reduced_density_matrix, renyi_entropy."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref

COMP = st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5]), st.integers(-64, 64).map(lambda k: k / 16.0))


@st.composite
def state(draw, n, normalised=False, complex_=None):
    """[kind, parameters]: a state of n qubits (product, sparse superposition, GHZ-like, random)."""
    kind = draw(st.sampled_from(['random', 'random', 'sparse', 'product', 'basis', 'ghz']))
    cplx = draw(st.booleans()) if complex_ is None else complex_
    dim = 2 ** n
    v = np.zeros(dim, dtype=complex)
    if kind == 'random':
        seed = draw(st.integers(0, 10 ** 6))
        r = np.random.RandomState(seed)
        v = r.normal(size=dim) + (1j * r.normal(size=dim) if cplx else 0)
    elif kind == 'sparse':
        for _ in range(draw(st.integers(1, 6))):
            v[draw(st.integers(0, dim - 1))] += draw(COMP) + (1j * draw(COMP) if cplx else 0)
    elif kind == 'product':
        v = np.ones(1, dtype=complex)
        for _ in range(n):
            v = np.kron(v, np.array([draw(COMP) + (1j * draw(COMP) if cplx else 0), draw(COMP)]))
    elif kind == 'basis':
        v[draw(st.integers(0, dim - 1))] = 1.0
    else:
        k = draw(st.integers(0, dim - 1))
        v[k] += 1.0
        v[dim - 1 - k] += draw(st.sampled_from([1.0, -1.0, 0.5])) * (1j if cplx else 1)
    nrm = np.linalg.norm(v)
    if nrm < 1e-9:
        v[0] = 1.0
        nrm = 1.0
    if normalised or draw(st.booleans()):
        v = v / nrm
    return dict(re=[float(x) for x in v.real], im=[float(x) for x in v.imag] if cplx else None)


def vec(s):
    re = np.array(s['re'])
    return re if s['im'] is None else re + 1j * np.array(s['im'])


def tensor(v, n):
    return np.asarray(v).reshape((2,) * n) if n else np.asarray(v).reshape(())


def strat_perm(tier):
    @st.composite
    def s(draw):
        n = draw(gen.tail(draw(st.integers(1, 6)), draw(st.integers(7, 9)), 16))
        return dict(n=n, perm=draw(st.permutations(range(n))), perm2=draw(st.permutations(range(n))), v=draw(state(n)),
                    op=draw(gen.operator('Pauli', list(range(n)), min_terms=1, max_terms=4)), conf=draw(st.integers(0, 2 ** n - 1)),
                    bad=draw(st.integers(0, 5)) == 0)
    return s()


def check_perm(case, ev):
    import qosy
    from qosy.diagonalization import apply_transformation_conf
    n, perm, p2 = case['n'], case['perm'], case['perm2']
    T = qosy.label_permutation(perm)
    v = vec(case['v'])
    keep = v.copy()
    if case['bad']:
        longer = qosy.label_permutation(perm + [n])
        for call in (lambda: qosy.apply_transformation(longer, v, n), lambda: apply_transformation_conf(longer, case['conf'], n),
                     lambda: qosy.apply_transformation(qosy.time_reversal(), v, n), lambda: apply_transformation_conf(qosy.time_reversal(), case['conf'], n)):
            try:
                r = call()
            except (ValueError, NotImplementedError, TypeError):
                continue
            fail('a transformation that is not a permutation of the {} orbitals gives {}', n, r)
        ev.label('rejected')
    out = qosy.apply_transformation(T, v, n)
    require(np.array_equal(v, keep), 'the vector was changed')
    # axis perm[l] of the new tensor is axis l of the old one
    expect = np.transpose(tensor(v, n), np.argsort(perm)).reshape(-1)
    require(np.shape(out) == (2 ** n,) and np.array_equal(out, expect), 'permutation {} of the state is wrong', perm)
    c = case['conf']
    new = apply_transformation_conf(T, c, n)
    bits = [(c >> (n - 1 - l)) & 1 for l in range(n)]
    want = sum(b << (n - 1 - perm[l]) for l, b in enumerate(bits))
    require(int(new) == want, 'configuration {} is taken to {} instead of {}', c, new, want)
    # it is the unitary that carries operators to the relabelled ones
    op = gen.mk_op(case['op'])
    M = qosy.to_matrix(op, n)
    M2 = qosy.to_matrix(T.apply(op), n)
    a, b = M2.dot(out), qosy.apply_transformation(T, M.dot(v), n)
    require(np.allclose(a, b, atol=1e-9 * (1 + np.max(np.abs(a)))), 'the permuted state and the permuted operator do not agree')
    # composition and inverse
    T2 = qosy.label_permutation(p2)
    two = qosy.apply_transformation(T2, out, n)
    comp = qosy.label_permutation([p2[perm[l]] for l in range(n)])
    require(np.array_equal(two, qosy.apply_transformation(comp, v, n)), 'two permutations do not compose')
    back = qosy.apply_transformation(qosy.label_permutation([int(x) for x in np.argsort(perm)]), out, n)
    require(np.array_equal(back, v), 'the inverse permutation does not restore the state')
    ev.label('orbitals:%d' % n, 'complex' if case['v']['im'] is not None else 'real')
    ev.nontrivial(n >= 3 and list(perm) != list(np.argsort(perm)) and not np.array_equal(out, v))


def strat_rdm(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(1, 6))
        order = draw(st.permutations(range(n)))
        keep = list(order)[:draw(st.integers(0, n))]
        if draw(st.booleans()):
            keep = sorted(keep)
        sub = gen.operator('Pauli', list(range(max(1, len(keep)))), min_terms=1, max_terms=3, complex_=True)
        return dict(n=n, keep=keep, v=draw(state(n)), w=draw(st.one_of(st.none(), state(n))), op=draw(sub) if keep else None,
                    arr=draw(st.booleans()))
    return s()


def partial(v, w, keep, n):
    """sum_b v_{ab} conj(w_{a'b}) with the kept axes in the given order."""
    rest = [l for l in range(n) if l not in keep]
    A = np.transpose(tensor(v, n), list(keep) + rest).reshape(2 ** len(keep), 2 ** len(rest))
    B = np.transpose(tensor(w, n), list(keep) + rest).reshape(2 ** len(keep), 2 ** len(rest))
    return A @ B.conj().T


def check_rdm(case, ev):
    import qosy
    n, keep = case['n'], case['keep']
    v = vec(case['v'])
    v0 = v.copy()
    pair = case['w'] is not None
    w = vec(case['w']) if pair else v
    w0 = w.copy()
    labels = np.array(keep, dtype=int) if case['arr'] else list(keep)
    rho = qosy.reduced_density_matrix((v, w) if pair else v, labels, n)
    require(np.array_equal(v, v0) and np.array_equal(w, w0) and list(labels) == list(keep), 'the arguments were changed')
    d = 2 ** len(keep)
    tol = 1e-10 * (1 + np.linalg.norm(v) * np.linalg.norm(w))
    require(np.shape(rho) == (d, d), 'shape is {}', np.shape(rho))
    require(np.allclose(rho, partial(v, w, keep, n), atol=tol), 'not the partial trace')
    require(abs(np.trace(rho) - np.vdot(w, v)) < tol, 'the trace is {} instead of {}', np.trace(rho), np.vdot(w, v))
    if not pair:
        require(np.allclose(rho, rho.conj().T, atol=tol), 'not Hermitian')
        require(np.min(np.linalg.eigvalsh(rho)) > -tol, 'not positive')
    # expectation values of operators on the remaining orbitals
    if case['op'] is not None:
        small = gen.mk_op(case['op'])
        big = gen.mk_op([case['op'][0], [[a, b, move(s, keep)] for a, b, s in case['op'][1]]])
        lhs = np.trace(rho @ ref.op_matrix(small, len(keep)))
        rhs = np.vdot(w, ref.op_matrix(big, n) @ v)
        require(abs(lhs - rhs) < 10 * tol * (1 + sum(abs(complex(a, b)) for a, b, _ in case['op'][1])), 'expectation value {} instead of {}', lhs, rhs)
        if not pair:
            # the package's own matrices
            lhs2 = np.trace(rho @ qosy.to_matrix(small, len(keep)).toarray())
            require(abs(lhs2 - rhs) < 10 * tol * (1 + sum(abs(complex(a, b)) for a, b, _ in case['op'][1])), 'expectation value {} instead of {}', lhs2, rhs)
    ev.label('pair' if pair else 'single', 'kept:%d' % len(keep), 'ordered' if keep == sorted(keep) else 'unordered')
    ev.nontrivial(n >= 3 and 0 < len(keep) < n and np.linalg.matrix_rank(rho, tol=1e-8) > 1)


def move(s, keep):
    """The Pauli string with label l moved to keep[l] (labels ascending again)."""
    pairs = sorted((keep[l], o) for o, l in zip(s[1], s[2]))
    return ['Pauli', [o for _, o in pairs], [l for l, _ in pairs], 0]


def strat_ent(tier):
    @st.composite
    def s(draw):
        n = draw(gen.tail(draw(st.integers(1, 6)), draw(st.integers(7, 9)), 16))
        keep = list(draw(st.permutations(range(n))))[:draw(st.integers(0, n))]
        return dict(n=n, keep=keep, v=draw(state(n, normalised=True)), order=draw(gen.tail(draw(st.integers(2, 5)), draw(st.integers(6, 40)), 6)), perm=draw(st.permutations(range(n))))
    return s()


def check_ent(case, ev):
    import qosy
    n, keep, k = case['n'], case['keep'], case['order']
    v = vec(case['v'])
    rho = qosy.reduced_density_matrix(v, keep, n)
    rho0 = rho.copy()
    S = qosy.renyi_entropy(rho, n=k)
    require(np.array_equal(rho, rho0), 'the density matrix was changed')
    require(np.ndim(S) == 0 and np.isreal(S), 'the entropy is {}', S)
    p = np.linalg.eigvalsh(partial(v, v, keep, n))
    expect = np.log(np.sum(p ** k)) / (1.0 - k)
    require(abs(S - expect) < 1e-8, 'the entropy of order {} is {} instead of {}', k, S, expect)
    require(-1e-9 <= S <= len(keep) * np.log(2) + 1e-9, 'the entropy {} is out of range', S)
    require(abs(qosy.renyi_entropy(rho) - np.log(np.sum(p ** 2)) / -1.0) < 1e-8, 'the default order is not 2')
    rest = [l for l in range(n) if l not in keep]
    S2 = qosy.renyi_entropy(qosy.reduced_density_matrix(v, rest, n), n=k)
    require(abs(S - S2) < 1e-8, 'entropies of a subsystem and its complement are {} and {}', S, S2)
    S3 = qosy.renyi_entropy(rho, n=k + 1)
    require(S3 <= S + 1e-8, 'the entropy grows with the order')
    # permuting orbitals and the subsystem together changes nothing
    perm = case['perm']
    u = qosy.apply_transformation(qosy.label_permutation(perm), v, n)
    S4 = qosy.renyi_entropy(qosy.reduced_density_matrix(u, [perm[l] for l in keep], n), n=k)
    require(abs(S - S4) < 1e-8, 'the entropy changes under a permutation of the orbitals')
    ev.label('order:%d' % k if k <= 5 else 'order:6-40', 'entangled' if S > 1e-6 else 'product')
    ev.nontrivial(S > 1e-6)


PROP = Prop(
    'C24',
    'Random, sparse, product, basis and GHZ-like real and complex states of 1-6 qubits; all permutations; kept orbitals in any order, none to all; pairs of states; entropies of orders 2 to 6, sometimes up to 41. '
    'Non-trivial: a permutation of three or more qubits that is not its own inverse and changes the state, a mixed density matrix, a nonzero entropy.',
    [Sub('permutation', strat_perm, check_perm, 4000), Sub('density matrix', strat_rdm, check_rdm, 6000), Sub('entropy', strat_ent, check_ent, 5000)],
    ['qubit label 0 is the most significant bit, as in to_matrix (C21)'])
