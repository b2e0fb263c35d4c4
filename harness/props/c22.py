"""diagonalize against dense Fock-space matrices."""
from hypothesis import strategies as st
import numpy as np
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props.c17 import symmetric_op
from props.c09 import fermion_all


@st.composite
def hamiltonian(draw, t, n, complex_=False):
    pool = list(range(n))
    if t != 'Fermion' and draw(st.booleans()) and not complex_:
        return draw(symmetric_op(t, pool))
    if t == 'Fermion' and draw(st.booleans()) and not complex_:
        # hopping or pairing chain, with interactions
        terms = []
        for i in range(n):
            if draw(st.booleans()):
                terms.append([draw(gen.real_coeff()), 0.0, ['Fermion', ['CDag', 'C'], [i, i], 0]])
        for i in range(n - 1):
            k = draw(st.sampled_from(['hop', 'hop', 'pair', 'int', 'ihop']))
            c = draw(st.sampled_from([1.0, -1.0, 0.5]))
            if k in ('hop', 'ihop'):
                terms.append([c, 0.0, ['Fermion', ['CDag', 'C'], [i + 1, i], int(k == 'ihop')]])
            elif k == 'pair':
                terms.append([c, 0.0, ['Fermion', ['CDag', 'CDag'], [i, i + 1], draw(st.integers(0, 1))]])
            else:
                terms.append([c, 0.0, ['Fermion', ['CDag', 'CDag', 'C', 'C'], [i, i + 1, i + 1, i], 0]])
        return ['Fermion', terms]
    return draw(gen.operator(t, pool, min_terms=1, max_terms=6, complex_=complex_, zero=True))


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        n = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 5, 6] * 4 + [7, 8]))
        herm = draw(st.integers(0, 3)) > 0
        return dict(t=t, n=n, H=draw(gen.scaled(draw(hamiltonian(t, n, complex_=not herm)))), herm=herm, k=draw(st.one_of(st.none(), st.integers(1, 8))),
                    default=draw(st.booleans()))
    return s()


def check(case, ev):
    import qosy
    t, n = case['t'], case['n']
    if not case['H'][1]:
        raise Skip()
    H = gen.mk_op(case['H'])
    before = str(H)
    M = ref.op_matrix(H, n)
    dim = 2 ** n
    scale = np.max(np.abs(M)) + 1e-8
    if case['herm']:
        kw = {} if case['default'] else dict(mode='Hermitian')
    else:
        kw = dict(mode='general')
    evals, evecs = qosy.diagonalize(H, n, **kw)
    require(str(H) == before, 'the operator was changed')
    require(np.shape(evals) == (dim,) and np.shape(evecs) == (dim, dim), 'shapes are {} and {}', np.shape(evals), np.shape(evecs))
    shift = 0.0 if t == 'Pauli' else np.mean(evals) - np.trace(M) / dim     # the identity component may be dropped
    Ms = M + shift * np.eye(dim)
    tol = 1e-9 * scale * dim
    require(np.max(np.abs(Ms @ evecs - evecs * evals[None, :])) < tol, 'the eigenvalue equation does not hold (residual {:.2g})', np.max(np.abs(Ms @ evecs - evecs * evals[None, :])))
    if case['herm']:
        require(np.isrealobj(evals) and np.all(np.diff(evals) >= -1e-12 * scale), 'eigenvalues are not real and ascending')
        require(np.allclose(evecs.conj().T @ evecs, np.eye(dim), atol=1e-8), 'eigenvectors are not orthonormal')
        require(np.allclose(evals, np.linalg.eigvalsh(Ms), rtol=0, atol=tol), 'not the spectrum of the operator')
    else:
        require(np.allclose(np.linalg.norm(evecs, axis=0), 1.0, atol=1e-8), 'eigenvectors are not normalised')
        P = np.eye(dim)
        for p in range(1, 4):
            P = P @ Ms
            require(abs(np.sum(evals ** p) - np.trace(P)) < 1e-7 * dim * (scale * dim) ** p, 'the eigenvalues do not have the power sums of the operator')
    k = case['k']
    if k is not None and k < dim - 1:
        try:
            e2, v2 = qosy.diagonalize(H, n, num_vecs=k, **kw)
        except (ArpackError, RuntimeError):
            ev.label('arpack failed')
        else:
            require(np.shape(e2) == (k,) and np.shape(v2) == (dim, k), '{} vectors requested: shapes are {} and {}', k, np.shape(e2), np.shape(v2))
            require(np.max(np.abs(Ms @ v2 - v2 * e2[None, :])) < 1e-6 * scale * dim, '{} vectors requested: the eigenvalue equation does not hold', k)
            if case['herm']:
                require(np.allclose(v2.conj().T @ v2, np.eye(k), atol=1e-7), '{} vectors requested: not orthonormal', k)
                require(np.all(np.diff(e2) >= -1e-12 * scale), '{} vectors requested: not ascending', k)
                require(abs(e2[0] - evals[0]) < 1e-6 * scale, '{} vectors requested: the lowest eigenvalue is {}, not {}', k, e2[0], evals[0])
                if np.all(np.diff(evals[:k + 1]) > 1e-2 * scale):
                    require(np.allclose(e2, evals[:k], rtol=0, atol=1e-6 * scale), '{} vectors requested: not the lowest eigenvalues', k)
                    ev.label('lowest')
            ev.label('sparse')
    ev.label('type:' + t, 'herm' if case['herm'] else 'general', 'orbitals:%d' % n)
    ev.nontrivial(n >= 2 and np.max(np.abs(M - np.diag(np.diag(M)))) > 1e-9)


PROP = Prop(
    'C22',
    'Hermitian and non-Hermitian operators of all three types with up to 10 terms on 1-6 orbitals (random, uniform, chains, hopping, pairing and interactions), all spectra or a few vectors. Non-trivial: two or more orbitals and a matrix that is not diagonal.',
    [Sub('spectra', strat, check, 8000)],
    ['the iterative solver may miss copies of degenerate eigenvalues, so completeness is only required of well-separated lowest eigenvalues'])
