"""Free-fermion solvers against exact many-body diagonalisation."""
import itertools
from hypothesis import strategies as st
import numpy as np
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref


@st.composite
def quadratic(draw, n, pairing=True):
    """Fermion quadratic Hamiltonian: list of terms with real coefficients."""
    terms = {}

    def put(ops, labels, pf, c):
        s = ['Fermion', ops, labels, pf]
        terms.setdefault(repr(s), [c, 0.0, s])
    kind = draw(st.sampled_from(['chain', 'random', 'random', 'kitaev', 'sparse']))
    amp = st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.3]) if draw(st.booleans()) else gen.real_coeff()
    if kind in ('chain', 'kitaev'):
        t = draw(amp)
        mu = draw(st.sampled_from([0.0, 0.0, 1.0, 0.5]))
        per = draw(st.booleans()) and n > 2
        for i in range(n - 1 + per):
            j = (i + 1) % n
            put(['CDag', 'C'], [max(i, j), min(i, j)], 0, t)
            if kind == 'kitaev' and pairing:
                put(['CDag', 'CDag'], [min(i, j), max(i, j)], 0, t if draw(st.booleans()) else draw(amp))
        for i in range(n):
            if mu:
                put(['CDag', 'C'], [i, i], 0, mu)
    else:
        for i in range(n):
            for j in range(i + 1):
                if draw(st.integers(0, 2 if kind == 'random' else 5)) == 0:
                    continue
                if i == j:
                    if draw(st.booleans()):
                        put(['CDag', 'C'], [i, i], 0, draw(amp))
                    continue
                for ops, labs in ((['CDag', 'C'], [i, j]), (['CDag', 'CDag'], [j, i])):
                    if ops == ['CDag', 'CDag'] and not pairing:
                        continue
                    for pf in (0, 1):
                        if draw(st.integers(0, 2)) == 0:
                            put(ops, labs, pf, draw(amp))
    return ['Fermion', draw(st.permutations(list(terms.values())))]


@st.composite
def maj_quadratic(draw, n):
    """Majorana quadratic Hamiltonian."""
    terms = {}
    hi = draw(st.integers(1, 8))
    for _ in range(hi):
        if draw(st.integers(0, 3)) == 0 or n == 1:
            s = ['Majorana', ['D'], [draw(st.integers(0, n - 1))], 0]
        else:
            i, j = sorted(draw(st.permutations(range(n)))[:2])
            s = ['Majorana', [draw(st.sampled_from('AB')), draw(st.sampled_from('AB'))], [i, j], 0]
        terms.setdefault(repr(s), [draw(gen.real_coeff()), 0.0, s])
    return ['Majorana', list(terms.values())]


def strat(tier):
    @st.composite
    def s(draw):
        n = draw(gen.tail(draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5])), draw(st.integers(6, 12)), 12))
        form = draw(st.sampled_from(['Fermion', 'converted', 'Majorana']))
        H = draw(maj_quadratic(n)) if form == 'Majorana' else draw(quadratic(n))
        H = draw(gen.scaled(H))
        return dict(n=n, form=form, H=H, extra=draw(st.integers(0, 1)),
                    k=draw(st.one_of(st.none(), st.integers(1, 4))), sigma=draw(st.booleans()))
    return s()


def strat_tb(tier):
    @st.composite
    def s(draw):
        n = draw(gen.tail(draw(st.sampled_from([1, 2, 3, 4, 5])), draw(st.integers(6, 24)), 8))
        return dict(n=n, form=draw(st.sampled_from(['Fermion', 'converted'])), H=draw(gen.scaled(draw(quadratic(n, pairing=False)))), extra=draw(st.integers(0, 1)),
                    k=draw(st.one_of(st.none(), st.integers(1, 3))))
    return s()


def op_of(case):
    import qosy
    H = gen.mk_op(case['H'])
    if case['form'] == 'converted':
        H = qosy.convert(H, 'Majorana')
    return H


def many_body(case, n):
    if n > 6:
        # too large for Fock space: the mode equations determine the result
        return None, np.array([-1.0, 1.0]) * sum(abs(complex(a, b)) for a, b, _ in case['H'][1])
    M = ref.dense('Fermion' if case['H'][0] == 'Fermion' else 'Majorana', gen.ref_op(case['H']), n)
    return M, np.linalg.eigvalsh(M)


def occupations(e0, eps):
    out = np.array([e0])
    for e in eps:
        out = np.concatenate((out, out + e))
    return np.sort(out)


def check(case, ev):
    import qosy
    n = case['n'] + case['extra']           # possibly an orbital that does not occur
    if not case['H'][1]:
        raise Skip()
    H = op_of(case)
    before = str(H)
    M, spec = many_body(case, n)
    tr = np.mean(spec) if M is not None else gen.ref_op(case['H']).get(0, 0.0).real      # the identity component
    scale = np.max(np.abs(spec)) + 1e-8
    tol = 1e-8 * scale
    fp = gen.ref_op(case['H'])
    fp = ref.drop_id('Majorana', fp)

    # --- Majorana solver
    shift, eps, evF, evM = qosy.diagonalize_quadratic(H, n)
    eps = np.asarray(eps)
    require(eps.shape == (n,) and np.all(eps >= -1e-9 * scale), 'quadratic: energies are {}', eps)
    require(M is None or np.allclose(occupations(tr + shift, eps), spec, rtol=0, atol=tol), 'quadratic: occupations of {} from {} give {}, the many-body spectrum is {}', eps, shift, occupations(tr + shift, eps), spec)
    Z = np.asarray(evM)
    require(Z.shape == (2 * n, 2 * n) and np.allclose(Z.T @ Z, np.eye(2 * n), atol=1e-8), 'quadratic: Majorana modes are not orthonormal')
    modes = [{1 << k: Z[k, m] for k in range(2 * n)} for m in range(2 * n)]
    W = {}
    for m in range(n):
        W = ref.add(W, ref.scale(ref.mul('Majorana', modes[2 * m], modes[2 * m + 1]), 0.5j * eps[m]))
    W = ref.drop_id('Majorana', W)
    require(ref.diff(W, fp) < tol, 'quadratic: the Majorana modes do not diagonalise the Hamiltonian (off by {:.2g})', ref.diff(W, fp))
    require(abs(shift + 0.5 * np.sum(eps)) < tol, 'quadratic: the ground-state energy is {} for energies {}', shift, eps)
    # Fermion modes: rows are annihilation operators c_m, then creation operators, in terms of c_1..c_n, c_1^dagger..c_n^dagger
    F = np.asarray(evF)
    require(F.shape == (2 * n, 2 * n) and np.allclose(F @ F.conj().T, np.eye(2 * n), atol=1e-8), 'quadratic: Fermion modes are not orthonormal')
    basis = [ref.single('Majorana', 'C', j) for j in range(n)] + [ref.single('Majorana', 'CDag', j) for j in range(n)]
    for m in range(2 * n):
        c = {}
        for j in range(2 * n):
            c = ref.add(c, basis[j], F[m, j])
        r = ref.add(ref.comm('Majorana', fp, c), c, eps[m % n] * (1 if m < n else -1))
        require(ref.maxabs(r) < tol, 'quadratic: Fermion mode {} is not an eigenoperator', m)

    # --- Bogoliubov-de Gennes
    E, U, V = qosy.diagonalize_bdg(H, n)
    require(np.shape(E) == (n,) and np.shape(U) == (n, n) and np.shape(V) == (n, n), 'bdg: shapes are wrong')
    require(np.all(np.asarray(E) >= 0) and (M is None or np.allclose(occupations(tr - 0.5 * np.sum(E), E), spec, rtol=0, atol=tol)), 'bdg: occupations of {} do not give the many-body spectrum', E)
    require(np.allclose(U.conj().T @ U + V.conj().T @ V, np.eye(n), atol=1e-8), 'bdg: modes are not orthonormal')
    for m in range(n):
        # gamma^dagger = sum U c^dagger + V c lowers or raises the energy by E: [H, gamma^dagger] = -E gamma^dagger
        g = {}
        for j in range(n):
            g = ref.add(g, ref.single('Majorana', 'CDag', j), U[j, m])
            g = ref.add(g, ref.single('Majorana', 'C', j), V[j, m])
        r = ref.add(ref.comm('Majorana', fp, g), g, E[m])
        require(ref.maxabs(r) < tol, 'bdg: mode {} is not an eigenoperator (residual {:.2g})', m, ref.maxabs(r))
    require(np.allclose(np.sort(E), np.sort(eps), rtol=0, atol=tol), 'the solvers disagree: {} and {}', np.sort(E), np.sort(eps))
    k = case['k']
    if k is not None and k <= n and k < 2 * n - 1:
        sigma = 0.0 if case['sigma'] and np.min(E) > 1e-2 * scale else None
        try:
            E2, U2, V2 = qosy.diagonalize_bdg(H, n, sigma=sigma, num_vecs=k)
        except (ArpackError, RuntimeError):
            ev.label('arpack failed')
        else:
            require(np.shape(E2) == (k,) and np.shape(U2) == (n, k) and np.shape(V2) == (n, k), 'bdg: {} vectors requested: shapes are wrong', k)
            require(np.allclose(U2.conj().T @ U2 + V2.conj().T @ V2, np.eye(k), atol=1e-7), 'bdg: {} vectors requested: modes are not orthonormal', k)
            for m in range(k):
                g = {}
                for j in range(n):
                    g = ref.add(g, ref.single('Majorana', 'CDag', j), U2[j, m])
                    g = ref.add(g, ref.single('Majorana', 'C', j), V2[j, m])
                r = ref.add(ref.comm('Majorana', fp, g), g, E2[m])
                require(ref.maxabs(r) < 10 * tol, 'bdg: {} vectors requested: mode {} is not an eigenoperator (residual {:.2g})', k, m, ref.maxabs(r))
            Es = np.sort(E)[::-1] if sigma is None else np.sort(E)
            if np.all(np.abs(np.diff(Es[:k + 1])) > 1e-2 * scale):
                require(np.allclose(np.sort(E2), np.sort(Es[:k]), rtol=0, atol=1e-6 * scale), 'bdg: {} vectors requested: energies {} instead of {}', k, E2, Es[:k])
            ev.label('sparse bdg' if sigma is None else 'sparse bdg near zero')
    require(str(H) == before, 'the operator was changed')
    ev.label('form:' + case['form'], 'modes:%d' % n, 'zero mode' if np.any(eps < 1e-9 * scale) else 'no zero mode',
             'degenerate' if np.any(np.diff(np.sort(eps)) < 1e-9 * scale) else 'simple')
    ev.nontrivial(n >= 2 and np.any(eps > 1e-9 * scale) and (M is None or np.max(np.abs(M - np.diag(np.diag(M)))) > 1e-9 * scale))


def check_tb(case, ev):
    import qosy
    n = case['n'] + case['extra']
    if not case['H'][1]:
        raise Skip()
    H = op_of(case)
    before = str(H)
    M, spec = many_body(case, n)
    e, v = qosy.diagonalize_quadratic_tightbinding(H, n)
    require(np.shape(e) == (n,) and np.shape(v) == (n, n), 'shapes are wrong')
    scale = np.max(np.abs(spec)) + 1e-8
    tol = 1e-8 * scale
    require(np.all(np.diff(e) >= -1e-12 * scale), 'energies are not ascending')
    occ = occupations(0.0, e if M is not None else e[:0])
    if case['form'] == 'Fermion':
        require(M is None or np.allclose(occ, spec, rtol=0, atol=tol), 'occupations of {} do not give the many-body spectrum', e)
    require(M is None or np.allclose(occ - np.mean(occ), spec - np.mean(spec), rtol=0, atol=tol), 'occupations of {} do not give the many-body spectrum up to a shift', e)
    require(np.allclose(v.conj().T @ v, np.eye(n), atol=1e-8), 'orbitals are not orthonormal')
    fp = gen.ref_op(case['H'])

    def judge(e, v, tol):
        for m in range(len(e)):
            g = {}
            for j in range(n):
                g = ref.add(g, ref.single('Majorana', 'CDag', j), v[j, m])
            r = ref.add(ref.comm('Majorana', fp, g), g, -e[m])
            require(ref.maxabs(r) < tol, 'orbital {} is not an eigenoperator of energy {}', m, e[m])
    judge(e, v, tol)
    k = case['k']
    if k is not None and k < n - 1:
        try:
            e2, v2 = qosy.diagonalize_quadratic_tightbinding(H, n, num_vecs=k)
        except (ArpackError, RuntimeError):
            ev.label('arpack failed')
        else:
            require(np.shape(e2) == (k,) and np.shape(v2) == (n, k), '{} vectors requested: shapes are wrong', k)
            judge(e2, v2, 1e-6 * scale)
            require(np.allclose(v2.conj().T @ v2, np.eye(k), atol=1e-7), '{} vectors requested: not orthonormal', k)
            require(np.all(np.diff(e2) >= -1e-12 * scale), '{} vectors requested: not ascending', k)
            if np.all(np.diff(e[:k + 1]) > 1e-2 * scale):
                require(np.allclose(e2, e[:k], rtol=0, atol=1e-6 * scale), '{} vectors requested: not the lowest', k)
            ev.label('sparse')
    require(str(H) == before, 'the operator was changed')
    ev.label('form:' + case['form'], 'modes:%d' % n)
    ev.nontrivial(n >= 2 and (M is None or np.max(np.abs(M - np.diag(np.diag(M)))) > 1e-9 * scale))


PROP = Prop(
    'C23',
    'Quadratic Hamiltonians on 1-6 (occasionally up to 24, without the comparison in Fock space) modes with hopping, on-site and pairing terms of real and imaginary amplitude (chains, Kitaev chains, random, sparse ones with unused orbitals), given as Fermion operators, converted to Majorana form, or written in Majorana strings. '
    'Non-trivial: two or more modes, a nonzero energy and a Hamiltonian that is not diagonal.',
    [Sub('bdg', strat, check, 7000), Sub('tightbinding', strat_tb, check_tb, 5000)],
    ['energies of diagonalize_quadratic and diagonalize_bdg are absolute values, the ground-state energy leaves out the identity component, as the code states',
     'the iterative solver may miss copies of degenerate eigenvalues'])
