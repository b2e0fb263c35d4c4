"""to_matrix, to_vector, to_operator against Kronecker products and traces."""
from hypothesis import strategies as st
import numpy as np
import scipy.sparse as ss
from core import Prop, Sub, fail, require, Skip
import gen, ref


def strat(tier):
    @st.composite
    def s(draw):
        n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 5, 6]))
        pool = list(range(n))
        cplx = draw(st.booleans())
        A = draw(gen.scaled(draw(gen.operator('Pauli', pool, min_terms=0, max_terms=6, complex_=cplx, zero=True))))
        B = draw(gen.operator('Pauli', pool, min_terms=0, max_terms=4, complex_=cplx, zero=True))
        return dict(n=n, A=A, B=B, extra=draw(gen.strings_list('Pauli', pool, min_size=0, max_size=6)), dense=draw(st.booleans()),
                    unit=draw(st.sampled_from([2.0 ** -50, 2.0 ** -40, 2.0 ** -30, 2.0 ** -20, 2.0 ** -10, 2.0 ** 10, 2.0 ** 30])),
                    strs=draw(gen.strings_list('Pauli', pool, min_size=1, max_size=3)))
    return s()


def check(case, ev):
    import qosy
    n = case['n']
    A, B = gen.mk_op(case['A']), gen.mk_op(case['B'])
    RA, RB = (ref.pauli_dense(gen.ref_op(case[k]), n) for k in 'AB')
    sa, sb = str(A), str(B)
    for s in case['strs']:
        M = qosy.diagonalization.to_matrix(gen.mk_os(s), n)
        require(M.shape == (2 ** n, 2 ** n) and np.allclose(np.asarray(M.todense()), ref.pauli_dense(gen.ref_os(s), n), atol=1e-12), 'matrix of {} on {} orbitals is wrong', gen.show(s), n)
    MA, MB = qosy.diagonalization.to_matrix(A, n), qosy.diagonalization.to_matrix(B, n)
    require(ss.issparse(MA) and MA.shape == (2 ** n, 2 ** n), 'not a sparse matrix of the right shape')
    DA, DB = np.asarray(MA.todense()), np.asarray(MB.todense())
    sA, sB = (ref.size(gen.ref_op(case[k])) + 1e-5 for k in 'AB')
    tol = 1e-10 * sA
    require(np.allclose(DA, RA, rtol=0, atol=tol), 'matrix of the operator is wrong by {}', np.max(np.abs(DA - RA)))
    require(np.allclose(np.asarray(qosy.diagonalization.to_matrix(A + B, n).todense()), DA + DB, rtol=0, atol=1e-10 * (sA + sB)), 'matrix of a sum is not the sum of matrices')
    # another unit of the coefficients only changes the unit of the matrix
    u = case.get('unit', 1.0)
    U = gen.mk_op([case['A'][0], [[u * a, u * b, s] for a, b, s in case['A'][1]]])
    MU = qosy.diagonalization.to_matrix(U, n)
    require(np.allclose(np.asarray(MU.todense()) / u, DA, rtol=0, atol=tol), 'with all coefficients multiplied by {} the matrix is not multiplied by it', u)
    if case['A'][1]:
        b_ = gen.mk_basis([s for _, _, s in case['A'][1]])
        v = qosy.diagonalization.to_vector(np.asarray(MU.todense()) if case['dense'] else MU, b_, n)
        require(np.allclose(v / u, [complex(x, y) for x, y, _ in case['A'][1]], rtol=0, atol=tol), 'with all coefficients multiplied by {} the expansion coefficients are not multiplied by it', u)
    if len(A) and len(B):
        P = np.asarray(qosy.diagonalization.to_matrix(qosy.product(A, B), n).todense())
        require(np.allclose(P, DA @ DB, rtol=0, atol=1e-10 * sA * sB + 1e-15), 'matrix of a product is not the product of matrices')
    # expansion
    strings = [s for _, _, s in case['A'][1]]
    names = [repr(s) for s in strings]
    extra = [s for s in case['extra'] if repr(s) not in names]
    basis_strings = extra[: len(extra) // 2] + strings + extra[len(extra) // 2:]
    coeff = {repr(s): complex(a, b) for a, b, s in case['A'][1]}
    if basis_strings:
        basis = gen.mk_basis(basis_strings)
        arg = DA if case['dense'] else MA
        v = qosy.diagonalization.to_vector(arg, basis, n)
        want = np.array([coeff.get(repr(s), 0.0) for s in basis_strings])
        require(v.shape == want.shape and np.allclose(v, want, rtol=0, atol=tol), 'expansion coefficients are {}, expected {}', v, want)
        O = qosy.diagonalization.to_operator(arg, basis, n)
        require(ref.near(ref.op_poly(O), gen.ref_op(case['A']), sA) and O.op_type == 'Pauli', 'rebuilding the operator from its matrix gives {}', O)
        # a matrix with components outside of the basis: orthogonal projection
        w = qosy.diagonalization.to_vector((DA + DB) if case['dense'] else (MA + MB), basis, n)
        full = ref.add(gen.ref_op(case['A']), gen.ref_op(case['B']))
        want = []
        for s in basis_strings:
            (k, c), = gen.ref_os(s).items()
            want.append(full.get(k, 0.0) / c)
        require(np.allclose(w, np.array(want), rtol=0, atol=1e-10 * (sA + sB)), 'projection onto the basis is wrong')
    require(str(A) == sa and str(B) == sb, 'an operator was changed')
    ev.label('orbitals:%d' % n, 'dense' if case['dense'] else 'sparse')
    ev.nontrivial(len(case['A'][1]) >= 2 and n >= 2)


def strat_large(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(7, 13 if tier == 'quick' else 14))
        pool = list(range(n))
        return dict(n=n, A=draw(gen.operator('Pauli', pool, min_terms=1, max_terms=5, complex_=draw(st.booleans()))))
    return s()


def sparse_pauli(rop, n):
    """Matrix of a polynomial in Pauli strings as a signed permutation per term (label 0 most significant)."""
    idx = np.arange(2 ** n)
    M = ss.csr_matrix((2 ** n, 2 ** n), dtype=complex)
    for (ops, labels), c in rop:
        flip, val = 0, np.full(2 ** n, c, dtype=complex)
        for o, l in zip(ops, labels):
            bit = (idx >> (n - 1 - l)) & 1
            if o in 'XY':
                flip |= 1 << (n - 1 - l)
            if o == 'Z':
                val = val * (1 - 2 * bit)
            if o == 'Y':
                val = val * (1j * (1 - 2 * bit))      # Y|0> = i|1>, Y|1> = -i|0>
        M = M + ss.csr_matrix((val, (idx ^ flip, idx)), shape=(2 ** n, 2 ** n))
    return M


def check_large(case, ev):
    import qosy
    n = case['n']
    A = gen.mk_op(case['A'])
    want = sparse_pauli([((s[1], s[2]), complex(a, b)) for a, b, s in case['A'][1]], n)
    got = qosy.diagonalization.to_matrix(A, n)
    d = abs(got - want)
    require(got.shape == want.shape and (d.nnz == 0 or d.max() < 1e-9), 'the matrix on {} orbitals is wrong', n)
    for a, b, s in case['A'][1][:2]:
        d = abs(qosy.diagonalization.to_matrix(gen.mk_os(s), n) - sparse_pauli([((s[1], s[2]), 1.0)], n))
        require(d.nnz == 0 or d.max() < 1e-9, 'the matrix of {} on {} orbitals is wrong', gen.show(s), n)
    strings = [s for _, _, s in case['A'][1]]
    if n <= 10:
        v = qosy.diagonalization.to_vector(want, gen.mk_basis(strings), n)
        require(np.allclose(v, [complex(a, b) for a, b, _ in case['A'][1]], atol=1e-8), 'expansion coefficients are {}', v)
    ev.label('orbitals:%d' % n)
    ev.nontrivial(max(len(s[1]) for s in strings) >= 2)


PROP = Prop(
    'C21',
    'Pauli strings and pairs of complex operators of up to 6 terms on 1-6 orbitals; matrices are compared with Kronecker products, sums and products of operators with those of matrices, and coefficients recovered from the matrix (sparse or dense) in a basis '
    'that contains the strings in between others, or that misses some; operators on 7-13 orbitals are compared as sparse signed permutations. Non-trivial: two or more terms on two or more orbitals.',
    [Sub('matrices', strat, check, 3000), Sub('large', strat_large, check_large, 300)])
