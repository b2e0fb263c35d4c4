"""SymmetricOperatorGenerator against a brute-force null space of all constraints."""
from hypothesis import strategies as st
import numpy as np
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import trans
from props.c16 import close_strings, key_to_string
from props.c17 import elements, text, symmetric_op, phases
from props.c18 import combos, MINUS


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([2, 3, 4]))
        syms = []
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.booleans()):
                syms.append(['op', draw(symmetric_op(t, list(range(N)))), draw(st.sampled_from(['commutator', 'commutator', 'commutator', 'anticommutator']))])
            else:
                syms.append(['tr', draw(trans.word(t, N, max_len=2, custom=False)), draw(st.sampled_from(['commutator', 'commutator', 'commutator', 'anticommutator', 'symmetry']))])
        k = draw(st.integers(0, 5))
        if k <= 1:
            strs = gen.all_strings(t, list(range(N)), [1, 2] if N <= 3 else [1])
        elif k <= 3 and N <= 3:
            strs = gen.all_strings(t, list(range(N)), [0, 1, 2])
        else:
            strs = draw(gen.strings_list(t, list(range(N)), max_size=14))
        case = dict(t=t, syms=syms)
        if draw(st.integers(0, 2)):
            case['basis'] = strs
        else:
            case['ops'] = draw(combos(strs, max_ops=9))
            if not any(k == 'tr' and trans.antiunitary(S) for k, S, m in syms) and draw(st.booleans()):
                case['ops'] = draw(phases(case['ops']))
        runs = [[draw(st.sampled_from(['cumulative', 'noncumulative'])), draw(st.booleans()), draw(st.booleans())]]
        if draw(st.booleans()):
            runs.append([draw(st.sampled_from(['cumulative', 'noncumulative'])), draw(st.booleans()), draw(st.booleans())])
        case['runs'] = runs
        case['first'] = draw(st.integers(1, len(syms)))     # symmetries added before the first run
        case['reverse'] = draw(st.booleans())
        return case
    return s()


def constraint(t, sym, elems, scale=True):
    kind, S, mode = sym
    if kind == 'op':
        H = gen.ref_op(S)
        f = ref.acomm if mode == 'anticommutator' else ref.comm
        return [f(t, H, e) for e in elems]
    sign = -1.0 if mode in MINUS else 1.0
    return [ref.add(trans.act(S, t, e), e, -sign) for e in elems]


def check(case, ev):
    import qosy
    t = case['t']
    basis, elems = elements(case)
    n = len(elems)
    A = ref.vec_matrix(elems)
    if 'ops' in case and (not ref.gap_ok(A, 1e-11, 3e-2) or ref.rank(A) < n):
        raise Skip()
    dims, spaces = [], []
    syms = case['syms']
    stack = []
    for i in range(len(syms)):
        stack.append(ref.vec_matrix(constraint(t, syms[i], elems)))
        K = np.vstack(stack)
        s = np.linalg.svd(K, compute_uv=False)
        if np.any((s > 1e-8) & (s < 3e-3)):
            raise Skip()
        N = ref.nullspace(K, 1e-6)
        # angle between the next condition and the space found so far must not be tiny
        spaces.append(N)
        if i and spaces[i - 1].shape[1]:
            q = np.linalg.svd(stack[-1] @ spaces[i - 1], compute_uv=False)
            if np.any((q > 1e-8) & (q < 3e-3)):
                raise Skip()
        dims.append(N.shape[1])
    objs = [(gen.mk_op(S) if k == 'op' else trans.build(S)) for k, S, m in syms]
    before = text(basis)

    def outputs(g, mode, count, old):
        out = g.projected_output_operators[old[0]:]      # generate() appends to the results of earlier calls
        if mode == 'cumulative':
            require(len(out) <= count, 'cumulative: {} outputs for {} symmetries', len(out), count)
            require(len(out) == count or len(out) == 0 or len(out[-1]) == 0, 'cumulative: only {} outputs for {} symmetries', len(out), count)
            vec = []
            for ops in out:
                for o in ops:
                    require(abs(np.sqrt(sum(abs(c) ** 2 for c, _ in o)) - 1.0) < 1e-8, 'cumulative: an output operator is not normalised')
                W = ref.vec_matrix(elems + [ref.op_poly(o) for o in ops])
                if W.shape[1] > n:
                    x, *_ = np.linalg.lstsq(W[:, :n], W[:, n:], rcond=None)
                    require(np.max(np.abs(W[:, :n] @ x - W[:, n:])) < 1e-7, 'cumulative: an output operator lies outside of the given basis')
                else:
                    x = np.zeros((n, 0))
                vec.append(x)
            return vec + [np.zeros((n, 0))] * (count - len(out))
        require(len(out) == count, 'noncumulative: {} outputs for {} symmetries', len(out), count)
        for v in out:
            require(v.ndim == 2 and v.shape[0] == n, 'noncumulative: shape is {}', v.shape)
            if v.size:
                require(np.allclose(np.linalg.norm(v, axis=0), 1.0, atol=1e-8), 'noncumulative: an output vector is not normalised')
        for i, v in enumerate(g.output_operators[old[1]:]):
            K = stack[i]
            require(v.shape[1] == ref.nullspace(K, 1e-6).shape[1] and ((K @ v).size == 0 or np.max(np.abs(K @ v)) < 1e-4), 'noncumulative: the unprojected output of symmetry {} is wrong', i + 1)
        return out

    def eigenpairs(what, S, ev_, evec, left=None):
        S, evec, ev_ = np.asarray(S.todense()), np.asarray(evec), np.asarray(ev_)
        k = S.shape[0]
        require(S.shape == (k, k) and len(ev_) == k and evec.shape[1] == k, '{}: {} eigenvalues of a {} superoperator', what, len(ev_), S.shape)
        sc = max(1.0, np.max(np.abs(S), initial=0.0))
        if left is None:
            require(k == 0 or np.allclose(S @ evec, evec * ev_[None, :], atol=1e-7 * sc), '{}: eigenvalues and eigenvectors do not belong to the superoperator', what)
        require(k == 0 or np.allclose(np.sort(ev_), np.linalg.eigvalsh(S), atol=1e-7 * sc), '{}: not the eigenvalues of the superoperator', what)
        return S

    def records(g, mode, count, what, rec):
        """The superoperators, eigenvalues and eigenvectors kept beside the results."""
        projs = g.projected_superoperators[rec[0]:], g.projected_eigenvalues[rec[0]:], g.projected_eigenvectors[rec[0]:]
        require(len(projs[0]) == len(projs[1]) == len(projs[2]), '{}: records of different lengths', what)
        if mode == 'cumulative':
            out = g.projected_output_operators[-len(projs[0]):] if projs[0] else []
            for i, (S, e, v) in enumerate(zip(*projs)):
                w = '{}: projected record {}'.format(what, i + 1)
                S = eigenpairs(w, S, e, v)
                require(S.shape[0] == (dims[i - 1] if i else n), '{}: shape is {}', w, S.shape)
                require(int(np.sum(np.abs(e) < 1e-7)) == dims[i], '{}: {} zero eigenvalues, the space has dimension {}', w, int(np.sum(np.abs(e) < 1e-7)), dims[i])
                if syms[i][0] == 'op':
                    prev = [ref.op_poly(o) for o in out[i - 1]] if i else elems
                    K = ref.vec_matrix(constraint(t, syms[i], prev))
                    require(np.allclose(S, K.conj().T @ K, atol=1e-7 * max(1.0, np.max(np.abs(S)))), '{}: not the Gram matrix of the {}s', w, syms[i][2])
            return
        full = g.superoperators[rec[1]:], g.eigenvalues[rec[1]:], g.eigenvectors[rec[1]:]
        require(len(full[0]) == len(full[1]) == len(full[2]) == count == len(projs[0]), '{}: {} superoperators for {} symmetries', what, len(full[0]), count)
        for i, (S, e, v) in enumerate(zip(*full)):
            w = '{}: record {}'.format(what, i + 1)
            S = eigenpairs(w, S, e, v)
            require(S.shape[0] == n, '{}: shape is {}', w, S.shape)
            N = ref.nullspace(stack[i], 1e-6)
            require(int(np.sum(np.abs(e) < 1e-7)) == N.shape[1] and (N.shape[1] == 0 or np.max(np.abs(S @ N)) < 1e-5 * max(1.0, np.max(np.abs(S)))), '{}: the superoperator does not annihilate exactly the symmetric operators', w)
        for i, (S, e, v) in enumerate(zip(*projs)):
            w = '{}: projected record {}'.format(what, i + 1)
            S = eigenpairs(w, S, e, v, left=i or None)
            require(S.shape[0] == (dims[i] if i else n) and v.shape[0] == n, '{}: shapes are {} and {}', w, S.shape, v.shape)
            require(int(np.sum(np.abs(e) < 1e-7)) == dims[i], '{}: {} zero eigenvalues, the space has dimension {}', w, int(np.sum(np.abs(e) < 1e-7)), dims[i])
            if i:
                K = np.vstack(stack[:i + 1])
                require(v.size == 0 or K.size == 0 or np.max(np.abs(K @ v)) < 1e-4 * (1 + np.max(np.abs(v))), '{}: an eigenvector breaks one of the symmetries', w)

    def judge(g, mode, count, what, old, orth):
        for i, v in enumerate(outputs(g, mode, count, old)):
            if mode == 'noncumulative' and orth and i < count - 1:
                require(np.allclose(v.conj().T @ v, np.eye(v.shape[1]), atol=1e-8), '{}: output {} is not orthogonalised', what, i + 1)
            require(v.shape[1] == dims[i], '{}: output {} has {} operators, the space has dimension {}', what, i + 1, v.shape[1], dims[i])
            if v.shape[1]:
                K = np.vstack(stack[:i + 1])
                require(ref.rank(v / np.linalg.norm(v, axis=0), 1e-6) == dims[i], '{}: output {} is dependent', what, i + 1)
                require(K.size == 0 or np.max(np.abs(K @ v)) < 1e-4 * (1 + np.max(np.abs(v))), '{}: output {} breaks one of the symmetries', what, i + 1)

    g = qosy.SymmetricOperatorGenerator(basis)
    done = 0
    for r, (mode, sp, orth) in enumerate(case['runs']):
        upto = len(syms) if r == len(case['runs']) - 1 else case['first']
        for i in range(done, upto):
            g.add_symmetry(objs[i], operation_mode=syms[i][2])
        done = upto
        old = (len(g.projected_output_operators), len(g.output_operators))
        rec = (len(g.projected_superoperators), len(g.superoperators))
        g.generate(mode=mode, sparsification=sp, orthogonalization=orth, verbose=False)
        what = 'run {} ({}, sparsification {}, orthogonalization {})'.format(r + 1, mode, sp, orth)
        judge(g, mode, done, what, old, orth)
        records(g, mode, done, what, rec)
    require(text(basis) == before, 'the basis was changed')
    if case['reverse']:
        g = qosy.SymmetricOperatorGenerator(basis)
        for i in reversed(range(len(syms))):
            g.add_symmetry(objs[i], operation_mode=syms[i][2])
        g.generate(mode=case['runs'][0][0], verbose=False)
        out = g.projected_output_operators
        m = (len(out[-1]) if case['runs'][0][0] == 'cumulative' else out[-1].shape[1]) if out else 0
        require(m == dims[-1], 'in the reverse order: {} operators instead of {}', m, dims[-1])
    for mode, sp, orth in case['runs']:
        ev.label('{},sp{:d},or{:d}'.format(mode, sp, orth))
    ev.label('type:' + t, 'operators' if 'ops' in case else 'strings', 'symmetries:%d' % len(syms), 'runs:%d' % len(case['runs']))
    ev.nontrivial(len(syms) > 1 and 0 < dims[-1] < dims[0])


def vec_strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([2, 3, 3]))
        syms = []
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.integers(0, 2)):
                syms.append(['op', draw(symmetric_op(t, list(range(N)))), draw(st.sampled_from(['commutator', 'commutator', 'anticommutator']))])
            else:
                syms.append(['tr', draw(trans.word(t, N, max_len=1, custom=False)), draw(st.sampled_from(['commutator', 'anticommutator']))])
        strs = gen.all_strings(t, list(range(N)), draw(st.sampled_from([[1], [1, 2], [0, 1, 2]])))
        return dict(t=t, syms=syms, basis=strs, ks=[draw(st.one_of(st.none(), st.integers(1, 12), st.integers(8, 45))) for _ in syms],
                    mode=draw(st.sampled_from(['cumulative', 'cumulative', 'noncumulative'])), sp=draw(st.booleans()))
    return s()


def vec_check(case, ev):
    """Some of the symmetries are searched with a limited number of vectors."""
    import qosy
    t, syms, ks = case['t'], case['syms'], case['ks']
    mode = case['mode']
    basis, elems = elements(case)
    n = len(elems)
    stack = [ref.vec_matrix(constraint(t, s, elems)) for s in syms]
    for i in range(len(syms)):
        s = np.linalg.svd(np.vstack(stack[:i + 1]), compute_uv=False)
        if np.any((s > 1e-8) & (s < 1e-2)):
            raise Skip()
    g = qosy.SymmetricOperatorGenerator(basis)
    for i, (kind, S, m) in enumerate(syms):
        g.add_symmetry(gen.mk_op(S) if kind == 'op' else trans.build(S), operation_mode=m, **({} if ks[i] is None else {'num_vecs': ks[i]}))
    try:
        g.generate(mode=mode, sparsification=case['sp'], orthogonalization=False, verbose=False)
    except ArpackError:
        ev.label('arpack failed')
        return
    out = g.projected_output_operators
    space = np.eye(n)
    W = ref.vec_matrix(elems)
    sizes = []
    for i in range(len(syms)):
        q = np.linalg.svd(stack[i] @ space, compute_uv=False) if space.shape[1] else np.zeros(0)
        if np.any((q > 1e-9) & (q < 1e-2)):
            raise Skip()         # the vectors found iteratively are accurate to a few digits only
        want = space @ ref.nullspace(stack[i] @ space, 1e-6) if space.shape[1] else space
        if i >= len(out):
            v = np.zeros((n, 0))
            require(sizes[-1] == 0, 'only {} outputs for {} symmetries', len(out), len(syms))
        elif mode == 'cumulative':
            ops = [ref.op_poly(o) for o in out[i]]
            v = np.zeros((n, 0))
            if ops:
                W = ref.vec_matrix(elems + ops)
                v, *_ = np.linalg.lstsq(W[:, :n], W[:, n:], rcond=None)
                require(np.max(np.abs(W[:, :n] @ v - W[:, n:])) < 1e-7, 'output {} lies outside of the basis', i + 1)
        else:
            v = out[i]
        require(v.shape[0] == n, 'output {}: shape is {}', i + 1, v.shape)
        if v.size and stack[i].size:
            require(np.max(np.abs(np.vstack(stack[:i + 1]) @ v)) < 1e-4, 'output {} breaks one of the symmetries', i + 1)
        k = ks[i]
        # the dimension of the space that is searched with k vectors
        prior = n if mode == 'noncumulative' else space.shape[1]
        alone = ref.nullspace(stack[i], 1e-6).shape[1]
        if k is not None and (k < prior - 1 or mode == 'noncumulative' and i and k < alone):
            require(v.shape[1] <= min(k, want.shape[1]), 'output {}: {} operators; {} vectors were asked for and the space has dimension {}', i + 1, v.shape[1], k, want.shape[1])
            if mode == 'cumulative' or i == 0:
                require(v.shape[1] > 0 or want.shape[1] == 0, 'output {} is empty, the space has dimension {}', i + 1, want.shape[1])
            ev.label('limited')
        elif k is not None:
            # all vectors are searched, but only k of them are kept
            require(v.shape[1] == min(k, want.shape[1]), 'output {}: {} operators, the space has dimension {}', i + 1, v.shape[1], want.shape[1])
            ev.label('all vectors')
        else:
            require(v.shape[1] == want.shape[1], 'output {}: {} operators, the space has dimension {}', i + 1, v.shape[1], want.shape[1])
        require(v.shape[1] == 0 or ref.rank(v / np.linalg.norm(v, axis=0), 1e-6) == v.shape[1], 'output {} is dependent', i + 1)
        space = np.linalg.qr(v)[0] if v.shape[1] else np.zeros((n, 0))
        sizes.append(v.shape[1])
    ev.label('mode:' + mode)
    ev.nontrivial(0 < sizes[-1] and any(k is not None for k in ks))


PROP = Prop(
    'C19',
    'Generators on bases of up to 43 strings or 9 independent operators (also with complex coefficients) on up to 4 orbitals, with 1-4 symmetries (uniform, chain and random operators, words of 2 transformations, both signs), histories of one or two generate() calls '
    'in either mode with any post-processing and symmetries added in between, and the reverse order of symmetries; the superoperators, eigenvalues and eigenvectors recorded; and generators that search some of the symmetries with a limited number of vectors. Non-trivial: two or more symmetries and a final space that is non-empty and smaller than the first.',
    [Sub('histories', strat, check, 6000), Sub('vectors', vec_strat, vec_check, 2500)],
    ['cases with a singular value of the exact constraints between 1e-8 and 3e-3 and lists of nearly dependent operators are skipped',
     'when an output is empty the cumulative mode may stop adding (empty) outputs'])
