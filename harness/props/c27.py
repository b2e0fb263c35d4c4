"""Selected-CI searches against direct exact commutators and a model of the search."""
from hypothesis import strategies as st
import numpy as np
import scipy.sparse as ss
from scipy.sparse.linalg import ArpackError
from core import Prop, Sub, fail, require, Skip
import gen, ref


@st.composite
def chain(draw, t, n, max_terms=7):
    """Local Hermitian Hamiltonian on a chain of n sites as an op spec without zero coefficients."""
    terms = {}
    uniform = draw(st.booleans())
    c0 = [draw(st.sampled_from([1.0, 0.5, -1.0])) for _ in range(3)]
    kind = draw(st.sampled_from(['heis', 'ising', 'random', 'random']))

    def put(ops, labels, c):
        s = [t, ops, labels, 0]
        terms.setdefault(repr(s), [c, 0.0, s])

    def c(i):
        return c0[i] if uniform else draw(gen.real_coeff())
    A = 'XYZ' if t == 'Pauli' else 'ABD'
    if kind == 'random' or n == 1:
        for _ in range(draw(st.integers(1, max_terms))):
            s = draw(gen.string(t, list(range(n)), min_ops=1, max_ops=3))
            terms.setdefault(repr(s), [draw(gen.real_coeff()), 0.0, s])
    else:
        for i in range(n - 1):
            if kind == 'heis':
                for k in range(3):
                    put([A[k], A[k]], [i, i + 1], c(k))
            else:
                put([A[2], A[2]] if t == 'Pauli' else ['B', 'A'], [i, i + 1], c(0))
        if kind == 'ising':
            for i in range(n):
                put([A[0]] if t == 'Pauli' else ['D'], [i], c(1))
    return [t, list(terms.values())]


@st.composite
def start(draw, t, n, max_terms=3):
    """Starting operator without the identity."""
    terms = {}
    for _ in range(draw(st.integers(1, max_terms))):
        s = draw(gen.string(t, list(range(n)), min_ops=1, max_ops=2))
        terms.setdefault(repr(s), [draw(st.sampled_from([1.0, 0.5, -0.25])), 0.0, s])
    return [t, list(terms.values())]


def key(os):
    """Exact string as (type, monomial)."""
    p = gen.ref_os(['Majorana' if os.op_type == 'Majorana' else 'Pauli', list(os.orbital_operators), [int(l) for l in os.orbital_labels], 0])
    (k, c), = p.items()
    return k


def vec_of(op):
    """Coefficients per exact monomial (with its phase)."""
    return poly(op)


def key_labels(k):
    """Orbital labels of an exact string."""
    m = k[0] | k[1] if isinstance(k, tuple) else sum(1 << (i // 2) for i in {j & ~1 for j in range(k.bit_length()) if k >> j & 1})
    return {i for i in range(m.bit_length()) if m >> i & 1}


def ext(t, keys, hkeys):
    """Strings in the commutators of the given strings with the strings of H."""
    out = set()
    for a in keys:
        for h in hkeys:
            out.update(k for k, v in ref.comm(t, {a: 1}, {h: 1}).items() if abs(v) > 1e-12)
    return out


def com_norm(t, op, hp):
    p = ref.comm(t, hp, poly(op))
    return sum(abs(v) ** 2 for v in p.values())


def poly(op):
    p = {}
    for c, os in op:
        p = ref.add(p, ref.os_poly(os), complex(c))
    return p


def com_matrix(t, strings, hp):
    rows = {}
    cols = []
    for os in strings:
        c = ref.comm(t, hp, ref.os_poly(os))
        cols.append(c)
        for k in c:
            rows.setdefault(k, len(rows))
    L = np.zeros((len(rows), len(strings)), dtype=complex)
    for j, c in enumerate(cols):
        for k, v in c.items():
            L[rows[k], j] = v
    return L.conj().T @ L


def constrained(t, op, orth, syms, hps, num):
    """Violation of the constraints by an operator, its commutator norm and the smallest one possible in its basis with the constraints, or None if they leave fewer than num operators."""
    import qosy
    strings = op._basis.op_strings
    n = len(strings)
    if n > 80:
        return None
    P = np.zeros((n, n))
    for Q in orth:
        q = np.array([sum(complex(c).real for c, os in Q if key(os) == key(b)) for b in strings])
        P += np.outer(q, q)
    pos = {key(b): i for i, b in enumerate(strings)}
    for T in syms:
        M = np.zeros((n, n))
        for j, b in enumerate(strings):
            for c, os in T.apply(qosy.Operator([1.0], [b])):
                if key(os) in pos:
                    M[pos[key(os)], j] += complex(c).real
        P += np.eye(n) - (M + M.T) / 2
    e, U = np.linalg.eigh(P)
    d = int(np.sum(e < 1e-10))
    if d < num or (d < n and e[d] < 1e-5):
        return None
    U = U[:, :d]
    C = sum(com_matrix(t, strings, h) for h in hps)
    v = np.array(op.coeffs)
    lo = np.linalg.eigvalsh(U.T @ C @ U)[0]
    # constraints are imposed by a penalty of 1e8, which is soft where the constraints are nearly dependent
    soft = np.linalg.norm(C, 2) / (1e8 * e[d]) if d < n else 0.0
    return np.linalg.norm(v - U @ (U.T @ v)) - soft, np.vdot(v, C @ v).real, lo, soft * np.linalg.norm(C, 2)


def judge(t, op, cn, hp, scale, minimal=True, tol=1e-6):
    v = np.array(op.coeffs)
    require(len(set(op._basis.op_strings)) == len(op._basis) == len(v), 'an operator repeats a string')
    require(abs(np.linalg.norm(v) - 1) < 1e-7, 'an operator is not normalised')
    true = com_norm(t, op, hp)
    require(abs(true - cn) < tol * scale, 'the reported commutator norm is {}, the true one is {}', cn, true)
    if minimal and len(v) <= 80:
        C = com_matrix(t, op._basis.op_strings, hp)
        lo = np.linalg.eigvalsh(C)[0]
        require(true < lo + 2 * tol * scale, 'the commutator norm {} is not the smallest one {} in the basis', true, lo)


def judge_best(res, initial, before):
    best, cn, ops, cns = res[:4]
    require(len(ops) == len(cns), '{} operators with {} commutator norms', len(ops), len(cns))
    if not ops:
        require(cn == np.inf and str(best) == before, 'nothing was found but {} is returned', best)
        return
    i = int(np.argmin(np.abs(cns)))
    require(abs(abs(cn) - abs(cns[i])) < 1e-12, 'the best commutator norm is {}, not {}', cns[i], cn)
    require(any(str(best) == str(op) and c == cn for op, c in zip(ops, cns)), 'the best operator is not the one with the best commutator norm')


def truncation(op, thr, size, v=None):
    """Set of kept strings, or None if the choice is ambiguous."""
    a = sorted(((abs(complex(c)), key(os)) for c, os in op), key=lambda x: -x[0])
    if any(abs(x - thr) < 1e-10 + 1e-6 * thr for x, _ in a):
        return None
    keep = [(x, k) for x, k in a if x > thr]
    if len(keep) > size:
        if keep[size - 1][0] - keep[size][0] < 1e-7:
            return None
        keep = keep[:size]
    return {k for _, k in keep}


# ---------------------------------------------------------------- exploration

def strat_explore(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.integers(1, 4))
        H = draw(chain(t, n))
        steps = []
        for _ in range(draw(st.integers(1, 5))):
            kind = draw(st.sampled_from(['new', 'ext', 'grow', 'sub']))
            b = draw(gen.strings_list(t, list(range(n)), min_size=1, max_size=8, max_ops=3))
            allowed = draw(st.one_of(st.none(), st.none(), st.sets(st.integers(0, n - 1), min_size=1).map(sorted)))
            steps.append([kind, b, allowed])
        vecs = draw(st.lists(gen.real_coeff(zero=True), min_size=16, max_size=16))
        return dict(t=t, n=n, H=H, steps=steps, vec=vecs, thr=draw(st.sampled_from([1e-6, 0.3, 0.9])), size=draw(st.integers(1, 9)))
    return s()


def check_explore(case, ev):
    import qosy
    from qosy import algorithms as alg
    t = case['t']
    if not case['H'][1]:
        raise Skip()
    H = gen.mk_op(case['H'])
    hs = str(H)
    xb, xe, data = qosy.Basis(), qosy.Basis(), dict()
    seen = set()
    basis = e = None
    repeats = 0
    for kind, strings, allowed in case['steps']:
        if kind == 'new' or basis is None:
            basis = gen.mk_basis(strings)
        elif kind == 'ext':
            basis = qosy.Basis(list(e.op_strings))
        elif kind == 'grow':
            basis = basis + e
        else:
            basis = qosy.Basis(basis.op_strings[::2])
        if len(basis) > 120:
            break
        keys = [key(os) for os in basis]
        repeats += sum(k in seen for k in keys)
        before = str(basis)
        L, e = alg._explore(basis, H, xb, xe, data, **({} if allowed is None else dict(allowed_labels=set(allowed))))
        require(str(basis) == before and str(H) == hs, 'the basis or the Hamiltonian was changed')
        seen.update(keys)
        part = [(c, os) for c, os in H if allowed is None or set(int(l) for l in os.orbital_labels) & set(allowed)]
        require(L.shape == (len(e), len(basis)), 'shape {} for {} and {} strings', L.shape, len(e), len(basis))
        require({key(os) for os in e} == ext(t, keys, [key(os) for _, os in part]) and len({key(os) for os in e}) == len(e), 'the extended basis is wrong')
        hp = poly(part)
        M = L.toarray()
        ek = [ref.os_poly(os) for os in e]
        for j, os in enumerate(basis):
            got = {}
            for i in range(len(e)):
                if M[i, j]:
                    got = ref.add(got, ek[i], M[i, j])
            require(ref.diff(got, ref.comm(t, ref.os_poly(os), hp)) < 1e-9, 'the commutator of {} with the Hamiltonian is wrong', str(os).strip())
        require({key(os) for os in xb} == seen, 'the explored basis is wrong')
        require({key(os) for os in xe} == ext(t, seen, [key(os) for _, os in H]), 'the explored extended basis is wrong')
    # truncation
    b = gen.mk_basis(case['steps'][0][1][:16])
    v = np.array(case['vec'][:len(b)])
    op = qosy.Operator(v, b.op_strings)
    v0 = v.copy()
    tb = alg._truncate_basis(b, v, threshold=case['thr'], max_basis_size=case['size'])
    to = alg._truncate_operator(op, threshold=case['thr'], max_basis_size=case['size'])
    require(np.array_equal(v, v0) and len(b) == len(v), 'the arguments of the truncation were changed')
    kept = sorted([abs(v[b.index(os)]) for os in tb], reverse=True)
    want = sorted([abs(x) for x in v if abs(x) > case['thr']], reverse=True)[:case['size']]
    require(kept == want and [abs(v[b.index(os)]) for os in tb] == kept, 'truncation of {} keeps {}', list(v), kept)
    require([(complex(c), key(os)) for c, os in to] == [(complex(v[b.index(os)]), key(os)) for os in tb], 'the truncated operator is {}', to)
    ev.label('type:' + t, 'reexplored' if repeats else 'new only', 'steps:%d' % len(case['steps']))
    ev.nontrivial(repeats > 0 and len(e) > 0 and len(case['H'][1]) > 1)


# ---------------------------------------------------------------- selected_ci

def strat_sci(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.sampled_from([1, 2, 3, 3, 4]))
        return dict(t=t, n=n, H=draw(chain(t, n)), O=draw(start(t, n)), steps=draw(st.integers(1, 4)), thr=draw(st.sampled_from([1e-6, 1e-3, 0.03])),
                    size=draw(st.sampled_from([2, 4, 7, 12, 30, 100])), algo=draw(st.sampled_from(['sci', 'sci', 'filter', 'simple'])),
                    nev=draw(st.integers(1, 3)), evthr=draw(st.one_of(st.none(), st.sampled_from([0.5, 5.0]))), again=draw(st.booleans()))
    return s()


def judge_filter_input(C, case, evals, evecs, scale):
    n = len(C)
    require(evecs.shape == (n, len(evals)), 'shape of the eigenvectors given to the filter')
    res = np.max(np.abs(C @ evecs - evecs * evals[None, :]), axis=0)
    # the shift-invert method is less accurate for the larger eigenvalues
    require(res[0] < 1e-5 * scale and np.all(res < 1e-3 * scale), 'the filter is not given eigenvectors')
    require(np.max(np.abs(np.real(np.sum(np.conj(evecs) * (C @ evecs), axis=0)) - evals)) < 1e-6 * scale, 'the filter is not given the norms of its vectors')
    num = min(n, case['nev'])
    low = np.linalg.eigvalsh(C)[:num]
    require(abs(evals[0] - low[0]) < 1e-5 * scale, 'the filter is not given the lowest eigenvector')
    if case['evthr'] is None:
        require(len(evals) == num, 'the filter is given {} vectors', len(evals))
    else:
        require(len(evals) <= num and (len(evals) == min(num, 2, case['nev']) or np.all(evals < case['evthr'])), 'the threshold on the eigenvalues is not respected')


def check_sci(case, ev):
    import qosy
    from qosy import algorithms as alg
    t = case['t']
    if not case['H'][1]:
        raise Skip()
    H, O = gen.mk_op(case['H']), gen.mk_op(case['O'])
    hb, ob = str(H), str(O)
    hp = poly(H)
    hkeys = [key(os) for os in H._basis]
    scale = 1 + sum(abs(complex(c)) for c, _ in H) ** 2 * 4
    seen = []
    kw = dict(threshold=case['thr'], max_basis_size=case['size'])
    fun = qosy.selected_ci
    if case['algo'] == 'filter':
        def pick(evals, evecs, basis):
            seen.append((np.copy(evals), np.copy(evecs), list(basis.op_strings)))
            return evecs[:, -1], evals[-1]
        kw.update(filter_fun=pick, max_num_evecs=case['nev'], min_num_evecs=min(2, case['nev']), eval_threshold=case['evthr'])
    elif case['algo'] == 'simple':
        fun = alg.selected_ci_simple
    try:
        res = fun(O, H, case['steps'], **kw)
    except (ArpackError, RuntimeError) as e:
        if not isinstance(e, ArpackError) and 'singular' not in str(e):
            raise
        ev.label('arpack failed')
        return
    require(str(H) == hb and str(O) == ob, 'the arguments were changed')
    judge_best(res, O, ob)
    best, bn, ops, cns = res
    for op, cn in zip(ops, cns):
        judge(t, op, cn, hp, scale, minimal=case['algo'] != 'filter', tol=1e-6 if len(op._basis) < 20 else 1e-5)
    for evals, evecs, strings in seen:
        judge_filter_input(com_matrix(t, strings, hp), case, evals, evecs, scale)
    # model of the search
    T = {key(os) for os in O._basis}
    prev, pp = set(T), None
    modelled = 0
    for i in range(case['steps']):
        if case['algo'] == 'simple':
            E = T | ext(t, T, hkeys)
            E = E | ext(t, E, hkeys)
        else:
            E = T | ext(t, ext(t, T, hkeys), hkeys)
            if E == prev or E == pp:
                require(len(ops) == i, 'the search has converged after {} steps but made {}', i, len(ops))
                break
            pp, prev = prev, set(E)
        require(len(ops) > i, 'the search stopped after {} steps', len(ops))
        require({key(os) for os in ops[i]._basis} == E, 'the basis of step {} is not the expanded basis', i)
        modelled += 1
        if case['algo'] == 'filter':
            strings, v0 = seen[i][2], seen[i][1][:, 0]
            T = truncation(list(zip(v0, strings)), case['thr'], case['size'])
        else:
            T = truncation(ops[i], case['thr'], case['size'])
        if T is None:
            break
    else:
        require(len(ops) == case['steps'], '{} steps were made', len(ops))
    # explored data can be used again
    if case['again'] and case['algo'] == 'sci':
        data = (qosy.Basis(), qosy.Basis(), dict())
        r1 = fun(O, H, case['steps'], explored_data=data, **kw)
        r2 = fun(O, H, case['steps'], explored_data=data, **kw)
        for r in (r1, r2):
            judge_best(r, O, ob)
            for op, cn in zip(r[2], r[3]):
                judge(t, op, cn, hp, scale, tol=1e-6 if len(op._basis) < 20 else 1e-5)
            if r[2] and res[2]:
                require(abs(r[3][0] - res[3][0]) < 1e-5 * scale, 'the first step depends on earlier exploration: {} and {}', r[3][0], res[3][0])
        # and for other coefficients of the same strings
        H3 = qosy.Operator([(-1.0) ** i * (1.5 - 0.5 * (i % 2)) * c for i, c in enumerate(H.coeffs)], list(H._basis.op_strings))
        try:
            r3, p3 = fun(O, H3, case['steps'], explored_data=data, **kw), poly(H3)
        except (ArpackError, RuntimeError) as e:
            if not isinstance(e, ArpackError) and 'singular' not in str(e):
                raise
            ev.label('arpack failed')
        else:
            judge_best(r3, O, ob)
            for op, cn in zip(r3[2], r3[3]):
                judge(t, op, cn, p3, 4 * scale, tol=1e-6 if len(op._basis) < 20 else 1e-5)
            ev.label('again')
    ev.label('algo:' + case['algo'], 'steps made:%d' % len(ops), 'modelled:%d' % modelled, 'basis>=20' if any(len(o._basis) >= 20 for o in ops) else 'small basis')
    ev.nontrivial(len(ops) >= 1 and len(ops[0]._basis) >= 3 and modelled >= 1)


# ---------------------------------------------------------------- greedy searches

def strat_greedy(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.sampled_from([1, 2, 3, 3, 4]))
        steps = draw(st.integers(1, 5))
        opts = {}
        for name in () if draw(st.booleans()) else ('two', 'orth', 'sym', 'target', 'nO', 'params', 'vecs', 'lists', 'stop', 'again'):
            if draw(st.integers(0, 3)) == 0:
                opts[name] = draw(st.integers(1, 3))
        if 'target' in opts and draw(st.booleans()):
            opts['fid'] = draw(st.integers(1, 5))
        return dict(t=t, n=n, H=draw(chain(t, n)), H2=draw(chain(t, n, 3)), O=draw(start(t, n)), Q=draw(start(t, n, 2)), steps=steps, opts=opts,
                    thr=draw(st.sampled_from([1e-6, 1e-3, 0.03])), size=draw(st.sampled_from([2, 4, 7, 12, 30, 100])), nH=draw(st.sampled_from([1, 2, 3, 5, 10, 20])),
                    perm=list(draw(st.permutations(range(n)))))
    return s()


def group_of(case):
    """A transformation of the type."""
    import qosy
    if case['opts'].get('sym') == 1:
        return qosy.time_reversal()
    return qosy.label_permutation(case['perm'])


def check_greedy(case, ev):
    import qosy
    from qosy import algorithms as alg
    t, o = case['t'], case['opts']
    if not case['H'][1] or not case['H2'][1]:
        raise Skip()
    H, H2, O, Q = (gen.mk_op(case[k]) for k in ('H', 'H2', 'O', 'Q'))
    before = [str(x) for x in (H, H2, O, Q)]
    steps = case['steps']
    hp = poly(H)
    total = [hp] + ([poly(H2)] if 'two' in o else [])
    scale = 1 + 4 * sum(abs(complex(c)) for c, _ in H) ** 2
    kw = dict(threshold=case['thr'], verbose=False)
    sizes = [case['size'] + i for i in range(steps)] if 'lists' in o else [case['size']] * steps
    nH = [case['nH'] + (i % 2) for i in range(steps)] if 'lists' in o else [case['nH']] * steps
    kw['max_basis_size'] = sizes if 'lists' in o else case['size']
    kw['num_H_terms'] = nH if 'lists' in o else case['nH']
    nO = o.get('nO', 0)
    kw['num_O_terms'] = nO
    if 'orth' in o:
        kw['orth_ops'] = [Q]
    if 'sym' in o:
        kw['transformations'] = [group_of(case)]
    if 'target' in o:
        kw['target_operator'] = Q if o['target'] == 1 else O
    if 'fid' in o:
        kw['target_fidelity'] = {1: 0.3, 2: 0.9, 3: 0.99, 4: 0.999, 5: 1.5}[o['fid']]
    if 'vecs' in o:
        kw['num_vecs'] = o['vecs']
    if 'params' in o:
        kw['return_final_params'] = True
    if 'stop' in o:
        kw['target_com_norm'] = 1e-3
        if o['stop'] == 2:
            kw['min_relative_change'] = 1e-3
    if 'again' in o:
        kw['explored_data'] = (qosy.Basis(), qosy.Basis(), dict())
    com_ops = [H, H2] if 'two' in o else H

    def run():
        return alg.selected_ci_greedy(O, com_ops, steps, **kw)
    try:
        with np.errstate(all='ignore'):
            res = run()
            if 'again' in o:
                run()
                res = run()
    except (ArpackError, RuntimeError) as e:
        if not isinstance(e, ArpackError) and 'singular' not in str(e):
            raise
        ev.label('arpack failed')
        return
    require([str(x) for x in (H, H2, O, Q)] == before, 'the arguments were changed')
    if 'target' in o and any(np.any(np.isnan(op.coeffs)) for op in res[2]):
        raise Skip()                         # the target has no overlap with the basis
    judge_best(res, O, before[2])
    best, bn, ops, cns = res[:4]
    plain = not ({'orth', 'sym', 'target'} & set(o))
    require(len(ops) >= 1 and len(ops) <= steps, '{} operators after {} steps', len(ops), steps)
    if not ({'stop', 'fid'} & set(o)):
        require(len(ops) == steps, '{} operators after {} steps', len(ops), steps)
    if 'target' in o:
        check_target(t, vec_of(kw['target_operator']), ops, cns, kw, complete=not ({'orth', 'sym'} & set(o)), ev=ev)
    if 'stop' in o:
        require(all(abs(c) >= 1e-3 for c in cns[:-1]), 'the search goes on after reaching the goal')
    if 'params' in o:
        require(isinstance(res[4], dict) and res[4]['num_H_terms'] is kw['num_H_terms'], 'the parameters are not returned')
    loose = 1e-5 if {'orth', 'sym'} & set(o) or any(len(op._basis) >= 20 for op in ops) else 1e-6
    hks = [[key(os) for os in X._basis] for X in ([H, H2] if 'two' in o else [H])]
    T, thr, bestn = poly(O), case['thr'], np.inf
    modelled = 0
    for i, (op, cn) in enumerate(zip(ops, cns)):
        judge(t, op, cn, hp, scale, minimal=plain and 'two' not in o, tol=loose)
        n_ = len(op._basis)
        if plain and 'two' in o and n_ < 20:
            # the best operator for both commutators together
            C = com_matrix(t, op._basis.op_strings, hp) + com_matrix(t, op._basis.op_strings, poly(H2))
            val = sum(com_norm(t, op, h) for h in total)
            # all eigenvectors are kept in small bases and the one with the smallest norm with H is picked
            v = np.array(op.coeffs)
            lam = np.vdot(v, C @ v).real
            require(np.linalg.norm(C @ v - lam * v) < 1e-5 * (scale + np.max(np.abs(C))), 'the operator is not an eigenvector for both commutators')
        ks = {key(os) for os in op._basis}
        if T is not None:
            require(set(T) <= ks, 'strings were lost in step {}', i)
            if 'sym' not in o:
                require(n_ <= len(T) + len(total) * nH[i] + 2 * nO, 'the basis grew from {} to {} strings', len(T), n_)
            new = [k for k in map(key, op._basis) if k not in T]
            pos = added(t, T, set(T), set(T), total, hks, nH[i], new, 'step %d' % i)
            if pos is not None:
                rest = new[pos:]
                if 'sym' in o:
                    ev.label('symmetric images')
                elif nO:
                    # strings of {O,O}, then strings of their anticommutators with O
                    def pairs(S):
                        return {k for x in T for y in S if x != y for k, c in ref.acomm(t, {x: 1}, {y: 1}).items() if abs(c) > 1e-12}
                    have = set(T) | set(new[:pos])
                    cut = next((q for q, k in enumerate(rest) if k not in pairs(T)), len(rest))
                    require(all(k in pairs(set(T) | set(rest)) for k in rest), 'step {} adds a string that is no anticommutator of strings of the operator', i)
                    missing = pairs(T) - have
                    require(len(rest) >= min(len(missing), nO), 'step {} adds {} of the {} strings of the squared operator', i, len(rest), len(missing))
                    require(cut >= min(len(missing), nO), 'step {} does not add the strings of the squared operator first', i)
                    ev.label('squared operator')
                else:
                    require(not rest, 'step {} adds {} strings instead of {}', i, len(new), pos)
                modelled += 1
        # truncation into the next step
        worse = cn - bestn > 1e-16
        if abs(cn - bestn) < 1e-9 and any(thr / 2 < abs(complex(c)) <= thr for c, _ in op):
            T = None
        elif plain and T is not None:
            if worse:
                thr /= 2.0
            kept = truncation(op, thr, sizes[i])
            T = None if kept is None else {k: c for k, c in vec_of(op).items() if k in kept}
        else:
            T = None
        if abs(cn) < bestn:
            bestn = cn
    if {'orth', 'sym'} & set(o) and 'target' not in o:
        nv = o.get('vecs', 1)
        for op in ops:
            r = constrained(t, op, [Q] if 'orth' in o else [], [group_of(case)] if 'sym' in o else [], total, nv)
            if r is None:
                continue
            viol, val, lo, _ = r
            require(viol < 1e-4, 'the operator violates the constraints by {}', viol)
            if nv == 1 or len(total) == 1:
                require(val < lo + (1e-4 if len(op._basis) < 20 else 1e-3) * scale, 'the commutator norm is {}, but {} is possible with the constraints', val, lo)
            ev.label('constrained')
    for name in sorted(o):
        ev.label('opt:' + name)
    ev.label('modelled:%d' % modelled, 'steps made:%d' % len(ops))
    ev.nontrivial(len(ops[-1]._basis) >= 3 and len(ops) >= 2)


def added(t, T, base, have, hps, hks, num, new, what):
    """O -> [H,O] -> its largest terms A -> the largest new terms of [H,A] (for each operator to commute with).
    Returns how many of the new strings these are, or None if the choice is ambiguous."""
    A = ref.comm(t, hps[0], T)
    ext1 = {k: A.get(k, 0.0) for k in ext(t, base, hks[0])}
    order = sorted(ext1, key=lambda k: -abs(ext1[k]))
    m = min(len(order), num)
    if m < len(order) and abs(ext1[order[m - 1]]) - abs(ext1[order[m]]) < 1e-7:
        return None
    sub = {k: ext1[k] for k in order[:m]}
    have, pos = set(have), 0
    for hp, hk in zip(hps, hks):
        B = ref.comm(t, hp, sub)
        ext2 = ext(t, set(sub), hk)
        cand = sorted((abs(B.get(k, 0.0)) for k in ext2 if k not in have), reverse=True)
        n = min(len(cand), len(ext2), num)
        got = new[pos:pos + n]
        require(len(got) == n and all(k in ext2 and k not in have for k in got), '{} adds the {} strings {} instead of {} ones', what, len(new), new, n)
        require(np.allclose(sorted((abs(B.get(k, 0.0)) for k in got), reverse=True), cand[:n], atol=1e-6), '{} does not add the largest terms', what)
        have |= set(got)
        pos += n
    return pos


def check_target(t, target, ops, cns, kw, complete, ev):
    """Each operator is the projection of the target (later: of the best operator so far) onto vectors of its basis."""
    fid, best = kw.get('target_fidelity'), np.inf
    for i, (op, cn) in enumerate(zip(ops, cns)):
        v = vec_of(op)
        inner = sum(np.conj(target[k]) * c for k, c in v.items() if k in target)
        most = np.sqrt(sum(abs(target[k]) ** 2 for k in v if k in target))
        require(abs(inner.imag) < 1e-7 * (1 + most) and inner.real > -1e-9, 'step {} has the overlap {} with its target', i, inner)
        require(inner.real <= most + 1e-7, 'step {} has the overlap {} with its target', i, inner)
        if complete and len(v) < 20:
            require(abs(inner.real - most) < 1e-6 * (1 + most), 'step {} has the overlap {} with its target instead of {}', i, inner, most)
            ev.label('target reached')
        if fid is not None and inner.real ** 2 < fid - 1e-6:
            require(i == len(ops) - 1, 'the search goes on after the fidelity {} in step {}', inner.real ** 2, i)
            ev.label('fidelity too low')
        if abs(cn) < best:
            best, target = cn, v


# ---------------------------------------------------------------- other searches

def strat_other(tier):
    @st.composite
    def s(draw):
        algo = draw(st.sampled_from(['sweep', 'sweep', 'greedy_simple', 'many', 'many2']))
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.sampled_from([1, 2, 3, 3, 4]))
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            o = draw(start(t, n, 2))
            if not any(a[2] == b[2] for a in o[1] for p in ops for b in p[1]):
                ops.append(o)
        return dict(algo=algo, t=t, n=n, H=draw(chain(t, n)), ops=ops, Q=draw(start(t, n, 2)), steps=draw(st.integers(1, 3)), thr=draw(st.sampled_from([1e-6, 1e-3])),
                    size=draw(st.sampled_from([4, 7, 12, 30, 100])), nH=draw(st.sampled_from([1, 2, 5, 20])),
                    orth=draw(st.integers(0, 3)) == 0, norm=draw(st.integers(0, 2)), unitary=draw(st.integers(0, 3)) == 0, filt=draw(st.integers(0, 2)),
                    lists=draw(st.booleans()), post=draw(st.integers(0, 2)) == 0, nev=draw(st.integers(1, 4)), evthr=draw(st.one_of(st.none(), st.sampled_from([0.5, 5.0]))),
                    trunc=draw(st.integers(0, 2)) == 0)
    return s()


def check_other(case, ev):
    import qosy
    from qosy import algorithms as alg
    t, algo = case['t'], case['algo']
    if not case['H'][1] or not case['ops']:
        raise Skip()
    H, Q = gen.mk_op(case['H']), gen.mk_op(case['Q'])
    ops = [gen.mk_op(o) for o in case['ops']]
    before = [str(x) for x in [H, Q] + ops]
    hp = poly(H)
    hk = [key(os) for os in H._basis]
    scale = 1 + 4 * sum(abs(complex(c)) for c, _ in H) ** 2
    kw = dict(threshold=case['thr'], max_basis_size=case['size'])
    seen = []

    def pick(evals, evecs, basis):
        seen.append((np.copy(evals), np.copy(evecs), list(basis.op_strings)))
        return evecs[:, -1], evals[-1]

    def weigh(vector, basis):
        return np.array([c / (1.0 + len(os.orbital_labels)) for c, os in zip(vector, basis)])
    post = algo == 'sweep' and case.get('post', False)
    try:
        with np.errstate(all='ignore'):
            if algo == 'sweep':
                if case['orth']:
                    kw['orth_ops'] = [Q]
                if case['norm']:
                    kw['norm_fun'] = lambda os: 1.0 + 0.5 * len(os.orbital_labels)
                if case['unitary'] and t == 'Pauli':
                    kw['expand_unitary'] = 6
                if case['filt'] == 1:
                    kw['pre_filter_fun'] = lambda b: qosy.Basis([os for os in b if len(os.orbital_labels) <= 2])
                if post:
                    kw.update(post_filter_fun=pick, max_num_evecs=case['nev'], min_num_evecs=min(2, case['nev']), eval_threshold=case['evthr'])
                if case.get('trunc'):
                    kw['trunc_filter_fun'] = weigh
                res = alg.selected_ci_sweep(ops[0], H, case['steps'], **kw)
            elif algo == 'greedy_simple':
                res = alg.selected_ci_greedy_simple(ops[0], H, case['steps'] + 2, **kw)
            elif algo == 'many':
                if case.get('lists'):
                    kw['max_basis_size'] = [case['size'] + i for i in range(case['steps'])]
                res = alg.selected_ci_greedy_many_ops([o for o in ops], H, case['steps'], num_H_terms=[case['nH'] + i for i in range(case['steps'])] if case.get('lists') else case['nH'], verbose=False, **kw)
            else:
                if case['orth']:
                    kw['orth_ops'] = [Q]
                res = alg.selected_ci_greedy_many_ops2([o for o in ops], H, case['steps'], num_H_terms=case['nH'], verbose=False, **kw)
    except (ArpackError, RuntimeError) as e:
        if not isinstance(e, ArpackError) and 'singular' not in str(e):
            raise
        ev.label('arpack failed')
        return
    require([str(x) for x in [H, Q] + ops] == before, 'the arguments were changed')
    found = []
    if algo in ('sweep', 'greedy_simple'):
        best, bn, found, cns = res
        limited = algo == 'sweep' and case['orth']
        if limited:
            # the reported value includes the penalty for violating the constraint
            require(len(found) == len(cns), '{} operators with {} commutator norms', len(found), len(cns))
            tol = 1e-4
        else:
            judge_best(res, ops[0], before[2])
            tol = 1e-5 if any(len(o._basis) >= 4 for o in found) and algo == 'sweep' else 1e-6
        for op, cn in zip(found, cns):
            if limited and abs(cn) > 1e6:
                continue                     # nothing in the basis obeys the constraint
            judge(t, op, cn, hp, scale, minimal=not limited and not post and not (algo == 'sweep' and case['norm']), tol=tol)
            if algo == 'sweep' and case['filt'] == 1:
                require(all(len(os.orbital_labels) <= 2 for os in op._basis), 'the basis was not filtered')
        if algo == 'sweep':
            model_sweep(t, case, ops[0], H, hk, found, seen if post else None, weigh if case.get('trunc') else None, ev)
        for evals, evecs, strings in seen if not limited and not case['norm'] else []:
            judge_filter_input(com_matrix(t, strings, hp), case, evals, evecs, scale)
            ev.label('filter input')
        if algo == 'greedy_simple':
            # one string is added per step, nothing is removed
            keys = [{key(os) for os in ops[0]._basis}] + [{key(os) for os in op._basis} for op in found]
            cur = poly(ops[0])
            for a, b, op in zip(keys, keys[1:], found):
                require(a < b and len(b) == len(a) + 1, 'the basis grows from {} to {} strings', len(a), len(b))
                require(b - a <= ext(t, ext(t, a, hk), hk), 'a string was added that is not in [H,[H,O]]')
                # the largest term A of [H,O] (or the next one that can be expanded) and the largest new term of [H,A]
                A = ref.comm(t, hp, cur)
                order = sorted(ext(t, a, hk), key=lambda k: -abs(A.get(k, 0.0)))
                vals = [abs(A.get(k, 0.0)) for k in order]
                if len(order) == 1 or vals[0] - vals[1] > 1e-7:
                    B = ref.comm(t, hp, {order[0]: 1.0})
                    new = {k: abs(v) for k, v in B.items() if k not in a and abs(v) > 1e-12}
                    if new:
                        (k,) = b - a
                        require(k in new and new[k] > max(new.values()) - 1e-9, 'the string added does not cancel the largest term')
                        ev.label('modelled')
                cur = poly(op)
            if len(found) < case['steps'] + 2:
                require(ext(t, ext(t, keys[-1], hk), hk) <= keys[-1], 'the search stopped although the basis can be expanded')
    else:
        lists, cns = res
        require(len(lists) == len(cns), '{} lists of operators with {} of norms', len(lists), len(cns))
        if algo == 'many':
            require(len(lists) == case['steps'], '{} steps', len(lists))
        grow = [case['nH'] + i if algo == 'many' and case.get('lists') else case['nH'] for i in range(case['steps'])]
        sizes = [case['size'] + i if algo == 'many' and case.get('lists') else case['size'] for i in range(case['steps'])]
        base = {key(os) for o in ops for os in o._basis}
        for step, (fo, cn) in enumerate(zip(lists, cns)):
            what = 'step %d' % step
            if algo == 'many2':
                new = [k for k in map(key, fo[0]._basis) if k not in base]
                if step == 0:
                    have = set(base)
                    for o in ops:
                        pos = added(t, poly(o), base, have, [hp], [hk], grow[0], new, what)
                        if pos is None:
                            break
                        have |= set(new[:pos])
                        new = new[pos:]
                    else:
                        require(not new, '{} adds {} strings too many', what, len(new))
                        require(have == {key(os) for os in fo[0]._basis}, '{} loses strings', what)
                        ev.label('many2 modelled')
                else:
                    require(set(new) <= ext(t, ext(t, base, hk), hk), '{} adds a string that is not in [H,[H,O]]', what)
                    require(len(fo[0]._basis) <= sizes[step - 1] + len(ops) * grow[step], '{}: {} strings', what, len(fo[0]._basis))
                base = {key(os) for os in fo[0]._basis}
            else:
                for j, op in enumerate(fo):
                    old = vec_of(ops[j] if step == 0 else lists[step - 1][j])
                    if step:
                        kept = truncation(lists[step - 1][j], case['thr'], sizes[step - 1])
                        if kept is None:
                            continue
                        old = {k: c for k, c in old.items() if k in kept}
                    keys = [key(os) for os in op._basis]
                    require(set(old) <= set(keys), '{} of operator {} loses strings', what, j)
                    new = [k for k in keys if k not in old]
                    pos = added(t, old, set(old), set(old), [hp], [hk], grow[step], new, '%s of operator %d' % (what, j))
                    if pos is not None:
                        require(pos == len(new), '{} of operator {} adds {} strings instead of {}', what, j, len(new), pos)
                        ev.label('many modelled')
            require(len(fo) == len(cn) == len(ops), '{} operators and {} norms for {} initial ones', len(fo), len(cn), len(ops))
            for op, c in zip(fo, cn):
                judge(t, op, c, hp, scale, minimal=False, tol=1e-5)
            if algo == 'many2':
                found.extend(fo)
                V = np.array([o.coeffs for o in fo])
                require(all(o._basis.op_strings == fo[0]._basis.op_strings for o in fo), 'the operators do not share a basis')
                require(np.allclose(V.conj() @ V.T, np.eye(len(fo)), atol=1e-6), 'the operators are not orthonormal')
                if case['orth']:
                    if len(fo[0]._basis) < 20:
                        for op, c in zip(fo, cn):
                            r = constrained(t, op, [Q], [], [hp], len(fo))
                            if r is not None:
                                require(r[0] < 1e-4, 'the operator violates the constraints by {}', r[0])
                                require(c > r[2] - r[3] - 1e-4 * scale, 'the commutator norm is {}, but {} is the smallest one', c, r[2])
                                ev.label('constrained')
                elif len(fo[0]._basis) < 20:
                    lam = np.linalg.eigvalsh(com_matrix(t, fo[0]._basis.op_strings, hp))[:len(fo)]
                    require(np.allclose(np.sort(cn), lam, atol=1e-6 * scale), 'the norms are {}, the smallest ones {}', cn, lam)
            else:
                found.extend(fo)
                prev = lists[step - 1] if step else ops
                for j, op in enumerate(fo):
                    others = list(fo[:j]) + list(prev[j + 1:])
                    r = constrained(t, op, others, [], [hp], 1) if others else None
                    if r is not None:
                        require(r[0] < 1e-4, 'the operator is not orthogonal to the others: {}', r[0])
                        require(r[1] < r[2] + (1e-4 if len(op._basis) < 20 else 1e-3) * scale, 'the commutator norm is {}, but {} is possible with the constraints', r[1], r[2])
                        ev.label('orthogonal')
    ev.label('algo:' + algo, 'found:%d' % min(len(found), 6))
    ev.nontrivial(bool(found) and len(found[-1]._basis) >= 3)


def model_sweep(t, case, O, H, hk, found, seen, weigh, ev):
    """The bases of a sweep: terms of H next to the current site expand it, the largest terms are kept."""
    labels = {key(os): set(int(l) for l in os.orbital_labels) for os in H._basis}
    top = max((max(l) for l in labels.values() if l), default=None)
    if top is None or (case['unitary'] and t == 'Pauli'):
        return
    T = {key(os) for os in O._basis}
    prev = set(T)
    done, direction = 0, 1
    for sweep in range(case['steps']):
        used = [l for k in T for l in key_labels(k)]
        if not used:
            return
        sites = list(range(min(used), max(used) + 1))[::direction]
        for site in sites:
            near1, near2 = {site, min(site + 1, top)}, {max(0, site - 1), site, min(site + 1, top), min(site + 2, top)}
            h1 = [k for k in hk if labels[k] & near1]
            h2 = [k for k in hk if labels[k] & near2]
            E = T | ext(t, ext(t, T, h1), h2)
            if case['filt'] == 1:
                E = {k for k in E if len(key_labels(k)) <= 2}
            T = E
            if E == prev:
                continue
            prev = set(E)
            require(len(found) > done, 'the sweep stopped after {} steps', len(found))
            op = found[done]
            require({key(os) for os in op._basis} == E, 'the basis of step {} is not the expanded basis', done)
            strings = op._basis.op_strings
            v = seen[done][1][:, 0] if seen is not None else np.array(op.coeffs)
            if weigh is not None:
                v = weigh(v, strings)
            done += 1
            T = truncation(list(zip(v, strings)), case['thr'], case['size'])
            if T is None:
                ev.label('sweep modelled:%d' % min(done, 6))
                return
        direction = -direction
    require(done == len(found), 'the sweep made {} steps instead of {}', len(found), done)
    ev.label('sweep modelled:%d' % min(done, 6), 'sweep modelled to the end')


# ---------------------------------------------------------------- projection of a target

def strat_fidelity(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        n = draw(st.integers(1, 4))
        strings = draw(gen.strings_list(t, list(range(n)), min_size=1, max_size=10))
        return dict(t=t, strings=strings, k=draw(st.integers(1, len(strings))), seed=draw(st.integers(0, 10 ** 6)), cplx=draw(st.booleans()),
                    target=draw(gen.operator(t, list(range(n)), min_terms=1, max_terms=5, complex_=draw(st.booleans()))),
                    inside=draw(st.booleans()), evals=[draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 2.25, 1e-9])) for _ in strings])
    return s()


def check_fidelity(case, ev):
    from qosy import algorithms as alg
    r = np.random.RandomState(case['seed'])
    m, k = len(case['strings']), case['k']
    M = r.normal(size=(m, m)) + (1j * r.normal(size=(m, m)) if case['cplx'] else 0)
    U = np.linalg.qr(M)[0][:, :k]
    terms = list(case['target'][1])
    if case['inside']:
        have = [x[2] for x in terms]
        terms += [[r.normal(), 0.0, x] for x in case['strings'] if x not in have]
    top = np.sqrt(sum(abs(complex(a, b)) ** 2 for a, b, _ in terms))
    terms = [[a / top, b / top, x] for a, b, x in terms]
    basis, target = gen.mk_basis(case['strings']), gen.mk_op([case['t'], terms])
    w = np.zeros(m, dtype=complex)
    for a, b, x in terms:
        if x in case['strings']:
            w[case['strings'].index(x)] += complex(a, b)
    P = U @ (U.conj().T @ w)
    p = np.linalg.norm(P)
    if p < 1e-6:
        raise Skip('no overlap')
    evals = np.array(case['evals'][:k])
    U0, e0, t0 = U.copy(), evals.copy(), str(target)
    v, cn, fid = alg.highest_fidelity_operator(target, U, evals, basis)
    require(np.array_equal(U, U0) and np.array_equal(evals, e0) and str(target) == t0, 'the arguments were changed')
    require(np.shape(v) == (m,) and np.allclose(v, P / p, atol=1e-9), 'the operator is not the normalised projection of the target')
    require(abs(fid - p ** 2) < 1e-9, 'the fidelity is {} instead of {}', fid, p ** 2)
    lam = np.vdot(P / p, U @ (evals * (U.conj().T @ P / p))).real
    require(abs(cn - lam) < 1e-9, 'the commutator norm is {} instead of {}', cn, lam)
    ev.label('vectors:%d' % min(k, 5), 'inside' if abs(np.linalg.norm(w) - 1) < 1e-9 else 'partly outside')
    ev.nontrivial(1 <= k < m and p ** 2 < 1 - 1e-6)


PROP = Prop(
    'C27',
    'Heisenberg, Ising-like and random Hamiltonians with up to 7 terms on chains of 1-4 sites (Pauli and Majorana strings), starting operators with up to 3 strings, histories of 1-5 steps with thresholds, size limits, numbers of terms, target operators, orthogonality and symmetry constraints, several commuting operators, filters, and re-used exploration data. '
    'Non-trivial: a string explored before is explored again; a search whose basis grows to three or more strings (in the greedy search over two or more steps).',
    [Sub('explore', strat_explore, check_explore, 2500), Sub('selected_ci', strat_sci, check_sci, 4000), Sub('greedy', strat_greedy, check_greedy, 4000),
     Sub('other searches', strat_other, check_other, 3000), Sub('fidelity', strat_fidelity, check_fidelity, 2000)],
    ['Hamiltonians are Hermitian and starting operators contain no identity', 'where equal coefficients make the truncation ambiguous, the model of the search stops there',
     'constraints are imposed by a penalty of 1e8 and compared with a tolerance of 1e-4'])
