"""Conversion matrices against exact values of the converted basis strings."""
import itertools
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref


def fermion_all(pool):
    """Every non-identity Fermion string on the pool, in the documented forms."""
    subsets = [list(c) for n in range(len(pool) + 1) for c in itertools.combinations(pool, n)]
    out = []
    for cd in subsets:
        for c in subsets:
            if not cd or (len(cd), cd) < (len(c), c):
                continue
            for pf in ([0] if cd == c else [0, 1]):
                out.append(['Fermion', ['CDag'] * len(cd) + ['C'] * len(c), cd + c[::-1], pf])
    return out


def quadratic(t, pool):
    out = []
    if t == 'Fermion':
        for i in pool:
            out.append([t, ['CDag', 'C'], [i, i], 0])
            for j in pool:
                for pf in (0, 1):
                    if i < j:
                        out.append([t, ['CDag', 'CDag'], [i, j], pf])
                    elif i > j:
                        out.append([t, ['CDag', 'C'], [i, j], pf])
    else:
        for i in pool:
            out.append([t, ['D'], [i], 0])
            for j in pool:
                if i < j:
                    out += [[t, [a, b], [i, j], 0] for a in 'AB' for b in 'AB']
    return out


def full(t, pool, ident=False):
    if t == 'Fermion':
        return fermion_all(pool)
    return [s for s in gen.all_strings(t, pool) if ident or s[1]]


def strat(tier):
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(['MF', 'MF', 'MF', 'PM', 'PF', 'quad']))
        big = draw(st.integers(0, 14)) == 0
        n = 4 if (big and kind != 'PF') else draw(st.integers(1, 3))
        if kind in ('MF', 'quad'):
            types = ['Majorana', 'Fermion']
            pool = draw(gen.label_pool(n, n if kind == 'MF' else 6))
        else:
            types = ['Pauli', 'Majorana' if kind == 'PM' else 'Fermion']
            pool = list(range(n))
        if draw(st.booleans()):
            types = types[::-1]
        case = dict(kind=kind, types=types, pool=pool, order=[draw(st.integers(0, 2 ** 30)) for _ in range(2)],
                    source=draw(st.sampled_from(['own', 'own', 'cluster'])), ident=kind == 'PM' and draw(st.booleans()))
        case['subset'] = draw(st.integers(0, 3)) == 0
        case['missing'] = draw(st.integers(0, 3)) == 0
        case['pick'] = draw(st.integers(0, 2 ** 30))
        return case
    return s()


def build(case, which):
    import qosy
    t, pool = case['types'][which], case['pool']
    r = np.random.RandomState(case['order'][which])
    if case['kind'] == 'quad':
        L = [gen.mk_os(s) for s in quadratic(t, pool)]
    elif case['source'] == 'cluster':
        L = list(qosy.cluster_basis(len(pool), list(pool), t, include_identity=case['ident']))
    else:
        L = [gen.mk_os(s) for s in full(t, pool, case['ident'])]
    if case['order'][which] % 3:
        L = [L[i] for i in r.permutation(len(L))]
    if which == 0 and case['subset']:
        L = L[:1 + case['pick'] % len(L)]
    return L


def check(case, ev):
    import qosy
    A, B = build(case, 0), build(case, 1)
    if not A or not B:
        return
    bA, bB = qosy.Basis(A), qosy.Basis(B)
    sA, sB = str(bA), str(bB)
    M = qosy.conversion_matrix(bA, bB)
    require(M.shape == (len(B), len(A)), 'shape is {}', M.shape)
    D = np.asarray(M.todense())

    def val(o):
        return ref.to_maj(o.op_type, ref.os_poly(o))
    pA, pB = [val(o) for o in A], [val(o) for o in B]
    W = ref.vec_matrix(pA + pB + [{0: 1.0}])
    diff = W[:, :len(A)] - W[:, len(A):-1] @ D
    if not case['ident']:
        diff[np.argmax(np.abs(W[:, -1])), :] = 0       # the identity component is not converted
    for j in range(len(A)):
        require(np.max(np.abs(diff[:, j])) < 1e-9, 'column of {} represents another operator, difference {}', A[j], np.max(np.abs(diff[:, j])))
    require((str(bA), str(bB)) == (sA, sB), 'a basis was changed')
    if len(A) == len(B):
        Minv = np.asarray(qosy.conversion_matrix(bB, bA).todense())
        require(np.allclose(Minv @ D, np.eye(len(A)), atol=1e-8) and np.allclose(D @ Minv, np.eye(len(A)), atol=1e-8), 'the two directions are not inverse')
    # rejection of a basis that lacks a needed string
    needed = [i for i in range(len(B)) if np.any(np.abs(D[i, :]) > 1e-6)]
    if case['missing'] and needed and len(B) > 1:
        i = needed[case['pick'] % len(needed)]
        try:
            qosy.conversion_matrix(bA, qosy.Basis(B[:i] + B[i + 1:]))
        except Exception:
            pass
        else:
            fail('converting to a basis without {} was not rejected', B[i])
        ev.label('rejection')
    ev.label('->'.join(case['types']), 'size:{}'.format(len(B)))
    ev.nontrivial(len(A) >= 2)


def strat_deep(tier):
    @st.composite
    def s(draw):
        to = draw(st.sampled_from(['Majorana', 'Majorana', 'Pauli']))
        n = draw(st.integers(3, 6))
        pool = list(range(n)) if to == 'Pauli' else draw(gen.label_pool(n, n))
        A = []
        for _ in range(draw(st.integers(1, 2))):
            x = draw(gen.fermion_string(pool, max_cdag=5 if to == 'Majorana' else 4))
            if len(set(x[2])) <= 5 + (to == 'Majorana') and x not in A:
                A.append(x)
        return dict(A=A or [['Fermion', ['CDag', 'C'], [pool[0]] * 2, 0]], to=to, order=draw(st.integers(0, 2 ** 20)), extra=draw(gen.strings_list(to, pool, min_size=0, max_size=4)))
    return s()


def mono_string(t, k):
    """The string with the given monomial as its value, up to a factor."""
    ops, labels, l = [], [], 0
    x, z = k if t == 'Pauli' else (k, 0)
    while x or z:
        if t == 'Pauli':
            o = {(1, 0): 'X', (1, 1): 'Y', (0, 1): 'Z', (0, 0): None}[(x & 1, z & 1)]
            x, z = x >> 1, z >> 1
        else:
            o = {1: 'A', 2: 'B', 3: 'D', 0: None}[x & 3]
            x >>= 2
        if o:
            ops.append(o)
            labels.append(l)
        l += 1
    return [t, ops, labels, 0]


def check_deep(case, ev):
    """A few long fermion strings, in the strings that their exact expansion consists of."""
    import qosy
    to = case['to']
    comp = sorted({l for x in case['A'] for l in x[2]} | {l for x in case['extra'] for l in x[2]})
    if to == 'Pauli':
        comp = list(range(max(comp) + 1))

    def small(x):
        return [x[0], x[1], [comp.index(l) for l in x[2]]] + list(x[3:])
    pA = []
    for x in case['A']:
        p = ref.clean(gen.ref_os(small(x)), 1e-14)
        pA.append(p if to == 'Majorana' else ref.maj_to_pauli(p))
    keys = []
    for p in pA:
        keys += [k for k in p if k not in keys]
    B = []
    for k in keys:
        y = mono_string(to, k)
        B.append([y[0], y[1], [comp[l] for l in y[2]], 0])
    B = [x for x in B if x[1]]                   # the identity is not converted
    B += [x for x in case['extra'] if x not in B and x[1]]
    r = np.random.RandomState(case['order'])
    B = [B[i] for i in r.permutation(len(B))]
    if not B or len(B) > 600:
        return
    M = np.asarray(qosy.conversion_matrix(gen.mk_basis(case['A']), gen.mk_basis(B)).todense())
    require(M.shape == (len(B), len(case['A'])), 'shape is {}', M.shape)
    for i, b in enumerate(B):
        (k, c), = gen.ref_os(small(b)).items()
        for j, p in enumerate(pA):
            require(abs(M[i, j] - p.get(k, 0.0) / c) < 1e-10, 'the coefficient of {} in {} is {}, expected {}', gen.show(b), gen.show(case['A'][j]), M[i, j], p.get(k, 0.0) / c)
    ev.label('deep ' + to, 'size:{}'.format(len(B) // 20 * 20))
    ev.nontrivial(len(B) >= 8)


PROP = Prop(
    'C09',
    'Pairs of bases spanning the same operators up to the identity: all strings on up to 4 labels (from an independent enumeration or '
    'from cluster_basis, in construction or shuffled order), all quadratic strings on up to 6 labels, and subsets of the first basis; '
    'each column is compared with the exact value of its string, both directions are multiplied, and bases lacking a needed string must be rejected; long Fermion strings (up to 6 labels) are expanded in the up to 600 strings of their exact expansion. '
    'Non-trivial: two or more strings (eight in an expansion).',
    [Sub('matrix', strat, check, 3000), Sub('deep', strat_deep, check_deep, 1500)],
    ['Jordan-Wigner orbitals are labelled 0 to n-1'])
