"""Lie algebra generation against an exact closure computed modulo a large prime."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref

PRIME = (1 << 61) - 1


def herm_comm(t, cache, a, b):
    """-i[h_a, h_b] = c h_k for Hermitian unit strings h (keys a, b): returns (c, k) or None."""
    if (a, b) in cache:
        return cache[(a, b)]
    A = ref.alg(t)

    def h(k):
        p = {k: 1.0}
        q = A.dag(p)
        return p if abs(q[k] - 1.0) < 1e-12 else {k: 1j}
    r = ref.scale(ref.comm(t, h(a), h(b)), -1j)
    out = None
    if r:
        (k, c), = r.items()
        hk = h(k)[k]
        c = c / hk
        assert abs(c.imag) < 1e-12
        out = (int(round(c.real)), k)
    cache[(a, b)] = out
    return out


def to_herm(t, p):
    """Real coefficients of a Hermitian polynomial in Hermitian unit strings."""
    A = ref.alg(t)
    out = {}
    for k, c in p.items():
        d = A.dag({k: 1.0})[k]
        v = c if abs(d - 1.0) < 1e-12 else c / 1j
        assert abs(np.imag(v)) < 1e-9, (p, k)
        out[k] = np.real(v)
    return out


class Echelon:
    def __init__(self):
        self.rows = {}

    def add(self, v):
        v = {k: c % PRIME for k, c in v.items() if c % PRIME}
        while v:
            k = max(v, key=lambda q: q if isinstance(q, tuple) else (q,))
            if k not in self.rows:
                inv = pow(v[k], PRIME - 2, PRIME)
                self.rows[k] = {q: c * inv % PRIME for q, c in v.items()}
                return True
            f = v[k]
            for q, c in self.rows[k].items():
                x = (v.get(q, 0) - f * c) % PRIME
                if x:
                    v[q] = x
                else:
                    v.pop(q, None)
        return False


def closure_dim(t, gens, limit):
    """Dimension of the Lie algebra generated by integer combinations of Hermitian strings."""
    cache = {}

    def br(u, v):
        out = {}
        for a, x in u.items():
            for b, y in v.items():
                r = herm_comm(t, cache, a, b)
                if r:
                    out[r[1]] = (out.get(r[1], 0) + x * y * r[0]) % PRIME
        return {k: c for k, c in out.items() if c}
    E = Echelon()
    elems = [g for g in gens if E.add(g)]
    q = 0
    while q < len(elems):
        for g in gens:
            n = br(g, elems[q])
            if n and E.add(n):
                elems.append(n)
                if len(elems) > limit:
                    return None
        q += 1
    return len(elems)


def smallest_residual(t, gens, limit):
    """Smallest distance of a normalised independent commutator from the span of the elements found before it."""
    elems = [{k: c for k, c in to_herm(t, g).items()} for g in gens]
    cache = {}
    worst = 1.0
    work = 0
    index = {}
    Q = np.zeros((0, 0))

    def vec(p):
        for k in p:
            index.setdefault(k, len(index))
        v = np.zeros(len(index))
        for k, c in p.items():
            v[index[k]] = c
        return v / np.linalg.norm(v)

    def push(p):
        nonlocal Q, worst
        v = vec(p)
        Q = np.vstack((Q, np.zeros((len(v) - Q.shape[0], Q.shape[1]))))
        r = v - Q @ (Q.T @ v)
        r = r - Q @ (Q.T @ r)
        n = np.linalg.norm(r)
        if n < 1e-9:
            return False
        worst = min(worst, n)
        Q = np.hstack((Q, (r / n)[:, None]))
        return True
    for g in elems:
        if any(g.values()):
            push(g)
    i = 0
    while i < len(elems):
        j = 0
        while j < len(elems):
            if j != i:
                work += len(elems[i]) * len(elems[j])
                if work > 1e6:
                    return 0.0                       # takes too long
                c = {}
                for a, x in elems[i].items():
                    for b, y in elems[j].items():
                        r = herm_comm(t, cache, a, b)
                        if r:
                            c[r[1]] = c.get(r[1], 0.0) + x * y * r[0]
                n = np.sqrt(sum(x * x for x in c.values()))
                if n > 1e-9:
                    c = {k: x / n for k, x in c.items() if abs(x / n) > 1e-12}
                    if push(c):
                        elems.append(c)
                        if len(elems) > limit:
                            return 0.0
            j += 1
        i += 1
    return worst


def strat_strings(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        if draw(st.integers(0, 2)) == 0:
            # two or three strings on many labels
            pool = draw(gen.label_pool(3, 7))
            return dict(t=t, strings=draw(gen.strings_list(t, pool, min_size=2, max_size=3, max_ops=draw(st.integers(1, 4)))))
        pool = draw(gen.label_pool(1, 5))
        return dict(t=t, strings=draw(gen.strings_list(t, pool, max_size=5, max_ops=draw(st.integers(1, 5)))))
    return s()


def strat_ops(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        pool = draw(gen.label_pool(1, 4))
        kind = draw(st.sampled_from(['sums', 'ints', 'random', 'dependent', 'near']))
        if kind == 'sums' or kind == 'dependent':
            # uniform sums over the pool (collective operators), closed families
            ops = []
            pairs = [[i, j] for i in pool for j in pool if i < j]
            for _ in range(draw(st.integers(1, 3))):
                terms = []
                if draw(st.booleans()) or not pairs:
                    o = draw(st.sampled_from(gen.PM[t]))
                    terms += [[1.0, 0.0, [t, [o], [l], 0]] for l in pool]
                else:
                    o1, o2 = draw(st.sampled_from(gen.PM[t])), draw(st.sampled_from(gen.PM[t]))
                    c = draw(st.sampled_from([1.0, -1.0, 2.0]))
                    terms += [[c, 0.0, [t, [o1, o2], list(p), 0]] for p in pairs]
                ops.append([t, terms])
            if kind == 'dependent':
                # a combination of the others, or a repeated or rescaled operator, anywhere in the list
                for _ in range(draw(st.integers(1, 2))):
                    acc = {}
                    for o in ops:
                        f = draw(st.sampled_from([0, 1, -1, 2]))
                        for a, b, x in o[1]:
                            e = acc.setdefault(repr(x), [0.0, 0.0, x])
                            e[0] += f * a
                    terms = [e for e in acc.values() if e[0]]
                    if terms:
                        ops.insert(draw(st.integers(0, len(ops))), [t, terms])
        elif kind == 'near':
            # commutators that nearly, but not quite, lie in the span of the others
            pool = pool[:3]
            ops = []
            for _ in range(draw(st.integers(2, 4))):
                x = draw(gen.pm_string(t, pool, min_ops=1))
                y = draw(gen.pm_string(t, pool, min_ops=1))
                ops.append([t, [[1.0, 0.0, x]] + ([[draw(st.sampled_from([0.003, 0.01, 0.03])), 0.0, y]] if y != x and draw(st.booleans()) else [])])
        elif kind == 'ints':
            ops = []
            for _ in range(draw(st.integers(1, 3))):
                o = draw(gen.operator(t, pool[:3], max_terms=3))
                ops.append([t, [[draw(st.sampled_from([1.0, -1.0, 2.0])), 0.0, x[2]] for x in o[1]]])
        else:
            pool = pool[:2]
            ops = draw(gen.ops_list(t, pool, max_size=3, max_terms=4))
        case = dict(t=t, ops=ops)
        if draw(st.integers(0, 2)) == 0:
            case['scales'] = draw(st.lists(st.sampled_from([1.0, 1.0, 0.03, 1e-3, 30.0, 1e3]), min_size=1, max_size=5))
        return case
    return s()


def check_strings(case, ev):
    import qosy
    t = case['t']
    b = gen.mk_basis(case['strings'])
    before = str(b)
    gens = [{next(iter(gen.ref_os(s))): 1} for s in case['strings']]
    dim = closure_dim(t, gens, 300)
    if dim is None:
        raise Skip()
    L = qosy.generate_lie_algebra(b)
    require(isinstance(L, qosy.Basis) and str(b) == before, 'not a new basis')
    require([str(L[i]) for i in range(len(b))] == [str(o) for o in b], 'generators do not come first')
    keys = [next(iter(ref.os_poly(o))) for o in L]
    require(len(set(keys)) == len(keys), 'a string is repeated')
    require(len(L) == dim, 'dimension is {}, expected {}', len(L), dim)
    S = set(keys)
    cache = {}
    for a in keys:
        for c in keys:
            r = herm_comm(t, cache, a, c)
            require(r is None or r[1] in S, 'not closed')
    ev.label('dim:{}'.format(10 * (dim // 10)))
    ev.nontrivial(dim > len(case['strings']))


def check_ops(case, ev):
    import qosy
    t = case['t']
    scale = 1000
    gens = [{k: int(round(scale * c)) for k, c in to_herm(t, gen.ref_op(o)).items()} for o in case['ops']]
    dim = closure_dim(t, gens, 40)
    if dim is None:
        raise Skip()
    r = smallest_residual(t, [gen.ref_op(o) for o in case['ops']], 45)
    if r < 1e-4:
        raise Skip()      # nested commutators too close to dependent for floating-point judgement
    sc = case.get('scales', [1.0])
    # the algebra does not depend on the scales of the generators
    ops = [gen.mk_op([o[0], [[a * sc[i % len(sc)], b * sc[i % len(sc)], x] for a, b, x in o[1]]]) for i, o in enumerate(case['ops'])]
    before = [str(o) for o in ops]
    L = qosy.generate_lie_algebra(ops)
    require([str(o) for o in ops] == before and len(ops) == len(before), 'the generators were changed')
    require([str(o) for o in L[:len(ops)]] == before, 'generators do not come first, unchanged')
    P = [ref.op_poly(o) for o in L]
    M = ref.vec_matrix(P)
    G = ref.vec_matrix([gen.ref_op(o) for o in case['ops']])
    rg = ref.rank(G)
    M = M / np.maximum(np.linalg.norm(M, axis=0), 1e-300)
    if not ref.gap_ok(M, 1e-11, 1e-4):
        raise Skip()      # nested commutators of this set are too close to dependent for floating-point judgement
    require(ref.rank(M) == dim, 'the elements span {} dimensions, the Lie algebra has {}', ref.rank(M), dim)
    require(len(L) - len(ops) == dim - rg, '{} elements beyond {} generators of rank {} for an algebra of dimension {}', len(L) - len(ops), len(ops), rg, dim)
    # closure (up to scalars), exactly and for a sample of pairs with the stated dimension already verified
    rng = np.random.RandomState(len(L))
    for _ in range(6):
        i, j = rng.randint(len(L)), rng.randint(len(L))
        c = ref.comm(t, P[i], P[j])
        W = ref.vec_matrix(P + [c])
        require(ref.in_span(W[:, -1:], W[:, :-1], 1e-6), 'commutator of elements {} and {} lies outside', i, j)
    # extra elements are Hermitian and normalised
    for p, o in list(zip(P, L))[len(ops):]:
        require(ref.close(ref.alg(t).dag(p), p), 'a generated element is not Hermitian')
    ev.label('dim:{}'.format(5 * (dim // 5)), 'scaled' if 'scales' in case else 'plain', 'dependent' if rg < len(ops) else 'independent')
    ev.nontrivial(dim > rg)


PROP = Prop(
    'C07',
    'Sets of up to 64 Pauli or Majorana strings on up to 5 labels, and lists of up to 5 Hermitian operators (collective sums, '
    'small random combinations, linearly dependent lists). The expected dimension is computed by a closure in exact arithmetic '
    'modulo 2^61-1. Non-trivial: the algebra is larger than the span of its generators.',
    [Sub('strings', strat_strings, check_strings, 2500),
     Sub('operators', strat_ops, check_ops, 1600)],
    ['lists whose nested commutators are too close to linear dependence for double precision are counted as skipped',
     'algebras of more than 40 (operator lists) or 300 (strings) dimensions are counted as skipped'])
