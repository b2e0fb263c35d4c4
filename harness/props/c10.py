"""Cluster bases against brute-force enumeration."""
import itertools
from math import comb
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props.c09 import fermion_all


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        nmax = 4 if t == 'Fermion' else (6 if tier == 'thorough' else 5)
        pool = draw(gen.label_pool(1, nmax))
        if draw(st.booleans()):
            pool = draw(st.permutations(pool))
        k = draw(st.one_of(st.integers(1, nmax + 1), st.lists(st.integers(0, nmax + 1), min_size=1, max_size=4)))
        if draw(st.integers(0, 9)) == 0:
            big = draw(st.sampled_from([40, 127, 128, 257, 1000, 65537]))      # far more orbitals than there are
            k = min(big, 1000) if isinstance(k, int) else k + [big]
        return dict(t=t, labels=list(pool), k=k, karr=draw(st.booleans()), larr=draw(st.booleans()), id=draw(st.sampled_from([True, False, None])))
    return s()


def strat_many(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion', 'Fermion']))
        n = draw(st.integers(7, 20 if t != 'Fermion' else 17))
        hi = draw(st.sampled_from([n + 2, 2 * n, 120, 1100, 70000]))
        pool = draw(st.lists(st.integers(0, hi), min_size=n, max_size=n, unique=True))
        if draw(st.booleans()):
            pool = sorted(pool)
        if t == 'Fermion':
            k = draw(st.sampled_from([1, 1, [1], [0, 1], [2], 2] if n <= 8 else [1, 1, [1], [0, 1]]))
        else:
            k = draw(st.sampled_from([1, 2, 2, [1], [2], [0, 2]] + ([3, [3]] if n <= 9 else [])))
        return dict(t=t, labels=pool, k=k, karr=draw(st.booleans()), larr=draw(st.booleans()), id=draw(st.sampled_from([True, False, None])))
    return s()


def few(t, pool, allowed):
    """The strings with an allowed number of orbitals, without listing all of them."""
    out = []
    if t != 'Fermion':
        for m in allowed:
            out += [[t, list(ops), list(labs), 0] for labs in itertools.combinations(pool, m) for ops in itertools.product(gen.PM[t], repeat=m)]
        return out
    for m in allowed:
        for cd in itertools.combinations(pool, m):
            for q in range(m + 1):
                for c in itertools.combinations(pool, q):
                    if q < m or list(c) <= list(cd):
                        out += [[t, ['CDag'] * m + ['C'] * q, list(cd) + list(c[::-1]), pf] for pf in ([0] if c == cd else [0, 1])]
    return out


def check(case, ev):
    import qosy
    t, pool, k = case['t'], case['labels'], case['k']
    kk = np.array(k) if (isinstance(k, list) and case['karr']) else k
    labels = np.array(pool) if case['larr'] else list(pool)
    kw = {} if case['id'] is None else dict(include_identity=case['id'])
    b = qosy.cluster_basis(kk, labels, t, **kw)
    require([int(x) for x in labels] == pool, 'the labels were reordered')
    allowed = set(range(1, k + 1)) if isinstance(k, int) else set(x for x in k if x > 0)
    if len(pool) > 6:
        want = few(t, sorted(pool), allowed)
    elif t == 'Fermion':
        want = [s for s in fermion_all(sorted(pool)) if sum(o == 'CDag' for o in s[1]) in allowed]
    else:
        want = [s for s in gen.all_strings(t, pool) if len(s[1]) in allowed]
    if case['id']:
        want.append([t, [], [], 0])
    require(isinstance(b, qosy.Basis), 'not a Basis')
    got = list(b)
    require(len(got) == len(want), '{} strings, expected {} (k={}, labels={})', len(got), len(want), k, pool)
    wset = set((tuple(s[1]), tuple(s[2]), s[3]) for s in want)
    gset = set()
    for o in got:
        require(o.op_type == t, 'a string of type {}', o.op_type)
        key = (tuple(str(x) for x in o.orbital_operators), tuple(int(x) for x in o.orbital_labels),
               int(t == 'Fermion' and abs(o.prefactor - 1j) < 1e-12))
        require(key not in gset, '{} is listed twice', o)
        require(key in wset, '{} does not belong to the basis (k={}, labels={})', o, k, pool)
        gset.add(key)
        require(b[b.index(o)] == o and o in b, 'lookup of {} fails', o)
    # independent Hermitian operators
    if len(got) <= 300:
        polys = [ref.os_poly(o) for o in got]
        A = ref.alg(t)
        for p, o in zip(polys, got):
            require(ref.close(A.dag(p), p), '{} is not Hermitian', o)
        if polys:
            require(ref.rank(ref.vec_matrix(polys)) == len(polys), 'the strings are linearly dependent')
        n = len(pool)
        if t != 'Fermion':
            dim = sum(comb(n, m) * 3 ** m for m in allowed) + bool(case['id'])
            require(len(got) == dim, 'dimension {}, expected {}', len(got), dim)
        elif allowed >= set(range(1, n + 1)):
            require(len(got) == 4 ** n - 1 + bool(case['id']), 'a full fermion basis has {} strings', len(got))
    ev.label('type:' + t, 'k:list' if isinstance(k, list) else 'k:int', 'identity' if case['id'] else 'no identity')
    ev.nontrivial(len(pool) >= 2 and len(got) >= 4)


PROP = Prop(
    'C10',
    'Cluster bases of all types for 1-6 labels (4 for fermions), and of few orbitals for 7-20 labels (17 for fermions), up to 70000 in any order, given as list or array, numbers of orbitals given '
    'as integer, list or array (with 0, repetitions and values beyond the cluster), with and without the identity; brute-force enumeration, '
    'rank of the exact polynomials and Hermiticity. Non-trivial: at least two labels and four strings.',
    [Sub('enumeration', strat, check, 6000), Sub('many labels', strat_many, check, 500)],
    ['the number of orbitals of a fermion string is its number of creation operators, as the enumeration in cluster_basis defines it'])
