"""Distance bases against brute-force enumeration of cliques."""
import itertools
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import lat
from props.c09 import fermion_all


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        n = 5 if t == 'Fermion' else draw(gen.tail(10, 20, 10))
        L = draw(lat.lattice(max_orbitals=n, max_cells=8))
        N = len(lat.model(L))
        k = draw(st.one_of(st.integers(1, 3), st.lists(st.integers(0, 4), min_size=1, max_size=3))) if N <= 10 else draw(st.sampled_from([1, 2, 2, [1], [2], [0, 2]]))
        case = dict(t=t, L=L, k=k, pair=[draw(st.integers(0, N - 1)), draw(st.integers(0, N - 1))], tol=draw(st.sampled_from([None, None, None, 1e-12, 1e-6, 1e-3, 0.25])),
                    shift=draw(st.sampled_from([0.0, 0.0, 0.01, -0.01, 0.3, 1e-6, -1e-6, -1e-8])), id=draw(st.sampled_from([True, False, None])))
        if draw(st.booleans()):
            case['allowed'] = draw(st.permutations(range(N)))[:draw(st.integers(1, N))]
            case['arr'] = draw(st.booleans())
        return case
    return s()


def check(case, ev):
    import qosy
    t, k = case['t'], case['k']
    orbs = lat.model(case['L'])
    N = len(orbs)
    D = np.array([[lat.distance(case['L'], a[0], b[0]) for b in orbs] for a in orbs])
    R = D[case['pair'][0], case['pair'][1]] + case['shift']
    tol = case.get('tol')
    reach = R + (1e-10 if tol is None else tol)
    if np.any(abs(D - reach) < 5e-13):
        raise Skip()
    near = D <= reach
    allowed_o = case.get('allowed', list(range(N)))
    ks = set(range(1, k + 1)) if isinstance(k, int) else set(x for x in k if x > 0)
    want = set()

    def local(labels):
        return all(near[i, j] or i == j for i in labels for j in labels)
    if t == 'Fermion':
        for s in fermion_all(sorted(allowed_o)):
            if sum(o == 'CDag' for o in s[1]) in ks and local(set(s[2])):
                want.add((tuple(s[1]), tuple(s[2]), s[3]))
    else:
        for m in ks:
            for labs in itertools.combinations(sorted(allowed_o), m):
                if local(labs):
                    for ops in itertools.product(gen.PM[t], repeat=m):
                        want.add((ops, labs, 0))
    # the search needs at least one orbital; distances below zero allow single orbitals only
    if case['id']:
        want.add(((), (), 0))
    lattice = lat.build(case['L'])
    kw = {}
    if 'allowed' in case:
        kw['allowed_orbitals'] = np.array(case['allowed']) if case['arr'] else list(case['allowed'])
    if case['id'] is not None:
        kw['include_identity'] = case['id']
    if tol is not None:
        kw['tol'] = tol
    b = qosy.distance_basis(lattice, k, R, t, **kw)
    got = set()
    for o in b:
        require(o.op_type == t, 'a string of type {}', o.op_type)
        key = (tuple(str(x) for x in o.orbital_operators), tuple(int(x) for x in o.orbital_labels),
               int(t == 'Fermion' and abs(o.prefactor - 1j) < 1e-12))
        require(key not in got, '{} is listed twice', o)
        require(key in want, '{} does not belong to the basis: R={} k={} allowed={}', o, R, k, allowed_o)
        got.add(key)
    require(len(got) == len(want), '{} strings, expected {}; for example {} is missing', len(got), len(want), sorted(want - got)[:1])
    npairs = int((near.sum() - N) / 2)
    ev.label('type:' + t, 'graph:' + ('complete' if npairs == N * (N - 1) // 2 else 'empty' if npairs == 0 else 'partial'),
             'allowed' if 'allowed' in case else 'all orbitals')
    ev.nontrivial(N >= 3 and 0 < npairs and (npairs < N * (N - 1) // 2 or 'allowed' in case))


PROP = Prop(
    'C11',
    'Distance bases on generated lattices of up to 10 (sometimes 20) orbitals (5 for fermions) in 1-3 dimensions with skewed cells, open, periodic and mixed boundaries, '
    'several atoms and orbital names, radii at, slightly off (down to 1e-8) and between the distances that occur, default and given tolerances, integer or list k, subsets of allowed orbitals in any order, '
    'with and without identity; brute-force enumeration over subsets with an independent exact periodic distance. '
    'Non-trivial: three or more orbitals and a neighbourhood graph that is neither empty nor (without a restriction) complete.',
    [Sub('enumeration', strat, check, 3600)])
