"""symmetrize_basis against brute-force group averages."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import trans


@st.composite
def generators(draw, N):
    """Permutation generators: random, adjacent transpositions, cycles, reflections, redundant ones."""
    gens = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 5))
        p = list(range(N))
        if k == 0:
            p = list(draw(st.permutations(range(N))))
        elif k == 1 and N > 1:
            i = draw(st.integers(0, N - 2))
            p[i], p[i + 1] = p[i + 1], p[i]
        elif k == 2:
            s = draw(st.integers(0, N - 1))
            p = [(i + s) % N for i in range(N)]
        elif k == 3:
            p = p[::-1]
        elif k == 4 and N > 2:
            ids = draw(st.permutations(range(N)))[:3]
            p[ids[0]], p[ids[1]], p[ids[2]] = p[ids[1]], p[ids[2]], p[ids[0]]
        elif gens:
            p = list(draw(st.sampled_from(gens)))
        gens.append(p)
    return gens


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 5, 6]))
        gens = draw(generators(N))
        if N == 6:
            gens = gens[:2]
        pool = list(range(N))
        if draw(st.booleans()):
            k = draw(st.integers(1, 2 if N <= 4 or draw(st.integers(0, 9)) == 0 else 1))
            strs = gen.all_strings(t, pool, [k] + ([0] if draw(st.booleans()) else []))
        else:
            strs = draw(gen.strings_list(t, pool, max_size=12))
        return dict(t=t, N=N, gens=gens, strs=strs, form=draw(st.integers(0, 1)))
    return s()


def strat_big(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana']))
        N = draw(st.sampled_from([6, 6, 6, 7, 8, 9, 10, 12, 14, 16]))
        shift = [(i + 1) % N for i in range(N)]
        if N == 6 and draw(st.booleans()):
            i = draw(st.integers(0, N - 2))
            p = list(range(N))
            p[i], p[i + 1] = p[i + 1], p[i]
            gens = [shift, p]
        elif N % 2 == 0 and draw(st.booleans()):
            # two rows: shifts along the rows and an exchange of the rows or of one rung
            m = N // 2
            gens = [[(i + 1) % m + m * (i // m) for i in range(N)], [(i + m) % N for i in range(N)]]
            if m <= 5 and draw(st.booleans()):
                gens[1] = [m] + list(range(1, m)) + [0] + list(range(m + 1, N))
        else:
            gens = [shift] + ([[(-i) % N for i in range(N)]] if draw(st.booleans()) else [])
        gens = list(draw(st.permutations(gens)))
        return dict(t=t, N=N, gens=gens, strs=draw(gen.strings_list(t, list(range(N)), max_size=3, max_ops=draw(st.integers(1, 8)))), form=draw(st.integers(0, 1)), limit=800)
    return s()


def closure(gens, N):
    G = [tuple(range(N))]
    seen = set(G)
    for g in G:
        for h in gens:
            q = tuple(h[i] for i in g)
            if q not in seen:
                seen.add(q)
                G.append(q)
    return G


def check(case, ev):
    import qosy
    t, N = case['t'], case['N']
    G = closure(case['gens'], N)
    if len(G) > case.get('limit', 120):
        raise Skip()
    basis = gen.mk_basis(case['strs'])
    before = str(basis)
    gens = [qosy.label_permutation(np.array(p) if case['form'] else list(p)) for p in case['gens']]
    ops = qosy.symmetrize_basis(basis, gens)
    require(str(basis) == before and len(gens) == len(case['gens']) and all(list(g.info) == list(p) for g, p in zip(gens, case['gens'])), 'an argument was changed')
    P = [ref.op_poly(o) for o in ops]
    for i, o in enumerate(ops):
        require(abs(np.sqrt(sum(abs(c) ** 2 for c, _ in o)) - 1.0) < 1e-9, 'operator {} is not normalised', i)
        for p in case['gens']:
            require(ref.close(trans.act(['perm', p], t, P[i]), P[i], 1e-8), 'operator {} is not invariant under {}', i, p)
    supports = [set(ref.clean(p, 1e-9)) for p in P]
    for i in range(len(P)):
        for j in range(i):
            require(not (supports[i] & supports[j]), 'operators {} and {} share a string', j, i)
    avgs = []
    for s in case['strs']:
        p = gen.ref_os(s)
        a = {}
        for g in G:
            a = ref.add(a, trans.act(['perm', list(g)], t, p), 1.0 / len(G))
        avgs.append(ref.clean(a, 1e-9))
    W = ref.vec_matrix(P + avgs)
    r = ref.rank(W[:, len(P):])
    require(len(P) == r, '{} operators returned, the averages span {} dimensions', len(P), r)
    require(ref.rank(W) == r, 'the operators do not span the group averages of the strings')
    ev.label('type:' + t, 'group:%d' % len(G) if len(G) <= 12 else 'group:%d+' % (100 * (len(G) // 100)), 'vanishing' if any(not a for a in avgs) else 'no vanishing')
    ev.nontrivial(len(G) > 1 and 0 < r < len(case['strs']))


PROP = Prop(
    'C20',
    'Bases of up to 136 strings on up to 6 orbitals with 1-4 permutation generators (random, adjacent transpositions, 3-cycles, shifts, reflections, repeated ones and the identity) whose group has at most 120 elements, and up to 3 strings on up to 16 orbitals with groups of up to 800 elements (permutations of six, wreath products, dihedral groups). '
    'Non-trivial: a group of two or more elements and fewer independent averages than strings.',
    [Sub('averages', strat, check, 9000), Sub('large groups', strat_big, check, 250)],
    ['the generators are label permutations, as documented'])
