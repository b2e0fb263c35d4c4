"""Lattice distances against a brute-force minimum over images."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props import lat


def strat(tier):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 4)) == 0:
            L = dict(V=[[1.0, 0.0], [0.5, float(np.sqrt(3) / 2)]], atoms=[[[0, 0], ['']], [[6, 0], ['']], [[0, 6], ['']]],
                     cells=[draw(st.integers(1, 7)), draw(st.integers(1, 7))], periodic=[draw(st.integers(0, 3)) > 0 for _ in range(2)], form=0)
        else:
            L = draw(lat.lattice(max_orbitals=draw(gen.tail(60, 200)), max_cells=draw(gen.tail(9, 30)), named=draw(st.booleans()), inside=draw(st.booleans())))
        N = len(lat.model(L))
        dim = len(L['V'])
        pts = []
        for _ in range(4):
            if draw(st.integers(0, 2)) < 2:
                pts.append(draw(st.integers(0, N - 1)))
            else:
                pts.append([draw(st.integers(-40, 40)) / 8.0 for _ in range(dim)])
        return dict(L=L, pts=pts, np=draw(st.booleans()), t=[draw(st.integers(-2, 2)) for _ in range(dim)])
    return s()


def check(case, ev):
    L = case['L']
    lattice = lat.build(L)
    items = list(lattice)
    V = np.array(L['V'])
    args, pos = [], []
    for p in case['pts']:
        if isinstance(p, int):
            args.append(np.int64(p) if case['np'] else p)
            pos.append(np.array(items[p][0]))
        else:
            args.append(np.array(p))
            pos.append(np.array(p))
    n = len(pos)
    D = np.zeros((n, n))
    plain = False
    for i in range(n):
        for j in range(n):
            D[i, j] = lattice.distance(args[i], args[j])
            want = lat.distance(L, pos[i], pos[j])
            require(abs(D[i, j] - want) < 1e-9 * (1 + want), 'distance of {} and {} is {}, expected {}', pos[i], pos[j], D[i, j], want)
            d2 = lattice.distance(pos[i], pos[j])
            require(abs(d2 - want) < 1e-9 * (1 + want), 'distance by position of {} and {} is {}, expected {}', pos[i], pos[j], d2, want)
            plain = plain or abs(want - np.linalg.norm(pos[i] - pos[j])) > 1e-6
    require(np.allclose(D, D.T, atol=1e-9), 'not symmetric')
    for i in range(n):
        require(D[i, i] < 1e-9, 'distance of a point from itself is {}', D[i, i])
        for j in range(n):
            if D[i, j] < 1e-9:
                require(lat.equivalent(L, pos[i], pos[j], 1e-6), 'distinct points at distance 0')
            for k in range(n):
                require(D[i, k] <= D[i, j] + D[j, k] + 1e-9, 'triangle inequality fails')
    t = np.array([c * m if p else 0 for c, m, p in zip(case['t'], L['cells'], L['periodic'])], dtype=float) @ V
    d = lattice.distance(pos[0] + t, pos[1])
    require(abs(d - D[0, 1]) < 1e-8, 'distance changes from {} to {} under a translation by full periods', D[0, 1], d)
    require(all(np.array_equal(a[0], b[0]) for a, b in zip(items, lattice)), 'an orbital was moved')
    ev.label('dim:{}'.format(len(V)), 'periodic:{}'.format(sum(L['periodic'])), 'wrapping' if plain else 'direct')
    ev.nontrivial(plain)


PROP = Prop(
    'C13',
    'Pairs out of four points (orbital indices as Python or NumPy integers, orbital positions, arbitrary positions also outside of the lattice) on generated lattices of up to 60 orbitals '
    'in 1-3 dimensions with cubic, triangular, kagome and skewed cells and any boundaries; a brute-force minimum with a rigorous image range is the oracle, and the metric laws and translation invariance are checked. '
    'Non-trivial: some pair is closer through a periodic image than directly.',
    [Sub('distance', strat, check, 7000)])
