"""Lattice indexing and wrapping against a geometric model."""
import itertools
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import lat


UNITS = [1.0, 1.0, 1.0, 1e-3, 0.02, 30.0]       # lengths that keep positions off the ties of the rounding to 8 decimals


def strat(tier):
    @st.composite
    def s(draw):
        L = draw(lat.lattice(max_orbitals=draw(gen.tail(60, 300, 12)), max_cells=draw(gen.tail(7, 15)), inside=draw(st.booleans()), max_atoms=draw(gen.tail(3, 24, 16))))
        unit = draw(st.sampled_from(UNITS))
        L['V'] = [[unit * x for x in v] for v in L['V']]
        N = len(lat.model(L))
        dim = len(L['V'])
        probes = []
        for _ in range(8):
            probes.append(dict(i=draw(st.integers(0, N - 1)), t=[draw(st.sampled_from([0, 0, 1, -1, 2, -2, 3, -5])) for _ in range(dim)],
                               off=draw(st.sampled_from([None, None, None, 'half', 'cell', 'name'])), e=draw(st.sampled_from([0.0, 1e-12, -1e-12])),
                               ax=draw(st.integers(0, dim - 1))))
        return dict(L=L, probes=probes)
    return s()


def strat_edge(tier):
    @st.composite
    def s(draw):
        L = draw(lat.lattice(max_orbitals=16, max_cells=2, inside=False))
        dim = len(L['V'])
        L['atoms'][0][0] = [draw(st.sampled_from([0, 0, 12, -12, 6])) for _ in range(dim)]
        if any([x % 12 for x in a[0]] == [x % 12 for x in L['atoms'][0][0]] for a in L['atoms'][1:]):
            L['atoms'] = L['atoms'][:1]
        N = len(lat.model(L))
        probes = [dict(i=draw(st.integers(0, N - 1)), t=[draw(st.sampled_from([0, 1, -1, 2, -2, 3, -5, 40])) for _ in range(dim)], off=None,
                       e=draw(st.sampled_from([0.0, 1e-12, -1e-12])), ax=0) for _ in range(12)]
        return dict(L=L, probes=probes)
    return s()


def strat_precision(tier):
    @st.composite
    def s(draw):
        case = draw(strat(tier))
        p = draw(st.integers(3, 6))
        case['L']['precision'] = p
        for x in case['probes']:
            x['e'] = draw(st.sampled_from([0.0, 0.03, -0.03, 0.01])) * 10.0 ** -p
            if x['off'] == 'half':
                x['off'] = None
        return case
    return s()


def check_precision(case, ev):
    # positions well inside of the intervals that are rounded to the same number
    x = np.array([r for r, _, _ in lat.model(case['L'])]) * 10.0 ** case['L']['precision']
    if np.any(np.abs(x - np.floor(x) - 0.5) < 0.1) or np.max(np.abs(np.array(case['L']['V']))) < 0.1:
        raise Skip()
    check(case, ev)


def strat_named(tier):
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from(['chain', 'square', 'cubic', 'kagome']))
        dim = {'chain': 1, 'square': 2, 'kagome': 2}.get(kind) or draw(st.integers(1, 3))
        return dict(kind=kind, cells=[draw(st.integers(1, 9 if dim == 1 else 4)) for _ in range(dim)], periodic=draw(st.sampled_from([None, 1, 1])) and [draw(st.booleans()) for _ in range(dim)],
                    names=draw(st.sampled_from([None, ['A', 'B'], ['Up', 'Dn', 'X']])), t=[draw(st.integers(-3, 3)) for _ in range(dim)])
    return s()


def compare(lattice, case, orbs):
    require(len(lattice) == len(orbs), '{} orbitals, expected {}', len(lattice), len(orbs))
    items = list(lattice)
    require(len(items) == len(orbs), 'iteration gives {} orbitals', len(items))
    used = set()
    for i, (pos, name, cell) in enumerate(items):
        match = [j for j, (p, nm, c) in enumerate(orbs) if nm == name and tuple(c) == tuple(int(x) for x in cell) and np.allclose(p, pos, atol=1e-7)]
        match = [j for j in match if j not in used]
        require(match, 'orbital {} ({}, {}, {}) is not one of the expected ones', i, pos, name, cell)
        used.add(match[0])
        require(np.allclose(lattice.position(i), pos, atol=1e-9), 'position({}) differs from iteration', i)
        k = lattice.index(pos, name) if name != '' else lattice.index(pos)
        require(k == i, 'index of orbital {} at {} named {} is {}', i, pos, name, k)
    lines = str(lattice).split('\n')
    require(len(lines) == len(orbs) + 1 and lines[-1] == '', 'printed with {} lines for {} orbitals', len(lines) - 1, len(orbs))
    for i, (pos, name, cell) in enumerate(items):
        head, _, rest = lines[i].partition(']')
        shown = [float(x) for x in head.replace('[', ' ').split()]
        require(len(shown) == len(pos) and np.allclose(shown, pos, atol=1e-6, rtol=1e-6) and (name == '' or rest.endswith(str(name))), 'orbital {} ({}, {}) is printed as {!r}', i, pos, name, lines[i])
    return items


def check(case, ev):
    L = case['L']
    orbs = lat.model(L)
    lattice = lat.build(L)
    V = np.array(L['V'])
    items = compare(lattice, L, orbs)
    wraps = 0
    for p in case['probes']:
        pos, name, cell = items[p['i']]
        pos = np.array(pos)
        t = np.array(p['t'], dtype=float)
        r = pos + (t * np.array(L['cells'])) @ V + p['e']
        if p['off'] == 'half':
            r = r + 0.37 * V[p['ax']]
        elif p['off'] == 'cell':
            r = r + V[p['ax']]
        nm = 'no such name' if p['off'] == 'name' else name
        want = lat.find(L, items, r, nm, tol=1e-6 if 'precision' not in L else 1e-2)
        require(len(want) <= 1, 'harness: ambiguous probe')
        want = want[0] if want else -1
        got = lattice.index(r, nm)
        require(got == want, 'index of position {} named {!r} is {}, expected {}', r, nm, got, want)
        if want >= 0 and any(t):
            wraps += 1
        ev.label('found' if want >= 0 else 'not found')
    after = list(lattice)
    require(all(np.array_equal(a[0], b[0]) for a, b in zip(items, after)), 'a lookup moved an orbital')
    ev.label('dim:{}'.format(len(V)), 'periodic:{}'.format(sum(L['periodic'])))
    ev.nontrivial(wraps >= 1 and len(orbs) >= 2)


def check_named(case, ev):
    import qosy
    kind, cells, per, names = case['kind'], case['cells'], case['periodic'], case['names']
    kw = {} if names is None else dict(orbital_names=list(names))
    dim = len(cells)
    if per is not None:
        if kind == 'chain':
            kw['periodic'] = per[0]
        else:
            kw['periodic_boundaries'] = tuple(per)
    if kind == 'cubic':
        lattice = qosy.lattice.cubic(dim, tuple(cells), **kw)
    else:
        lattice = getattr(qosy.lattice, kind)(*cells, **kw)
    nm = names or ['']
    L = dict(V=np.eye(dim).tolist(), atoms=[[[0] * dim, nm]], cells=cells, periodic=per or [False] * dim)
    if kind == 'kagome':
        L['V'] = [[1.0, 0.0], [0.5, np.sqrt(3) / 2]]
        L['atoms'] = [[[0, 0], nm], [[6, 0], nm], [[0, 6], nm]]
    orbs = lat.model(L)
    items = compare(lattice, L, orbs)
    V = np.array(L['V'])
    for i, (pos, name, cell) in enumerate(items):
        r = np.array(pos) + (np.array(case['t'], dtype=float) * np.array(cells)) @ V
        want = lat.find(L, items, r, name)
        got = lattice.index(r, name)
        require(got == (want[0] if want else -1), 'index of {} {} is {}, expected {}', r, name, got, want)
    ev.label(kind)
    ev.nontrivial(len(items) >= 2 and per is not None and any(per) and any(case['t']))


PROP = Prop(
    'C12',
    'Generated lattices of up to 60 orbitals in 1-3 dimensions (cubic, scaled, triangular and skewed cells, 1-3 atoms also outside of the home cell, several '
    'orbital names, open, periodic and mixed boundaries, both ways of building the unit cell, cells of size 1e-3 to 60, lattices of lower precision) and the chain, square, cubic and kagome constructors; every orbital is looked up, '
    'and displaced, off-lattice and misnamed positions are compared with a brute-force search modulo the periods. Non-trivial: a lookup that wraps by a full period.',
    [Sub('lookup', strat, check, 2400), Sub('edges', strat_edge, check, 1600), Sub('precision', strat_precision, check_precision, 1200), Sub('constructors', strat_named, check_named, 600)],
    ['atoms lie at most one period outside of the home cell', 'positions are exact to 1e-12 (or to a small part of the precision given for the lattice) and not closer than the lattice precision to a rounding boundary of 8 decimals'])
