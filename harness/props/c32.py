"""plot, plot_opstring, plot_operator: what is on the figure, read back from its artists."""
import io
import itertools
import warnings
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen
from props import lat

COLORS = {'Pauli': {'X': 'r', 'Y': 'g', 'Z': 'b'}, 'Majorana': {'A': 'r', 'B': 'g', 'D': 'b'}, 'Fermion': {'CDag': 'r', 'C': 'b'}}
TOL = 1e-7


class Picture:
    """Markers, segments, polygons, arrows and texts of all axes of the current figure."""

    def __init__(self):
        import matplotlib.pyplot as plt
        from matplotlib.colors import to_rgb
        from matplotlib.patches import FancyArrow, Polygon
        from matplotlib.collections import PathCollection, LineCollection
        self.markers, self.segments, self.polygons, self.arrows, self.texts = [], [], [], [], []
        self.axes = plt.gcf().axes if plt.get_fignums() else []
        for ax in self.axes:
            three = ax.name == '3d'
            for l in ax.get_lines():
                data = np.array(l.get_data_3d(), dtype=float).T if three else np.array(l.get_xydata(), dtype=float)
                if str(l.get_marker()) not in ('None', 'none', '', ' '):
                    for p in data:
                        self.markers.append((p, to_rgb(l.get_markerfacecolor()), l.get_alpha(), l.get_marker(), l.get_markersize()))
                if str(l.get_linestyle()) not in ('None', 'none', '', ' '):
                    for p, q in zip(data[:-1], data[1:]):
                        self.segments.append((p, q, to_rgb(l.get_color()), l.get_alpha(), l.get_linewidth()))
            for c in ax.collections:
                if isinstance(c, PathCollection):
                    off = np.array([np.ma.getdata(x) for x in c._offsets3d], dtype=float).T if three else np.array(c.get_offsets(), dtype=float)
                    fc = c.get_facecolor()
                    for i, p in enumerate(off):
                        col = tuple(fc[i % len(fc)][:3]) if len(fc) else None
                        self.markers.append((p, col, c.get_alpha(), 'scatter', None))
            for p in ax.patches:
                if isinstance(p, FancyArrow):
                    self.arrows.append(np.array(p.get_xy(), dtype=float))
                elif isinstance(p, Polygon):
                    xy = np.array(p.get_xy(), dtype=float)
                    if len(xy) > 1 and np.array_equal(xy[0], xy[-1]):
                        xy = xy[:-1]
                    self.polygons.append((xy, tuple(p.get_facecolor()[:3]), p.get_alpha()))
            for t in ax.texts:
                if t.get_text():
                    pos = np.array(t.get_position_3d(), dtype=float) if hasattr(t, 'get_position_3d') else np.array(getattr(t, 'xy', t.get_position()), dtype=float)
                    self.texts.append((pos, t.get_text()))


def rgb(c):
    from matplotlib.colors import to_rgb
    return to_rgb(c)


def xy(case, r):
    """Where a position is drawn."""
    r = np.asarray(r, dtype=float)
    return np.array([r[0], 0.0]) if len(case['V']) == 1 else r


def same(a, b):
    """Do two lists of (position, rest...) agree as multisets (rest compared within TOL or for equality)?"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    left = list(b)
    for x in a:
        for i, y in enumerate(left):
            if all(eq(u, v) for u, v in zip(x, y)):
                left.pop(i)
                break
        else:
            return False
    return True


def eq(u, v):
    if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
        return u == v
    u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
    return u.shape == v.shape and bool(np.all(np.abs(u - v) < TOL))


def show(items):
    return [tuple(np.round(np.asarray(u, dtype=float), 4).tolist() if not isinstance(u, (str, type(None))) else u for u in x) for x in items][:12]


def strat_plot(tier):
    @st.composite
    def s(draw):
        case = draw(lat.lattice(max_orbitals=16, max_cells=5))
        return dict(lat=case, labels=draw(st.booleans()), vecs=draw(st.booleans()), uc=draw(st.booleans()), ws=draw(st.booleans()),
                    default=draw(st.integers(0, 5)) == 0, render=draw(st.integers(0, 19)) == 0, limits=draw(st.booleans()))
    return s()


def ws_vertices(V):
    """The corners of the Voronoi cell of the origin, by clipping with the bisectors of many lattice points."""
    V = np.array(V, dtype=float)
    pts = [np.array(n) @ V for n in itertools.product(range(-12, 13), repeat=2) if any(n)]
    pts.sort(key=lambda p: p @ p)
    R = 10 * max(np.linalg.norm(v) for v in V)
    poly = [np.array(c) * R for c in [(-1, -1), (1, -1), (1, 1), (-1, 1)]]
    for p in pts:
        if p @ p > 4 * max(c @ c for c in poly) + 1e-9:
            break
        h = p @ p / 2.0
        new = []
        for a, b in zip(poly, poly[1:] + poly[:1]):
            da, db = a @ p - h, b @ p - h
            if da <= 1e-9:
                new.append(a)
            if (da > 1e-9) != (db > 1e-9) and abs(da - db) > 1e-12:
                new.append(a + (b - a) * da / (da - db))
        poly = new
    out = []
    for c in poly:
        if not any(np.linalg.norm(c - d) < 1e-6 for d in out):
            out.append(c)
    # drop corners on a straight side
    keep = []
    m = len(out)
    for i in range(m):
        u, w = out[i] - out[i - 1], out[(i + 1) % m] - out[i]
        if abs(u[0] * w[1] - u[1] * w[0]) > 1e-7:
            keep.append(out[i])
    return keep


def check_plot(case, ev):
    import qosy
    import matplotlib.pyplot as plt
    lc = case['lat']
    lattice = lat.build(lc)
    dim = len(lc['V'])
    orbs = lat.model(lc)
    plt.close('all')
    try:
        if case['default']:
            qosy.plot(lattice)
            labels, vecs, uc, ws = False, True, False, True
        else:
            labels, vecs, uc, ws = case['labels'], case['vecs'], case['uc'], case['ws']
            qosy.plot(lattice, with_labels=labels, with_lattice_vectors=vecs, with_unit_cell=uc, with_wigner_seitz=ws)
        pic = Picture()
        if case['render']:
            plt.gcf().savefig(io.BytesIO(), format='png', dpi=30)
            ev.label('rendered')
    finally:
        fig_axes = plt.gcf().axes
        limits = [(a.get_xlim(), a.get_ylim()) for a in fig_axes]
        plt.close('all')
    require(len(lattice) == len(orbs), 'the lattice has {} orbitals instead of {}', len(lattice), len(orbs))
    black = [(p,) for p, c, a, m, s in pic.markers if c == rgb('k')]
    want = [(xy(lc, r),) for r, _, _ in orbs]
    require(same(black, want), 'orbitals are drawn at {} instead of {}', show(black), show(want))
    # unit cell and lattice vectors
    other = [(p, m) for p, c, a, m, s in pic.markers if c != rgb('k')]
    atoms = [xy(lc, lat.atom_pos(lc, c)) for c, _ in lc['atoms']]
    got = [(p,) for p, m in other if m in ('s', 'scatter')]
    require(same(got, [(p,) for p in atoms] if uc else []), 'atoms of the unit cell are drawn at {} instead of {}', show(got), show([(p,) for p in atoms]) if uc else [])
    if dim < 3:
        ends = [xy(lc, v) for v in lc['V']] if vecs else []
        require(len(pic.arrows) == len(ends), '{} arrows for {} lattice vectors', len(pic.arrows), len(ends))
        for v in ends:
            require(any(np.min(np.linalg.norm(a - v, axis=1)) < 1e-6 and np.min(np.linalg.norm(a, axis=1)) < 0.2 for a in pic.arrows), 'no arrow from the origin to {}', v)
    # labels
    if dim < 3:
        wt = [(xy(lc, r), str(i)) for i, (r, _, _) in enumerate(orbs)] if labels else []
        require(same(pic.texts, wt), 'labels are {} instead of {}', show(pic.texts), show(wt))
    elif labels:
        k, wt = 0, []
        for pos, (_, names) in zip(atoms, lc['atoms']):
            wt.append((pos, str(list(range(k, k + len(names))))))
            k += len(names)
        require(same(pic.texts, wt), 'labels are {} instead of {}', show(pic.texts), show(wt))
    else:
        require(not pic.texts, 'labels without with_labels: {}', show(pic.texts))
    # Wigner-Seitz cell
    if dim == 2:
        segs = [(p, q) for p, q, c, a, w in pic.segments if np.linalg.norm(p - q) > 1e-7 and c == rgb('r') and not any(np.linalg.norm(p) < 1e-9 and np.linalg.norm(q - v) < 1e-6 for v in map(np.array, lc['V']))]
        if not ws:
            require(not segs, 'lines {} without the Wigner-Seitz cell', show(segs))
        else:
            V = np.array(lc['V'])
            corners = ws_vertices(V)
            ends = [p for s in segs for p in s]
            require(len(segs) >= 3, 'no Wigner-Seitz cell is drawn: {}', show(segs))
            for c in corners:
                require(any(np.linalg.norm(c - e) < 1e-6 for e in ends), 'corner {} of the Wigner-Seitz cell is not drawn: {}', c, show(segs))
            # each side lies on the boundary of the cell: equally close to the origin and to another lattice point, never closer to any other
            grid = np.array([np.array(n) @ V for n in itertools.product(range(-8, 9), repeat=2) if any(n)])
            for p, q in segs:
                for t in (0.0, 0.3, 0.7, 1.0):
                    r = p + t * (q - p)
                    gap = np.min(np.linalg.norm(grid - r, axis=1)) - np.linalg.norm(r)
                    require(abs(gap) < 1e-6, 'the line from {} to {} is not on the boundary of the Wigner-Seitz cell', p, q)
            per = sum(np.linalg.norm(p - q) for p, q in segs)
            exp = sum(np.linalg.norm(a - b) for a, b in zip(corners, corners[1:] + corners[:1]))
            require(abs(per - exp) < 1e-5 * exp, 'the boundary of the Wigner-Seitz cell has length {} instead of {}', per, exp)
            ev.label('Wigner-Seitz:%d' % len(corners))
        for (lx, ly) in limits:
            require(all(lx[0] - 1e-9 <= p[0] <= lx[1] + 1e-9 and ly[0] - 1e-9 <= p[1] <= ly[1] + 1e-9 for (p,) in want), 'an orbital is outside the limits {} {}', lx, ly)
    elif dim == 1:
        for (lx, ly) in limits:
            require(all(lx[0] - 1e-9 <= p[0] <= lx[1] + 1e-9 for (p,) in want), 'an orbital is outside the limits {}', lx)
    ev.label('dim:%d' % dim, 'labels' if labels else 'no labels')
    ev.nontrivial(len(orbs) >= 3 and (labels or uc or vecs or (ws and dim == 2)))


@st.composite
def op_string(draw, t, n, hi):
    if t == 'Fermion':
        return draw(gen.fermion_string(list(range(n)), max_cdag=1 if hi == 2 else min(3, hi)))
    pool = sorted(draw(st.permutations(range(n)))[:min(n, hi)])
    return draw(gen.pm_string(t, pool, min_ops=draw(st.integers(0, 2)), max_ops=hi))


def strat_op(tier):
    @st.composite
    def s(draw):
        lc = draw(lat.lattice(max_orbitals=12, max_cells=4))
        n = sum(len(a[1]) for a in lc['atoms']) * int(np.prod(lc['cells']))
        dim = len(lc['V'])
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        hi = 2 if dim == 3 else draw(st.sampled_from([2, 3, 4, 5]))
        cplx = draw(st.integers(0, 3)) == 0
        terms, seen = [], set()
        for _ in range(draw(st.integers(0, 5) if draw(st.integers(0, 9)) == 0 else st.integers(1, 5))):
            o = draw(op_string(t, n, hi))
            if repr(o) in seen:
                continue
            seen.add(repr(o))
            terms.append(draw(gen.coeff(complex_=cplx, zero=True)) + [o])
        return dict(lat=lc, op=[t, terms], cut=draw(st.one_of(st.none(), st.none(), st.integers(1, 24))), size=draw(st.one_of(st.none(), st.sampled_from([5, 12.5, 40]))),
                    mode=draw(st.sampled_from(['operator', 'operator', 'over', 'string', 'string unweighted'])), render=draw(st.integers(0, 19)) == 0)
    return s()


def sorted_by_angle(verts, pos):
    """Do the vertices go once around the mean of the positions, in either direction?"""
    verts = np.array(verts)
    d = verts - np.mean(np.array(pos), axis=0)
    scale = np.max(np.linalg.norm(d, axis=1))
    d = d[np.linalg.norm(d, axis=1) > 1e-6 * (1 + scale)]
    if len(d) < 3:
        return True
    th = np.arctan2(d[:, 1], d[:, 0])
    for sgn in (1, -1):
        for s in range(len(th)):
            a = np.mod(sgn * (th - th[s]), 2 * np.pi)
            a[a > 2 * np.pi - 1e-5] = 0.0
            a = np.roll(a, -s)
            if np.all(np.diff(a) > -1e-5):
                return True
    return False


def check_op(case, ev):
    import qosy
    import matplotlib.pyplot as plt
    lc, (t, terms) = case['lat'], case['op']
    lattice = lat.build(lc)
    orbs = lat.model(lc)
    dim = len(lc['V'])
    op = gen.mk_op(case['op'])
    cutoff = None if case['cut'] is None else 0.371 * case['cut'] + 0.0123
    kw = {}
    if cutoff is not None:
        kw['distance_cutoff'] = cutoff
    if case['size'] is not None:
        kw['marker_size'] = case['size']
    coeffs = [complex(a, b) for a, b, _ in terms]
    before = str(op)
    plt.close('all')
    base = None
    with warnings.catch_warnings(record=True) as wlist:
        warnings.simplefilter('always')
        try:
            mode = case['mode']
            if mode in ('operator', 'over'):
                if mode == 'over':
                    qosy.plot(lattice, with_lattice_vectors=False, with_wigner_seitz=False)
                    base = len(orbs)
                qosy.plot_operator(op, lattice, **kw)
                top = max([abs(c) for c in coeffs], default=0.0)
                weights = [c / top for c in coeffs] if top > 0 else []
                used = [s for _, _, s in terms] if top > 0 else []
            else:
                if not terms:
                    raise Skip('no string')
                used = [terms[0][2]]
                weights = [coeffs[0] / (2 * abs(coeffs[0])) if coeffs[0] else 0.0]
                if mode == 'string unweighted':
                    weights = [1.0]
                else:
                    kw['weight'] = weights[0] if np.imag(weights[0]) else float(np.real(weights[0]))
                qosy.visualization.plot_opstring(gen.mk_os(used[0]), lattice, **kw)
            pic = Picture()
            if case['render']:
                plt.gcf().savefig(io.BytesIO(), format='png', dpi=30)
                ev.label('rendered')
        finally:
            plt.close('all')
    require(str(op) == before, 'the operator was changed')
    cmap = COLORS[t]
    markers, segments, polygons, texts = [], [], [], []
    for w, s in zip(weights, used):
        w = float(np.real(w))
        labs, names = s[2], s[1]
        pos = [xy(lc, orbs[l][0]) for l in labs]
        if len(labs) >= 2 and cutoff is not None:
            far = max(np.linalg.norm(p - q) for p in pos for q in pos)
            if abs(far - cutoff) < 1e-9:
                raise Skip('distance at the cutoff')
            if far > cutoff:
                ev.label('beyond the cutoff')
                continue
        if len(labs) in (1, 2):
            for p, o, l in zip(pos, names, labs):
                markers.append((p, rgb(cmap[o]), 0.5 * abs(w)))
                if orbs[l][1]:
                    texts.append((p, orbs[l][1]))
        if len(labs) == 2:
            a, b = sorted([tuple(pos[0]), tuple(pos[1])])
            segments.append((a, b, rgb('b' if w > 0 else 'r'), 0.5 * abs(w), 3.0 * abs(w)))
        if len(labs) > 2:
            polygons.append((pos, rgb('b' if w > 0 else 'r'), 0.5 * abs(w)))
    got = [(p, c, a) for p, c, a, m, s in pic.markers]
    if base is not None:
        back = [x for x in got if x[1] == rgb('k')]
        require(len(back) == base, '{} orbitals of the lattice under the operator instead of {}', len(back), base)
        got = [x for x in got if x[1] != rgb('k')]
    require(same(got, markers), 'markers are {} instead of {}', show(got), show(markers))
    if dim < 3 and case['size'] is not None:
        require(all(s in (None, case['size']) for p, c, a, m, s in pic.markers if c != rgb('k')), 'marker_size is not respected')
    gs = [tuple(sorted([tuple(p), tuple(q)])) + (c, a, lw) for p, q, c, a, lw in pic.segments]
    require(same_seg(gs, segments), 'lines are {} instead of {}', show(gs), show(segments))
    require(same(pic.texts, texts), 'names are {} instead of {}', show(pic.texts), show(texts))
    require(len(pic.polygons) == len(polygons), '{} polygons instead of {}', len(pic.polygons), len(polygons))
    for (pos, c, a) in polygons:
        ok = False
        for (v, c2, a2) in pic.polygons:
            if eq(c, c2) and eq(a, a2) and distinct(v, pos) and sorted_by_angle(v, pos):
                ok = True
        require(ok, 'no polygon around {}: {}', [list(p) for p in pos], [(v.tolist(), c2, a2) for v, c2, a2 in pic.polygons])
    warned = any('imaginary' in str(w.message) for w in wlist)
    if used:
        require(warned == any(abs(np.imag(w)) > 1e-10 for w in weights), 'the warning about imaginary coefficients is {}', 'missing' if not warned else 'wrong')
    ev.label('dim:%d' % dim, t, case['mode'], *['size:%d' % min(3, len(s[2])) for s in used])
    ev.nontrivial(bool(segments or polygons))


def distinct(a, b):
    """The same points, up to repetitions (a repeated point does not change a polygon)."""
    return all(any(eq(x, y) for y in b) for x in a) and all(any(eq(x, y) for y in a) for x in b)


def same_seg(a, b):
    def both(x):
        return x
    if len(a) != len(b):
        return False
    left = list(b)
    for x in a:
        for i, y in enumerate(left):
            if all(eq(u, v) for u, v in zip(x[2:], y[2:])) and ((eq(x[0], y[0]) and eq(x[1], y[1])) or (eq(x[0], y[1]) and eq(x[1], y[0]))):
                left.pop(i)
                break
        else:
            return False
    return True


PROP = Prop(
    'C32',
    'Lattices of one to three dimensions (cubic, scaled, triangular, skew vectors) with one to three atoms and named orbitals and every combination of the options of plot; operators of all three types on them, of '
    'one to several orbitals per string (two in three dimensions), real and complex coefficients, with and without distance cutoff, marker size and the lattice underneath. '
    'Non-trivial: at least three orbitals with something besides the orbitals drawn; an operator with a line or a polygon.',
    [Sub('lattice', strat_plot, check_plot, 1500), Sub('operator', strat_op, check_op, 2500)],
    ['Picture reads positions, colours and widths from the artists of the Agg figure, whichever artist type draws them',
     'in three dimensions plot draws no lattice vectors or Wigner-Seitz cell, and strings of three or more orbitals are not implemented'])
