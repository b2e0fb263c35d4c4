"""Hypothesis strategies producing JSON cases, and builders turning them into qosy objects.

String case:   [type, ops, labels, pf]   pf in {0,1}: power of i (Fermion strings only)
Operator case: [type, [[re, im, string], ...]]
"""
import numpy as np
from hypothesis import strategies as st

PM = {'Pauli': ['X', 'Y', 'Z'], 'Majorana': ['A', 'B', 'D']}

small_ints = st.integers(-4, 4)


def _nz(x):
    return x != 0


@st.composite
def real_coeff(draw, zero=False):
    k = draw(st.integers(0, 9))
    if k <= 5:
        v = draw(st.integers(1, 6)) * 0.5
    elif k <= 7:
        v = draw(st.integers(1, 40)) * 0.25
    else:
        v = draw(st.integers(100, 3000)) / 1000.0
    if zero and draw(st.integers(0, 7)) == 0:
        return 0.0
    return v if draw(st.booleans()) else -v


@st.composite
def coeff(draw, complex_=False, zero=False):
    re = draw(real_coeff(zero=zero))
    if complex_ and draw(st.booleans()):
        im = draw(real_coeff())
        if draw(st.integers(0, 3)) == 0:
            re = 0.0
        return [re, im]
    return [re, 0.0]


@st.composite
def tail(draw, n, big, p=8):
    """n, but every p-th time a larger bound."""
    return big if draw(st.integers(1, p)) == p else n


@st.composite
def label_pool(draw, min_size=1, max_size=6, contiguous=False, big=True):
    n = draw(st.integers(min_size, max_size))
    if contiguous:
        return list(range(n))
    k = draw(st.integers(0, 6))
    if k <= 2 or not big:
        hi = max(n + 2, 7)
    elif k == 3:
        hi = max(14, 2 * n)
    elif k == 4:
        hi = 120
    elif k == 5:
        hi = 1100
    else:
        hi = 70000
    return sorted(draw(st.lists(st.integers(0, hi), min_size=n, max_size=n, unique=True)))


@st.composite
def pm_string(draw, t, pool, min_ops=0, max_ops=None):
    """Pauli or Majorana string on the labels of pool."""
    if max_ops is None:
        max_ops = len(pool)
    max_ops = min(max_ops, len(pool))
    n = draw(st.integers(min(min_ops, max_ops), max_ops))
    if n < max_ops and draw(st.integers(0, 3)) == 0:
        n = max_ops
    labels = sorted(draw(st.permutations(pool))[:n]) if n < len(pool) else list(pool)
    # some strings of odd (a, b) operators only: their signs depend on the number of them modulo four
    alphabet = ['A', 'B'] if t == 'Majorana' and draw(st.integers(0, 3)) == 0 else PM[t]
    ops = [draw(st.sampled_from(alphabet)) for _ in labels]
    return [t, ops, labels, 0]


@st.composite
def fermion_string(draw, pool, max_cdag=3, max_ops=None, identity=False):
    """Fermion string of the documented normal-ordered forms."""
    m_max = min(max_cdag, len(pool))
    m = draw(st.integers(0 if identity else 1, m_max))
    if m == 0:
        return ['Fermion', [], [], 0]
    cd = sorted(draw(st.permutations(pool))[:m])
    kind = draw(st.integers(0, 3))
    if kind == 0:
        c = list(cd)
    else:
        l = draw(st.integers(0, m))
        c = sorted(draw(st.permutations(pool))[:l])
    # lexicographic convention: (cdag labels) >= (c labels), by length then entries
    if (len(cd), cd) < (len(c), c):
        cd, c = c, cd
    pf = 0 if cd == c else draw(st.integers(0, 1))
    return ['Fermion', ['CDag'] * len(cd) + ['C'] * len(c), cd + c[::-1], pf]


def string(t, pool, min_ops=0, max_ops=None):
    if t == 'Fermion':
        return fermion_string(pool, max_cdag=min(3, max_ops or 3), identity=(min_ops == 0))
    return pm_string(t, pool, min_ops=min_ops, max_ops=max_ops)


@st.composite
def operator(draw, t, pool, min_terms=1, max_terms=4, complex_=False, zero=False, min_ops=0, max_ops=None,
             weird=False):
    n = draw(st.integers(min_terms, max_terms))
    seen = {}
    for _ in range(n):
        s = draw(string(t, pool, min_ops=min_ops, max_ops=max_ops))
        seen.setdefault(repr(s), s)
    terms = []
    for s in seen.values():
        c = draw(coeff(complex_=complex_, zero=zero))
        terms.append([c[0], c[1], s])
    return [t, terms]


# ------------------------------------------------------------------ builders
def mk_os(s):
    import qosy
    t, ops, labels, pf = s
    if t == 'Fermion':
        return qosy.OperatorString(list(ops), list(labels), t, prefactor=(1j if pf else 1.0))
    return qosy.OperatorString(list(ops), list(labels), t)


def mk_op(o):
    import qosy
    t, terms = o
    return qosy.Operator([complex(a, b) for a, b, _ in terms], [mk_os(s) for _, _, s in terms], op_type=t)


def mk_basis(strings):
    import qosy
    b = qosy.Basis()
    for s in strings:
        b += mk_os(s)
    return b


def ref_os(s):
    import ref
    t, ops, labels, pf = s
    if t == 'Majorana':
        nab = sum(1 for o in ops if o in 'AB')
        pre = 1j if (nab * (nab - 1) // 2) % 2 else 1.0
    else:
        pre = 1j if pf else 1.0
    return ref.poly_of(t, ops, labels, pre)


def ref_op(o):
    import ref
    r = {}
    for a, b, s in o[1]:
        r = ref.add(r, ref_os(s), complex(a, b))
    return r


def show(s):
    return ('i ' if s[3] else '') + (' '.join('{} {}'.format(o, l) for o, l in zip(s[1], s[2])) or 'I')


# ------------------------------------------------------------------ bases and operator lists
def all_strings(t, pool, sizes=None):
    """Every Pauli/Majorana string on the labels of pool (independent enumeration)."""
    import itertools
    out = []
    for n in range(len(pool) + 1):
        if sizes is not None and n not in sizes:
            continue
        for labs in itertools.combinations(sorted(pool), n):
            for ops in itertools.product(PM[t], repeat=n):
                out.append([t, list(ops), list(labs), 0])
    return out


@st.composite
def strings_list(draw, t, pool, min_size=1, max_size=12, max_ops=None):
    """Duplicate-free list of strings, in random order."""
    kind = draw(st.integers(0, 3))
    if t in PM and kind == 0:
        sizes = draw(st.lists(st.integers(0, min(len(pool), max_ops or len(pool))), min_size=1, max_size=3, unique=True))
        full = all_strings(t, pool[:4], sizes)
        if min_size <= len(full) <= 4 * max_size:
            if draw(st.booleans()):
                return full
            return draw(st.permutations(full))
    n = draw(st.integers(min_size, max_size))
    seen = {}
    for _ in range(n):
        s = draw(string(t, pool, max_ops=max_ops))
        seen.setdefault(repr(s), s)
    return list(seen.values())


@st.composite
def scaled(draw, op, p=6):
    """The operator, but every p-th time with much smaller or larger coefficients (all of them, or some)."""
    if draw(st.integers(1, p)) != p:
        return op
    sig = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e3, 1e5]))
    part = draw(st.booleans())
    out = []
    for a, b, s in op[1]:
        f = sig if not part or draw(st.booleans()) else 1.0
        out.append([a * f, b * f, s])
    return [op[0], out]


@st.composite
def ops_list(draw, t, pool, min_size=1, max_size=6, max_terms=3, complex_=False, max_ops=None, zero=False):
    """List of operators, not necessarily independent."""
    n = draw(st.integers(min_size, max_size))
    return [draw(operator(t, pool, max_terms=max_terms, complex_=complex_, max_ops=max_ops, zero=zero)) for _ in range(n)]


def coeff_mat(ops, t=None):
    """Dense matrix whose columns are the reference polynomials of operator cases."""
    import ref
    return ref.vec_matrix([ref_op(o) for o in ops])
