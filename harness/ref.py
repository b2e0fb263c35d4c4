"""Independent reference model of the operator algebra.

Exact polynomials over two groups of monomials, kept as dicts of bit masks:
  Pauli     {(x, z): c}   stands for  sum c * prod_l X_l^{x_l} Z_l^{z_l}
  Majorana  {mask: c}     stands for  sum c * prod gamma_k (k ascending, k in mask),
                          gamma_{2j} = a_j, gamma_{2j+1} = b_j.
Fermion strings are expanded into the Majorana polynomials using c = (a + i b)/2.
Nothing here uses qosy's tables; qosy objects are only read through their
documented attributes (orbital_operators, orbital_labels, prefactor, op_type)
and by iterating over an Operator.
"""
import itertools
import numpy as np

TOL = 1e-9


def popcount(n):
    return bin(n).count('1')


# ---------------------------------------------------------------- polynomials
def pmul_mono(a, b):
    """(x1,z1)*(x2,z2) -> (sign, (x,z))."""
    s = -1 if popcount(a[1] & b[0]) % 2 else 1
    return s, (a[0] ^ b[0], a[1] ^ b[1])


def mmul_mono(m1, m2):
    n = 0
    m = m2
    while m:
        low = m & -m
        j = low.bit_length() - 1
        n += popcount(m1 >> (j + 1))
        m ^= low
    return (-1 if n % 2 else 1), m1 ^ m2


def _mul(p, q, mono):
    r = {}
    for a, ca in p.items():
        for b, cb in q.items():
            s, k = mono(a, b)
            r[k] = r.get(k, 0) + s * ca * cb
    return clean(r)


def clean(p, tol=0.0):
    return {k: c for k, c in p.items() if abs(c) > tol}


def add(p, q, cq=1):
    r = dict(p)
    for k, c in q.items():
        r[k] = r.get(k, 0) + cq * c
    return clean(r)


def scale(p, c):
    return clean({k: c * v for k, v in p.items()})


class PauliAlg:
    name = 'Pauli'
    one = {(0, 0): 1.0}
    idkey = (0, 0)

    @staticmethod
    def mul(p, q):
        return _mul(p, q, pmul_mono)

    @staticmethod
    def dag(p):
        return {k: (np.conj(c) * (-1 if popcount(k[0] & k[1]) % 2 else 1)) for k, c in p.items()}


class MajAlg:
    name = 'Majorana'
    one = {0: 1.0}
    idkey = 0

    @staticmethod
    def mul(p, q):
        return _mul(p, q, mmul_mono)

    @staticmethod
    def dag(p):
        out = {}
        for k, c in p.items():
            n = popcount(k)
            out[k] = np.conj(c) * (-1 if (n * (n - 1) // 2) % 2 else 1)
        return out


def alg(op_type):
    return PauliAlg if op_type == 'Pauli' else MajAlg


def mul(t, p, q):
    return alg(t).mul(p, q)


def comm(t, p, q):
    A = alg(t)
    return add(A.mul(p, q), A.mul(q, p), -1)


def acomm(t, p, q):
    A = alg(t)
    return add(A.mul(p, q), A.mul(q, p), 1)


OPERATION = {'product': mul, 'commutator': comm, 'anticommutator': acomm}


def single(t, op, l):
    """Polynomial of one orbital operator."""
    l = int(l)
    b = 1 << l
    if op == 'X':
        return {(b, 0): 1.0}
    if op == 'Y':
        return {(b, b): 1j}
    if op == 'Z':
        return {(0, b): 1.0}
    ma, mb = 1 << (2 * l), 1 << (2 * l + 1)
    if op == 'A':
        return {ma: 1.0}
    if op == 'B':
        return {mb: 1.0}
    if op == 'D':
        return {ma | mb: -1j}
    if op == 'C':
        return {ma: 0.5, mb: 0.5j}
    if op == 'CDag':
        return {ma: 0.5, mb: -0.5j}
    raise ValueError(op)


def is_number_string(ops, labels):
    cd = [int(l) for o, l in zip(ops, labels) if o == 'CDag']
    c = [int(l) for o, l in zip(ops, labels) if o == 'C']
    return cd == c[::-1]


def poly_of(t, ops, labels, prefactor):
    """Value of an operator string, per the definitions in the documentation."""
    A = alg(t)
    p = {k: c * prefactor for k, c in A.one.items()}
    for o, l in zip(ops, labels):
        p = A.mul(p, single(t, str(o), l))
    if t == 'Fermion' and not is_number_string(ops, labels):
        p = add(p, A.dag(p))
    return p


def os_poly(os):
    return poly_of(os.op_type, list(os.orbital_operators), list(os.orbital_labels), os.prefactor)


def op_poly(op):
    r = {}
    for (c, os) in op:
        r = add(r, os_poly(os), complex(c))
    return r


def diff(p, q):
    return max([abs(p.get(k, 0) - q.get(k, 0)) for k in set(p) | set(q)] + [0.0])


def maxabs(p):
    return max([abs(c) for c in p.values()] + [0.0])


def close(p, q, tol=TOL):
    return diff(p, q) <= tol * (1.0 + max(maxabs(p), maxabs(q)))


def size(p):
    return float(sum(abs(c) for c in p.values()))


def near(p, q, scale, tol=1e-10):
    """Equal up to rounding of quantities of the given size (no absolute tolerance)."""
    return diff(p, q) <= tol * scale


def drop_id(t, p):
    r = dict(p)
    r.pop(alg(t).idkey, None)
    return r


# ------------------------------------------------------------- Jordan-Wigner
def maj_to_pauli(p):
    """gamma_{2j} = Z_0..Z_{j-1} X_j, gamma_{2j+1} = Z_0..Z_{j-1} Y_j (Y = i X Z)."""
    out = {}
    for mask, c in p.items():
        q = {(0, 0): c}
        m = mask
        while m:
            low = m & -m
            k = low.bit_length() - 1
            j = k // 2
            below = (1 << j) - 1
            g = {(1 << j, below): 1.0} if k % 2 == 0 else {(1 << j, below | (1 << j)): 1j}
            q = PauliAlg.mul(q, g)
            m ^= low
        out = add(out, q)
    return out


def pauli_to_maj(p):
    """X_j = d_0..d_{j-1} a_j ; Z_j = d_j = -i a_j b_j."""
    out = {}
    for (x, z), c in p.items():
        q = {0: c}
        n = max(x.bit_length(), z.bit_length())
        for j in range(n):
            if (x >> j) & 1:
                g = {0: 1.0}
                for i in range(j):
                    g = MajAlg.mul(g, single('Majorana', 'D', i))
                g = MajAlg.mul(g, single('Majorana', 'A', j))
                q = MajAlg.mul(q, g)
            if (z >> j) & 1:
                q = MajAlg.mul(q, single('Majorana', 'D', j))
        out = add(out, q)
    return out


def to_pauli(t, p):
    return p if t == 'Pauli' else maj_to_pauli(p)


def to_maj(t, p):
    return pauli_to_maj(p) if t == 'Pauli' else p


# ------------------------------------------------------------ dense matrices
_X = np.array([[0, 1], [1, 0]], dtype=complex)
_Z = np.array([[1, 0], [0, -1]], dtype=complex)
_I = np.eye(2, dtype=complex)


def pauli_dense(p, n):
    """Dense matrix of a Pauli polynomial; label 0 is the leftmost tensor factor."""
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for (x, z), c in p.items():
        m = np.array([[1.0 + 0j]])
        for l in range(n):
            f = _I
            if (x >> l) & 1:
                f = f @ _X
            if (z >> l) & 1:
                f = f @ _Z
            m = np.kron(m, f)
        M += c * m
    return M


def dense(t, p, n):
    return pauli_dense(to_pauli(t, p), n)


# ------------------------------------------------- second, matrix-only oracle
def fock_c(n):
    """Annihilation operators on the Fock space, built without any of the above."""
    cs = []
    low = np.array([[0, 1], [0, 0]], dtype=complex)    # |1> -> |0>
    for j in range(n):
        m = np.array([[1.0 + 0j]])
        for l in range(n):
            m = np.kron(m, _Z if l < j else (low if l == j else _I))
        cs.append(m)
    return cs


def spins(n):
    out = []
    Y = np.array([[0, -1j], [1j, 0]])
    for j in range(n):
        d = {}
        for name, s in (('X', _X), ('Y', Y), ('Z', _Z)):
            m = np.array([[1.0 + 0j]])
            for l in range(n):
                m = np.kron(m, s if l == j else _I)
            d[name] = m
        out.append(d)
    return out


_MATS = {}


def os_matrix(os, n):
    """Matrix of an operator string from matrix products only."""
    key = (os.op_type == 'Pauli', n)
    if key not in _MATS:
        if key[0]:
            _MATS[key] = spins(n)
        else:
            cs = fock_c(n)
            _MATS[key] = [dict(C=c, CDag=c.conj().T, A=c + c.conj().T, B=-1j * (c - c.conj().T),
                               D=np.eye(2 ** n) - 2 * c.conj().T @ c) for c in cs]
    tab = _MATS[key]
    m = np.eye(2 ** n, dtype=complex) * os.prefactor
    for o, l in zip(os.orbital_operators, os.orbital_labels):
        m = m @ tab[int(l)][str(o)]
    if os.op_type == 'Fermion' and not is_number_string(os.orbital_operators, os.orbital_labels):
        m = m + m.conj().T
    return m


def op_matrix(op, n):
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, os in op:
        M += complex(c) * os_matrix(os, n)
    return M


# ----------------------------------------------------------- linear algebra
def vec_matrix(polys):
    """Columns = polynomials in a common list of monomials."""
    keys = {}
    for p in polys:
        for k in p:
            keys.setdefault(k, len(keys))
    M = np.zeros((len(keys), len(polys)), dtype=complex)
    for j, p in enumerate(polys):
        for k, c in p.items():
            M[keys[k], j] = c
    return M


def rank(M, tol=1e-8):
    if M.size == 0:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    return int(np.sum(s > tol * max(1.0, s[0])))


def nullity(M, tol=1e-8):
    return M.shape[1] - rank(M, tol)


def nullspace(M, tol=1e-8):
    if M.shape[0] == 0:
        return np.eye(M.shape[1], dtype=complex)
    if M.shape[1] == 0:
        return np.zeros((0, 0), dtype=complex)
    u, s, vh = np.linalg.svd(M, full_matrices=True)
    r = int(np.sum(s > tol * max(1.0, s[0]))) if len(s) else 0
    return vh[r:, :].conj().T


def gap_ok(M, lo=1e-11, hi=1e-4):
    """True if no singular value lies in the ambiguous window (ill-conditioned case)."""
    if M.size == 0:
        return True
    s = np.linalg.svd(M, compute_uv=False)
    s = s / max(1.0, s[0])
    return not bool(np.any((s > lo) & (s < hi)))


def same_span(A, B, tol=1e-7):
    """Do the columns of A and B span the same space?"""
    ra, rb = rank(A), rank(B)
    if ra != rb:
        return False
    return rank(np.hstack((A, B))) == ra


def in_span(V, A, tol=1e-7):
    """Are the columns of V in the span of A's columns?"""
    if V.shape[1] == 0:
        return True
    if A.shape[1] == 0:
        return bool(np.max(np.abs(V)) < tol) if V.size else True
    x, *_ = np.linalg.lstsq(A, V, rcond=None)
    return bool(np.max(np.abs(A @ x - V)) < tol * (1 + np.max(np.abs(V))))
