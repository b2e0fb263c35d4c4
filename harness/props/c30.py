"""Printed forms are read back with an independent parser; relabelling is inverted with the lattice geometry."""
import contextlib
import io
import re
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip
import gen, ref
from props import lat

TOKEN = re.compile(r'\s*([A-Za-z]+)(?: (\d+)|_\{([^}]*)\})(?=\s|$)')


def parse_string(t, text, place=None):
    """'1j A 1 B 2 ' or '1j A_{..} ' -> (prefactor, ops, labels)."""
    m = re.match(r'\s*(1(?:\.0)?|1j)(?:\s|$)', text)
    pf = 1.0
    if m:
        pf = complex(m.group(1))
        text = text[m.end():]
    ops, labels = [], []
    while text.strip():
        m = TOKEN.match(text)
        require(m is not None, 'cannot read the printed string {!r}', text)
        ops.append(m.group(1))
        if place is None:
            require(m.group(2) is not None, 'printed string has no integer label: {!r}', text)
            labels.append(int(m.group(2)))
        else:
            require(m.group(3) is not None, 'orbital was not relabelled in {!r}', text)
            labels.append(place(m.group(3)))
        text = text[m.end():]
    return pf, tuple(ops), tuple(labels)


LINE = re.compile(r'^(\S+) \((.*)\)$')


def parse_operator(t, text, place=None):
    out = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        m = LINE.match(line)
        require(m is not None, 'cannot read the printed line {!r}', line)
        try:
            c = complex(m.group(1))
        except ValueError:
            fail('cannot read the coefficient of the printed line {!r}', line)
        out.append((c, parse_string(t, m.group(2), place), line))
    return out


def key(os):
    return complex(os.prefactor), tuple(str(o) for o in os.orbital_operators), tuple(int(l) for l in os.orbital_labels)


def norm_pf(k):
    return complex(k[0]), k[1], k[2]


def vec_norm(c, order):
    c = np.abs(np.asarray(c))
    if not len(c):
        return 1.0
    if order is None or order == 2:
        return float(np.sqrt(np.sum(c ** 2)))
    if order == 1:
        return float(np.sum(c))
    return float(np.max(c))


# ---------------------------------------------------------------- string forms
def strat_str(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        pool = draw(gen.label_pool(max_size=6))
        return dict(op=draw(gen.operator(t, pool, max_terms=6, complex_=True, zero=True)), scale=draw(st.sampled_from([1.0, 1.0, 1 / 3, 1e-7, 1e12, 0.1])))
    return s()


def check_str(case, ev):
    import qosy
    t, terms = case['op']
    coeffs = [complex(a, b) * case['scale'] for a, b, _ in terms]
    oss = [gen.mk_os(s) for _, _, s in terms]
    op = qosy.Operator(list(coeffs), oss, op_type=t)
    basis = gen.mk_basis([s for _, _, s in terms])
    want = [(c, key(gen.mk_os(s))) for c, (_, _, s) in zip(coeffs, terms)]
    got = parse_operator(t, str(op))
    require(len(got) == len(want), 'Operator with {} terms printed as {} lines', len(want), len(got))
    for (c, k, line), (c0, k0) in zip(got, want):
        require(c == c0 and norm_pf(k) == k0, 'term {} {} printed as {!r}', c0, k0, line)
    lines = str(basis).split('\n')
    require(lines[-1] == '' and len(lines) == len(want) + 1, 'Basis of {} strings printed as {!r}', len(want), str(basis))
    for line, (_, k0) in zip(lines, want):
        require(norm_pf(parse_string(t, line)) == k0, 'string {} printed as {!r}', k0, line)
    for os, (_, k0), (_, _, s) in zip(oss, want, terms):
        require(norm_pf(parse_string(t, str(os))) == k0, 'string {} printed as {!r}', k0, str(os))
        sr = s
        require(list(os.orbital_operators) == sr[1] and list(os.orbital_labels) == sr[2], 'string holds {} {}', os.orbital_operators, os.orbital_labels)
        if s[1]:
            back = qosy.opstring(str(os))
            require(back == os and ref.close(ref.os_poly(back), gen.ref_os(s)), '{!r} is read back as {!r}', str(os), str(back))
    require(ref.close(ref.op_poly(op), ref.scale(gen.ref_op(case['op']), case['scale']), 1e-9 * max(1, case['scale'])), 'operator was changed')
    ev.label('type:' + t)
    ev.nontrivial(len(want) >= 2 and any(len(k[1]) >= 2 for _, k in want))


# ---------------------------------------------------------------- printing
def strat_print(tier):
    @st.composite
    def s(draw):
        L = draw(st.sampled_from([None, None, 1]))
        if L:
            L = draw(lat.lattice(max_orbitals=30, max_cells=13))
            n = len(lat.model(L))
            pool = sorted(draw(st.lists(st.one_of(st.integers(0, n - 1), st.sampled_from([n - 1, min(n - 1, 10), min(n - 1, 1)])), min_size=1, max_size=6, unique=True)))
        else:
            pool = draw(gen.label_pool(max_size=6))
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        conv = None
        if draw(st.integers(0, 2)) == 0:
            conv = draw(st.sampled_from({'Pauli': ['Pauli', 'Majorana'], 'Majorana': ['Majorana', 'Pauli', 'Fermion'], 'Fermion': ['Fermion', 'Majorana']}[t]))
            pool = [l for l in pool if l <= (6 if 'Pauli' in (t, conv) else 60)][:4]
            if not pool:
                pool = [0]
        case = dict(t=t, lattice=L, conv=conv, vectors=draw(st.booleans()), norm=draw(st.sampled_from([None, None, 'inf', 1, 2])),
                    tol=draw(st.sampled_from(['default', 'default', 1e-10, 0.5, 0.0, 1.0, 0.3, 1e-4])),
                    keywords=draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from({'Pauli': ['X', 'Y', 'Z'], 'Majorana': ['A', 'B', 'D'], 'Fermion': ['C ', 'CDag', '1j']}[t] + ['X', 'D', 'C', '0', '1', '2 ', '-', '{']), max_size=4))))
        if case['vectors']:
            case['strings'] = draw(gen.strings_list(t, pool, max_size=8, max_ops=4))
            nv = draw(st.integers(1, 4))
            cplx = draw(st.booleans())
            case['V'] = [[draw(st.one_of(gen.coeff(complex_=cplx, zero=True), st.sampled_from([[0.0, 0.0], [1e-11, 0.0], [5e-5, 0.0], [0.5, 0.0], [-0.7e-10, 0.0], [1.7e-10, 0.0], [0.2, 0.0]]))) for _ in case['strings']] for _ in range(nv)]
            case['cplx'] = cplx
        else:
            ops = draw(gen.ops_list(t, pool, min_size=1, max_size=4, max_terms=8, complex_=True, max_ops=4, zero=True))
            for o in ops:
                for term in o[1]:
                    if draw(st.integers(0, 5)) == 0:
                        term[0], term[1] = draw(st.sampled_from([[1e-11, 0.0], [0.0, 5e-5], [0.3, 0.4], [0.0, 0.0], [0.7e-10, 0.0], [0.0, -1.7e-10], [7e-5, 0.0], [-1.7e-4, 0.0], [0.7, 0.0]]))
            case['ops'] = ops
        return case
    return s()


def placer(L, lattice):
    """Map a printed '(cell); atom; name' text to an orbital label, using the geometry of the lattice only."""
    V = np.array(L['V'])
    orbs = lat.model(L)
    many = int(np.prod(L['cells'])) != 1

    def place(text):
        parts = text.split('; ')
        if many:
            cell = tuple(int(x) for x in re.findall(r'-?\d+', parts[0]))
            parts = parts[1:]
        else:
            cell = tuple([0] * len(L['cells']))
        require(len(parts) in (1, 2), 'cannot read the orbital {!r}', text)
        atom, name = int(parts[0]), parts[1] if len(parts) == 2 else ''
        require(0 <= atom < len(L['atoms']), 'orbital {!r} is on an atom that does not exist', text)
        pos = np.array(cell, dtype=float) @ V + lat.atom_pos(L, L['atoms'][atom][0])
        hits = [i for i, (q, nm, c) in enumerate(lattice) if nm == name and tuple(int(x) for x in c) == cell and np.allclose(q, pos, atol=1e-9)]
        require(len(hits) == 1, 'orbital {!r} names {} orbitals of the lattice', text, len(hits))
        return hits[0]
    return place


def check_print(case, ev):
    import qosy
    t = case['t']
    lattice = place = None
    if case['lattice']:
        lattice = lat.build(case['lattice'])
        place = placer(case['lattice'], lattice)
    order = np.inf if case['norm'] == 'inf' else case['norm']
    kw = dict(lattice=lattice, keywords=case['keywords'], convert_to=case['conv'], norm_order=order)
    tol = 1e-10
    if case['tol'] != 'default':
        kw['tol'] = tol = case['tol']
    if case['vectors']:
        basis = gen.mk_basis(case['strings'])
        V = np.array([[complex(a, b) for a, b in col] for col in case['V']]).T
        if not case['cplx']:
            V = np.ascontiguousarray(V.real)
        V0 = V.copy()
        originals = [qosy.Operator(V0[:, j].copy(), [gen.mk_os(s) for s in case['strings']], op_type=t) for j in range(V.shape[1])]
        f, args, word = qosy.print_vectors, (basis, V), 'vector'
    else:
        originals = [gen.mk_op(o) for o in case['ops']]
        given = [gen.mk_op(o) for o in case['ops']]
        f, args, word = qosy.print_operators, (given,), 'operator'
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f(*args, **kw)
    if case['vectors']:
        require(np.array_equal(V, V0) and V.dtype == V0.dtype, 'the vectors were changed')
    else:
        require([str(o) for o in given] == [str(o) for o in originals], 'the operators were changed')
    text = buf.getvalue()
    blocks = re.split(r'^{} (\d+) = *$'.format(word), text, flags=re.M)
    require(not blocks[0].strip(), 'printed {!r} before the first {}', blocks[0], word)
    numbers, blocks = [int(x) for x in blocks[1::2]], blocks[2::2]
    require(numbers == list(range(1, len(originals) + 1)), 'printed {}s {} instead of 1..{}', word, numbers, len(originals))
    shown = dropped = 0
    for i, (op, block) in enumerate(zip(originals, blocks)):
        conv = case['conv']
        tt = t
        if conv is not None:
            op = qosy.convert(op, conv)
            tt = conv
        terms = [(complex(c), key(os)) for c, os in op]
        keep = [(c, k) for c, k in terms if abs(c) > tol]
        nrm = vec_norm([c for c, _ in keep], order)
        want = [(c / nrm, k) for c, k in keep]
        got = parse_operator(tt, block, place)
        if case['keywords'] is not None:
            # the lines with a keyword are those of the unfiltered printout
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                f(*args, **dict(kw, keywords=None))
            full = re.split(r'^{} \d+ = *$'.format(word), buf.getvalue(), flags=re.M)[1:]
            full_lines = [l for l in full[i].split('\n') if l.strip()]
            expect = [l for l in full_lines if any(k in l for k in case['keywords'])]
            require([l for _, _, l in got] == expect, 'keywords {}: printed {} instead of {}', case['keywords'], [l for _, _, l in got], expect)
            got = parse_operator(tt, full[i], place)
            dropped += len(full_lines) - len(expect)
        if conv is not None:
            want = sorted(want, key=lambda x: repr(x[1]))
            got = sorted(got, key=lambda x: repr(norm_pf(x[1])))
        require(len(got) == len(want), '{} {}: printed {} terms, {} coefficients exceed the threshold', word, i + 1, len(got), len(want))
        for (c, k, line), (c0, k0) in zip(got, want):
            require(norm_pf(k) == k0, '{} {}: printed {!r} for the string {}', word, i + 1, line, k0)
            require(abs(c - c0) < 1e-12 * (1 + abs(c0)), '{} {}: printed {!r}, the coefficient is {}', word, i + 1, line, c0)
        shown += len(want)
        dropped += len(terms) - len(keep)
    ev.label(word, 'type:' + t, 'lattice' if lattice is not None else 'labels', 'convert' if case['conv'] else 'same', 'norm:{}'.format(case['norm']),
             'keywords' if case['keywords'] is not None else 'all')
    ev.nontrivial(shown >= 2 and (dropped > 0 or lattice is not None or case['conv'] is not None))


# ---------------------------------------------------------------- relabelling
def strat_relabel(tier):
    @st.composite
    def s(draw):
        L = draw(lat.lattice(max_orbitals=40 if tier == 'quick' else 130, max_cells=15))
        n = len(lat.model(L))
        k = draw(st.integers(0, 12))
        return dict(L=L, labels=[draw(st.integers(0, n - 1)) for _ in range(k)], seps=draw(st.sampled_from(['line', 'ops'])), whole=draw(st.booleans()))
    return s()


def check_relabel(case, ev):
    import qosy
    lattice = lat.build(case['L'])
    place = placer(case['L'], lattice)
    n = len(lat.model(case['L']))
    labels = list(range(n)) if case['whole'] else case['labels']
    if case['seps'] == 'line':
        text = ''.join('{} {}\n'.format('q', l) for l in labels)
    else:
        text = ' + '.join('(CDag {} C {} )'.format(l, l) for l in labels)
    out = qosy.relabel_orbitals(text, lattice)
    pat = re.compile(r'_\{([^}]*)\}')
    found = pat.findall(out)
    per = 1 if case['seps'] == 'line' else 2
    require(len(found) == per * len(labels), '{} orbitals were relabelled as {}', labels, out)
    require([place(x) for x in found] == [l for l in labels for _ in range(per)], 'orbitals {} were relabelled as {}', labels, found)
    # what is left is the text around the labels, unchanged
    it = iter([l for l in labels for _ in range(per)])
    back = pat.sub(lambda m: ' {}'.format(next(it)), out)
    require(back == text, 'text around the labels was changed: {!r} instead of {!r}', back, text)
    if case['whole']:
        require(len(set(found)) == n, 'two orbitals have the same name')
    ev.label('dim:{}'.format(len(case['L']['cells'])), 'cells' if np.prod(case['L']['cells']) > 1 else 'one-cell', 'atoms:{}'.format(len(case['L']['atoms'])))
    ev.nontrivial(len(labels) >= 3 and n >= 4)


PROP = Prop(
    'C30',
    'String forms: operators of up to 6 terms of every type with complex coefficients over many magnitudes, read back by an independent parser and by opstring. Printing: lists of operators and matrices of '
    'coefficient vectors (real and complex, with zero and threshold coefficients), with thresholds, norms, keywords, conversion and lattices; the captured text is parsed back to operators and orbitals. '
    'Relabelling: all orbitals, or text with random orbitals, of 1-3 dimensional lattices of up to 40 orbitals; every printed name is resolved with the geometry of the lattice. Non-trivial: two or more terms, one with two or more '
    'operators; two or more printed terms and a dropped term, a lattice or a conversion; three or more labels on four or more orbitals.',
    [Sub('strings', strat_str, check_str, 5000), Sub('print', strat_print, check_print, 5000), Sub('relabel', strat_relabel, check_relabel, 2500)],
    ['orbitals on one atom have different names and labels printed with a lattice are labels of that lattice', 'the printed conversion is that of convert (decided by C08)', 'the printed format "coefficient (prefactor operator label ...)" is the documented one'])
