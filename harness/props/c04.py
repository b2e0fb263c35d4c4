"""Operator histories against an ordered-dictionary model."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref

NREG = 4
SCALARS = ['int', 'float', 'complex', 'np.float64', 'np.complex128', 'np.int64']
CMDS = ['new', 'new', 'newb', 'add', 'add', 'sub', 'iadd', 'iadd', 'isub', 'neg', 'mul', 'rmul', 'remove_zeros',
        'normalize', 'vector', 'cancel', 'mutate_input', 'comm', 'wrong_type', 'alias', 'zero', 'sum', 'sum']


def strat(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        pool = draw(gen.label_pool(1, 5))
        huge = draw(gen.tail(9, 60, 10))
        if huge > 9:
            pool = draw(gen.label_pool(4, 8))
        n = draw(st.sampled_from([4, 6, 8, 11, 14])) if tier == 'quick' else draw(st.integers(4, 24))
        sig = draw(st.sampled_from([1e-6, 1e-4, 1e-2, 1e4])) if draw(st.integers(0, 5)) == 5 else 1.0
        cmds = []
        for k in range(n):
            c = 'new' if k < 2 else draw(st.sampled_from(CMDS))
            d = dict(c=c, i=draw(st.integers(0, NREG - 1)), j=draw(st.integers(0, NREG - 1)), k=draw(st.integers(0, NREG - 1)))
            if c in ('new', 'newb'):
                m = draw(st.sampled_from([1, 3, 3, 5, huge]))
                d['o'] = draw(gen.operator(t, pool, min_terms=0 if k > 2 else 1, max_terms=m, complex_=True, zero=True))
                d['how'] = draw(st.integers(0, 1))
                d['o'] = [t, [[a * sig, b * sig, x] for a, b, x in d['o'][1]]]
            elif c in ('mul', 'rmul'):
                d['kind'] = draw(st.sampled_from(SCALARS))
                d['v'] = draw(gen.coeff(True))
            elif c == 'sum':
                d['js'] = draw(st.lists(st.integers(0, NREG - 1), min_size=1, max_size=4))
            elif c == 'normalize':
                d['order'] = draw(st.sampled_from([None, 'inf', 1, 2]))
            elif c == 'remove_zeros':
                d['tol'] = draw(st.sampled_from([None, 0.6, 1e-12]))
            elif c == 'vector':
                d['extra'] = [draw(gen.string(t, pool)) for _ in range(draw(st.integers(0, 3)))]
                d['rev'] = draw(st.booleans())
            cmds.append(d)
        return dict(t=t, cmds=cmds, sig=sig)
    return s()


def scalar(kind, v):
    re, im = v
    if kind == 'int':
        x = int(re * 2)
        return x, complex(x)
    if kind == 'np.int64':
        x = int(re * 2)
        return np.int64(x), complex(x)
    if kind == 'float':
        return float(re), complex(re)
    if kind == 'np.float64':
        return np.float64(re), complex(re)
    if kind == 'complex':
        return complex(re, im), complex(re, im)
    return np.complex128(complex(re, im)), complex(re, im)


def key(os):
    return (os.op_type, tuple(str(x) for x in os.orbital_operators), tuple(int(x) for x in os.orbital_labels),
            1 if os.prefactor == 1j and os.op_type == 'Fermion' else 0)


def skey(s):
    return (s[0], tuple(s[1]), tuple(s[2]), s[3])


def okey(k):
    return gen.mk_os([k[0], list(k[1]), list(k[2]), k[3]])


def agree(op, model, t, where, sig=1.0):
    items = [(complex(c), key(os)) for c, os in op]
    require(op.op_type == t, '{}: type is {}', where, op.op_type)
    require(len(op) == len(model) == len(items) == len(op.coeffs), '{}: {} terms (coefficients {}), expected {}', where, len(items), len(op.coeffs), len(model))
    require([k for _, k in items] == list(model), '{}: strings {} expected {}', where, [k[1:] for _, k in items], [k[1:] for k in model])
    for (c, k) in items:
        require(abs(c - model[k]) <= 1e-9 * (sig + abs(model[k])), '{}: coefficient of {} is {}, expected {}', where, k[1:], c, model[k])
    want = np.sqrt(sum(abs(c) ** 2 for c in model.values()))
    require(abs(op.norm() - want) <= 1e-9 * (sig + want), '{}: norm {} expected {}', where, op.norm(), want)
    if model:
        m = max(abs(c) for c in model.values())
        require(abs(op.norm(order=np.inf) - m) <= 1e-9 * (sig + m), '{}: inf-norm {} expected {}', where, op.norm(order=np.inf), m)
        m = sum(abs(c) for c in model.values())
        require(abs(op.norm(order=1) - m) <= 1e-9 * (sig + m), '{}: 1-norm {} expected {}', where, op.norm(order=1), m)


def madd(a, b, sgn=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + sgn * c
    return r


def check(case, ev):
    import qosy
    t, sig = case['t'], case.get('sig', 1.0)
    regs = [qosy.Operator(op_type=t) for _ in range(NREG)]
    models = [dict() for _ in range(NREG)]
    shared = [False] * NREG            # built from a Basis: documented to keep a reference to it
    bases = []
    changed = 0
    aliases = []
    for step, d in enumerate(case['cmds']):
        c, i, j, k = d['c'], d['i'], d['j'], d['k']
        where = 'step {} ({})'.format(step, c)
        if c in ('new', 'newb'):
            cs = [complex(a, b) for a, b, _ in d['o'][1]]
            strs = [gen.mk_os(s) for _, _, s in d['o'][1]]
            src = np.array(cs, dtype=complex) if d['how'] else list(cs)
            if c == 'newb' and strs:
                b = qosy.Basis(list(strs))
                bases.append((b, [key(os) for os in strs]))
                regs[k] = qosy.Operator(src, b)
                shared[k] = True
            else:
                regs[k] = qosy.Operator(src, strs, op_type=t)
                shared[k] = False
            models[k] = {skey(s): complex(a, b) for a, b, s in d['o'][1]}
            # the operator must not depend on the caller's containers
            if len(src):
                src[0] = 77.0
            if c == 'new':
                strs.append(None)
                strs.clear()
        elif c == 'zero':
            regs[k], models[k], shared[k] = qosy.Operator(op_type=t), {}, False
        elif c == 'alias':
            r = regs[i] * 1
            regs[k], models[k], shared[k] = r, dict(models[i]), False
        elif c == 'add':
            regs[k], models[k], shared[k] = regs[i] + regs[j], madd(models[i], models[j]), False
            changed += 1
        elif c == 'sub':
            regs[k], models[k], shared[k] = regs[i] - regs[j], madd(models[i], models[j], -1), False
            changed += 1
        elif c == 'cancel':
            z = regs[i] - regs[i]
            require((z.norm() if len(z) else 0.0) < 1e-12 * max(sig, 1.0), '{}: A - A has norm {}', where, z.norm())
            regs[k], models[k], shared[k] = z, {q: 0.0 for q in models[i]}, False
        elif c in ('iadd', 'isub'):
            if shared[i]:
                continue
            m = madd(models[i], models[j], 1 if c == 'iadd' else -1)
            same = regs[i]
            if c == 'iadd':
                regs[i] += regs[j]
            else:
                regs[i] -= regs[j]
            require(regs[i] is same, '{}: the operator was not changed in place', where)
            models[i] = m
            changed += 1
        elif c == 'sum':
            # accumulation in an empty operator
            r, m = qosy.Operator(op_type=t) if d['i'] % 2 else qosy.Operator([], [], t), {}
            for q, j in enumerate(d['js']):
                if q % 2 and d['i'] >= 2:
                    r -= regs[j]
                    m = madd(m, models[j], -1)
                else:
                    r += regs[j]
                    m = madd(m, models[j])
            regs[k], models[k], shared[k] = r, m, False
            changed += len(d['js'])
        elif c == 'neg':
            regs[k], models[k], shared[k] = -regs[i], {q: -v for q, v in models[i].items()}, False
        elif c in ('mul', 'rmul'):
            x, v = scalar(d['kind'], d['v'])
            if c == 'rmul' and d['kind'].startswith('np.') and len(models[i]) == 0:
                x = v
            r = regs[i] * x if c == 'mul' else x * regs[i]
            require(isinstance(r, qosy.Operator), '{}: scalar product is a {}', where, type(r))
            regs[k], models[k], shared[k] = r, {q: w * v for q, w in models[i].items()}, False
        elif c == 'remove_zeros':
            before = (list(map(complex, regs[i].coeffs)), len(regs[i]))
            tol = d['tol']
            r = regs[i].remove_zeros() if tol is None else regs[i].remove_zeros(tol=tol)
            require((list(map(complex, regs[i].coeffs)), len(regs[i])) == before, '{}: the original was modified', where)
            lim = 1e-16 if tol is None else tol
            if any(abs(abs(w) - lim) < 1e-12 * max(sig, 1.0) and abs(w) > 1e-14 for w in models[i].values()):
                continue
            if any(0 < abs(w) < 1e-10 * sig for w in models[i].values()):
                continue
            got = {key(os): complex(cc) for cc, os in r}
            models_r = {q: w for q, w in models[i].items() if abs(w) > lim}
            # rounding residue may survive or not; judge only clearly zero / non-zero terms
            models_r = {q: models_r.get(q, 0.0) for q in models[i] if q in models_r or (q in got and abs(got[q]) < 1e-10 * max(sig, 1.0))}
            regs[k], models[k], shared[k] = r, models_r, False
            for q, w in got.items():
                require(abs(w) > lim, '{}: kept the coefficient {}', where, w)
        elif c == 'normalize':
            order = {'inf': np.inf}.get(d['order'], d['order'])
            if not models[i]:
                continue
            vals = np.array(list(models[i].values()))
            nrm = np.linalg.norm(vals, ord=order)
            if nrm < 1e-3 * sig:
                continue
            r = regs[i].normalize() if order is None else regs[i].normalize(order=order)
            require(r is None or r is regs[i], '{}: returned something else', where)
            models[i] = {q: w / nrm for q, w in models[i].items()}
            require(abs(regs[i].norm(order=order) - 1) < 1e-9, '{}: norm after normalize is {}', where, regs[i].norm(order=order))
        elif c == 'vector':
            ks = list(models[i])
            for s in d['extra']:
                if skey(s) not in ks:
                    ks.append(skey(s))
            if d['rev']:
                ks = ks[::-1]
            b = qosy.Basis([okey(q) for q in ks])
            v = regs[i].to_vector(b)
            w = regs[i].to_vector(b, fmt='csc')
            require(v.shape == (len(ks),), '{}: vector of shape {}', where, v.shape)
            exp = np.array([models[i].get(q, 0.0) for q in ks], dtype=complex)
            require(np.allclose(v, exp, atol=1e-9 * sig), '{}: vector {} expected {}', where, v, exp)
            require(w.shape == (len(ks), 1), '{}: sparse vector of shape {}', where, w.shape)
            require(np.allclose(w.toarray()[:, 0], exp, atol=1e-9 * sig), '{}: sparse vector differs', where)
            if len(ks):
                back = qosy.Operator(v, b)
                dd = back - regs[i]
                require(dd.norm() < 1e-9 * (sig + np.max(np.abs(exp))), '{}: vector does not give the operator back', where)
        elif c == 'mutate_input':
            r = regs[i] + regs[j]
            if len(r):
                r.coeffs[0] = 1234.5
                r += regs[j]
        elif c == 'comm':
            if t == 'Fermion':
                continue
            r = qosy.commutator(regs[i], regs[j])
            if len(r):
                r.normalize()
                r += regs[i]
        elif c == 'wrong_type':
            other = qosy.Operator([1.0], [gen.mk_os(['Pauli' if t != 'Pauli' else 'Majorana', [], [], 0])])
            for f in (lambda: regs[i] + other, lambda: other - regs[i]):
                try:
                    f()
                except ValueError:
                    continue
                fail('{}: operators of different types were added', where)
        sig = max([sig] + [1e-3 * abs(w) for m in models for w in m.values()])
        for q in range(NREG):
            agree(regs[q], models[q], t, '{}, operator {}'.format(where, q), sig)
        for b, ks in bases:
            require([key(os) for os in b] == ks and len(b) == len(ks), '{}: a Basis given to an operator was modified', where)
        # strict equality compares type, order and coefficients
        for q in range(1, NREG):
            m0, mq = models[0], models[q]
            e = (regs[0] == regs[q])
            if list(m0) != list(mq) or any(abs(m0[x] - mq[x]) > 1e-9 * sig for x in m0):
                require(not e, '{}: different operators compare equal', where)
            cop = regs[q] * 1
            require(bool(regs[q] == cop), '{}: an operator differs from its copy', where)
    ev.label('type:' + t, 'steps:{}'.format(5 * (len(case['cmds']) // 5)))
    if max(len(m) for m in models) >= 4:
        ev.label('has>=4 terms')
    ev.nontrivial(changed >= 2)


PROP = Prop(
    'C04',
    'Histories of 3-22 operations (construct, +, -, +=, -=, accumulate in an empty operator, negate, scale by Python/numpy scalars, normalize, remove '
    'zeros, vectorise, mutate inputs/results) over four operators of one type, compared after every step with an ordered '
    'dictionary of coefficients. Non-trivial: at least two additions/subtractions.',
    [Sub('history', strat, check, 5000, 50000)],
    ['operators constructed from a Basis share it by reference (documented), so in-place addition on them is not generated'])
