from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref

TYPES = ['Pauli', 'Majorana', 'Fermion']
ROUTES = ['ctor_list', 'ctor_array', 'parse', 'parse_typed', 'parse_1', 'parse_1.0', 'parse_str', 'ctor_one', 'ctor_cplx']


HUGE = [2 ** 15 - 1, 2 ** 16, 2 ** 24 - 1, 2 ** 24 + 1, 2 ** 24 + 3, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 59 + 1, 999999, 1000001, 123456789, 10 ** 15 + 1]


@st.composite
def pool_of(draw, lo, hi):
    """Label pools, sometimes with labels that narrow number formats cannot hold."""
    pool = draw(gen.label_pool(lo, hi))
    if draw(st.integers(0, 4)) == 0:
        i = draw(st.integers(0, len(pool) - 1))
        x = draw(st.sampled_from(HUGE))
        extra = [x, x - 1][:draw(st.integers(1, 2))]
        pool = sorted((set(pool[:i] + pool[i + 1:]) | set(extra)))
        pool = pool[-hi:]
    return pool


def strat_single(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(TYPES))
        pool = draw(pool_of(1, draw(gen.tail(7, 16))))
        x = draw(gen.string(t, pool))
        return dict(s=x, routes=draw(st.lists(st.sampled_from(ROUTES), min_size=2, max_size=3)),
                    ws=draw(st.integers(0, 3)))
    return s()


def mutate(draw, s, pool):
    t, ops, labels, pf = s
    k = draw(st.integers(0, 6))
    if k == 0:
        return s
    if k == 1 and t == 'Fermion' and not ref.is_number_string(ops, labels):
        return [t, ops, labels, 1 - pf]
    if k == 2 and t in gen.PM and ops:
        i = draw(st.integers(0, len(ops) - 1))
        o2 = list(ops)
        o2[i] = draw(st.sampled_from(gen.PM[t]))
        return [t, o2, labels, 0]
    if k == 3 and t in gen.PM and ops:
        i = draw(st.integers(0, len(ops) - 1))
        l2 = list(labels)
        l2[i] = draw(st.one_of(st.integers(0, 30), st.sampled_from([l2[i] + 1, l2[i] + 10, l2[i] * 10, l2[i] + 256, l2[i] + 65536])))
        if len(set(l2)) == len(l2):
            z = sorted(zip(l2, ops))
            return [t, [o for _, o in z], [l for l, _ in z], 0]
        return s
    if k == 4 and t in gen.PM:
        other = 'Majorana' if t == 'Pauli' else 'Pauli'
        tr = dict(zip(gen.PM[t], gen.PM[other]))
        return [other, [tr[o] for o in ops], labels, 0]
    if k == 5 and ops and t in gen.PM:
        i = draw(st.integers(0, len(ops) - 1))
        return [t, ops[:i] + ops[i + 1:], labels[:i] + labels[i + 1:], 0]
    if t == 'Fermion' and ops and k >= 2:
        # one label of the creation or of the annihilation part replaced
        n = ops.count('CDag')
        cd, c = list(labels[:n]), list(labels[n:])[::-1]
        part = c if c and draw(st.booleans()) else cd
        part[draw(st.integers(0, len(part) - 1))] = draw(st.sampled_from(list(pool) + cd + [7]))
        cd, c = sorted(cd), sorted(c)
        if len(set(cd)) == len(cd) and len(set(c)) == len(c):
            if (len(cd), cd) < (len(c), c):
                cd, c = c, cd
            return [t, ['CDag'] * len(cd) + ['C'] * len(c), cd + c[::-1], 0 if cd == c else pf]
    return draw(gen.string(t, pool))


def universe(t, pool, k):
    import itertools
    if t != 'Fermion':
        return gen.all_strings(t, pool, range(k + 1))
    out = [[t, [], [], 0]]
    sub = [list(c) for n in range(k + 1) for c in itertools.combinations(sorted(pool), n)]
    for cd in sub:
        for c in sub:
            if cd and (len(cd), cd) >= (len(c), c):
                for pf in ([0] if cd == c else [0, 1]):
                    out.append([t, ['CDag'] * len(cd) + ['C'] * len(c), cd + c[::-1], pf])
    return out


def strat_universe(tier):
    @st.composite
    def s(draw):
        return dict(t=draw(st.sampled_from(TYPES)), pool=draw(pool_of(2, 3)), k=draw(st.integers(1, 3)))
    return s()


def check_universe(case, ev):
    specs = universe(case['t'], case['pool'], case['k'])
    a = [gen.mk_os(x) for x in specs]
    b = [build(x, 'parse_str') if x[1] else gen.mk_os(x) for x in specs]
    require(len(set(a + b)) == len(specs), 'a set of {} distinct strings built twice has {} elements', len(specs), len(set(a + b)))
    require(len(set(map(str, a))) == len(specs), '{} distinct strings have {} printed forms', len(specs), len(set(map(str, a))))
    for i in range(len(a)):
        for j in range(len(b)):
            require((a[i] == b[j]) == (i == j), 'equality of {} and {} is {}', specs[i], specs[j], a[i] == b[j])
    ev.label('type:' + case['t'], 'strings:{}'.format(len(specs) // 16 * 16))
    ev.nontrivial(len(specs) > 4)


def strat_pair(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(TYPES))
        pool = draw(pool_of(1, draw(gen.tail(5, 16))))
        a = draw(gen.string(t, pool))
        b = mutate(draw, a, pool)
        return dict(a=a, b=b, ra=draw(st.sampled_from(ROUTES)), rb=draw(st.sampled_from(ROUTES)))
    return s()


def strat_set(tier):
    @st.composite
    def s(draw):
        t = draw(st.sampled_from(TYPES))
        pool = draw(pool_of(1, 4))
        n = draw(st.integers(2, draw(gen.tail(10, 40))))
        items = [draw(gen.string(t, pool)) for _ in range(n)]
        if t == 'Fermion':
            items = [x if draw(st.booleans()) or ref.is_number_string(x[1], x[2]) else [x[0], x[1], x[2], 1 - x[3]] for x in items]
        return dict(items=items, routes=draw(st.lists(st.sampled_from(ROUTES), min_size=n, max_size=n)))
    return s()


def text_of(s, ws=0, prefix=None):
    t, ops, labels, pf = s
    sep = [' ', '  ', '\t', '   '][ws]
    toks = []
    if prefix is not None:
        toks.append(prefix)
    elif pf:
        toks.append('1j')
    for o, l in zip(ops, labels):
        toks += [o, str(l)]
    r = sep.join(toks)
    if ws == 3:
        r = ' ' + r + '  '
    return r


def build(s, route, ws=0):
    import qosy
    t, ops, labels, pf = s
    if route == 'parse_str':
        return qosy.opstring(str(gen.mk_os(s)), t)
    if route.startswith('parse'):
        if not ops:
            txt = {'parse': '', 'parse_typed': 'I', 'parse_1': '1', 'parse_1.0': '1.0'}[route]
            return qosy.opstring(txt, t)
        prefix = None
        if route == 'parse_1' and not pf:
            prefix = '1'
        if route == 'parse_1.0' and not pf:
            prefix = '1.0'
        if prefix is None and t == 'Majorana' and ws % 2:
            nab = sum(1 for o in ops if o in 'AB')
            if (nab * (nab - 1) // 2) % 2:
                prefix = '1j'
        txt = text_of(s, ws, prefix)
        return qosy.opstring(txt, t) if route == 'parse_typed' else qosy.opstring(txt)
    pre = {'ctor_one': 1, 'ctor_cplx': complex(1.0)}.get(route, 1.0)
    if pf:
        pre = 1j
    if route == 'ctor_array':
        x, y = np.array(ops, dtype=str), np.array(labels, dtype=int)
        o = qosy.OperatorString(x, y, t, prefactor=pre)
        # the containers belong to the caller, who may go on using them
        x[:], y[:] = x[::-1].copy(), y[::-1].copy() + 1
        return o
    x, y = list(ops), list(labels)
    o = qosy.OperatorString(x, y, t, prefactor=pre)
    x.append('X'), y.append(0)
    x.reverse(), y.reverse()
    return o


def check_fields(o, s):
    t, ops, labels, pf = s
    require(o.op_type == t, 'type {} became {}', t, o.op_type)
    require([str(x) for x in o.orbital_operators] == list(ops), 'operators {} became {}', ops, list(o.orbital_operators))
    require([int(x) for x in o.orbital_labels] == list(labels), 'labels {} became {}', labels, list(o.orbital_labels))
    require([(str(a), int(b)) for a, b in o] == list(zip(ops, labels)), 'iteration differs from {}', s)
    if t != 'Majorana':
        require(o.prefactor == (1j if pf else 1), 'prefactor of {} is {}', s, o.prefactor)
    else:
        nab = sum(1 for x in ops if x in 'AB')
        want = 1j if (nab * (nab - 1) // 2) % 2 else 1
        require(o.prefactor == want, 'prefactor of {} is {}, hermiticity needs {}', s, o.prefactor, want)


def same(o1, o2, why):
    require(o1 == o2 and o2 == o1, '{}: {!r} and {!r} do not compare equal', why, str(o1), str(o2))
    require(not (o1 != o2), '{}: != true for equal strings', why)
    require(hash(o1) == hash(o2), '{}: equal strings {!r}, {!r} hash differently', why, str(o1), str(o2))
    require(str(o1) == str(o2), '{}: equal strings print differently: {!r} {!r}', why, str(o1), str(o2))
    require({o1: 1}.get(o2) == 1, '{}: equal string not found as a dictionary key', why)


def check_single(case, ev):
    import qosy
    s = case['s']
    objs = [build(s, r, case['ws']) for r in case['routes']] + [gen.mk_os(s)]
    for o in objs:
        check_fields(o, s)
        same(o, objs[-1], 'two constructions of {}'.format(s))
        back = qosy.opstring(str(o), s[0])
        check_fields(back, s)
        same(back, o, 'print and parse back')
        if s[1]:
            back = qosy.opstring(str(o))
            same(back, o, 'print and parse back without type')
    ev.label('type:' + s[0], 'ops:{}'.format(len(s[1])))
    ev.nontrivial(len(s[1]) >= 2)


def compact(*specs):
    """The same strings with consecutive labels (the cost of the reference grows with the largest label)."""
    idx = {l: i for i, l in enumerate(sorted({l for x in specs for l in x[2]}))}
    return [[x[0], x[1], [idx[l] for l in x[2]]] + list(x[3:]) for x in specs]


def check_pair(case, ev):
    a, b = case['a'], case['b']
    oa, ob = build(a, case['ra']), build(b, case['rb'])
    if a == b:
        same(oa, ob, 'same string by routes {} {}'.format(case['ra'], case['rb']))
    else:
        require(not (oa == ob) and not (ob == oa), 'different strings {} and {} compare equal', a, b)
        require(oa != ob, 'different strings {} and {}: != is false', a, b)
        require({oa: 1}.get(ob) is None, 'different string {} found under the key {}', b, a)
        if a[0] == b[0]:
            require(str(oa) != str(ob), 'different strings {} {} print alike', a, b)
    # equality must agree with what the strings mean as operators
    if a[0] == b[0]:
        eqval = ref.close(*[gen.ref_os(x) for x in compact(a, b)])
        require((oa == ob) == eqval, 'equality of {} and {} is {} but as operators {}', a, b, oa == ob, eqval)
    ev.label('equal' if a == b else 'different', 'type:' + a[0])
    ev.nontrivial(bool(a[1]) and bool(b[1]))


def check_set(case, ev):
    objs = [build(s, r) for s, r in zip(case['items'], case['routes'])]
    want = []
    for s in case['items']:
        if s not in want:
            want.append(s)
    d = {}
    for i, o in enumerate(objs):
        d.setdefault(o, []).append(i)
    require(len(d) == len(want), 'a dictionary of {} distinct strings has {} keys', len(want), len(d))
    require(len(set(objs)) == len(want), 'a set of {} distinct strings has {} elements', len(want), len(set(objs)))
    for s in case['items']:
        got = d.get(gen.mk_os(s))
        exp = [i for i, x in enumerate(case['items']) if x == s]
        require(got == exp, 'string {} maps to positions {}, expected {}', s, got, exp)
    ev.label('dups' if len(want) < len(objs) else 'nodups')
    ev.nontrivial(len(want) >= 2)


PROP = Prop(
    'C01',
    'Operator strings of the three types over random label pools (labels up to 70000), built by different documented '
    'routes (constructor with lists/arrays/prefactor spellings, parser with and without prefix/type/whitespace), in '
    'pairs that are equal or differ in one field, in sets with duplicates, and as all strings over two or three labels compared pairwise. Non-trivial: at least two orbital '
    'operators (single), both non-identity (pair), at least two distinct strings (set), more than four strings (universe).',
    [Sub('roundtrip', strat_single, check_single, 9000),
     Sub('pair', strat_pair, check_pair, 14000),
     Sub('keys', strat_set, check_set, 4000),
     Sub('universe', strat_universe, check_universe, 400)],
    ['labels are unique and in the documented order; fermion strings are of the documented normal-ordered forms'])
