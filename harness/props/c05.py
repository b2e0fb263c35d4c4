"""Basis histories against an ordered-set model."""
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require
import gen, ref
from props.c04 import key, skey

NREG = 4
CMDS = ['new', 'add_s', 'add_b', 'iadd_s', 'iadd_s', 'iadd_b', 'iadd_b', 'dup', 'copy', 'bad', 'slice', 'loop', 'empty', 'mutlist', 'self']


def strat(tier):
    @st.composite
    def s(draw):
        mixed = draw(st.integers(0, 3)) == 0
        t = draw(st.sampled_from(['Pauli', 'Majorana', 'Fermion']))
        pool = draw(gen.label_pool(1, 4))
        huge = draw(gen.tail(12, 80, 10))
        if huge > 12:
            pool = draw(gen.label_pool(4, 8))

        def one():
            tt = draw(st.sampled_from(['Pauli', 'Majorana'])) if mixed else t
            return draw(gen.string(tt, pool))
        n = draw(st.integers(3, 16 if tier == 'quick' else 26))
        cmds = []
        for q in range(n):
            c = 'new' if q < 2 else draw(st.sampled_from(CMDS))
            d = dict(c=c, i=draw(st.integers(0, NREG - 1)), j=draw(st.integers(0, NREG - 1)), k=draw(st.integers(0, NREG - 1)))
            if c in ('new', 'dup', 'mutlist'):
                d['items'] = [one() for _ in range(draw(st.sampled_from([1, 2, 4, 8, huge])))]
            elif c in ('add_s', 'iadd_s', 'bad'):
                d['s'] = one()
            elif c == 'slice':
                d['ix'] = draw(st.integers(-5, 5))
            cmds.append(d)
        return dict(cmds=cmds, probes=[one() for _ in range(4)])
    return s()


def uniq(items):
    out = []
    for s in items:
        if skey(s) not in out:
            out.append(skey(s))
    return out


def mk(k):
    return gen.mk_os([k[0], list(k[1]), list(k[2]), k[3]])


def agree(b, m, probes, where):
    got = [key(os) for os in b]
    require(got == m, '{}: contents {} expected {}', where, [x[1:] for x in got], [x[1:] for x in m])
    require(len(b) == len(m), '{}: length {} expected {}', where, len(b), len(m))
    for n, k in enumerate(m):
        os = mk(k)
        require(os in b, '{}: {} is not found', where, os)
        require(b.index(os) == n, '{}: index of {} is {}, expected {}', where, os, b.index(os), n)
        require(key(b[n]) == k, '{}: element {} is {}', where, n, b[n])
        require(b[b.index(os)] == os, '{}: index and getitem disagree on {}', where, os)
    if m:
        require(key(b[-1]) == m[-1], '{}: last element is {}', where, b[-1])
    for s in probes:
        k = skey(s)
        os = gen.mk_os(s)
        require((os in b) == (k in m), '{}: membership of {} is {}', where, os, os in b)
        if k not in m:
            try:
                r = b.index(os)
            except KeyError:
                continue
            fail('{}: index of the absent string {} is {}', where, os, r)
    lines = [l for l in str(b).split('\n')][:-1]
    require(len(lines) == len(m), '{}: printed {} lines for {} strings', where, len(lines), len(m))
    require([l.split() for l in lines] == [str(mk(k)).split() for k in m], '{}: printed contents differ', where)


def check(case, ev):
    import qosy
    regs = [qosy.Basis() for _ in range(NREG)]
    models = [[] for _ in range(NREG)]
    grown = 0
    for step, d in enumerate(case['cmds']):
        c, i, j, k = d['c'], d['i'], d['j'], d['k']
        where = 'step {} ({})'.format(step, c)
        if c == 'new':
            ks = uniq(d['items'])
            regs[k], models[k] = qosy.Basis([mk(x) for x in ks]), ks
        elif c == 'empty':
            regs[k], models[k] = qosy.Basis(), []
        elif c == 'mutlist':
            # two bases from one list; the caller then changes its list; growing one basis leaves the others alone
            ks = uniq(d['items'])
            src = [mk(x) for x in ks]
            regs[k], models[k] = qosy.Basis(src), list(ks)
            k2 = (k + 1) % NREG
            regs[k2], models[k2] = qosy.Basis(src), list(ks)
            ids = list(map(id, src))
            for s in case['probes']:
                regs[k] += gen.mk_os(s)
                if skey(s) not in models[k]:
                    models[k] = models[k] + [skey(s)]
            require(list(map(id, src)) == ids, "{}: growing a Basis changed the caller's list", where)
            src.append(None)
            del src[0]
        elif c == 'add_s':
            r = regs[i] + gen.mk_os(d['s'])
            m = list(models[i]) + ([skey(d['s'])] if skey(d['s']) not in models[i] else [])
            regs[k], models[k] = r, m
            grown += 1
        elif c == 'add_b':
            r = regs[i] + regs[j]
            regs[k], models[k] = r, models[i] + [x for x in models[j] if x not in models[i]]
            grown += 1
        elif c == 'iadd_s':
            obj = regs[i]
            regs[i] += gen.mk_os(d['s'])
            require(regs[i] is obj, '{}: not in place', where)
            if skey(d['s']) not in models[i]:
                models[i] = models[i] + [skey(d['s'])]
            grown += 1
        elif c == 'iadd_b':
            obj = regs[i]
            regs[i] += regs[j]
            require(regs[i] is obj, '{}: not in place', where)
            models[i] = models[i] + [x for x in models[j] if x not in models[i]]
            grown += 1
        elif c == 'self':
            regs[i] += regs[i]
            r = regs[i] + regs[i]
            require([key(o) for o in r] == models[i], '{}: b + b differs from b', where)
        elif c == 'copy':
            b = qosy.Basis()
            b += regs[i]
            regs[k], models[k] = b, list(models[i])
        elif c == 'loop':
            b = qosy.Basis()
            for os in regs[i]:
                b += os
            require(b == regs[i], '{}: element-wise copy is not equal', where)
            regs[k], models[k] = b, list(models[i])
        elif c == 'slice':
            ix = d['ix']
            try:
                want = models[i][ix]
            except IndexError:
                continue
            require(key(regs[i][ix]) == want, '{}: element {} is {}', where, ix, regs[i][ix])
        elif c == 'dup':
            items = d['items'] + [d['items'][0]]
            try:
                qosy.Basis([gen.mk_os(s) for s in items])
            except ValueError:
                continue
            fail('{}: a Basis with a repeated string was accepted', where)
        elif c == 'bad':
            for bad in (3, 'X 1', [gen.mk_os(d['s'])]):
                try:
                    regs[i] += bad
                except TypeError:
                    pass
                else:
                    fail('{}: added {!r}', where, bad)
                try:
                    regs[i] + bad
                except TypeError:
                    pass
                else:
                    fail('{}: added {!r}', where, bad)
        for q in range(NREG):
            agree(regs[q], models[q], case['probes'], '{}, basis {}'.format(where, q))
        for q in range(NREG):
            for r in range(NREG):
                require((regs[q] == regs[r]) == (models[q] == models[r]), '{}: equality of bases {} and {} is {}', where, q, r, regs[q] == regs[r])
    big = max(len(m) for m in models)
    ev.label('largest:{}'.format(4 * (big // 4)))
    ev.nontrivial(grown >= 2 and big >= 2)


PROP = Prop(
    'C05',
    'Histories of 3-26 operations (construct, + and += with strings and bases, self-addition, copies, duplicates, bad '
    'operands, mutation of the source list) over four bases, compared after every step with ordered duplicate-free lists, '
    'including lookups of absent strings. Non-trivial: at least two growing operations and a basis of two or more strings.',
    [Sub('history', strat, check, 4000, 40000)])
