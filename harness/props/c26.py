"""Combinatorial tools against their definitions."""
import itertools
from hypothesis import strategies as st
import numpy as np
from core import Prop, Sub, fail, require, Skip


def parity(p):
    return -1 if sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2 else 1


def perms(lo=0, hi=9):
    return st.integers(lo, hi).flatmap(lambda n: st.permutations(range(n)))


def strat_perm(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(0, 9 if tier == 'quick' else 14))
        m = 9
        if draw(st.integers(0, 7)) == 0:
            n, m = draw(st.integers(10, 80)), 80
        num = st.one_of(st.integers(-3, 3), st.integers(-1000, 1000), st.integers(-20, 20).map(lambda k: k / 8.0))
        return dict(p=list(draw(st.permutations(range(n)))), q=list(draw(st.permutations(range(n)))), v=draw(st.lists(num, min_size=0 if m == 9 else 8, max_size=m)), arr=draw(st.booleans()))
    return s()


def check_perm(case, ev):
    from qosy import tools
    p, q, v = case['p'], case['q'], case['v']
    mk = (lambda x: np.array(x, dtype=int)) if case['arr'] else list
    P, Q = mk(p), mk(q)
    sp, sq = tools.sign(P), tools.sign(Q)
    require(sp == parity(p), 'sign of {} is {}', p, sp)
    r = tools.compose_permutations(P, Q)
    require(list(r) == [p[i] for i in q], 'composition of {} and {} is {}', p, q, list(r))
    require(tools.sign(r) == sp * sq, 'the sign is not multiplicative')
    require(list(P) == p and list(Q) == q, 'an argument was changed')
    V = np.array(v) if case['arr'] else list(v)
    for kw in ({}, dict(method='insertionsort'), dict(method='mergesort')):
        out, sg = tools.sort_sign(V, **kw)
        require([float(x) for x in out] == sorted(float(x) for x in v), 'sort_sign{} of {} is {}', kw, v, list(out))
        require(sg == parity(v), 'sort_sign{} of {} reports sign {}', kw, v, sg)
    require(list(V) == v, 'the vector was changed')
    try:
        tools.sort_sign(V, method='quick')
    except ValueError:
        pass
    else:
        fail('an unknown sorting method is accepted')
    ev.label('repeated' if len(set(v)) < len(v) else 'distinct', 'sign:%d' % sp)
    ev.nontrivial(len(p) >= 3 and sp != sq and parity(v) == -1)


LABELS = st.lists(st.integers(0, 5), max_size=4)


def strat_cmp(tier):
    @st.composite
    def s(draw):
        if draw(st.integers(0, 3)) == 0:
            # long lists with a long common beginning
            base = draw(st.lists(st.integers(0, 30), min_size=3, max_size=14))
            objs = []
            for _ in range(draw(st.integers(2, 8))):
                o = list(base)
                k = draw(st.integers(0, 4))
                if k <= 2:
                    o[draw(st.integers(max(0, len(o) - 6), len(o) - 1))] = draw(st.integers(0, 30))
                elif k == 3:
                    o = o[:draw(st.integers(0, len(o)))]
                elif draw(st.booleans()):
                    o = o + draw(st.lists(st.integers(0, 9), max_size=2))
                objs.append(o)
            return dict(objs=objs, kind=draw(st.sampled_from(['list', 'tuple', 'array'])), nums=draw(st.lists(st.integers(-50, 50), max_size=40)))
        objs = draw(st.lists(st.one_of(LABELS, st.lists(st.integers(-2, 12), min_size=2, max_size=3)), min_size=1, max_size=9))
        return dict(objs=objs, kind=draw(st.sampled_from(['list', 'tuple', 'array'])), nums=draw(st.lists(st.integers(-3, 3), max_size=8)))
    return s()


def check_cmp(case, ev):
    from qosy import tools
    mk = dict(list=list, tuple=tuple, array=lambda x: np.array(x, dtype=int))[case['kind']]
    objs = case['objs']
    raw = [mk(o) for o in objs]
    key = lambda o: (len(o), list(o))
    for a, x in zip(objs, raw):
        for b, y in zip(objs, raw):
            want = (key(a) > key(b)) - (key(a) < key(b))
            require(tools.compare(x, y) == want, 'compare({}, {}) = {}', a, b, tools.compare(x, y))
            ka, kb = tools.cmp_to_key(tools.compare)(x), tools.cmp_to_key(tools.compare)(y)
            got = (ka < kb, ka > kb, ka == kb, ka <= kb, ka >= kb, ka != kb)
            require(got == (want < 0, want > 0, want == 0, want <= 0, want >= 0, want != 0), 'the comparison operators of {} and {} are {}', a, b, got)
    idx = sorted(range(len(objs)), key=lambda i: key(objs[i]))
    require(list(tools.argsort(raw, comp=tools.compare)) == idx, 'argsort of {} with compare is {}', objs, tools.argsort(raw, comp=tools.compare))
    srt = sorted(raw, key=tools.cmp_to_key(tools.compare))
    require([list(o) for o in srt] == [list(objs[i]) for i in idx], 'sorting with cmp_to_key gives {}', srt)
    nums = case['nums']
    require(list(tools.argsort(nums)) == sorted(range(len(nums)), key=lambda i: nums[i]), 'argsort of {}', nums)
    require(list(tools.argsort(nums, comp=lambda a, b: b - a)) == sorted(range(len(nums)), key=lambda i: -nums[i]), 'argsort of {} in descending order', nums)
    require([list(o) for o in raw] == objs, 'an argument was changed')
    ev.label('kind:' + case['kind'])
    ev.nontrivial(len(objs) >= 3 and idx != list(range(len(objs))))


def strat_biggraph(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(9, 40))
        m = draw(st.integers(0, 2 * n))
        edges = {tuple(sorted(e)) for e in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=m, max_size=m)) if e[0] != e[1]}
        if draw(st.booleans()):
            # a planted clique and a long path
            k = draw(st.integers(3, 9))
            nodes = draw(st.permutations(range(n)))
            edges |= {tuple(sorted(e)) for e in itertools.combinations(nodes[:k], 2)}
            edges |= {tuple(sorted(e)) for e in zip(nodes[k:], nodes[k + 1:]) if draw(st.integers(0, 9))}
        adj = [[] for _ in range(n)]
        for i, j in sorted(edges):
            adj[i].append(j)
            adj[j].append(i)
        if draw(st.booleans()):
            adj = [list(draw(st.permutations(a))) for a in adj]
        return dict(adj=adj, kind='large')
    return s()


def strat_graph(tier):
    @st.composite
    def s(draw):
        n = draw(st.integers(0, 8 if tier == 'quick' else 11))
        kind = draw(st.sampled_from(['random', 'random', 'blocks', 'geometric', 'complement']))
        edges = set()
        pairs = list(itertools.combinations(range(n), 2))
        if kind == 'blocks':
            lab = [draw(st.integers(0, 2)) for _ in range(n)]
            edges = {(i, j) for i, j in pairs if lab[i] == lab[j]}
        elif kind == 'geometric':
            pos = [draw(st.integers(0, 8)) for _ in range(n)]
            d = draw(st.integers(0, 4))
            edges = {(i, j) for i, j in pairs if abs(pos[i] - pos[j]) <= d}
        else:
            dens = draw(st.integers(1, 9))
            edges = {e for e in pairs if draw(st.integers(0, 9)) < dens}
            if kind == 'complement':
                drop = set(draw(st.lists(st.sampled_from(pairs), max_size=3))) if pairs else set()
                edges = set(pairs) - drop
        adj = [[] for _ in range(n)]
        for i, j in sorted(edges):
            adj[i].append(j)
            adj[j].append(i)
        adj = [list(draw(st.permutations(a))) for a in adj]
        return dict(adj=adj, kind=kind)
    return s()


def check_graph(case, ev):
    from qosy import tools
    adj = case['adj']
    n = len(adj)
    E = [set(a) for a in adj]
    given = [list(a) for a in adj]
    cl = tools.maximal_cliques(adj)
    got = sorted(tuple(sorted(int(x) for x in c)) for c in cl)
    allc = []
    if n > 12:
        # each clique is extended node by node; maximal ones have no common neighbour
        layer = {frozenset([i]) for i in range(n)}
        while layer:
            nxt = set()
            for c in layer:
                common = set.intersection(*[E[i] for i in c])
                if not common:
                    allc.append(tuple(sorted(c)))
                nxt |= {c | {v} for v in common}
            layer = nxt
    for mask in range(1, 1 << n if n <= 12 else 1):
        nodes = [i for i in range(n) if mask >> i & 1]
        if all(b in E[a] for a, b in itertools.combinations(nodes, 2)):
            if not any(v not in nodes and all(u in E[v] for u in nodes) for v in range(n)):
                allc.append(tuple(nodes))
    require(got == sorted(allc), 'the maximal cliques are {}, not {}', sorted(allc), got)
    # connected components by label propagation
    lab = list(range(n))
    for _ in range(n):
        for i in range(n):
            for j in E[i]:
                lab[i] = lab[j] = min(lab[i], lab[j])
    comps = sorted(tuple(i for i in range(n) if lab[i] == l) for l in set(lab))
    for kw in ({}, dict(mode='DFS'), dict(mode='BFS')):
        cc = tools.connected_components(adj, **kw)
        require(sorted(tuple(sorted(int(x) for x in c)) for c in cc) == comps, 'the connected components are {}, not {} ({})', comps, cc, kw)
        require([min(c) for c in cc] == sorted(min(c) for c in comps) and all(c[0] == min(c) for c in cc), 'the components do not start from their first nodes')
    if n:
        bfs = tools.connected_components(adj, mode='BFS')
        for c in bfs:
            dist = {c[0]: 0}
            front = [c[0]]
            while front:
                nxt = []
                for a in front:
                    for b in E[a]:
                        if b not in dist:
                            dist[b] = dist[a] + 1
                            nxt.append(b)
                front = nxt
            require(all(dist[a] <= dist[b] for a, b in zip(c, c[1:])), 'the breadth-first order {} is not by distance', c)
        try:
            tools.connected_components(adj, mode='other')
        except ValueError:
            pass
        else:
            fail('an unknown search mode is accepted')
    require(adj == given, 'the adjacency lists were changed')
    ev.label('nodes:%d' % n, 'kind:' + case['kind'], 'cliques:%d' % min(len(allc), 10))
    ev.nontrivial(len(allc) >= 3 and max(len(c) for c in allc) >= 3)


NAMES = st.sampled_from(['Up', 'Dn', 'X', 'Y', 'U', 'p', 'Do', '1', '3', '13', '(', '.', '*', 'a b', ' ', 'UpUp', 'Up1', '+', '\\', '[x]', '(Up)'])


def scan(text, subs):
    """Leftmost, longest-first simultaneous replacement."""
    out, i = '', 0
    keys = sorted(subs, key=len, reverse=True)
    while i < len(text):
        for k in keys:
            if text.startswith(k, i):
                out += subs[k]
                i += len(k)
                break
        else:
            out += text[i]
            i += 1
    return out


def strat_text(tier):
    @st.composite
    def s(draw):
        text = ''.join(draw(st.lists(NAMES, max_size=7)))
        subs = draw(st.lists(st.tuples(NAMES, NAMES), max_size=4, unique_by=lambda t: t[0]))
        a, b = draw(NAMES), draw(NAMES)
        kind = draw(st.sampled_from(['ints', 'arrays', 'mod']))
        if kind == 'arrays':
            objs = draw(st.lists(st.lists(st.integers(-2, 2), min_size=2, max_size=2), max_size=8))
        else:
            objs = draw(st.lists(st.integers(0, 9), max_size=9))
        return dict(text=text, subs=[list(t) for t in subs], a=a, b=b, kind=kind, objs=objs, m=draw(st.integers(1, 4)))
    return s()


def check_text(case, ev):
    from qosy import tools
    import qosy
    text, subs = case['text'], dict(map(tuple, case['subs']))
    require(tools.replace(text, dict(subs)) == scan(text, subs), 'replacing {} in {!r} gives {!r}', subs, text, tools.replace(text, dict(subs)))
    a, b = case['a'], case['b']
    sw = tools.swap(text, a, b)
    require(sw == scan(text, {a: b, b: a}), 'swapping {!r} and {!r} in {!r} gives {!r}', a, b, text, sw)
    if a not in b and b not in a:
        require(sw == tools.swap(text, b, a), 'swapping is not symmetric')
    # duplicates
    objs = case['objs']
    if case['kind'] == 'arrays':
        arrs = [np.array(o, dtype=float) for o in objs]
        noise = [x + 1e-14 * i for i, x in enumerate(arrs)]
        out = tools.remove_duplicates(noise)
        want = [i for i in range(len(objs)) if objs[i] not in objs[:i]]
        require(len(out) == len(want) and all(o is noise[i] for o, i in zip(out, want)), 'removing duplicates from {} gives {}', objs, out)
        sep = [np.array([i * 1e-2, 0.0]) for i in range(len(objs))]
        require(len(tools.remove_duplicates(sep, tol=1e-4)) == len(objs), 'separate arrays are removed as duplicates')
        require(len(tools.remove_duplicates(sep, tol=1.0)) == (1 if objs else 0), 'the tolerance is not used')
    else:
        m = case['m']
        eq = (lambda x, y: x == y) if case['kind'] == 'ints' else (lambda x, y: x % m == y % m)
        given = list(objs)
        out = tools.remove_duplicates(given, equiv=eq)
        want = [o for i, o in enumerate(objs) if not any(eq(o, p) for p in objs[:i])]
        require(list(out) == want and given == objs, 'removing duplicates from {} gives {}', objs, out)
    ev.label('overlapping names' if a != b and (a in b or b in a) else 'separate names')
    ev.nontrivial(sw != text or (subs and scan(text, subs) != text))


PROP = Prop(
    'C26',
    'Permutations of up to 9 objects (thorough 14), number lists with repetitions, label lists of mixed lengths as lists, tuples and arrays, graphs of up to 8 nodes (thorough 11) that are random, block, geometric or nearly complete, texts made of overlapping names and special characters, lists with duplicates. '
    'Non-trivial: permutations of opposite parity and an odd sort; an unsorted list; three or more cliques, one of three or more nodes; a text that changes.',
    [Sub('permutations', strat_perm, check_perm, 6000), Sub('order', strat_cmp, check_cmp, 5000), Sub('graphs', strat_graph, check_graph, 6000), Sub('large graphs', strat_biggraph, check_graph, 800), Sub('text', strat_text, check_text, 8000)],
    ['adjacency lists are symmetric and without self-loops, as documented', 'numbers to sort are equal or differ by more than the tolerance'])
