"""Copies: a deep copy, an unpickled graph and a graph whose type is an equal string behave as the graph they were made from,
and share nothing with it."""
import copy
import itertools
import pickle

from mc import algos as A
from mc import graphs as G
from mc import graphops as O
from mc import rich
from mc.core import Space, check
from mc.props.c01 import nm
from mc.props.c05 import choices, judged
from mc.props import c24, c25

WAYS = [('deepcopy', copy.deepcopy)] + [('pickle %d' % p, lambda g, p=p: pickle.loads(pickle.dumps(g, p)))
                                        for p in (2, pickle.HIGHEST_PROTOCOL)]
SETS = [('sn', 0, 'y', 'w'), ('se', 0, 1, 'y', 'w'), ('se', 1, 0, 'x', 'w')]


def clustered(g, N, ns):
    g.create_cluster([N[i] for i in ns[:2]], {'label': 'some'}, {'shape': 'box'})


def run_state(case, ctx):
    d, scheme, k, (ns, es), clu = case
    N = nm(scheme, k)

    def make():
        g, m = O.make(d, [N[i] for i in ns], [(N[u], N[v]) for u, v in es], True)
        if clu:
            clustered(g, N, ns)
        return g, m
    for way, cp in WAYS:
        g, m = make()
        before = O.full(g)
        text = g.to_string()
        h = cp(g)
        check(O.full(h) == before and h.to_string() == text, '%s differs from the graph: %s, %s', way, O.full(h), before)
        for op in O.ops(range(k), d) + [s for s in SETS if max(x for x in s if isinstance(x, int)) < k]:
            o = (op[0],) + tuple(G.fresh(N[i]) if isinstance(i, int) else i for i in op[1:])
            h, mh = cp(g), copy.deepcopy(m)
            O.apply(h, mh, o, 'new')
            O.compare(h, mh, N, ('x', 'y', 'cost'))
            check(O.full(g) == before and g.to_string() == text, '%s on a copy (%s) changed the graph it was made from', op, way)
            g2, m2 = make()
            h = cp(g2)
            O.apply(g2, m2, o, 'new')
            check(O.full(h) == before and h.to_string() == text, '%s on the graph changed the copy made before (%s)', op, way)
            ctx.step(2)
            ctx.outcome((way, op[0]))
    # an equal type string need not be the identical one
    import gimpy
    g, m = make()
    h = gimpy.Graph(type=''.join(list(g.graph_type)))
    for n in g.get_node_list():
        h.add_node(n, **g.get_node(n).attr)
    for e in g.get_edge_list():
        h.add_edge(e[0], e[1], **g.edge_attr[e])
    if clu:
        clustered(h, N, ns)
    O.compare(h, m, N, ('x', 'cost'))
    check(h.to_string() == g.to_string(), 'built with an equal type string: %s, %s', h.to_string(), g.to_string())
    ctx.state(repr(case))


def computed_type(**kw):
    import gimpy
    return gimpy.Graph(**dict(kw, type=''.join(list(kw['type']))))


def run_algos(spec, ctx):
    """Run an algorithm on a copy of a graph (new, or used by another algorithm before): right answer, nothing happens to the
    original; the same on the original afterwards."""
    m = G.M(spec)
    al = [a for a in A.ALGOS.values() if a.ok(m)]
    for first in [None] + [a for a in al if m.n < 3]:
        g = G.build(spec)
        if first:
            first.run(g, m, choices(first, m)[0])
        before = O.full(g)
        for way, cp in WAYS:
            if first and way == 'pickle 2':
                continue
            for a in al:
                if first and not a.repeatable:
                    continue
                for pa in choices(a, m):
                    h = cp(g)
                    judged(a, a, pa, m, h, '%s of a graph%s' % (way, first and ' after ' + first.name or ''))
                    check(O.full(g) == before, '%s%r on a copy (%s) changed the graph it was made from', a.name, tuple(pa), way)
                    ctx.step()
                    ctx.outcome((way, a.name))
    for a in al:
        pa = choices(a, m)[-1]
        g = G.build(spec)
        h = copy.deepcopy(g)
        before = O.full(h)
        judged(a, a, pa, m, g, 'a graph that was copied')
        check(O.full(h) == before, '%s%r on a graph changed the copy made before', a.name, tuple(pa))
        t = G.build(spec, computed_type)
        judged(a, a, pa, m, t, 'a graph built with an equal type string')
        ctx.step(2)
    ctx.state(repr(sorted(spec.items())))


def tree_full(t):
    r = [O.full(t), t.root.name if t.root is not None else None]
    return r + [[(n, t.get_parent(n), list(t.get_children(n))) for n in t.get_node_list()]]


def run_tree(case, ctx):
    binary, seq = case
    N = [G.NAMES['mix'](i) for i in range(6)]
    t, m = grow(binary, seq, N)
    before = tree_full(t)
    for way, cp in WAYS:
        h = cp(t)
        check(tree_full(h) == before, '%s of a tree differs from it: %s, %s', way, tree_full(h), before)
        c25.judge(h, m, N, binary, 0)
        for op in c25.enabled(m, 6, binary)[:14]:
            h, mh = cp(t), m.copy()
            act(h, op, N)
            c25.mstep(mh, op)
            c25.judge(h, mh, N, binary, 0)
            check(tree_full(t) == before, '%s on a copy (%s) changed the tree it was made from', op, way)
            ctx.step()
            ctx.outcome((way, op[0]))
    ctx.state(repr(case))


def act(t, op, N):
    if op[0] == 'root':
        t.add_root(N[op[1]], mark='m%s' % op[1])
    elif op[0] == 'del':
        t.del_node(N[op[1]])
    elif op[0] == 'child':
        t.add_child(N[op[1]], N[op[2]], mark='m%s' % op[1])
    elif op[0] == 'L':
        t.add_left_child(N[op[1]], N[op[2]], mark='m%s' % op[1])
    else:
        t.add_right_child(N[op[1]], N[op[2]], mark='m%s' % op[1])


def grow(binary, seq, N):
    import gimpy
    t, m = (gimpy.BinaryTree if binary else gimpy.Tree)(), c25.TM()
    for op in seq:
        act(t, op, N)
        c25.mstep(m, op)
    return t, m


def histories(binary, k, depth):
    def rec(m, seq):
        yield [int(binary), seq]
        if len(seq) < depth:
            for op in c25.enabled(m, k, binary):
                t = m.copy()
                c25.mstep(t, op)
                for x in rec(t, seq + [list(op)]):
                    yield x
    return rec(c25.TM(), [])


def run_set(case, ctx):
    start, opt, hist = case
    n = sum(map(len, start))
    d, N = c24.build(start, opt, 'mix', hist)

    def blocks(x):
        y = copy.deepcopy(x)
        return [y.find(v) for v in N]
    before, raw = blocks(d), O.full(d)
    for way, cp in WAYS:
        for i, j in itertools.product(range(n), repeat=2):
            h = cp(d)
            same = before[i] == before[j]
            r = h.union(N[i], N[j])
            check(bool(r) is not same, 'union(%s, %s) on a copy (%s) returned %r', i, j, way, r)
            now = blocks(h)
            for x, y in itertools.product(range(n), repeat=2):
                want = before[x] == before[y] or {before[x], before[y]} == {before[i], before[j]}
                check((now[x] == now[y]) == want, 'after union(%s, %s) on a copy (%s), find is %s; it was %s', i, j, way, now, before)
            check(O.full(d) == raw, 'union on a copy (%s) changed the original', way)
            ctx.step()
    ctx.outcome(len(set(before)))
    ctx.state(repr(case))


def spaces(tier):
    q = tier == 'quick'

    def st():
        for d in (0, 1):
            for sc in ('int', 'mix', 'tok', 'tup') if q else ('int', 'mix', 'tok', 'tup', 'fal', 'dig'):
                for k in (1, 2, 3):
                    if k == 3 and q and (sc != 'int'):
                        continue
                    for s in O.states(range(k), d):
                        if k == 3 and q and d and len(s[1]) > 4:
                            continue
                        yield [d, sc, k, s, 0]
                        if s[0]:
                            yield [d, sc, k, s, 1]

    def sets():
        blocks = [[[0]], [[0], [1]], [[0], [1], [2]], [[0, 1], [2]], [[0], [1], [2], [3]], [[0, 1], [2, 3]], [[0, 1, 2], [3]]]
        for b in blocks:
            n = sum(map(len, b))
            for opt in (True, False):
                for k in range(3 if q else 4):
                    for h in itertools.product([(o, i, j) for o in 'uf' for i in range(n) for j in range(n)
                                                if (o == 'u' and i < j) or (o == 'f' and j == 0)], repeat=k):
                        yield [b, opt, [list(x) for x in h]]
    return [Space('states', 'every graph on up to 3 nodes (digraphs of at most 4 arcs), with and without a cluster, copied in 3 ways, '
                  'every operation on the copy or on the original, and built with an equal type string' if q else
                  'every graph on up to 3 nodes, with and without a cluster, copied in 3 ways, every operation on the copy or '
                  'on the original, and built with an equal type string', st, run_state),
            Space('algorithms', 'every algorithm on copies of every small graph, on nodes 1, 2 also of graphs used by every other '
                  'algorithm', lambda: rich.small(tier), run_algos, 60.0),
            Space('trees', 'every history of a binary and a general tree (depth 4, 5 nodes), copied, every operation on the copy',
                  lambda: itertools.chain(histories(True, 4, 4 if q else 5), histories(False, 4, 4 if q else 5)), run_tree),
            Space('sets', 'every history of up to 2 unions and finds on disjoint sets of up to 4 items, copied, every union on the copy',
                  sets, run_set)]
