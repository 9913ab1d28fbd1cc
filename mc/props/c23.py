"""Residual graphs, cycle capacities and augmentation."""
import itertools

from mc import graphs as G
from mc.core import Space, check
from mc.props.c21 import L


def rings():
    for n in (4, 5, 6, 7):
        for flip in itertools.product((0, 1), repeat=n):
            for thin in range(n):
                yield {'d': 1, 'n': n, 'e': [([(i + 1) % n, i] if f else [i, (i + 1) % n]) + [{'capacity': 3 if i == thin else 8, 'cost': i - 2}]
                                             for i, f in enumerate(flip)],
                       'fl': [1 if i == thin else (i * 2 + f) % 4 + 3 if i % 2 else 5 for i, f in enumerate(flip)]}


def flows_of(s):
    """Every flow vector within the capacities in multiples of the step (conservation not required)."""
    if 'fl' in s:
        return [tuple(s['fl']), tuple(0 for e in s['e']), tuple(e[2]['capacity'] for e in s['e'])]
    k = s.get('step', 1)
    return itertools.product(*[[x * k for x in range(int(e[2]['capacity'] / k) + 1)] for e in s['e']])


def cycles(n, arcs):
    """Every simple directed cycle (2 or more nodes) over the arcs, in every rotation."""
    nb = {}
    for u, v in arcs:
        nb.setdefault(u, []).append(v)

    def grow(c):
        for v in nb.get(c[-1], ()):
            if v == c[0]:
                yield c
            elif v not in c:
                for x in grow(c + (v,)):
                    yield x
    for s in range(n):
        for c in grow((s,)):
            yield c


def run(spec, ctx):
    m = G.M(spec)
    for fl in flows_of(spec):
        g = G.build(spec)
        f = {}
        for e, x in zip(spec['e'], fl):
            g.set_edge_attr(m.name(e[0]), m.name(e[1]), 'flow', x)
            f[(e[0], e[1])] = x
        want = {}
        for (u, v), at in m.attrs.items():
            if f[(u, v)] > 0:
                want[(v, u)] = (-at['cost'], f[(u, v)])
            if at['capacity'] > f[(u, v)]:
                want[(u, v)] = (at['cost'], at['capacity'] - f[(u, v)])
        rg = g.create_residual_graph()
        ctx.step()
        got = {}
        for u, v in rg.get_edge_list():
            got[(m.idx(u), m.idx(v))] = (rg.get_edge_attr(u, v, 'cost'), rg.get_edge_attr(u, v, 'capacity'))
        check(got == want, 'flow %s: residual arcs (cost, capacity) are %s, should be %s', f, got, want)
        check(rg is not g and g.get_edge_num() == m_edges(m), 'the graph itself changed')
        for c in cycles(m.n, want):
            names = [m.name(i) for i in c]
            given = list(names)
            cap = rg.find_cycle_capacity(names)
            wc = min(want[a][1] for a in zip(c, c[1:] + c[:1]))
            check(cap == wc, 'flow %s: capacity of cycle %s is %s, should be %s', f, c, cap, wc)
            for amount in {wc, min(1, wc), wc / 2}:
                h = G.build(spec)
                for e, x in f.items():
                    h.set_edge_attr(m.name(e[0]), m.name(e[1]), 'flow', x)
                h.augment_cycle(amount, names)
                check(names == given, 'augment_cycle changed its argument')
                for e in m.attrs:
                    u, v = e
                    on = list(zip(c, c[1:] + c[:1]))
                    w = f[e] + (amount if (u, v) in on and (v, u) not in on else
                                -amount if (v, u) in on and (u, v) not in on else 0)
                    if (u, v) in on and (v, u) in on:
                        continue        # a two-node cycle: forth and back on the same arc
                    x = h.get_edge_attr(m.name(u), m.name(v), 'flow')
                    check(x == w, 'augmenting %s along %s: flow on %s is %s, should be %s (was %s)', amount, c, e, x, w, f[e])
                    check(0 <= x <= m.attrs[e]['capacity'], 'augmenting %s along %s drives the flow on %s to %s', amount,
                          c, e, x)
                ctx.step()
        ctx.state((repr(spec['e']), fl))
        ctx.outcome(len(want))


def m_edges(m):
    return len(m.attrs)


def spaces(tier):
    q = tier == 'quick'
    r = [Space('n3', 'every digraph without antiparallel arcs on 2..3 nodes, (capacity, cost) in (1,2) (2,-1) (0,3), '
               'every integral flow, every residual cycle in every rotation',
               lambda: (s for n in (2, 3) for o in (1, -1) for s in G.all_oriented(n, L((1, 2), (2, -1), (0, 3)), o)), run),
         Space('n4', 'every 4-node digraph without antiparallel arcs, capacity 1%s' % ('' if q else ' and 2'),
               lambda: G.all_oriented(4, L((1, 2)) if q else L((1, 2), (2, -3))), run, 60.0),
         Space('rings', 'rings of 4 to 7 arcs in every orientation, every position of the arc with the least room, flows 0, full and one '
               'arc in between', rings, run, 60.0),
         Space('n3half', 'the same with (capacity, cost) in (0.5,1.5) (1.25,-0.75) and (20000,30000), flows in quarters and in ten-thousands',
               lambda: (dict(s, step=k) for n in (2, 3) for k, l in ((0.25, ((0.5, 1.5), (1.25, -0.75))), (10000, ((20000, 30000),)))
                        for s in G.all_oriented(n, L(*l))), run),
         Space('names', 'the 3-node digraphs under other node names', lambda: G.with_names(
             G.all_oriented(3, L((1, 2), (2, -1))), ('mix', 'tok', 'dig', 'flt', 'big')), run)]
    return r
