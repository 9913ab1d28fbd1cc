"""max_flow (depth-first and breadth-first augmentation)."""
import itertools

from mc import std
from mc import graphs as G

NAMES = ('maxflow_dfs', 'maxflow_bfs')
CAPS = [{'capacity': 1}, {'capacity': 2}]
CAPS3 = [{'capacity': 1}, {'capacity': 3}, {}]
CAPS4 = [{'capacity': 0}, {'capacity': 0.5}, {'capacity': 1}, {'capacity': 2}, {'capacity': 2.25}]


def dags(n, caps, most=99):
    """Every network of arcs u < v from 0 to n-1 without the arc (0, n-1) in which every inner node has arcs in and out
    (or none at all), in both insertion orders."""
    ps = [(u, v) for u in range(n) for v in range(u + 1, n) if (u, v) != (0, n - 1)]
    for mask in range(1 << len(ps)):
        es = [p for k, p in enumerate(ps) if mask >> k & 1]
        if len(es) > most:
            continue
        heads, tails = {v for u, v in es}, {u for u, v in es}
        if heads - {n - 1} != tails - {0} or 0 not in tails:
            continue
        for cs in itertools.product(caps, repeat=len(es)):
            e = [[u, v, c] for (u, v), c in zip(es, cs)]
            yield {'d': 1, 'n': n, 'e': e}
            yield {'d': 1, 'n': n, 'e': e[::-1]}


def zigzag(caps1, caps2):
    """6-node networks in which greedy augmenting paths have to be undone: every capacity vector, orders of the arcs."""
    z1 = [(0, 1), (0, 5), (1, 2), (1, 4), (2, 3), (4, 3), (5, 2)]
    z2 = [(0, 1), (0, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 5), (4, 5)]
    for z, caps, blocks in ((z1, caps1, ((0, 1), (2, 3))), (z2, caps2, ((0, 1), (2, 3), (4, 5)))):
        for cs in itertools.product(caps, repeat=len(z)):
            for flips in itertools.product((0, 1), repeat=len(blocks)):
                o = list(range(len(z)))
                for (a, b), f in zip(blocks, flips):
                    if f:
                        o[a], o[b] = o[b], o[a]
                yield {'d': 1, 'n': 6, 'e': [[z[k][0], z[k][1], cs[k]] for k in o],
                       'st': [0, 3] if z is z1 else [0, 5]}


def st(m, p):
    return [p[0], p[1]] == m.spec['st']


def flow_spaces(tier, names, horizon=10.0):
    q = tier == 'quick'
    F = std.frame_class(std.caps_respected)

    def S(n, b, gen, cls=None, pick=None):
        return std.S(n, b, gen, names, cls, horizon, None, pick)
    r = [S('d-small', 'all digraphs without antiparallel arcs on 2..3 nodes, capacities 0, 0.5, 1, 2, 2.25, both insertion '
           'orders, every source and sink; displayed states observed',
           lambda: (s for n in (2, 3) for o in (1, -1) for s in G.all_oriented(n, CAPS4, o)), F),
         S('d-missing', 'all digraphs without antiparallel arcs on 3 nodes, capacities 1, 3 or none given',
           lambda: G.all_oriented(3, CAPS3)),
         S('d-orders', 'every sequence of add_edge calls on 3 nodes (both directions), nodes created by add_edge or not',
           lambda: G.with_names((s for s in G.all_orders(3, True, CAPS, maxm=3)), ('int',), (0, 1))),
         S('d-4', 'all 4-node digraphs without antiparallel arcs, capacities 1, 2, every source and sink',
           lambda: G.all_oriented(4, CAPS), F if q else None),
         S('d-4c', 'all 4-node digraphs without antiparallel arcs, capacities 1, 2, 5, source first and sink last, '
           'reversed insertion order', lambda: G.all_oriented(4, [{'capacity': 1}, {'capacity': 2}, {'capacity': 5}], -1),
           None, std.ends),
         S('d-names', 'all digraphs without antiparallel arcs on 3 nodes under all node-name schemes',
           lambda: G.with_names(G.all_oriented(3, CAPS), std.ALLNAMES)),
         S('d-families', 'named digraph families with capacities 1, 2, 4',
           lambda: (s for s in G.families(True, [{'capacity': 1}, {'capacity': 2}, {'capacity': 4}],
                                          (5, 6, 7) if q else (5, 6, 7, 8, 9))), None,
           (lambda m, p: p[0] == 0) if q else None),
         S('d-6', 'all 6-node networks with arcs up only, capacity 1, no direct arc, no dead ends, source first and sink last, both '
           'insertion orders', lambda: dags(6, CAPS[:1]), None, std.ends),
         S('d-zigzag', 'two 6-node networks in which augmenting paths have to be undone, every capacity vector out of 1, 2, 3 (1, 3), '
           'several adjacency orders', lambda: zigzag([{'capacity': 1}, {'capacity': 2}, {'capacity': 3}],
                                                      [{'capacity': 1}, {'capacity': 3}]), None, st),
         S('d-zigzag-missing', 'the same networks, capacities 1 or none given',
           lambda: zigzag(*2 * ([{'capacity': 1}, {}],)), None, st),
         S('d-large', '3-node digraphs with capacities 9999, 10000, 123456, first node to last node',
           lambda: G.all_oriented(3, [{'capacity': 9999}, {'capacity': 10000}, {'capacity': 123456}]), None, std.ends)]
    r.append(S('d-scaled', '3-node digraphs without antiparallel arcs, capacities 1, 3, 4 times 2^-24 or times 2^34, and 5-node networks '
               'with arcs up only, no direct arc, no dead ends, at most 6 arcs, capacities 1, 3 times the same',
               lambda: (s for k in (2.0 ** -24, 2 ** 34) for i in (
                   G.all_oriented(3, std.scaled([{'capacity': 1}, {'capacity': 3}, {'capacity': 4}], k)),
                   dags(5, std.scaled([{'capacity': 1}, {'capacity': 3}], k), 6)) for s in i),
               None, lambda m, p: m.n == 3 or std.ends(m, p)))
    if not q:
        r.append(S('d-5w', '5-node networks with arcs up only and no dead ends, capacities 1, 2, 3, both insertion orders',
                   lambda: dags(5, CAPS + [{'capacity': 3}], 8), None, std.ends))
        r.append(S('d-6w', '6-node networks with arcs up only and no dead ends, at most 7 arcs, capacities 1, 2, both insertion orders',
                   lambda: dags(6, CAPS, 7), None, std.ends))
        r.append(S('d-5', 'all 5-node digraphs without antiparallel arcs, capacity 1, source first and sink last',
                   lambda: G.all_oriented(5, [{'capacity': 1}]), None, std.ends))
        r.append(S('d-5b', '5-node digraphs, arcs up only, capacities 1, 2, source first and sink last',
                   lambda: ({'d': 1, 'n': 5, 'e': s['e']} for s in G.all_graphs(5, False, CAPS)), None, std.ends))
        r.append(S('d-4all', 'all 4-node digraphs without antiparallel arcs, capacities 0, 1, 3, every source and sink',
                   lambda: G.all_oriented(4, [{'capacity': 0}, {'capacity': 1}, {'capacity': 3}])))
    else:
        r.append(S('d-5w', '5-node networks with arcs up only, no direct arc, no dead ends, at most 7 arcs, capacities 1, 3, both orders',
                   lambda: dags(5, [{'capacity': 1}, {'capacity': 3}], 7), None, std.ends))
        r.append(S('d-5b', '5-node digraphs, arcs up only, capacity 1, source first and sink last',
                   lambda: ({'d': 1, 'n': 5, 'e': s['e']} for s in G.all_graphs(5, False, CAPS[:1])), None, std.ends))
    return r


def spaces(tier):
    return flow_spaces(tier, NAMES)
