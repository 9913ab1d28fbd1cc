"""Small graphs that carry every attribute the algorithms read, so that every algorithm of the registry
whose preconditions they meet can run on them."""
import itertools

from mc import graphs as G

LAB = [(1, 2), (3, 1), (2, 4), (0, 3), (5, 2), (1, 1), (2, 3), (4, 2)]      # (cost, capacity)


def dress(s, k=0, demand=True, scale=1):
    """Give every edge a cost and a capacity (cycled from LAB, times scale) and every node a demand (balanced)."""
    e = []
    for i, x in enumerate(s['e']):
        c, u = LAB[(i + k) % len(LAB)]
        e.append([x[0], x[1], {'cost': c * scale, 'capacity': u * scale, 'user': 'e%d' % i}])
    n = s['n']
    t = dict(s)
    t['e'] = e
    t['na'] = {'user': ['n%d' % i for i in range(n)]}
    if demand and n > 1:
        b = [0] * n
        b[0], b[-1] = scale, -scale
        t['na']['demand'] = b
    return t


def small(tier):
    """Directed: every graph without antiparallel arcs on 2..3 nodes, arcs-up graphs on 4 nodes, digraphs with
    loops and antiparallel arcs on 2 (and some on 3) nodes; undirected: every graph with loops up to 3 nodes,
    every graph on 4 nodes. The oriented ones also with all numbers halved."""
    q = tier == 'quick'
    for n in (1, 2, 3):
        for s in G.all_oriented(n, [{}]):
            yield dress(s, 0)
            yield dress(s, 1, scale=.5)
            if not q:
                yield dress(s, 3)
                yield dress(s, 2, scale=.25)
    for s in G.all_graphs(4, False, [{}]):
        yield dress({'d': 1, 'n': 4, 'e': s['e']}, 1)
        yield dress(s, 1)
    for n in (1, 2):
        for s in G.all_graphs(n, True, [{}], True):
            yield dress(s, 0)
    for n in (1, 2, 3):
        for s in G.all_graphs(n, False, [{}], True):
            yield dress(s, 0)
    cyc = [(0, 1), (1, 0), (1, 2), (2, 0), (2, 2), (0, 2)]
    for k in range(len(cyc) + 1):
        for es in itertools.combinations(cyc, k):
            yield dress({'d': 1, 'n': 3, 'e': [list(x) for x in es]}, 2)
    if not q:
        for s in G.all_graphs(3, True, [{}]):
            yield dress(s, 1)


def more(tier):
    """small() plus the named families and every 4-node digraph without antiparallel arcs."""
    for s in small(tier):
        yield s
    for d in (True, False):
        for s in G.families(d, [{}], (5, 6) if tier == 'quick' else (5, 6, 7)):
            yield dress(s, 1)
    for s in G.all_oriented(4, [{}]):
        yield dress(s, 2)
