"""Cycle canceling."""
from mc import std
from mc import graphs as G
from mc.props import c20

NAMES = ('cancel',)


def L(*cc):
    return [{'capacity': c, 'cost': k} for c, k in cc]


def mcf_spaces(tier, names, horizon=10.0, light=1):
    q = tier == 'quick'
    D = c20.with_demands

    def S(n, b, gen, pick=None):
        return std.S(n, b, gen, names, None, horizon, None, pick)
    r = [S('n2', '2 nodes, capacities 0..2, costs -1, 0, 2, demands -2..2',
           lambda: D(G.all_oriented(2, L(*[(c, k) for c in range(3) for k in (-1, 0, 2)])), range(-2, 3))),
         S('n3', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (1,2) (2,-1) (3,1), demands '
           'balanced -2..2, both insertion orders',
           lambda: (t for o in (1, -1) for t in D(G.all_oriented(3, L((1, 2), (2, -1), (3, 1)), o), range(-2, 3), 0))),
         S('n3b', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (0,1) (2,0), demands -1..1 '
           '(balanced or not)', lambda: D(G.all_oriented(3, L((0, 1), (2, 0))), range(-1, 2))),
         S('n3zero', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (0,1) (2,-1) (2,2), balanced demands -1..1, '
           'both insertion orders',
           lambda: (t for o in (1, -1) for t in D(G.all_oriented(3, L((0, 1), (2, -1), (2, 2)), o), range(-1, 2), 0))),
         S('n4hubs', 'all 4-node digraphs without antiparallel arcs and ample capacities, every distribution of the demands %s over '
           'the nodes (initial flows that are not trees)' % (HUBS[:1 if q else 3],),
           lambda: hubs(HUBS[:1 if q else 3], (0,) if q else (0, 3))),
         S('n3half', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (0.5,1.5) (1.25,-0.75), balanced demands out of '
           '-1, -0.5, -0.25, 0, 0.25, 0.5, 1', lambda: D(G.all_oriented(3, L((0.5, 1.5), (1.25, -0.75))),
                                                         (-1, -0.5, -0.25, 0, 0.25, 0.5, 1), 0)),
         S('n3large', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (20000,30000) (15000,-1), balanced demands '
           '-20000, -10000, 0, 10000, 20000', lambda: D(G.all_oriented(3, L((20000, 30000), (15000, -1))),
                                                        (-20000, -10000, 0, 10000, 20000), 0)),
         S('n3tiny', 'all 3-node digraphs without antiparallel arcs, (capacity, cost) in (2,1) (1,-1) times 2^-24, balanced demands -1..1 '
           'times 2^-24', lambda: D(G.all_oriented(3, std.scaled(L((2, 1), (1, -1)), c20.E)), (-c20.E, 0, c20.E), 0)),
         S('ring5', 'rings of 5 arcs in every orientation, ample capacity or 1 on one of the arcs, every balanced demand vector out of '
           '-1, 0, 1', lambda: rings(5, (-1, 0, 1), 1)),
         S('ring6', 'rings of 6 arcs in every orientation, ample capacity, every demand vector out of two 1, two -1 and two 0%s'
           % ('' if q else ', or 2, 1, 1, -1, -1, -2'), lambda: rings(6, None, 0, q)),
         S('ring6b', 'the same with capacity 1.5 on one of the arcs (simplex: first root, dantzig), every demand vector out of two 1, '
           'two -1 and two 0', lambda: rings(6, None, 1.5), lambda m, p: tuple(p) in ((), (0, 'dantzig'))),
         S('orders', 'every sequence of up to 3 add_edge calls on 3 nodes, nodes created by add_edge or not',
           lambda: G.with_names(D(G.all_orders(3, True, L((2, 1), (2, -2)), maxm=3), (-1, 0, 1), 0), ('int',), (0, 1))),
         S('names', 'all 3-node digraphs without antiparallel arcs under all node-name schemes',
           lambda: G.with_names(D(G.all_oriented(3, L((2, 1), (2, -1))), (-1, 0, 1), 0), c20.SAFE)),
         S('circ4', 'all 4-node circulations (no demands), arcs (2,-1) or (1,1), without antiparallel arcs',
           lambda: D(G.all_oriented(4, L((2, -1), (1, 1))), (0,))),
         S('n4', '4-node digraphs, arcs up only, (capacity, cost) in (1,1) (2,3), 1 or 2 units from the first to the last',
           lambda: ({'d': 1, 'n': 4, 'e': s['e'], 'na': {'demand': [k, 0, 0, -k]}}
                    for k in (1, 2) for s in G.all_graphs(4, False, L((1, 1), (2, 3))))),
         S('transport', 'every 2 x 3 transportation problem with unit costs 0, 1, 3 on every arc, capacity 2',
           lambda: transport(2, 3, (0, 1, 3), 2))]
    if not q:
        r += [S('n4all', 'all 4-node digraphs without antiparallel arcs, (capacity, cost) in (2,1) (2,-2), demands '
                'balanced -1..1', lambda: D(G.all_oriented(4, L((2, 1), (2, -2))), (-1, 0, 1), 0)),
              S('assign', 'every 3 x 3 assignment problem with costs 1, 2',
                lambda: transport(3, 3, (1, 2), 1, unit=True)),
              S('n5', '5-node digraphs, arcs up only, (capacity, cost) in (1,1) (2,3), 2 units from the first to the last',
                lambda: ({'d': 1, 'n': 5, 'e': s['e'], 'na': {'demand': [2, 0, 0, 0, -2]}}
                         for s in G.all_graphs(5, False, L((1, 1), (2, 3)))))]
    return r


HUBS = ([-2, 1, -2, 3], [-1, 2, -3, 2], [2, 2, -2, -2])
COST = (3, 1, 4, 0, 2, 5, 1, 2)


def rings(n, vals, narrow, q=True):
    import itertools
    ds = list(c20.demand_vectors(n, vals, 0)) if vals else sorted(set(itertools.permutations((1, 1, 0, 0, -1, -1))))
    if vals is None and not q:
        ds += sorted(set(itertools.permutations((2, 1, 1, -1, -1, -2))))
    for flip in itertools.product((0, 1), repeat=n):
        es = [[(i + 1) % n, i] if f else [i, (i + 1) % n] for i, f in enumerate(flip)]
        for thin in (([None] if vals else []) + list(range(n)) if narrow else [None]):
            e = [x + [{'capacity': narrow if i == thin else 4, 'cost': COST[i]}] for i, x in enumerate(es)]
            for b in ds:
                yield {'d': 1, 'n': n, 'e': e, 'na': {'demand': list(b)}}


def hubs(bases, shifts):
    import itertools
    for s in G.all_oriented(4, [{}]):
        if len(s['e']) >= 4:
            for k in shifts:
                e = [[x[0], x[1], {'capacity': 8, 'cost': COST[(i + k) % 8]}] for i, x in enumerate(s['e'])]
                for base in bases:
                    for b in sorted(set(itertools.permutations(base))):
                        yield {'d': 1, 'n': 4, 'e': e, 'na': {'demand': list(b)}}


def transport(a, b, costs, cap, unit=False):
    import itertools
    for cs in itertools.product(costs, repeat=a * b):
        dem = [1] * a + [-1] * b if unit else [b] + [1] * (a - 1) + [-(b + a - 1) // b] * (b - 1)
        if not unit:
            dem.append(-sum(dem))
        yield {'d': 1, 'n': a + b, 'na': {'demand': dem},
               'e': [[i, a + j, {'capacity': cap, 'cost': cs[i * b + j]}] for i in range(a) for j in range(b)]}


def spaces(tier):
    return mcf_spaces(tier, NAMES)
