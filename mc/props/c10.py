"""Kruskal."""
from mc import std
from mc import graphs as G

NAMES = ('kruskal',)


def spaces(tier):
    q = tier == 'quick'
    r = std.undirected(tier, NAMES, std.COSTS) + std.directed(tier, NAMES, std.COSTS)
    r.append(std.S('u-4neg', 'all 4-node undirected graphs with negative and non-integer costs',
                   lambda: G.all_graphs(4, False, [{'cost': -1}, {'cost': 0.5}, {'cost': 2}]), NAMES))
    r.append(std.S('u-5b', 'all 5-node undirected graphs, %d costs' % (2 if q else 3),
                   lambda: G.all_graphs(5, False, std.COSTS2 if q else std.COSTS), NAMES))
    return r
