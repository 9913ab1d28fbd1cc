"""Prim."""
from mc import std
from mc import graphs as G

NAMES = ('prim_search', 'mst_prim')


def spaces(tier):
    r = std.undirected(tier, NAMES, std.COSTS)
    r.append(std.S('u-4neg', 'all 4-node undirected graphs with negative and non-integer costs',
                   lambda: G.all_graphs(4, False, [{'cost': -1}, {'cost': 0.5}, {'cost': 2}], tier != 'quick'), NAMES))
    r.append(std.S('u-5b', 'all 5-node undirected graphs, 2 costs', lambda: G.all_graphs(
        5, False, std.COSTS2 if tier == 'quick' else std.COSTS), NAMES))
    return r
