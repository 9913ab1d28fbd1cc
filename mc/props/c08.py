"""Dijkstra."""
from mc import std
from mc import graphs as G

NAMES = ('dijkstra',)


def spaces(tier):
    r = std.directed(tier, NAMES, std.COSTS, labels4=[{'cost': 1}, {'cost': 4}])
    r += std.undirected(tier, NAMES, std.COSTS)
    r.append(std.S('u-4real', 'all 4-node undirected graphs with non-integer costs',
                   lambda: G.all_graphs(4, False, std.FCOSTS), NAMES))
    if tier != 'quick':
        r.append(std.S('d-4b', 'all 4-node digraphs without antiparallel arcs, 3 costs',
                       lambda: G.all_oriented(4, [{'cost': 1}, {'cost': 2}, {'cost': 5}]), NAMES))
    return r
