"""floyd_warshall, its paths and its cycles."""
from mc import std
from mc import graphs as G

NAMES = ('floyd',)
MIX = [{'cost': 2}, {'cost': -1}, {'cost': 0}]


def spaces(tier):
    q = tier == 'quick'
    r = std.directed(tier, NAMES, MIX, labels4=[{'cost': 2}, {'cost': -1}]) + std.undirected(tier, NAMES, [{'cost': 1}, {'cost': 3}, {'cost': -1}])
    r.append(std.S('d-loops2', 'all digraphs with self-loops on 3 nodes, costs -1 and 3',
                   lambda: G.all_graphs(3, True, [{'cost': -1}, {'cost': 3}], True), NAMES))
    r.append(std.S('d-4pos', 'all 4-node digraphs with costs 1%s' % ('' if q else ' and 3'),
                   lambda: G.all_graphs(4, True, [{'cost': 1}] if q else [{'cost': 1}, {'cost': 3}]), NAMES))
    return r
