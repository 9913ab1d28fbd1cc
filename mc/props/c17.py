"""fifo_label_correcting."""
from mc import std
from mc import graphs as G

NAMES = ('fifo_label',)
MIX = [{'cost': 2}, {'cost': -1}, {'cost': 0}]


def spaces(tier):
    r = std.directed(tier, NAMES, MIX, labels4=[{'cost': 2}, {'cost': -1}]) + \
        std.undirected(tier, NAMES, [{'cost': 1}, {'cost': 3}, {'cost': -1}])
    r.append(std.S('d-4c', 'all 4-node digraphs, cost -1 on arcs up, 2 on arcs down',
                   lambda: ({'d': 1, 'n': 4, 'e': [[u, v, {'cost': -1 if u < v else 2}] for u, v, l in s['e']]}
                            for s in G.all_graphs(4, True, [{}])), NAMES))
    return r
