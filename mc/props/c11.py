"""label_components."""
from mc import std
from mc import graphs as G

NAMES = ('label_components',)


def spaces(tier):
    q = tier == 'quick'
    r = std.undirected(tier, NAMES, [{}])
    r.append(std.S('u-5loops', 'all 5-node undirected graphs with self-loops',
                   lambda: G.all_graphs(5, False, [{}], True), NAMES))
    r.append(std.S('u-6', 'all 6-node undirected graphs', lambda: G.all_graphs(6, False, [{}], False), NAMES))
    if not q:
        r.append(std.S('u-6loops', 'all 6-node undirected graphs with self-loops',
                       lambda: G.all_graphs(6, False, [{}], True), NAMES))
    return r
