"""Strong components."""
from mc import std
from mc import graphs as G

NAMES = ('strong', 'tarjan')


def spaces(tier):
    q = tier == 'quick'
    r = std.directed(tier, NAMES, [{}])
    r.append(std.S('d-4loops', 'all 4-node digraphs with self-loops', lambda: G.all_graphs(4, True, [{}], True), NAMES))
    r.append(std.S('d-5o', 'all 5-node digraphs without antiparallel arcs',
                   lambda: G.all_oriented(5, [{}]), NAMES))
    if not q:
        r.append(std.S('d-5', 'all 5-node digraphs', lambda: G.all_graphs(5, True, [{}], False), NAMES))
    return r
