"""dfs(): time stamps, topological order, two-pass strong components."""
from mc import std
from mc import graphs as G

NAMES = ('dfs', 'dfs_all', 'kosaraju')


def spaces(tier):
    q = tier == 'quick'
    r = std.directed(tier, NAMES, [{}]) + std.undirected(tier, NAMES[:2], [{}])
    if not q:
        r.append(std.S('d-4loops', 'all 4-node digraphs with self-loops',
                       lambda: G.all_graphs(4, True, [{}], True), NAMES))
        r.append(std.S('d-5', 'all 5-node digraphs', lambda: G.all_graphs(5, True, [{}], False), NAMES[1:]))
    else:
        r.append(std.S('d-5o', 'all 5-node digraphs without antiparallel arcs (topological orders, two passes)',
                       lambda: G.all_oriented(5, [{}]), NAMES[1:]))
    return r
