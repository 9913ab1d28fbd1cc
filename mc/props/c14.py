"""acyclic_shortest_path."""
from mc import std
from mc import graphs as G

NAMES = ('acyclic',)


def dags(n, labels):
    """Every acyclic digraph on n nodes: every node order, every forward arc subset and label."""
    for s in G.all_oriented(n, labels):
        if G.is_dag(G.M(s)):
            yield s


def spaces(tier):
    q = tier == 'quick'
    r = [std.S('d-small', 'all acyclic digraphs on 0..3 nodes, costs -2, 0, 1, both insertion orders',
               lambda: (s for n in range(4) for o in (1, -1) for s in G.all_oriented(n, std.NEG3, o)), NAMES),
         std.S('d-orders', 'every sequence of add_edge calls on 3 nodes (acyclic results), nodes created by add_edge or not',
               lambda: G.with_names(G.all_orders(3, True, std.NEG, maxm=3), ('int',), (0, 1)), NAMES),
         std.S('d-4', 'all acyclic 4-node digraphs, %d costs' % (2 if q else 3),
               lambda: dags(4, std.NEG if q else [{'cost': -3}, {'cost': 1}, {'cost': 0.5}]), NAMES),
         std.S('d-4pos', 'all acyclic 4-node digraphs, costs 0.5 and 2.25, reversed insertion order',
               lambda: G.all_oriented(4, std.FCOSTS[:2], -1), NAMES),
         std.S('d-names', 'all acyclic digraphs on 3 nodes under all node-name schemes',
               lambda: G.with_names(G.all_oriented(3, std.NEG), std.ALLNAMES), NAMES),
         std.S('d-families', 'acyclic digraph families',
               lambda: G.families(True, std.NEG3, (5, 6, 7, 8) if q else range(5, 12), True), NAMES)]
    r.append(std.large(tier, NAMES, std.NEG3, True, acyclic=True))
    r.append(std.S('d-scaled', 'all acyclic digraphs on 3 nodes, costs -2, 0, 1 times 2^-24, 1/4, 30001 or 2^34',
                   lambda: (s for k in (2.0 ** -24, 0.25, 30001, 2 ** 34) for s in G.all_oriented(3, std.scaled(std.NEG3, k))), NAMES))
    if not q:
        r.append(std.S('d-5', 'all acyclic 5-node digraphs, 1 cost', lambda: dags(5, [{'cost': -1}]), NAMES))
    return r
