"""find_feasible_flow."""
import itertools

from mc import std
from mc import graphs as G

NAMES = ('feasible',)
CAPS = [{'capacity': 1}, {'capacity': 2}]


def demand_vectors(n, vals, total=None):
    for b in itertools.product(vals, repeat=n):
        if total is None or sum(b) == total:
            yield list(b)


def with_demands(specs, vals, total=None):
    vec = {}
    for s in specs:
        n = s['n']
        if n not in vec:
            vec[n] = list(demand_vectors(n, vals, total))
        for b in vec[n]:
            t = dict(s)
            t['na'] = {'demand': b}
            yield t


E = 2.0 ** -24
SAFE = ('one', 'rev', 'big', 'neg', 'str', 'chr', 'dig', 'flt', 'mix', 'tok', 'fal', 'tup')


def spaces(tier):
    q = tier == 'quick'

    def S(n, b, gen):
        return std.S(n, b, gen, NAMES)
    r = [S('n2', '2 nodes, demands -3..3, capacities 0..3',
           lambda: with_demands(G.all_oriented(2, [{'capacity': c} for c in range(4)]), range(-3, 4))),
         S('n3', 'all 3-node digraphs without antiparallel arcs, capacities 0, 1, 2, demands -2..2 (balanced or not), '
           'both insertion orders',
           lambda: (t for o in (1, -1) for t in with_demands(
               G.all_oriented(3, [{'capacity': 0}, {'capacity': 1}, {'capacity': 2}], o), range(-2, 3)))),
         S('n4', 'all 4-node digraphs without antiparallel arcs, capacity %s, balanced demands -2..2' % ('1' if q else '1, 2'),
           lambda: with_demands(G.all_oriented(4, CAPS[:1] if q else CAPS), range(-2, 3), 0)),
         S('n4b', '4-node digraphs, arcs up only, capacities 1, 2, balanced demands -2..2',
           lambda: with_demands(({'d': 1, 'n': 4, 'e': s['e']} for s in G.all_graphs(4, False, CAPS)), range(-2, 3), 0)),
         S('n2half', '2 nodes, demands -2, -1.5 .. 2, capacities 0, 0.5 .. 2',
           lambda: with_demands(G.all_oriented(2, [{'capacity': c / 2} for c in range(5)]), [x / 2 for x in range(-4, 5)])),
         S('n3half', 'all 3-node digraphs without antiparallel arcs, capacities 0.5, 1, 1.75, demands -1.5, -0.5, 0, 0.25, 1, 1.5 '
           '(balanced or not)', lambda: with_demands(G.all_oriented(3, [{'capacity': c} for c in (0.5, 1, 1.75)]),
                                                     (-1.5, -0.5, 0, 0.25, 1, 1.5))),
         S('n3large', 'all 3-node digraphs without antiparallel arcs, capacities 9000, 20000, balanced demands -20000, -10000, 0, 10000, '
           '20000', lambda: with_demands(G.all_oriented(3, [{'capacity': 9000}, {'capacity': 20000}]),
                                         (-20000, -10000, 0, 10000, 20000), 0)),
         S('n3tiny', 'all 3-node digraphs without antiparallel arcs, capacities 1, 3 times 2^-24, balanced demands -3..3 times 2^-24',
           lambda: with_demands(G.all_oriented(3, std.scaled([{'capacity': 1}, {'capacity': 3}], E)), [x * E for x in range(-3, 4)], 0)),
         S('names', 'all 3-node digraphs without antiparallel arcs under all node-name schemes, balanced demands',
           lambda: G.with_names(with_demands(G.all_oriented(3, CAPS), range(-2, 3), 0), SAFE)),
         S('orders', 'every sequence of add_edge calls on 3 nodes, nodes created by add_edge or not',
           lambda: G.with_names(with_demands(G.all_orders(3, True, CAPS[1:], maxm=3), range(-2, 3), 0), ('int',), (0, 1)))]
    return r
