"""Standard enumerated spaces of graphs, sized by tier."""
import itertools

from mc import algos as A
from mc import graphs as G
from mc.core import Space, check

COSTS = [{'cost': 0}, {'cost': 1}, {'cost': 3}]
COSTS2 = [{'cost': 1}, {'cost': 3}]
FCOSTS = [{'cost': 0.5}, {'cost': 2.25}, {'cost': 7}]
NEG = [{'cost': -1}, {'cost': 2}]
NEG3 = [{'cost': -2}, {'cost': 0}, {'cost': 1}]
ALLNAMES = ('int', 'one', 'rev', 'big', 'neg', 'str', 'chr', 'dig', 'flt', 'mix', 'tok', 'fal', 'tup', 'odd')


def chain(*its):
    return lambda: itertools.chain(*[i() if callable(i) else i for i in its])


def S(name, bound, gen, names, cls=None, horizon=10.0, after=None, pick=None):
    return Space(name, bound, gen, A.runner(names, cls, after, pick), horizon)


def ends(m, p):
    """Source 0, sink n-1 only."""
    return p[0] == 0 and p[1] == m.n - 1


def frame_class(invariant=None, mode='file'):
    """A Graph whose displayed states are counted and checked instead of being drawn."""
    import gimpy

    class Frames(gimpy.Graph):
        frames = 0

        def __init__(self, **kw):
            kw.setdefault('display', mode)
            gimpy.Graph.__init__(self, **kw)

        def display(self, *a, **k):
            if self.attr['display'] == 'off':
                return
            self.frames += 1
            if invariant is not None:
                invariant(self)
    return Frames


def caps_respected(g):
    for e in g.edge_attr:
        at = g.edge_attr[e]
        f = at.get('flow')
        if f is None:
            continue
        c = at.get('capacity')
        check(f >= 0 and (c is None or f <= c), 'a displayed state has flow %s on arc %s of capacity %s', f, e, c)



def corners(m, p):
    """Sources and destinations first, middle and last only."""
    some = (None, 0, m.n // 2, m.n - 1)
    return not p or p[0] in some and (len(p) < 2 or not isinstance(p[1], int) or p[1] in some)


def scaled(labels, k):
    return [{a: v * k for a, v in l.items()} for l in labels]


def fractions_and_large(d, names, labels, cls, horizon):
    """The bounds of the other spaces are small integers; the algorithms are defined for all numbers."""
    l = labels[:2]
    return [S('%s-scaled' % ('d' if d else 'u'), 'all %s without self-loops, 2 labels, all numbers times 2^-24, 1/4, 30001 or 2^34'
              % ('3-node digraphs' if d else 'undirected graphs on 3 and 4 nodes'),
              lambda: (s for k in (2.0 ** -24, 0.25, 30001, 2 ** 34) for n in ((3,) if d else (3, 4)) for s in G.all_graphs(n, d, scaled(l, k))),
              names, cls, horizon)]


def large(tier, names, labels, d, cls=None, horizon=10.0, acyclic=False):
    sizes = (12, 22) if tier == 'quick' else (12, 17, 25, 40)
    return S('%s-large' % ('d' if d else 'u'), 'named families of sizes %s, source and destination first, middle or last' % (sizes,),
             lambda: G.families(d, labels, sizes, acyclic), names, cls, max(horizon, 30.0), None, corners)


def directed(tier, names, labels, loops=True, small=3, orders=True, big4=True, fam=None, acyclic=False,
             oriented=False, labels4=None, schemes=('mix', 'tok', 'dig', 'fal', 'tup'), cls=None, horizon=10.0, big=True):
    """Directed spaces for the algorithms `names`, with the given edge labels."""
    q = tier == 'quick'
    r = []
    l1 = labels
    L = len(labels)
    r.append(S('d-small', 'all digraphs with %s on 0..3 nodes, %d labels, both insertion orders'
               % ('self-loops' if loops else 'no self-loops', L),
               lambda: (s for n in range(0, small + 1) for o in (1, -1)
                        for s in G.all_graphs(n, True, l1, loops and (n < 3 or L == 1 or not q), o)), names, cls, horizon))
    if loops and q and L > 1:
        r.append(S('d-loops', 'all digraphs with self-loops on 3 nodes, first %d labels' % min(L, 2),
                   lambda: G.all_graphs(3, True, l1[:2], True), names, cls, horizon))
    if orders:
        r.append(S('d-orders', 'every sequence of add_edge calls on 3 nodes (nodes created by add_edge and not)',
                   lambda: G.with_names(G.all_orders(3, True, labels[:1 if q else 2]), ('int',), (0, 1)),
                   names, cls, horizon))
    l4 = labels4 or labels
    if big4:
        if oriented or (q and L > 1):
            r.append(S('d-4', 'all 4-node digraphs without antiparallel arcs, %d labels' % len(l4[:2]),
                       lambda: G.all_oriented(4, l4[:2]), names, cls, horizon))
        if not oriented and (not q or L == 1):
            r.append(S('d-4full', 'all 4-node digraphs without self-loops, %d labels' % (1 if q else len(l4[:2])),
                       lambda: G.all_graphs(4, True, l4[:1 if q else 2]), names, cls, horizon))
        if oriented and not q:
            r.append(S('d-4more', 'all 4-node digraphs without antiparallel arcs, %d labels, reversed order' % L,
                       lambda: G.all_oriented(4, labels[:3], -1), names, cls, horizon))
    r.append(S('d-names', 'all digraphs on 2..3 nodes under node-name schemes %s' % (schemes,),
               lambda: G.with_names((s for n in (2, 3) for s in G.all_graphs(n, True, labels[:1 if q and L < 3 else 2])),
                                    schemes), names, cls, horizon))
    sizes = fam or ((5, 6, 7) if q else (5, 6, 7, 8, 9, 10))
    r.append(S('d-families', 'named digraph families, sizes %s' % (sizes,),
               lambda: G.families(True, labels, sizes, acyclic), names, cls, horizon))
    if big:
        r.append(large(tier, names, labels, True, cls, horizon, acyclic))
    if any(labels):
        r += fractions_and_large(True, names, labels4 or labels, cls, horizon)
    return r


def undirected(tier, names, labels, loops=True, orders=True, schemes=('mix', 'tok', 'dig', 'fal', 'tup'), fam=None, cls=None,
               five=True, horizon=10.0, big=True):
    q = tier == 'quick'
    L = len(labels)
    r = [S('u-small', 'all undirected graphs with%s self-loops on 0..3 nodes, both insertion orders, both spellings, %d labels'
           % ('' if loops else 'out', L),
           lambda: (s for n in range(0, 4) for o in (1, -1) for t in (1, -1)
                    for s in G.all_graphs(n, False, labels, loops, o, t)), names, cls, horizon),
         S('u-4', 'all 4-node undirected graphs, %d labels' % L,
           lambda: (s for o in (1, -1) for s in G.all_graphs(4, False, labels, loops and L == 1, o, o)), names, cls, horizon)]
    if orders:
        r.append(S('u-orders', 'every sequence of add_edge calls on 4 nodes%s, nodes created by add_edge and not' %
                   (', both spellings of each edge (up to 4 edges)' if not q else ''),
                   lambda: G.with_names(itertools.chain(
                       G.all_orders(4, False, labels[:1], maxm=5 if q else None),
                       [] if q else G.all_orders(4, False, labels[:2], maxm=4, both=True)), ('int',), (0, 1)),
                   names, cls, horizon))
    r.append(S('u-names', 'all undirected graphs on 2..3 nodes under node-name schemes %s' % (schemes,),
               lambda: G.with_names((s for n in (2, 3) for s in G.all_graphs(n, False, labels[:2], loops)), schemes),
               names, cls, horizon))
    if five:
        r.append(S('u-5', 'all 5-node undirected graphs, %d labels' % (1 if q else min(L, 2)),
                   lambda: G.all_graphs(5, False, labels[:1 if q else 2], False), names, cls, horizon))
    sizes = fam or ((5, 6, 7) if q else (5, 6, 7, 8, 9, 10))
    r.append(S('u-families', 'named undirected families, sizes %s' % (sizes,),
               lambda: G.families(False, labels, sizes), names, cls, horizon))
    if big:
        r.append(large(tier, names, labels, False, cls, horizon))
    if any(labels):
        r += fractions_and_large(False, names, labels[1:] if len(labels) > 2 else labels, cls, horizon)
    return r
