"""Index-level graph models, builders for real GiMPy graphs, exhaustive enumerators, boring oracles.

A graph model ("spec") is JSON-able:
  {"d": 0|1, "n": nodes, "e": [[u, v, {attr: value}], ...] in insertion order,
   "nm": name scheme, "imp": 1 to let add_edge create the nodes, "no": node insertion order,
   "na": {attr: [value per node]}}
Everything the oracles know comes from the spec, never from the object under test.
"""
import itertools

from mc.core import Violation, check

INFTY = float('inf')

_MIX = [0, 'a', -9, 'b c', 2.5, 'True', 70000, 'n']
_FAL = ['x', 0, '', frozenset(), -1, 'y', 1, 'z', 2, 'w']         # falsy names
_ODD = [' a', 'b ', '', '\tc', '%s', '{0}', 'é', 'A', 'a', 'a b']         # spaces at the ends, formats, cases


class Tok(object):
    """A user-defined hashable node name: equal by value, never identical."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Tok) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Tok', self.v))

    def __repr__(self):
        return 'T%s' % self.v
    __str__ = __repr__


def fresh(x):
    """An equal object that is not the same object, where Python allows it."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        return int(str(x))
    if isinstance(x, float):
        return float(repr(x))
    if isinstance(x, str):
        return ''.join(list(x)) if len(x) > 1 else x
    return x


NAMES = {
    'int': lambda i: i,
    'one': lambda i: i + 1,
    'rev': lambda i: 9 - i,
    'big': lambda i: int(str(1000 + 7 * i)),
    'neg': lambda i: int(str(-60 - i)),
    'str': lambda i: ''.join(['v', str(i)]),
    'chr': lambda i: chr(ord('a') + i),
    'dig': lambda i: str(i),
    'flt': lambda i: float(str(i + 0.5)),
    'mix': lambda i: fresh(_MIX[i]),
    'tok': lambda i: Tok(i),
    'fal': lambda i: _FAL[i],
    'tup': lambda i: tuple([i // 2, i % 2]),
    'odd': lambda i: fresh(_ODD[i]),
}


class M(object):
    """The reference model of one graph."""

    def __init__(self, spec):
        self.spec = spec
        self.directed = bool(spec['d'])
        self.n = spec['n']
        self.edges = [(e[0], e[1]) for e in spec['e']]
        self.attrs = {(e[0], e[1]): (e[2] if len(e) > 2 else {}) for e in spec['e']}
        self.name = NAMES[spec.get('nm', 'int')]
        self.back = {self.name(i): i for i in range(self.n)}
        self.out = [[] for _ in range(self.n)]
        self.inn = [[] for _ in range(self.n)]
        for u, v in self.edges:
            self.out[u].append(v)
            self.inn[v].append(u)
            if not self.directed:
                self.out[v].append(u)
                self.inn[u].append(v)

    def idx(self, name):
        try:
            return self.back[name]
        except (KeyError, TypeError):
            raise Violation('%r is not a node of the graph' % (name,))

    def attr(self, u, v, a, default=None):
        """Attribute of the edge used when going from u to v (None if there is no such edge)."""
        if (u, v) in self.attrs:
            return self.attrs[(u, v)].get(a, default)
        if not self.directed and (v, u) in self.attrs:
            return self.attrs[(v, u)].get(a, default)
        return None

    def has(self, u, v):
        return (u, v) in self.attrs or (not self.directed and (v, u) in self.attrs)


def build(spec, cls=None, **kw):
    import gimpy
    cls = cls or gimpy.Graph
    typ = gimpy.DIRECTED_GRAPH if spec['d'] else gimpy.UNDIRECTED_GRAPH
    g = cls(type=typ, **kw)
    name = NAMES[spec.get('nm', 'int')]
    na = spec.get('na') or {}
    if not spec.get('imp'):
        for i in (spec.get('no') or range(spec['n'])):
            g.add_node(name(i), **{a: fresh(v[i]) for a, v in na.items() if v[i] is not None})
    for e in spec['e']:
        at = {a: fresh(v) for a, v in e[2].items()} if len(e) > 2 else {}
        g.add_edge(name(e[0]), name(e[1]), **at)
    if spec.get('imp'):
        for i in range(spec['n']):
            if g.get_node(name(i)) is None:
                g.add_node(name(i))
            for a, v in na.items():
                if v[i] is not None:
                    g.set_node_attr(name(i), a, fresh(v[i]))
    return g


def picture(g, attrs=True):
    """The observable state of a graph: nodes, edges, adjacency, attributes (order-insensitive)."""
    import gimpy
    nl = g.get_node_list()
    el = g.get_edge_list()
    pic = [frozenset(map(repr, nl)), len(nl),
           tuple(sorted(repr(e) for e in el)),
           tuple(sorted((repr(n), tuple(sorted(map(repr, g.get_neighbors(n))))) for n in nl))]
    if g.graph_type == gimpy.DIRECTED_GRAPH:
        pic.append(tuple(sorted((repr(n), tuple(sorted(map(repr, g.get_in_neighbors(n))))) for n in nl)))
    if attrs:
        pic.append(tuple(sorted((repr(n), repr(sorted(g.get_node(n).attr.items()))) for n in nl)))
        pic.append(tuple(sorted((repr(e), repr(sorted(g.edge_attr[e].items()))) for e in el)))
    return tuple(pic)


# ------------------------------------------------------------------ enumerators

def pairs(n, directed, loops=False):
    if directed:
        return [(u, v) for u in range(n) for v in range(n) if loops or u != v]
    return [(u, v) for u in range(n) for v in range(u if loops else u + 1, n)]


def all_graphs(n, directed, labels, loops=False, order=1, orient=1):
    """Every graph on n nodes: each possible edge absent or carrying one of the labels (dicts).
    order -1: reversed insertion order; orient -1: undirected edges inserted as (v, u)."""
    ps = pairs(n, directed, loops)
    if order < 0:
        ps = ps[::-1]
    for combo in itertools.product([None] + list(labels), repeat=len(ps)):
        yield {'d': int(directed), 'n': n,
               'e': [[(u, v) if orient > 0 else (v, u)][0] and
                     ([u, v, l] if orient > 0 else [v, u, l]) for (u, v), l in zip(ps, combo) if l is not None]}


def all_oriented(n, labels, order=1):
    """Every directed graph on n nodes without loops and antiparallel arcs."""
    ps = pairs(n, False)
    if order < 0:
        ps = ps[::-1]
    opts = [None] + [(s, l) for s in (1, -1) for l in labels]
    for combo in itertools.product(opts, repeat=len(ps)):
        yield {'d': 1, 'n': n,
               'e': [([u, v, c[1]] if c[0] > 0 else [v, u, c[1]]) for (u, v), c in zip(ps, combo) if c is not None]}


def all_orders(n, directed, labels, loops=False, maxm=None, both=False):
    """Every sequence of distinct add_edge calls (every subset, every insertion order, every label;
    with both=True every undirected edge in both spellings)."""
    ps = pairs(n, directed, loops)
    for k in range(0, (len(ps) if maxm is None else maxm) + 1):
        for perm in itertools.permutations(ps, k):
            for labs in itertools.product(labels, repeat=k):
                if both and not directed:
                    for flips in itertools.product((0, 1), repeat=k):
                        yield {'d': int(directed), 'n': n,
                               'e': [[v, u, l] if f else [u, v, l] for (u, v), l, f in zip(perm, labs, flips)]}
                else:
                    yield {'d': int(directed), 'n': n, 'e': [[u, v, l] for (u, v), l in zip(perm, labs)]}


def with_names(specs, names=('int',), imp=(0,)):
    for s in specs:
        for nm in names:
            for i in imp:
                t = dict(s)
                if nm != 'int':
                    t['nm'] = nm
                if i:
                    t['imp'] = 1
                yield t


def families(directed, labels, sizes=(5, 6, 7, 8), acyclic=False):
    """Named larger graphs, every label pattern of a fixed finite menu (labels cycled with 3 phases)."""
    def lab(es, phase, step):
        L = len(labels)
        return [[u, v, labels[(phase + step * k) % L]] for k, (u, v) in enumerate(es)]

    def shapes(n):
        path = [(i, i + 1) for i in range(n - 1)]
        yield 'path', path
        yield 'rpath', [(i + 1, i) for i in range(n - 1)][::-1]
        yield 'cycle', path + [(n - 1, 0)]
        yield 'star', [(0, i) for i in range(1, n)]
        yield 'instar', [(i, 0) for i in range(1, n)]
        yield 'full', [(i, j) for i in range(n) for j in range(i + 1, n)]
        yield 'wheel', [(0, i) for i in range(1, n)] + [(i, i + 1) for i in range(1, n - 1)] + [(n - 1, 1)]
        yield 'tree', [((i - 1) // 2, i) for i in range(1, n)]
        yield 'ladder', [(i, i + 2) for i in range(n - 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
        yield 'twocomp', [(i, i + 1) for i in range(n // 2 - 1)] + [(i, i + 1) for i in range(n // 2, n - 1)] \
            + ([(n - 1, n // 2)] if n - n // 2 > 2 else [])
        yield 'bip', [(i, j) for i in range(n // 2) for j in range(n // 2, n)]
        yield 'matching', [(i, i + 1) for i in range(0, n - 1, 2)]
        yield 'grid', [(i, i + 1) for i in range(n - 1) if (i + 1) % 3] + [(i, i + 3) for i in range(n - 3)]
        yield 'none', []
        if directed:
            yield 'layer', [(i, j) for i in range(n) for j in (i + 1, i + 2, i + 3) if j < n]
            yield 'back', path + [(n - 1, n // 2), (n // 2, 0)]
    for n in sizes:
        for sname, es in shapes(n):
            if acyclic and any(u > v for u, v in es):
                continue
            seen = set()
            for phase in range(min(3, len(labels))):
                for step in (1, 2, 3):
                    e = lab(es, phase, step)
                    k = repr(e)
                    if k in seen:
                        continue
                    seen.add(k)
                    yield {'d': int(directed), 'n': n, 'e': e}
                    yield {'d': int(directed), 'n': n, 'e': e[::-1]}


# ------------------------------------------------------------------ oracles on models

def reach(m, s, reverse=False):
    nb = m.inn if reverse else m.out
    seen = [s]
    for u in seen:
        for v in nb[u]:
            if v not in seen:
                seen.append(v)
    return set(seen)


def hops(m, s, reverse=False):
    nb = m.inn if reverse else m.out
    d = {s: 0}
    q = [s]
    for u in q:
        for v in nb[u]:
            if v not in d:
                d[v] = d[u] + 1
                q.append(v)
    return d


def arcs(m, a='cost'):
    """(tail, head, value) with undirected edges both ways."""
    r = []
    for (u, v), at in m.attrs.items():
        r.append((u, v, at.get(a)))
        if not m.directed and u != v:
            r.append((v, u, at.get(a)))
    return r


def bellman(m, s, reverse=False, a='cost'):
    """Shortest distances from s, or None if a negative cycle is reachable."""
    A = arcs(m, a)
    if reverse:
        A = [(v, u, c) for u, v, c in A]
    d = {s: 0}
    for _ in range(m.n + 1):
        ch = False
        for u, v, c in A:
            if u in d and (v not in d or d[u] + c < d[v]):
                d[v] = d[u] + c
                ch = True
        if not ch:
            return d
    return None


def negative_cycle_exists(A, n):
    """Bellman-Ford from a virtual source over arcs (u, v, c)."""
    d = [0] * n
    for _ in range(n + 1):
        ch = False
        for u, v, c in A:
            if d[u] + c < d[v] - 1e-9:
                d[v] = d[u] + c
                ch = True
        if not ch:
            return False
    return True


def components(m):
    """Undirected components as a list of frozensets."""
    lab = list(range(m.n))
    for u, v in m.edges:
        a, b = lab[u], lab[v]
        if a != b:
            lab = [a if x == b else x for x in lab]
    g = {}
    for i, l in enumerate(lab):
        g.setdefault(l, []).append(i)
    return [frozenset(x) for x in g.values()]


def sccs(m):
    R = [reach(m, i) for i in range(m.n)]
    return set(frozenset(j for j in R[i] if i in R[j]) for i in range(m.n))


def forest_cost(m):
    """Weight of a minimum spanning forest (arc directions ignored)."""
    lab = list(range(m.n))
    tot = 0
    cnt = 0
    for u, v, c in sorted(((u, v, m.attrs[(u, v)]['cost']) for u, v in m.edges), key=lambda t: t[2]):
        a, b = lab[u], lab[v]
        if a != b:
            lab = [a if x == b else x for x in lab]
            tot += c
            cnt += 1
    return tot, cnt


def min_cut(m, s, t, missing=INFTY):
    """Brute force over all 2^(n-2) cuts."""
    rest = [i for i in range(m.n) if i not in (s, t)]
    best = INFTY
    for k in range(1 << len(rest)):
        S = {s} | {rest[i] for i in range(len(rest)) if k >> i & 1}
        c = 0
        for (u, v), at in m.attrs.items():
            if u in S and v not in S:
                c += at.get('capacity', missing)
        if c < best:
            best = c
    return best


def feasible(m, b):
    """Gale's condition, brute force: a flow with supplies b exists."""
    if sum(b) != 0:
        return False
    for k in range(1, (1 << m.n) - 1):
        S = [i for i in range(m.n) if k >> i & 1]
        if sum(b[i] for i in S) > sum(at['capacity'] for (u, v), at in m.attrs.items()
                                     if k >> u & 1 and not k >> v & 1):
            return False
    return True


def is_dag(m):
    return all(len(c) == 1 for c in sccs(m)) and all(u != v for u, v in m.edges)


def connected(m):
    return len(components(m)) <= 1
