"""Reference model of a mutable graph and its operations; comparison of every query with the model."""
import itertools

from mc import graphs as G
from mc.core import Violation, check, freeze


class GM(object):
    """directed, nodes {name: attrs}, edges {(u, v): attrs} (undirected edges under their first spelling)."""

    def __init__(self, directed):
        self.d, self.nodes, self.edges = directed, {}, {}

    def key(self, u, v):
        if (u, v) in self.edges:
            return (u, v)
        if not self.d and (v, u) in self.edges:
            return (v, u)
        return None

    def add_node(self, n, at):
        if n in self.nodes:
            return False
        self.nodes[n] = dict(at)
        return True

    def del_node(self, n):
        if n not in self.nodes:
            return False
        del self.nodes[n]
        for e in [e for e in self.edges if n in e]:
            del self.edges[e]
        return True

    def add_edge(self, u, v, at):
        if self.key(u, v) is not None:
            return False
        for x in (u, v):
            self.nodes.setdefault(x, {})
        self.edges[(u, v)] = dict(at)
        return True

    def del_edge(self, u, v):
        k = self.key(u, v)
        if k is None:
            return False
        del self.edges[k]
        return True

    def nbrs(self, n):
        r = [v for u, v in self.edges if u == n]
        if not self.d:
            r += [u for u, v in self.edges if v == n]
        return r

    def inn(self, n):
        return [u for u, v in self.edges if v == n]

    def canon(self):
        return (self.d, frozenset(self.nodes), frozenset(self.edges))


def raises(kind, f, what):
    """f must raise `kind`."""
    try:
        r = f()
    except kind:
        return
    except Exception as e:
        raise Violation('%s raised %s (%s), expected %s' % (what, type(e).__name__, e, kind.__name__))
    raise Violation('%s was accepted (returned %r)' % (what, r))


def same(a, b):
    return len(a) == len(b) and sorted(map(repr, a)) == sorted(map(repr, b))


def compare(g, m, names, attrs=('x', 'y')):
    """Every query of g must answer what the model says."""
    nl = g.get_node_list()
    check(isinstance(nl, list) and same(nl, list(m.nodes)), 'get_node_list() is %s, should be %s', nl, list(m.nodes))
    check(g.get_node_num() == len(m.nodes), 'get_node_num() is %s, should be %s', g.get_node_num(), len(m.nodes))
    el = g.get_edge_list()
    norm = [e if e in m.edges else (e[1], e[0]) for e in el] if not m.d else el
    check(isinstance(el, list) and same(norm, list(m.edges)), 'get_edge_list() is %s, should be %s', el, list(m.edges))
    check(g.get_edge_num() == len(m.edges), 'get_edge_num() is %s, should be %s', g.get_edge_num(), len(m.edges))
    for n in names:
        inside = n in m.nodes
        if not isinstance(n, tuple):                   # a tuple asked for with `in` means an edge
            check((n in g) is inside, '%r in graph: %s', n, n in g)
        nd = g.get_node(n)
        check((nd is not None) == inside, 'get_node(%r) is %r', n, nd)
        if not inside:
            continue
        check(nd.name == n, 'get_node(%r).name is %r', n, nd.name)
        w = m.nbrs(n)
        check(same(g.get_neighbors(n), w), 'get_neighbors(%r) is %s, should be %s', n, g.get_neighbors(n), w)
        check(same(g.get_out_neighbors(n), w), 'get_out_neighbors(%r) is %s, should be %s', n,
              g.get_out_neighbors(n), w)
        if m.d:
            check(same(g.get_in_neighbors(n), m.inn(n)), 'get_in_neighbors(%r) is %s, should be %s', n,
                  g.get_in_neighbors(n), m.inn(n))
        for a in attrs:
            check(g.get_node_attr(n, a) == m.nodes[n].get(a), 'node %r attribute %s is %r, should be %r', n, a,
                  g.get_node_attr(n, a), m.nodes[n].get(a))
            check(nd.get_attr(a) == m.nodes[n].get(a), 'Node.get_attr(%s) of %r is %r', a, n, nd.get_attr(a))
    for u in names:
        for v in names:
            k = m.key(u, v)
            check(bool(g.check_edge(u, v)) == (k is not None), 'check_edge(%r, %r) is %r', u, v, g.check_edge(u, v))
            check(((u, v) in g) == (k is not None), '(%r, %r) in graph is %r', u, v, (u, v) in g)
            if k is not None:
                for a in attrs:
                    if a in m.edges[k]:
                        x = g.get_edge_attr(u, v, a)
                        check(x == m.edges[k][a], 'edge (%r, %r) attribute %s is %r, should be %r', u, v, a, x,
                              m.edges[k][a])
                        if a == 'cost':
                            check(g.get_edge_cost((u, v)) == m.edges[k][a], 'get_edge_cost is wrong')
                    else:
                        try:
                            x = g.get_edge_attr(u, v, a)
                        except KeyError:
                            x = None
                        check(x is None, 'edge (%r, %r) has attribute %s = %r nobody set', u, v, a, x)
    deg = g.get_degrees()
    want = {n: len(m.nbrs(n)) + (len(m.inn(n)) if m.d else 0) for n in m.nodes}
    check(deg == want, 'get_degrees() is %s, should be %s', deg, want)
    if m.d:
        check(g.get_in_degrees() == {n: len(m.inn(n)) for n in m.nodes}, 'get_in_degrees() is %s', g.get_in_degrees())
        check(g.get_out_degrees() == {n: len(m.nbrs(n)) for n in m.nodes}, 'get_out_degrees() is %s',
              g.get_out_degrees())
    rows = dict()
    for line in (repr(g).split('\n') if m.nodes else []):
        a, b = line.split(' -> ', 1)
        rows[a] = b
    check(set(rows) == set(map(str, m.nodes)), 'repr lists nodes %s', sorted(rows))


def ops(names, directed, spell=True):
    """The alphabet: every node and edge operation on the given names."""
    r = [('an', n) for n in names] + [('dn', n) for n in names]
    ps = [(u, v) for u in names for v in names]
    r += [('ae', u, v) for u, v in ps] + [('de', u, v) for u, v in ps]
    return r


def apply(g, m, op, stamp=None):
    """Run one operation on graph and model; rejected operations must raise and change nothing."""
    import gimpy
    at = {} if stamp is None else {'x': stamp}
    kind = op[0]
    if kind == 'an':
        f, ok, exc = (lambda: g.add_node(op[1], **at)), op[1] not in m.nodes, gimpy.MultipleNodeException
    elif kind == 'dn':
        f, ok, exc = (lambda: g.del_node(op[1])), op[1] in m.nodes, Exception
    elif kind == 'ae':
        f, ok, exc = (lambda: g.add_edge(op[1], op[2], **at)), m.key(op[1], op[2]) is None, gimpy.MultipleEdgeException
    elif kind == 'de':
        f, ok, exc = (lambda: g.del_edge((op[1], op[2]))), m.key(op[1], op[2]) is not None, Exception
    elif kind == 'sn':
        f, ok, exc = (lambda: g.set_node_attr(op[1], op[2], op[3])), op[1] in m.nodes, Exception
    elif kind == 'se':
        f, ok, exc = (lambda: g.set_edge_attr(op[1], op[2], op[3], op[4])), m.key(op[1], op[2]) is not None, Exception
    if not ok:
        before = full(g)
        raises(exc, f, '%s' % (op,))
        after = full(g)
        check(before == after, 'rejected operation %s changed the graph: %s -> %s', op, before, after)
        return False
    r = f()
    if kind == 'an':
        m.add_node(op[1], at)
        check(r is g.get_node(op[1]), 'add_node returned %r', r)
    elif kind == 'dn':
        m.del_node(op[1])
    elif kind == 'ae':
        m.add_edge(op[1], op[2], at)
    elif kind == 'de':
        m.del_edge(op[1], op[2])
    elif kind == 'sn':
        m.nodes[op[1]][op[2]] = op[3]
    elif kind == 'se':
        m.edges[m.key(op[1], op[2])][op[3]] = op[4]
    return True


# attribute names the library or graphviz give a meaning to, and some they do not
ATTRS = ('x', 'label', 'color', 'cost', 'capacity', 'flow', 'demand', 'distance', 'component', 'excess', 'priority', 'depth',
         'pred', 'thread', 'potential', 'index', 'lowlink', 'disc_time', 'finish_time', 'visited', 'level', 'parent', 'Lchild',
         'Rchild', 'direction', 'pos', 'shape', 'style', 'weight', 'len', 'rank', 'type', 'display', 'layout', 'attr', 'key',
         'value', 'size', 'id', 'locationx', 'labelloc', 'fontsize', 'xlabel', 'a b', '0', '_x')


def full(g):
    """Everything observable about a graph through its public API, order included."""
    nl = g.get_node_list()
    el = g.get_edge_list()
    r = [tuple(map(repr, nl)), tuple(map(repr, el))]
    for n in nl:
        nd = g.get_node(n)
        r.append((repr(n), None if nd is None else repr(sorted((k, repr(v)) for k, v in nd.attr.items())),
                  repr(list(g.get_neighbors(n)))))
        if hasattr(g, 'in_neighbors'):
            r.append(repr(list(g.get_in_neighbors(n))))
    for e in el:
        r.append(repr(sorted((k, repr(v)) for k, v in g.edge_attr[e].items())))
    r.append(repr(sorted(g.nodes, key=repr)))
    r.append(repr(sorted(g.edge_attr, key=repr)))
    r.append(repr([(c, list(g.cluster[c]['node_list'])) for c in g.cluster]))
    r.append(repr(sorted((k, repr(v)) for k, v in g.attr.items())))
    return tuple(r)


def states(names, directed):
    """Every graph over subsets of the names, as (nodes, edges), in canonical insertion order."""
    for k in range(len(names) + 1):
        for ns in itertools.combinations(range(len(names)), k):
            ps = [(u, v) for u in ns for v in ns if directed or u <= v]
            for mask in range(1 << len(ps)):
                yield [list(ns), [list(p) for i, p in enumerate(ps) if mask >> i & 1]]


def make(directed, nodes, edges, at=None, cls=None):
    import gimpy
    cls = cls or gimpy.Graph
    g = cls(type=gimpy.DIRECTED_GRAPH if directed else gimpy.UNDIRECTED_GRAPH)
    m = GM(directed)
    for i, n in enumerate(nodes):
        a = {} if at is None else {'x': 'n%d' % i}
        g.add_node(G.fresh(n), **a)
        m.add_node(n, a)
    for i, (u, v) in enumerate(edges):
        a = {} if at is None else {'x': 'e%d' % i, 'cost': i}
        g.add_edge(G.fresh(u), G.fresh(v), **a)
        m.add_edge(u, v, a)
    return g, m
