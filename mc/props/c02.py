"""Rejected operations raise and change nothing."""
import itertools

from mc import graphs as G
from mc import graphops as O
from mc.core import Space, check
from mc.props.c01 import nm


def rejected(m, N):
    for n in N:
        if n in m.nodes:
            yield ('an', n)
        else:
            yield ('dn', n)
            yield ('sn', n, 'x', 'bad')
    for u in N:
        for v in N:
            if m.key(u, v) is not None:
                yield ('ae', u, v)
            else:
                yield ('de', u, v)
                yield ('se', u, v, 'x', 'bad')


def run(case, ctx):
    import gimpy
    d, scheme, k, (ns, es), clu = case
    N = nm(scheme, k)
    g, m = O.make(d, [N[i] for i in ns], [(N[u], N[v]) for u, v in es], True)
    if clu and ns:
        g.create_cluster([N[i] for i in ns], {'name': 'k', 'color': 'red'})
    for op in rejected(m, N):
        O.apply(g, m, tuple(G.fresh(x) for x in op), 'bad')       # raises unless rejected without effect
        ctx.step()
        ctx.outcome((op[0], d))
    before = O.full(g)
    for what, f in (('get_edge_attr of a missing edge', lambda: g.get_edge_attr('no', 'no2', 'x')),
                    ('get_node_attr of a missing node', lambda: g.get_node_attr('no', 'x')),
                    ('get_neighbors of a missing node', lambda: g.get_neighbors('no')),
                    ('get_in_neighbors of a missing node', lambda: g.get_in_neighbors('no')),
                    ('get_out_neighbors of a missing node', lambda: g.get_out_neighbors('no')),
                    ('edge_to_string of a missing edge', lambda: g.edge_to_string(('no', 'no2')))):
        O.raises(Exception, f, what)
        ctx.step()
    if clu and ns:
        O.raises(Exception, lambda: g.create_cluster([N[ns[0]]], {'name': 'k'}), 'a second cluster with the same name')
        ctx.step()
    if d:
        O.raises(Exception, g.label_components, 'label_components of a directed graph')
    else:
        O.raises(Exception, g.create_residual_graph, 'create_residual_graph of an undirected graph')
    ctx.step()
    check(O.full(g) == before, 'a rejected call changed the graph: %s -> %s', before, O.full(g))
    O.compare(g, m, N, ('x', 'cost'))
    ctx.state((d, scheme, repr(ns), repr(es), clu))


def run_tree(case, ctx):
    """Rejected tree operations: an occupied side, an existing name, a missing parent."""
    import gimpy
    shape, names = case
    t = gimpy.BinaryTree()
    N = nm(names, 7)
    t.add_root(N[0])
    have = [0]
    kids = {}
    for c, p, side in shape:
        (t.add_left_child if side == 'L' else t.add_right_child)(N[c], N[p])
        have.append(c)
        kids[(p, side)] = c
    before = O.full(t)
    for p in have:
        for side in 'LR':
            add = t.add_left_child if side == 'L' else t.add_right_child
            news = list(have) + ([6] if (p, side) in kids else [])
            for c in news:
                O.raises(Exception, lambda: add(N[c], N[p]), 'add_%s_child(%r, %r)' % (side, N[c], N[p]))
                check(O.full(t) == before, 'rejected add_%s_child(%r, %r) changed the tree: %s -> %s', side, N[c], N[p],
                      before, O.full(t))
                ctx.step()
    O.raises(Exception, lambda: t.add_left_child(N[6], 'nobody'), 'a child of a missing parent')
    O.raises(Exception, lambda: t.add_child(N[6], 'nobody'), 'a child of a missing parent')
    O.raises(Exception, lambda: t.add_child(N[have[-1]], N[0]), 'an existing child')
    for c in have:
        O.raises(Exception, lambda: t.add_root(N[c]), 'a root of a name that is taken')
    check(O.full(t) == before, 'a rejected operation changed the tree: %s -> %s', before, O.full(t))
    ctx.step(3)
    ctx.state(('tree', repr(shape), names))


def run_attrs(case, ctx):
    """Rejected additions that bring attributes, to elements that have these attributes, other ones, or none."""
    import gimpy
    d, loop, stored, given, v1, v2 = case
    T = gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH
    g = gimpy.Graph(type=T)
    at = {a: v1 for a in stored}
    u, v = ('u', 'u') if loop else ('u', 'v')
    g.add_node('u', **at)
    g.add_node('v', **at)
    g.add_edge(u, v, **at)
    g.add_edge('v', 'w', **at)
    before = O.full(g)
    new = {a: v2 for a in given}
    for what, exc, f in [('add_node', gimpy.MultipleNodeException, lambda: g.add_node('u', **new)),
                         ('add_edge', gimpy.MultipleEdgeException, lambda: g.add_edge(u, v, **new))] + (
                             [] if d else [('add_edge', gimpy.MultipleEdgeException, lambda: g.add_edge(v, u, **new))]):
        O.raises(exc, f, '%s of an existing one with attributes %s' % (what, sorted(new)))
        check(O.full(g) == before, 'a rejected %s with attributes %s changed the graph: %s -> %s', what, sorted(new),
              before, O.full(g))
        check(all(new[a] == v2 for a in new), 'attributes passed in changed')
        ctx.step()
    for cls in (gimpy.Tree, gimpy.BinaryTree):
        t = cls()
        skip = ('level', 'parent', 'direction', 'Lchild', 'Rchild')
        ta, tn = ({a: x[a] for a in x if a not in skip} for x in (at, new))
        t.add_root('r', **ta)
        add = [t.add_child] if cls is gimpy.Tree else [t.add_left_child, t.add_right_child]
        add[0]('l', 'r', **ta)
        add[-1]('k', 'r' if len(add) > 1 else 'l', **ta)
        before = O.full(t)
        for n in ('r', 'l', 'k'):
            for p in ('r', 'l', 'k', 'nobody'):
                for f in add:
                    O.raises(Exception, lambda: f(n, p, **tn), '%s(%r, %r) with attributes %s' % (f.__name__, n, p, sorted(tn)))
                    check(O.full(t) == before, 'a rejected %s with attributes %s changed the tree: %s -> %s', f.__name__,
                          sorted(tn), before, O.full(t))
                    ctx.step()
    ctx.state(repr(case))


def attr_cases():
    for d in (0, 1):
        for loop in (0, 1):
            for v1, v2 in (('a', 'b'), ('a', ''), (0, 1), (None, 'b')):
                for a in O.ATTRS:
                    yield [d, loop, [a], [a], v1, v2]
                    yield [d, loop, [a, 'label'], [a, 'label'], v1, v2]
                    yield [d, loop, [], [a], v1, v2]
                    yield [d, loop, ['x'], [a], v1, v2]
                yield [d, loop, list(O.ATTRS), list(O.ATTRS), v1, v2]
                yield [d, loop, list(O.ATTRS), [], v1, v2]


def run_flow(case, ctx):
    """find_feasible_flow refuses graphs with nodes named s or t and leaves them alone."""
    import gimpy
    names, demand = case
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH)
    for n, b in zip(names, demand):
        g.add_node(n, demand=b)
    g.add_edge(names[0], names[1], capacity=2, cost=1)
    before = O.full(g)
    O.raises(gimpy.MultipleNodeException, g.find_feasible_flow, 'find_feasible_flow with node names %s' % names)
    check(O.full(g) == before, 'rejected find_feasible_flow changed the graph: %s -> %s', before, O.full(g))
    ctx.step()
    ctx.state(repr(case))


def bin_shapes(n):
    """Every binary tree on nodes 0..n-1 (0 the root), as insertion lists."""
    def rec(shape, free):
        yield shape
        c = len(shape) + 1
        if c >= n:
            return
        for i, (p, s) in enumerate(free):
            for x in rec(shape + [[c, p, s]], free[i + 1:] + [(c, 'L'), (c, 'R')]):
                yield x
    return rec([], [(0, 'L'), (0, 'R')])


def spaces(tier):
    q = tier == 'quick'

    def st():
        for d in (0, 1):
            for sc in ('int', 'mix', 'tok', 'fal', 'tup', 'odd'):
                for k in (1, 2, 3):
                    for s in O.states(range(k), d):
                        for clu in (0, 1):
                            yield [d, sc, k, s, clu]
        for d in (0,) if q else (0, 1):
            for s in O.states(range(4), d):
                yield [d, 'int', 4, s, 0]

    return [Space('graphs', 'every graph on up to 3 names (and %s on 4), every operation its state rejects: existing '
                  'nodes and edges, missing nodes and edges, duplicate cluster names, wrong graph type'
                  % ('every undirected graph' if q else 'every graph'), st, run),
            Space('trees', 'every binary tree with up to %d nodes, every occupied side, existing name and missing parent'
                  % (5 if q else 6), lambda: ([s, nmx] for nmx in ('int', 'mix', 'fal') for s in bin_shapes(5 if q else 6)), run_tree),
            Space('attributes', 'rejected additions bringing each of %d attributes (those the library and graphviz use among '
                  'them), alone, with another, all together; present before, absent before' % len(O.ATTRS), attr_cases, run_attrs),
            Space('flows', 'find_feasible_flow on graphs that already have a node s or t',
                  lambda: ([list(p), [b, -b]] for p in itertools.permutations(['s', 't', 'u'], 2)
                           for b in (-1, 0, 1)), run_flow)]
