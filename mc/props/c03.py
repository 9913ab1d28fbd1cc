"""Attributes: last write wins, isolated, forgotten on deletion."""
import itertools

from mc import graphs as G
from mc import graphops as O
from mc.core import Space, check

V = ['v1', 0, None, [1]]


def alphabet(d):
    r = [('an', 0), ('an', 1), ('dn', 0), ('dn', 1), ('ae', 0, 1), ('ae', 1, 0), ('ae', 0, 0), ('de', 0, 1), ('de', 1, 0)]
    r += [('sn', i, a, v) for i in (0, 1) for a, v in (('x', 'p'), ('x', 0), ('y', 'q'))]
    r += [('se', u, v, a, w) for u, v in ((0, 1), (1, 0), (0, 0)) for a, w in (('x', 'p'), ('x', 0), ('y', 'q'))]
    return r


def ok(m, op):
    k = op[0]
    if k == 'an':
        return op[1] not in m.nodes
    if k in ('dn', 'sn'):
        return op[1] in m.nodes
    if k == 'ae':
        return m.key(op[1], op[2]) is None
    return m.key(op[1], op[2]) is not None


def mstep(m, op, at):
    k = op[0]
    if k == 'an':
        m.add_node(op[1], at)
    elif k == 'dn':
        m.del_node(op[1])
    elif k == 'ae':
        m.add_edge(op[1], op[2], at)
    elif k == 'de':
        m.del_edge(op[1], op[2])
    elif k == 'sn':
        m.nodes[op[1]][op[2]] = op[3]
    else:
        m.edges[m.key(op[1], op[2])][op[3]] = op[4]


def histories(d, depth):
    al = alphabet(d)

    def rec(m, seq):
        if len(seq) == depth:
            yield [d, seq]
            return
        for op in al:
            if not ok(m, op):
                continue
            t = O.GM(d)
            t.nodes = {n: dict(a) for n, a in m.nodes.items()}
            t.edges = {e: dict(a) for e, a in m.edges.items()}
            mstep(t, op, {})
            for x in rec(t, seq + [list(op)]):
                yield x
    return rec(O.GM(d), [])


def run(case, ctx):
    """The history runs on one graph while an untouched twin and a second graph stay as they were."""
    import gimpy
    d, seq = case
    T = gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH
    other = gimpy.Graph(type=T)
    other.add_edge('a', 'b', x=1)
    keep = O.full(other)
    for with_attr in (0, 1):
        g, m = gimpy.Graph(type=T), O.GM(d)
        given = {'x': 'given'} if with_attr else {}
        for op in seq:
            at = {'x': 'given'} if with_attr and op[0] in ('an', 'ae') else {}
            tgt = tuple(op)
            O.apply(g, m, tgt, 'given' if at else None)
            ctx.step()
        O.compare(g, m, (0, 1), ('x', 'y', 'label', 'color'))
        check(given in ({}, {'x': 'given'}), 'the attribute dictionary of the caller changed')
    check(O.full(other) == keep, 'another graph changed: %s', O.full(other))
    fresh = gimpy.Graph(type=T)
    n = fresh.add_node('z')
    fresh.add_edge('z', 'w')
    check(n.attr == {} and fresh.edge_attr[('z', 'w')] == {}, 'a new graph starts with attributes %s, %s', n.attr,
          fresh.edge_attr)
    ctx.state((d, repr(seq)))
    ctx.outcome(len(m.nodes) * 10 + len(m.edges))


def run_values(case, ctx):
    """Values of every kind come back as they were set, on nodes, edges and the graph itself."""
    import gimpy
    d, k1, k2 = case
    vals = ['', 'a b', 0, 0.0, False, None, -1, 1.5, 'None', (1, 2)]
    v1, v2 = vals[k1], vals[k2]
    T = gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH
    g = gimpy.Graph(type=T, splines=v1)
    check(g.attr['splines'] is v1 or g.attr['splines'] == v1, 'graph attribute is %r, should be %r', g.attr['splines'], v1)
    g.add_node('n', x=v1)
    g.add_node('m')
    g.add_edge('n', 'm', x=v1)

    def expect(a, b):
        for got, want in ((g.get_node_attr('n', 'x'), a), (g.get_node('n').get_attr('x'), a),
                          (g.get_edge_attr('n', 'm', 'x'), b)):
            check(type(got) is type(want) and got == want, 'attribute is %r, should be %r', got, want)
        if not d:
            got = g.get_edge_attr('m', 'n', 'x')
            check(type(got) is type(b) and got == b, 'attribute is %r, should be %r', got, b)
        check(g.get_node_attr('m', 'x') is None, 'attribute of another node is %r', g.get_node_attr('m', 'x'))
        ctx.step()
    expect(v1, v1)
    g.set_node_attr('n', 'x', v2)
    expect(v2, v1)
    g.set_edge_attr('n', 'm', 'x', v2)
    expect(v2, v2)
    g.get_node('n').set_attr('x', v1)
    expect(v1, v2)
    if not d:
        g.set_edge_attr('m', 'n', 'x', v1)
        expect(v1, v1)
    ctx.state(repr(case))


def run_names(case, ctx):
    """Every attribute name is treated alike: on nodes, edges and tree nodes; set, overwritten, isolated, forgotten."""
    import gimpy
    d, a, v1, v2, cls = case
    T = gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH
    b = 'y' if a == 'x' else 'x'
    g = gimpy.Graph(type=T) if cls == 'Graph' else getattr(gimpy, cls)()
    at = {a: v1}

    def build():
        if cls == 'Graph':
            g.add_node('n', **at)
            g.add_node('m')
            g.add_edge('n', 'm', **at)
            g.add_edge('n', 'n')
        else:
            g.add_root('n', **at)
            (g.add_child if cls == 'Tree' else g.add_right_child)('m', 'n')
            g.set_edge_attr('n', 'm', a, v1)

    def same(x, y):
        return type(x) is type(y) and x == y

    def expect(vn, ve, what):
        got = g.get_node_attr('n', a)
        check(same(got, vn), 'after %s: node attribute %s is %r, should be %r', what, a, got, vn)
        check(same(g.get_node('n').get_attr(a), vn), 'after %s: Node.get_attr(%s) is %r', what, a, g.get_node('n').get_attr(a))
        for e in [('n', 'm')] + ([] if d or cls != 'Graph' else [('m', 'n')]):
            got = g.get_edge_attr(e[0], e[1], a)
            check(same(got, ve), 'after %s: edge attribute %s is %r, should be %r', what, a, got, ve)
        check(g.get_node_attr('m', a) is None, 'after %s: another node has %s = %r', what, a, g.get_node_attr('m', a))
        check(g.get_node_attr('n', b) is None, 'after %s: node has %s = %r', what, b, g.get_node_attr('n', b))
        if cls == 'Graph':
            check(g.edge_attr[('n', 'n')] == {}, 'after %s: another edge has %s', what, g.edge_attr[('n', 'n')])
        ctx.step()
    build()
    check(at == {a: v1}, 'the attribute dictionary of the caller changed: %s', at)
    expect(v1, v1, 'creation')
    g.set_node_attr('n', a, v2)
    expect(v2, v1, 'set_node_attr')
    g.set_edge_attr('n', 'm', a, v2)
    expect(v2, v2, 'set_edge_attr')
    g.get_node('n').set_attr(a, v1)
    expect(v1, v2, 'Node.set_attr')
    if not d and cls == 'Graph':
        g.set_edge_attr('m', 'n', a, v1)
        expect(v1, v1, 'set_edge_attr, ends swapped')
    if cls == 'Graph':
        g.del_edge(('n', 'm'))
        g.add_edge('n', 'm')
        check(g.edge_attr[('n', 'm')] == {}, 'an edge added again has attributes %s', g.edge_attr[('n', 'm')])
        g.set_edge_attr('n', 'm', a, v1)
        g.del_node('n')
        g.add_node('n')
        check(g.get_node('n').attr == {} and g.get_node_attr('n', a) is None, 'a node added again has attributes %s',
              g.get_node('n').attr)
        g.add_edge('n', 'm')
        check(g.edge_attr[('n', 'm')] == {}, 'an edge added again has attributes %s', g.edge_attr[('n', 'm')])
        ctx.step(2)
    ctx.state(repr(case))


def name_cases():
    vals = (('p', 'q'), (0, 1), (1, 0), ('', 'p'), (None, 'p'), ('p', None), (2.5, -1), (False, True))
    for cls, ds in (('Graph', (0, 1)), ('Tree', (1,)), ('BinaryTree', (1,))):
        for d in ds:
            for a in O.ATTRS:
                if cls != 'Graph' and a in ('level', 'parent', 'direction', 'Lchild', 'Rchild'):
                    continue
                for v1, v2 in vals:
                    yield [d, a, v1, v2, cls]


def spaces(tier):
    q = tier == 'quick'
    dep = (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6)
    return [Space('histories', 'every accepted history of %d operations on 2 names (nodes, edges incl. a self-loop, '
                  'attribute writes, deletions), with and without creation attributes' % dep[-1],
                  lambda: itertools.chain(*[histories(d, k) for d in (0, 1) for k in dep]), run),
            Space('names', 'each of %d attribute names x 8 pairs of values on graphs, trees and binary trees: creation, '
                  'overwriting, isolation, deletion' % len(O.ATTRS), name_cases, run_names),
            Space('values', 'every pair of 10 attribute values on graph, node and edge',
                  lambda: ([d, a, b] for d in (0, 1) for a in range(10) for b in range(10)), run_values)]
