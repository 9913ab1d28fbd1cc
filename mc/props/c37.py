"""Pictures of flow algorithms: every displayed state shows the flow it has, and the flow is a legal one."""
import contextlib
import io
import itertools

from mc import algos as A
from mc import graphs as G
from mc import std
from mc.core import Space, check
from mc.props import c18, c20, c21

INF = 10000
FLOW = ('DFS', 'BFS', 'FIFO', 'SAP', 'HighestLabel')


def numbers(text):
    return str(text).strip('"').split('/')


def shown_number(x):
    return None if x == 'INF' else float(x)


def label_ok(label, cap, flow, what):
    p = numbers(label)
    check(len(p) >= 2, '%s: label is %r', what, label)
    c, f = p[0], p[1]
    check(shown_number(f) == flow, '%s: label %r shows flow %s, the flow is %s', what, label, f, flow)
    check((c == 'INF' and cap == INF) or shown_number(c) == cap, '%s: label %r shows capacity %s, it is %s', what, label, c, cap)


def observer(m, algo, s):
    """The check of one displayed state of max_flow or max_flow_preflowpush from source number s."""
    push = algo not in ('DFS', 'BFS')

    def look(g):
        ex = {}
        for e in g.edge_attr:
            at = g.edge_attr[e]
            label_ok(at['label'], at['capacity'], at['flow'], 'displayed state %d of %s, arc %s' % (g.frames, algo, e))
            if push and g.frames > 1:
                want = 'red' if at['flow'] == at['capacity'] else 'green' if at['flow'] > 0 else 'black'
                check(at['color'] == want, 'displayed state %d of %s: arc %s with flow %s of %s is %s', g.frames, algo,
                      e, at['flow'], at['capacity'], at['color'])
            ex[e[1]] = ex.get(e[1], 0) + at['flow']
            ex[e[0]] = ex.get(e[0], 0) - at['flow']
        for n in g.get_node_list():
            lab = g.get_node_attr(n, 'label')
            x = ex.get(n, 0)
            if push and lab is not None and '/' in str(lab) and g.frames > 1:
                check(float(numbers(lab)[0]) == x, 'displayed state %d of %s: label %r of node %s, its excess is %s',
                      g.frames, algo, lab, n, x)
            if push and n != m.name(s):
                check(x >= 0, 'displayed state %d of %s: more flow leaves node %s than enters', g.frames, algo, n)
    return look


def flow_run(g, m, s, t, algo):
    if algo in ('DFS', 'BFS'):
        g.max_flow(m.name(s), m.name(t), algo=algo)
    else:
        g.max_flow_preflowpush(m.name(s), m.name(t), algo=algo)


def printed_flow(g, what):
    """print_flow lists the arcs that carry flow, with the flow and the capacity, and no others."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        g.print_flow()
    lines = [' '.join(x.split()) for x in buf.getvalue().split('\n') if x.startswith('(')]
    want = [' '.join(('%s %s %s' % (e, at['flow'], at['capacity'])).split()) for e, at in g.edge_attr.items() if at['flow']]
    check(sorted(lines) == sorted(want), '%s: print_flow prints %s, the flow is %s', what, sorted(lines), sorted(want))


def pairs(m):
    if 'st' in m.spec:
        yield m.spec['st']
        return
    for s in range(m.n):
        for t in range(m.n):
            if s != t and (m.n <= 3 or (s, t) in ((0, m.n - 1), (m.n - 1, 0), (1, 0))):
                yield s, t


def run_flow(case, ctx):
    m = G.M(case)
    for s, t in pairs(m):
        for algo in FLOW:
            look = observer(m, algo, s)
            g = G.build(case, std.frame_class(look))
            flow_run(g, m, s, t, algo)
            ctx.step()
            ctx.frames += g.frames
            look(g)                                   # what a caller displaying the answer sees
            printed_flow(g, algo)
            ctx.outcome('%s %s' % (algo, 'few' if g.frames < 10 else 'many'))
            ctx.state((repr(case), s, t, algo))


def run_again(case, ctx):
    """A second run on the same graph, whose pictures must not show the first one's."""
    m = G.M(case)
    for (s, t), (s2, t2) in itertools.product(pairs(m), repeat=2):
        for first, algo in itertools.product(FLOW, repeat=2):
            cell = []
            g = G.build(case, std.frame_class(lambda g: cell and cell[0](g)))
            flow_run(g, m, s, t, first)
            g.frames = 0
            cell.append(observer(m, algo, s2))
            flow_run(g, m, s2, t2, algo)
            ctx.step(2)
            ctx.frames += g.frames
            cell[0](g)
            printed_flow(g, algo)
    ctx.state(('again', repr(case)))


def run_simplex(case, ctx):
    m = G.M(case)
    b = A.demands(m)
    if not (A.mcf_connected(m) and G.feasible(m, b)):
        return
    for root in range(m.n):
        for pivot in ('dantzig', 'first_eligible'):
            last = []

            def look(g):
                what = 'displayed state %d of network_simplex' % (g.frames)
                f = {}
                for u, v in m.edges:
                    e = (m.name(u), m.name(v))
                    at = g.edge_attr[e]
                    x = f[(u, v)] = at['flow']
                    check(0 <= x <= at['capacity'], '%s: flow %s on arc %s of capacity %s', what, x, e, at['capacity'])
                    p = numbers(at['label'])
                    check([float(z) for z in p] == [x, at['capacity'], at['cost']],
                          '%s: label %r of arc %s, which has flow/capacity/cost %s/%s/%s', what, at['label'], e, x,
                          at['capacity'], at['cost'])
                check(len(g.edge_attr) == len(m.edges), '%s has arcs %s', what, g.get_edge_list())
                check(A.net(m, f) == list(b), '%s: the flow shown does not meet the demands', what)
                c = sum(f[e] * m.attrs[e]['cost'] for e in f)
                check(not last or c <= last[-1], '%s: the cost went up from %s to %s', what, last and last[-1], c)
                last.append(c)
            g = G.build(case, std.frame_class(look, 'off'))
            r = g.network_simplex('file', pivot, m.name(root))
            check(r is True, 'network_simplex returned %r', r)
            look(g)
            basis(m, g)
            ctx.step()
            ctx.frames += g.frames
            ctx.outcome('simplex %d' % min(g.frames // 4, 6))
            ctx.state((repr(case), root, pivot))


def basis(m, g):
    """In the final picture the blue arcs are a spanning tree and every other arc is empty or full."""
    blue = [e for e in g.edge_attr if g.edge_attr[e]['color'] == 'blue']
    check(len(blue) == m.n - 1, 'the final picture has %s tree arcs (blue) for %s nodes: %s', len(blue), m.n, blue)
    joined = {m.name(0)}
    for _ in range(m.n):
        for u, v in blue:
            if (u in joined) != (v in joined):
                joined |= {u, v}
    check(len(joined) == m.n, 'the blue arcs %s of the final picture are not a spanning tree', blue)
    for e in g.edge_attr:
        at = g.edge_attr[e]
        check(e in blue or at['flow'] in (0, at['capacity']), 'arc %s is not in the tree and has flow %s of %s', e, at['flow'],
              at['capacity'])


def spaces(tier):
    q = tier == 'quick'
    D, L = c20.with_demands, c21.L
    r = [Space('flow3', 'all digraphs without antiparallel arcs on 2..3 nodes, capacities 1, 2.5 or none given, every source and '
               'sink, five algorithms, every displayed state',
               lambda: (s for n in (2, 3) for s in G.all_oriented(n, [{'capacity': 1}, {'capacity': 2.5}, {}])), run_flow),
         Space('flow4', '4-node digraphs, arcs up only, capacities 1, 3, both insertion orders, three choices of source and sink',
               lambda: ({'d': 1, 'n': 4, 'e': s['e'][::o]} for o in (1, -1)
                        for s in G.all_graphs(4, False, [{'capacity': 1}, {'capacity': 3}])), run_flow),
         Space('flow-families', 'named digraph families of 5..%d nodes without antiparallel arcs, capacities 1, 2, 4' % (6 if q else 8),
               lambda: (s for s in G.families(True, [{'capacity': 1}, {'capacity': 2}, {'capacity': 4}],
                                              (5, 6) if q else (5, 6, 7, 8)) if A.flow_net(G.M(s))), run_flow),
         Space('simplex3', 'all connected 3-node digraphs without antiparallel arcs, (capacity, cost) in (1,2) (2,-1) (3,1), '
               'balanced demands -2..2: every displayed state of network_simplex, every root and pivot rule',
               lambda: D(G.all_oriented(3, L((1, 2), (2, -1), (3, 1))), range(-2, 3), 0), run_simplex),
         Space('simplex4', '4-node digraphs, arcs up only, (capacity, cost) in (1,1) (2,3), 1 or 2 units from first to last',
               lambda: ({'d': 1, 'n': 4, 'e': s['e'], 'na': {'demand': [k, 0, 0, -k]}}
                        for k in (1, 2) for s in G.all_graphs(4, False, L((1, 1), (2, 3)))), run_simplex)]
    r += [Space('simplex3half', '3-node digraphs without antiparallel arcs, (capacity, cost) in (0.5,1.5) (1.25,-0.75), demands in quarters; '
                '(capacity, cost) in (0,1) (2,-1) (2,2), demands -1..1',
                lambda: itertools.chain(D(G.all_oriented(3, L((0.5, 1.5), (1.25, -0.75))), (-1, -0.5, -0.25, 0, 0.25, 0.5, 1), 0),
                                        D(G.all_oriented(3, L((0, 1), (2, -1), (2, 2))), range(-1, 2), 0)), run_simplex),
          Space('hubs', '4-node digraphs without antiparallel arcs, ample capacities, demands -2, 1, -2, 3 on any nodes: initial flows '
                'that are not trees', lambda: c21.hubs(c21.HUBS[:1], (0,)), run_simplex)]
    z = [{'capacity': 0}, {'capacity': 12000}, {'capacity': 2}, {}]
    r += [Space('flow3ends', 'all digraphs without antiparallel arcs on 2..3 nodes, capacities 0, 2, 12000 or none given',
                lambda: (s for n in (2, 3) for s in G.all_oriented(n, z)), run_flow),
          Space('flow4inf', '4-node digraphs, arcs up only, capacity 1 or none given, both insertion orders',
                lambda: ({'d': 1, 'n': 4, 'e': s['e'][::o]} for o in (1, -1) for s in G.all_graphs(4, False, [{'capacity': 1}, {}])),
                run_flow),
          Space('zigzag', 'two 6-node networks in which augmenting paths have to be undone, capacities 1, 2 or none given, several '
                'adjacency orders', lambda: c18.zigzag([{'capacity': 1}, {'capacity': 2}, {}], [{'capacity': 1}, {}]), run_flow),
          Space('flow-again', 'all digraphs without antiparallel arcs on 2..3 nodes, capacities 1, 3: every run followed by every '
                'other on the same graph', lambda: (s for n in (2, 3) for s in G.all_oriented(n, [{'capacity': 1}, {'capacity': 3}])),
                run_again)]
    if not q:
        r.append(Space('transport', 'every 2 x 3 transportation problem with unit costs 0, 1, 3 on every arc, capacity 2',
                       lambda: c21.transport(2, 3, (0, 1, 3), 2), run_simplex))
        r.append(Space('flow4all', 'all 4-node digraphs without antiparallel arcs, capacities 1, 2',
                       lambda: G.all_oriented(4, [{'capacity': 1}, {'capacity': 2}]), run_flow))
    return r
