"""The steps of network simplex, one by one, from every spanning tree solution; both cost minimisers from every feasible flow."""
import itertools

from mc import algos as A
from mc import graphs as G
from mc.core import Space, check, freeze
from mc.props.c21 import L


# -- the reference -----------------------------------------------------------

def acyclic(n, arcs):
    p = list(range(n))

    def find(i):
        while p[i] != i:
            i = p[i]
        return i
    for u, v in arcs:
        u, v = find(u), find(v)
        if u == v:
            return False
        p[u] = v
    return True


def trees(n, arcs):
    """Every spanning tree (as a set of arcs, directions ignored)."""
    for c in itertools.combinations(arcs, n - 1):
        if acyclic(n, c):
            yield c


def depths(n, tree, root):
    """Parent and depth of every node in the tree hung from the root."""
    par, dep, q = {root: None}, {root: 0}, [root]
    for u in q:
        for a, b in tree:
            for x, y in ((a, b), (b, a)):
                if x == u and y not in par:
                    par[y], dep[y] = u, dep[u] + 1
                    q.append(y)
    return par, dep


def tree_path(tree, n, s, t):
    par, dep = depths(n, tree, t)
    p = [s]
    while p[-1] != t:
        p.append(par[p[-1]])
    return p


def potentials(m, tree, root):
    """Numbers making the reduced cost c - p(tail) + p(head) of every tree arc zero, 0 at the root."""
    par, dep = depths(m.n, tree, root)
    p = {root: 0}
    for u in sorted(par, key=dep.get):
        v = par[u]
        if v is not None:
            p[u] = p[v] - m.attrs[(v, u)]['cost'] if (v, u) in m.attrs else p[v] + m.attrs[(u, v)]['cost']
    return p


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


# -- putting the real objects into a state -------------------------------------

def plant(m, spec, f, tree=None):
    """The network with flow f and, if asked for, the tree as simplex_find_tree would return it."""
    import gimpy
    g = G.build(spec)
    for e in m.edges:
        g.set_edge_attr(m.name(e[0]), m.name(e[1]), 'flow', f[e])
    if tree is None:
        return g
    t = gimpy.Graph(type=gimpy.DIRECTED_GRAPH)
    for i in range(m.n):
        t.add_node(m.name(i))
    for e in m.edges:
        at = m.attrs[e]
        lab = '%s/%s/%s' % (f[e], at['capacity'], at['cost'])
        g.set_edge_attr(m.name(e[0]), m.name(e[1]), 'label', lab)
        if e in tree:
            t.add_edge(m.name(e[0]), m.name(e[1]), flow=f[e], capacity=at['capacity'], cost=at['cost'], label=lab)
    return g, t


def flow(m, g):
    return {e: g.get_edge_attr(m.name(e[0]), m.name(e[1]), 'flow') for e in m.edges}


def arcs_of(m, g):
    return {(m.idx(u), m.idx(v)) for u, v in g.get_edge_list()}


def legal(m, f, b, what):
    for e in m.edges:
        check(-1e-9 <= f[e] <= m.attrs[e]['capacity'] + 1e-9, '%s: flow %s on arc %s of capacity %s', what, f[e], e,
              m.attrs[e]['capacity'])
    check(all(close(x, y) for x, y in zip(A.net(m, f), b)), '%s: the nodes send out %s, before it was %s', what, A.net(m, f), b)


def untouched(m, g, what):
    check(arcs_of(m, g) == set(m.edges) and g.get_node_num() == m.n, '%s changed the network', what)
    for e in m.edges:
        for a in ('capacity', 'cost'):
            check(g.get_edge_attr(m.name(e[0]), m.name(e[1]), a) == m.attrs[e][a], '%s changed the %s of %s', what, a, e)


# -- one step from one state -----------------------------------------------------

def indexed(m, t, tree, root, what):
    par, dep = depths(m.n, tree, root)
    pred = t.simplex_search(m.name(root), 7)
    check({m.idx(x): (None if y is None else m.idx(y)) for x, y in pred.items()} == par,
          '%s: simplex_search from %s returns %s, the parents are %s', what, root, pred, par)
    seq = [root]
    for i in range(m.n):
        at = t.get_node(m.name(i)).attr
        p = at['pred']
        check((None if p is None else m.idx(p)) == par[i] and at['depth'] == dep[i],
              '%s: node %s has pred %s and depth %s', what, i, p, at['depth'])
        check(at['component'] == 7, '%s: node %s is in component %s', what, i, at['component'])
    while len(seq) <= m.n:
        seq.append(m.idx(t.get_node(m.name(seq[-1])).attr['thread']))
        if seq[-1] == root:
            break
    check(sorted(seq[:-1]) == list(range(m.n)) and seq[-1] == root, '%s: the thread is %s', what, seq)
    # a parent comes before its children and a subtree is one piece of the thread
    at = {u: i for i, u in enumerate(seq[:-1])}
    size = {u: 1 for u in par}
    for u in sorted(par, key=dep.get, reverse=True):
        if par[u] is not None:
            size[par[u]] += size[u]
    for u in par:
        below = [v for v in par if in_subtree(par, v, u)]
        check(sorted(at[v] for v in below) == list(range(at[u], at[u] + size[u])), '%s: thread %s is no preorder', what, seq)


def in_subtree(par, v, u):
    while v is not None:
        if v == u:
            return True
        v = par[v]
    return False


def priced(m, g, t, tree, root, what):
    g.simplex_compute_potentials(t, m.name(root))
    p = potentials(m, tree, root)
    for i in range(m.n):
        x = g.get_node(m.name(i)).attr['potential']
        check(close(x, p[i]), '%s: potential of %s is %s, should be %s', what, i, x, p[i])
    return p


def violations(m, f, tree, p):
    r = {}
    for e in m.edges:
        at = m.attrs[e]
        if e in tree or not at['capacity']:
            continue
        c = at['cost'] - p[e[0]] + p[e[1]]
        if f[e] == 0 and c < 0 or f[e] == at['capacity'] and c > 0:
            r[e] = abs(c)
    return r


def one_state(m, spec, f, tree, root, ctx):
    what = 'flow %s, tree %s, root %s' % (sorted(f.items()), tree, root)
    b = A.net(m, f)
    g, t = plant(m, spec, f, tree)
    g.simplex_mark_st_arcs(t)
    colours(m, g, tree, what)
    indexed(m, t, tree, root, what)
    p = priced(m, g, t, tree, root, what)
    V = violations(m, f, tree, p)
    opt = g.simplex_optimal(t)
    check(bool(opt) == (not V), '%s: simplex_optimal says %r, violated are %s', what, opt, V)
    check(flow(m, g) == f and arcs_of(m, t) == set(tree), '%s: looking for violated arcs changed the solution', what)
    ctx.step(4)
    if V:
        for pivot in ('dantzig', 'first_eligible'):
            k, l = g.simplex_select_entering_arc(t, pivot)
            e = (m.idx(k), m.idx(l))
            check(e in V, '%s: entering arc %s (%s), violated are %s', what, e, pivot, V)
            check(pivot == 'dantzig' or e == [x for x in m.edges if x in V][0], '%s: entering arc %s, violated are %s', what, e, V)
            check(pivot != 'dantzig' or close(V[e], max(V.values())), '%s: entering arc %s, the violations are %s', what, e, V)
            ctx.step()
    redraw(m, t, f, tree, root, what)
    for e in V:
        pivot_on(m, spec, f, tree, root, e, V[e], b, what, ctx)
    ctx.outcome('%d violated' % len(V))


def colours(m, g, tree, what):
    for u, v in m.edges:
        c = g.get_edge_attr(m.name(u), m.name(v), 'color')
        check((c == 'blue') == ((u, v) in tree), '%s: arc %s is %s', what, (u, v), c)


def redraw(m, t, f, tree, root, what):
    new = t.simplex_redraw('off', m.name(root))
    check(new is not t and arcs_of(m, new) == set(tree) and new.get_node_num() == m.n, '%s: simplex_redraw returns another tree', what)
    for e in tree:
        at = new.edge_attr[(m.name(e[0]), m.name(e[1]))]
        check((at['flow'], at['capacity'], at['cost']) == (f[e], m.attrs[e]['capacity'], m.attrs[e]['cost']),
              '%s: simplex_redraw gives arc %s %s', what, e, at)


def pivot_on(m, spec, f, tree, root, e, gain, b, what, ctx):
    what = '%s, entering arc %s' % (what, e)
    g, t = plant(m, spec, f, tree)
    t.simplex_search(m.name(root), 1)
    g.simplex_compute_potentials(t, m.name(root))
    k, l = m.name(e[0]), m.name(e[1])
    g.simplex_mark_entering_arc(k, l)
    want = tree_path(tree, m.n, e[1], e[0])          # from the head back to the tail
    cyc = [m.idx(x) for x in g.simplex_identify_cycle(t, k, l)]
    check(same_cycle(cyc, want), '%s: the cycle is given as %s, it is %s', what, cyc, want)
    (p, q), cap, cycle = g.simplex_determine_leaving_arc(t, k, l)
    # pushing flow along e if it is empty, against it if it is full
    path = [e[0]] + want
    sign = {}
    for x, y in zip(path, path[1:]):
        a, s = ((x, y), 1) if (x, y) in m.attrs and ((x, y) in tree or (x, y) == e) else ((y, x), -1)
        sign[a] = s if f[e] == 0 else -s
    room = {a: m.attrs[a]['capacity'] - f[a] if s > 0 else f[a] for a, s in sign.items()}
    out = (m.idx(p), m.idx(q))
    check(cap == min(room.values()), '%s: capacity of the cycle is %s, the room is %s', what, cap, room)
    check(out in room and room[out] == cap, '%s: leaving arc %s, the room is %s', what, out, room)
    check(same_cycle([m.idx(x) for x in cycle], want), '%s: the cycle is given as %s, it is %s', what, cycle, want)
    g.simplex_mark_leaving_arc(p, q)
    g.simplex_remove_arc(t, p, q, cap, cycle)
    h = flow(m, g)
    after = {a: f[a] + cap * sign.get(a, 0) for a in f}
    check(h == after, '%s, leaving arc %s: flow becomes %s, should be %s', what, out, h, after)
    legal(m, h, b, what)
    new = (set(tree) | {e}) - {out}
    check(arcs_of(m, t) == new and t.get_node_num() == m.n, '%s, leaving arc %s: the tree becomes %s', what, out, t.get_edge_list())
    check(acyclic(m.n, new), '%s, leaving arc %s: no tree is left', what, out)
    old, now = [sum(x[a] * m.attrs[a]['cost'] for a in x) for x in (f, h)]
    check(close(old - now, cap * gain), '%s: the cost goes from %s to %s, expected gain %s', what, old, now, cap * gain)
    for a in m.edges:
        at = m.attrs[a]
        check(a in new or h[a] in (0, at['capacity']), '%s: arc %s is not in the tree and has flow %s', what, a, h[a])
        lab = '%s/%s/%s' % (h[a], at['capacity'], at['cost'])
        na = (m.name(a[0]), m.name(a[1]))
        check(g.edge_attr[na]['label'] == lab or h[a] == f[a] and a not in new, '%s: label of %s is %r, should be %r', what, a,
              g.edge_attr[na]['label'], lab)
        if a in new:
            ta = t.edge_attr[na]
            check((ta['flow'], ta['capacity'], ta['cost'], ta['label']) == (h[a], at['capacity'], at['cost'], lab),
                  '%s: the tree has arc %s with %s, the flow is %s', what, a, ta, h[a])
    untouched(m, g, 'a pivot')
    g.simplex_mark_st_arcs(t)
    colours(m, g, new, what)
    ctx.step(4)
    ctx.outcome(('pivot', cap == 0, out == e))


def same_cycle(a, b):
    """The same cyclic sequence, either way round."""
    if sorted(a) != sorted(b):
        return False
    n = len(a)
    for c in (b, b[::-1]):
        i = c.index(a[0])
        if c[i:] + c[:i] == a:
            return True
    return False


def values(at, k):
    c = at['capacity']
    r, x = [0], c / k
    while x < c:
        r.append(int(x) if int(x) == x else x)
        x += c / k
    return r + ([c] if c else [])


def run_steps(case, ctx):
    m = G.M(case)
    k = case.get('grid', 2)
    roots = range(m.n) if m.n <= 3 else (0, m.n - 1)
    i = 0
    for tree in trees(m.n, m.edges):
        opts = [values(m.attrs[e], k) if e in tree else sorted({0, m.attrs[e]['capacity']}) for e in m.edges]
        for x in itertools.product(*opts):
            f = dict(zip(m.edges, x))
            i += 1
            for root in roots if m.n <= 3 else (roots[i % 2],):
                one_state(m, case, f, tree, root, ctx)
            ctx.state((repr(case), tree, x))


# -- trees out of flows ------------------------------------------------------------

def run_trees(case, ctx):
    """simplex_find_tree and what it uses, from every flow within the bounds (for its own net demands)."""
    m = G.M(case)
    k = case.get('grid', 2)
    for x in itertools.product(*[values(m.attrs[e], k) for e in m.edges]):
        f = dict(zip(m.edges, x))
        what = 'flow %s' % sorted(f.items())
        b = A.net(m, f)
        g = plant(m, case, f)
        s = g.get_simplex_solution_graph()
        between = {e for e in m.edges if 0 < f[e] < m.attrs[e]['capacity']}
        check(arcs_of(m, s) == between and s.get_node_num() == m.n, '%s: solution graph has arcs %s', what, s.get_edge_list())
        cyc = s.simplex_find_cycle()
        check((cyc is None) == acyclic(m.n, between), '%s: simplex_find_cycle returns %s', what, cyc)
        if cyc is not None:
            c = [m.idx(y) for y in cyc]
            pairs = list(zip(c, c[1:] + c[:1]))
            check(len(set(c)) == len(c) > 2 and all((u, v) in between or (v, u) in between for u, v in pairs),
                  '%s: simplex_find_cycle returns %s', what, cyc)
            for d in (c, c[::-1]):
                room = [m.attrs[(u, v)]['capacity'] - f[(u, v)] if (u, v) in m.attrs else f[(v, u)]
                        for u, v in zip(d, d[1:] + d[:1])]
                got = g.simplex_augment_cycle([m.name(y) for y in d])
                check(got == min(room), '%s: room on cycle %s is given as %s, it is %s', what, d, got, min(room))
        check(flow(m, g) == f, '%s: looking for a cycle changed the flow', what)
        t = g.simplex_find_tree()
        h = flow(m, g)
        legal(m, h, b, 'simplex_find_tree from ' + what)
        tree = arcs_of(m, t)
        check(tree <= set(m.edges) and len(tree) == m.n - 1 and acyclic(m.n, tree) and t.get_node_num() == m.n,
              '%s: simplex_find_tree returns %s', what, t.get_edge_list())
        for e in m.edges:
            at = m.attrs[e]
            check(e in tree or h[e] in (0, at['capacity']), '%s: arc %s is not in the tree %s and has flow %s', what, e, tree, h[e])
            lab = '%s/%s/%s' % (h[e], at['capacity'], at['cost'])
            na = (m.name(e[0]), m.name(e[1]))
            check(g.edge_attr[na]['label'] == lab, '%s: label of %s is %r', what, e, g.edge_attr[na]['label'])
            if e in tree:
                ta = t.edge_attr[na]
                check((ta['flow'], ta['capacity'], ta['cost'], ta['label']) == (h[e], at['capacity'], at['cost'], lab),
                      '%s: the tree has arc %s with %s', what, e, ta)
        untouched(m, g, 'simplex_find_tree')
        ctx.step(4)
        ctx.outcome(('tree', cyc is None, h == f))
    ctx.state(repr(case))


# -- from every feasible flow ----------------------------------------------------------

def starting_class():
    import gimpy

    class Start(gimpy.Graph):
        """A network whose search for a feasible flow finds the flow chosen."""
        chosen = None

        def find_feasible_flow(self):
            for e, x in self.chosen.items():
                self.edge_attr[e]['flow'] = x
            return True
    return Start


def run_start(case, ctx):
    """Whatever feasible flow they start from, both algorithms end with a minimum cost flow."""
    m = G.M(case)
    k = case.get('grid', 2)
    cls = starting_class()
    best = {}
    flows = []
    for x in itertools.product(*[values(m.attrs[e], k) for e in m.edges]):
        f = dict(zip(m.edges, x))
        flows.append((tuple(A.net(m, f)), f))
    for b, f in flows:
        s = dict(case, na={'demand': list(b)})
        for algo, pivot, root in RUNS(m):
            g = G.build(s, cls)
            g.chosen = {(m.name(u), m.name(v)): y for (u, v), y in f.items()}
            what = '%s from flow %s' % (algo, sorted(f.items()))
            r = g.cycle_canceling('off') if algo == 'cycle_canceling' else g.network_simplex('off', pivot, m.name(root))
            check(r is True, '%s returns %r', what, r)
            h = flow(m, g)
            legal(m, h, b, what)
            arcs = A.residual_arcs(m, h)
            check(not G.negative_cycle_exists(arcs, m.n), '%s ends with %s, which is not optimal', what, h)
            c = sum(h[e] * m.attrs[e]['cost'] for e in h)
            check(close(best.setdefault(b, c), c), '%s ends with cost %s, another run with %s', what, c, best[b])
            ctx.step()
        ctx.state((repr(case), repr(f)))
    ctx.outcome(len(best))


def RUNS(m):
    yield 'cycle_canceling', None, None
    for pivot in ('dantzig', 'first_eligible'):
        for root in (0, m.n - 1):
            yield 'network_simplex', pivot, root


# -- networks ----------------------------------------------------------------------------

def connected(s):
    return G.connected(G.M(s))


def oriented4(caps, costs, sign=(1, -1)):
    """4-node digraphs without antiparallel arcs, capacities and costs by the position of the pair."""
    for o in itertools.product((0, 1, 2), repeat=6):
        if sum(1 for x in o if x) < 3:
            continue
        for sg in sign:
            e = [([u, v] if x == 1 else [v, u]) + [{'capacity': caps[i % len(caps)], 'cost': sg * costs[i]}]
                 for i, (x, (u, v)) in enumerate(zip(o, itertools.combinations(range(4), 2))) if x]
            s = {'d': 1, 'n': 4, 'e': e}
            if connected(s):
                yield s


def up4(labels, least=3):
    for s in G.all_graphs(4, False, labels):
        if len(s['e']) >= least:
            t = {'d': 1, 'n': 4, 'e': s['e']}
            if connected(t):
                yield t


def small(labels, ns=(2, 3)):
    return (s for n in ns for o in (1, -1) for s in G.all_oriented(n, labels, o) if connected(s))


def spaces(tier):
    q = tier == 'quick'
    l3 = L((1, 2), (2, -1), (0, 3))
    r = [Space('steps3', 'every connected digraph without antiparallel arcs on 2..3 nodes, (capacity, cost) in (1,2) (2,-1) (0,3), both '
               'insertion orders: every spanning tree solution (flows in halves of the capacity), every root, every step, every '
               'violated arc entering', lambda: small(l3), run_steps),
         Space('steps4', 'connected 4-node digraphs without antiparallel arcs, capacities 2, 1, 3 by position, six different costs and their '
               'negatives: every spanning tree solution',
               lambda: itertools.islice(oriented4((2, 1, 3), (1, -2, 3, 0, 4, 2)), 0, None, 3 if q else 1), run_steps, 120.0),
         Space('names', 'the 3-node digraphs under other node names',
               lambda: G.with_names(small(L((1, 2), (2, -1))), ('mix', 'tok', 'dig', 'flt', 'fal', 'tup', 'odd')), run_steps),
         Space('trees3', 'every flow (in thirds of the capacity) on every connected digraph without antiparallel arcs on 2..3 nodes: '
               'solution graph, cycles, room, tree', lambda: (dict(s, grid=3) for s in small(L((3, 2), (6, -1), (0, 3)))), run_trees),
         Space('trees4', 'every flow (in halves) on connected 4-node digraphs without antiparallel arcs',
               lambda: oriented4((2, 4, 2, 6), (1, -2, 3, 0, 4, 2), (1,)), run_trees, 120.0),
         Space('start3', 'every feasible flow (in halves or thirds of the capacity) of every demand on every connected digraph without '
               'antiparallel arcs on 2..3 nodes: cycle canceling and network simplex started from it',
               lambda: itertools.chain(small(L((2, 2), (2, -1), (1, 1))), (dict(s, grid=3) for s in small(L((3, 2), (6, -1)), (3,)))),
               run_start, 60.0),
         Space('start4', 'the same on connected 4-node digraphs, arcs up only or with alternating directions',
               lambda: itertools.islice(oriented4((2,), (1, -2, 3, 0, 4, 2), (1,)), 0, None, 9 if q else 1), run_start, 300.0)]
    return r
