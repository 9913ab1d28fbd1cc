"""Registry of algorithm invocations: domain (documented preconditions), call, verdict against the model.

Verdicts look only at documented observables: return values, the 'flow', 'component', 'distance',
'disc_time' and 'finish_time' attributes, num_components. Colours and labels are drawing state.
"""
import collections
import contextlib
import io
import itertools

from mc.core import Violation, check
from mc import graphs as G

ALGOS = collections.OrderedDict()
NUM = (int, float)


class Algo(object):
    def __init__(self, name, fn, kind, needs, domain, params, verify, repeatable=True):
        self.name, self.run, self.kind, self.needs = name, fn, kind, needs
        self.domain, self.params, self.verify, self.repeatable = domain, params, verify, repeatable

    def ok(self, m):
        if self.kind == 'd' and not m.directed or self.kind == 'u' and m.directed:
            return False
        return self.domain(m)


def algo(name, kind='b', needs=(), domain=lambda m: m.n > 0, params=None, repeatable=True):
    def deco(cls):
        ALGOS[name] = Algo(name, cls.run, kind, needs, domain, params or (lambda m: [()]), cls.verify, repeatable)
        return cls
    return deco


# ------------------------------------------------------------------ verdict helpers

def ids(m, seq):
    check(isinstance(seq, (list, tuple)), 'expected a list of nodes, got %r', seq)
    return [m.idx(x) for x in seq]


def tree_depths(m, s, pred, reverse=False):
    """pred (name -> name) must be a tree on exactly reach(s), rooted at s, made of real arcs.
    Returns (parent by index, depth by index)."""
    check(isinstance(pred, dict), 'expected a predecessor dictionary, got %r', pred)
    par = {}
    for k, v in pred.items():
        if v is None:
            check(m.idx(k) == s, 'node %r has predecessor None', k)
            continue
        par[m.idx(k)] = m.idx(v)
    want = G.reach(m, s, reverse) - {s}
    check(set(par) == want, 'predecessor tree covers %s, reachable from %s are %s', sorted(par), s, sorted(want))
    for v, u in par.items():
        a = (v, u) if reverse else (u, v)
        check(m.has(*a), 'predecessor %s of %s but there is no edge %s', u, v, a)
    depth = {s: 0}
    for v in par:
        chain = []
        while v not in depth:
            check(v not in chain, 'predecessors of %s run in a circle', v)
            chain.append(v)
            v = par[v]
        d = depth[v]
        for w in reversed(chain):
            d += 1
            depth[w] = d
    return par, depth


def path_ok(m, path, s, t, reverse=False):
    p = ids(m, path)
    check(p and p[0] == s and p[-1] == t, 'path %s does not lead from %s to %s', p, s, t)
    for u, v in zip(p, p[1:]):
        a = (v, u) if reverse else (u, v)
        check(m.has(*a), 'path %s uses missing edge %s', p, a)
    check(len(set(p)) == len(p), 'path %s repeats a node', p)
    return p


def path_cost(m, p, reverse=False, a='cost'):
    return sum(m.attr(v, u, a) if reverse else m.attr(u, v, a) for u, v in zip(p, p[1:]))


def tree_costs(m, s, par, reverse=False):
    d = {s: 0}
    for v in par:
        chain = []
        while v not in d:
            chain.append(v)
            v = par[v]
        for w in reversed(chain):
            u = par[w]
            d[w] = d[u] + (m.attr(w, u, 'cost') if reverse else m.attr(u, w, 'cost'))
    return d


def no_path(m, r, s, reverse=False):
    """Answer for an unreachable destination: None, or the predecessor tree."""
    if r is not None:
        tree_depths(m, s, r, reverse)


def comp_partition(m, g):
    lab = {}
    for i in range(m.n):
        c = g.get_node_attr(m.name(i), 'component')
        check(c is not None, 'node %s has no component', i)
        lab.setdefault(c, set()).add(i)
    return lab


def is_dfs_tree(m, s, par, depth, reverse=False):
    """Some depth-first search produces this tree: cross arcs must order sibling subtrees acyclically."""
    nb = m.inn if reverse else m.out

    def anc(v):
        c = [v]
        while v != s:
            v = par[v]
            c.append(v)
        return c
    before = set()
    A = {v: anc(v) for v in depth}
    for u in depth:
        for v in nb[u]:
            if u == v or u in A[v] or v in A[u]:
                continue
            au, av = A[u][::-1], A[v][::-1]
            k = 0
            while au[k] == av[k]:
                k += 1
            before.add((av[k], au[k]))      # v's branch must have been finished before u's began
            if not m.directed:
                return False
    # acyclic?
    nodes = {x for p in before for x in p}
    while nodes:
        free = [x for x in nodes if not any(q == x for p, q in before)]
        if not free:
            return False
        for x in free:
            nodes.discard(x)
            before = {(p, q) for p, q in before if p != x}
    return True


def flows(m, g, missing=10000, floats=False):
    f = {}
    for (u, v), at in m.attrs.items():
        x = g.get_edge_attr(m.name(u), m.name(v), 'flow')
        check(isinstance(x, NUM) and not isinstance(x, bool), 'flow on %s is %r', (u, v), x)
        cap = at.get('capacity', missing)
        check(0 <= x <= cap, 'flow %s on arc %s is outside [0, %s]', x, (u, v), cap)
        f[(u, v)] = x
    return f


def net(m, f):
    b = [0] * m.n
    for (u, v), x in f.items():
        b[u] += x
        b[v] -= x
    return b


def max_flow_ok(m, g, s, t):
    f = flows(m, g)
    b = net(m, f)
    for i in range(m.n):
        if i not in (s, t):
            check(b[i] == 0, 'flow is not conserved at node %s (%s)', i, b[i])
    want = G.min_cut(m, s, t, 10000)
    check(b[s] == want, 'flow value %s, maximum is %s', b[s], want)
    check(b[t] == -want, 'flow into the sink is %s, value is %s', -b[t], want)
    return want


def demands(m):
    return m.spec['na']['demand']


def residual_arcs(m, f):
    R = []
    for (u, v), at in m.attrs.items():
        if f[(u, v)] > 0:
            R.append((v, u, -at['cost']))
        if at['capacity'] - f[(u, v)] > 0:
            R.append((u, v, at['cost']))
    return R


def feasible_ok(m, g):
    f = flows(m, g)
    b = demands(m)
    nt = net(m, f)
    check(nt == list(b), 'flow ships %s out of the nodes, demands say %s', nt, b)
    return f


def optimal_ok(m, g):
    f = feasible_ok(m, g)
    check(not G.negative_cycle_exists(residual_arcs(m, f), m.n),
          'flow %s is feasible but not of minimum cost', f)


def cycle_cost(m, cyc, a='cost'):
    c = ids(m, cyc)
    check(c, 'empty cycle')
    tot = 0
    for u, v in zip(c, c[1:] + c[:1]):
        check(m.has(u, v), 'cycle %s uses missing edge %s', c, (u, v))
        tot += m.attr(u, v, a)
    return tot


def nodes_(m):
    return [(s,) for s in range(m.n)]


def src_dst(m):
    return [(s, t) for s in range(m.n) for t in [None] + list(range(m.n))]


def opt(m, t):
    return None if t is None else m.name(t)


def nonneg(m):
    return m.n > 0 and all('cost' in a and a['cost'] >= 0 for a in m.attrs.values())


def costed(m):
    return m.n > 0 and all('cost' in a for a in m.attrs.values())


def flow_net(m):
    return (m.n > 1 and m.directed and all(u != v and (v, u) not in m.attrs for u, v in m.edges)
            and all(isinstance(a.get('capacity', 0), NUM) for a in m.attrs.values()))


def mcf_net(m):
    return (flow_net(m) and all('capacity' in a and 'cost' in a for a in m.attrs.values())
            and 'demand' in (m.spec.get('na') or {}))


# ------------------------------------------------------------------ searches

def bfs_verify(m, g, s, t, r, reverse=False, comp=None):
    d = G.hops(m, s, reverse)
    if t is None:
        if r is not None:
            par, depth = tree_depths(m, s, r, reverse)
            check(depth == d, 'tree depths %s, breadth-first distances %s', depth, d)
        for i in range(m.n):
            x = g.get_node_attr(m.name(i), 'distance')
            check(x == d.get(i), "'distance' of node %s is %r, should be %r", i, x, d.get(i))
        if comp is not None:
            for i in d:
                check(g.get_node_attr(m.name(i), 'component') == comp, 'node %s is not marked with the component', i)
    elif t in d:
        p = path_ok(m, r, s, t, reverse)
        check(len(p) - 1 == d[t], 'path %s is not a shortest one (%s edges)', p, d[t])
    else:
        no_path(m, r, s, reverse)


def _queue(kind):
    from coinor.blimpy import Stack, Queue, PriorityQueue
    return {'S': Stack, 'Q': Queue, 'P': PriorityQueue}[kind]()


@algo('bfs_search', params=lambda m: [(s, t, rv, q) for s, t in src_dst(m) for rv in ((0, 1) if m.directed else (0,))
                                      for q in ((0, 1) if t is None else (0,))])
class _:
    def run(g, m, p):
        kw = {'q': _queue('P')} if p[3] else {}
        return g.search(m.name(p[0]), destination=opt(m, p[1]), algo='BFS', reverse=bool(p[2]), **kw)

    def verify(m, g, p, r):
        if p[1] is None:
            check(r is not None, 'no predecessor tree returned')
        bfs_verify(m, g, p[0], p[1], r, bool(p[2]) and m.directed)


@algo('spt_search', params=lambda m: [(s, t, rv, q) for s, t in src_dst(m) for rv in (0, 1) for q in (0, 1)])
class _:
    def run(g, m, p):
        kw = {'q': _queue('P')} if p[3] else {}
        return g.search(m.name(p[0]), destination=opt(m, p[1]), algo='UnweightedSPT', reverse=bool(p[2]), **kw)

    def verify(m, g, p, r):
        bfs_verify(m, g, p[0], p[1], r, bool(p[2]) and m.directed)


@algo('bfs', params=nodes_)
class _:
    def run(g, m, p):
        return g.bfs(m.name(p[0]), component=7)

    def verify(m, g, p, r):
        bfs_verify(m, g, p[0], None, None, comp=7)


@algo('dfs_search', params=lambda m: [(s, t, rv, q) for s, t in src_dst(m) for rv in (0, 1) for q in (None, 'S', 'Q')])
class _:
    def run(g, m, p):
        kw = {'q': _queue(p[3])} if p[3] else {}
        before = [g.get_node_attr(m.name(i), 'component') for i in range(m.n)]
        return g.search(m.name(p[0]), destination=opt(m, p[1]), reverse=bool(p[2]), component=5, **kw), before

    def verify(m, g, p, res):
        r, before = res
        s, t, rv = p[0], p[1], bool(p[2]) and m.directed
        R = G.reach(m, s, rv)
        if t is None:
            par, depth = tree_depths(m, s, r, rv)
            if p[3] != 'Q':
                check(is_dfs_tree(m, s, par, depth, rv), '%s is not the tree of a depth-first search', par)
            for i in range(m.n):
                c = g.get_node_attr(m.name(i), 'component')
                check(c == (5 if i in R else before[i]), "node %s %s reachable but its 'component' is %r", i,
                      'is' if i in R else 'is not', c)
        elif t in R:
            path_ok(m, r, s, t, rv)
        else:
            no_path(m, r, s, rv)


@algo('dfs_pq', params=lambda m: [(s, t) for s in range(m.n) for t in [None] + [t for t in (0, m.n - 1) if t != s]])
class _:
    def run(g, m, p):
        return g.search(m.name(p[0]), destination=opt(m, p[1]), q=_queue('P'), component=6)

    def verify(m, g, p, r):
        if p[1] is None:
            par, depth = tree_depths(m, p[0], r)
            for i in depth:
                c = g.get_node_attr(m.name(i), 'component')
                check(c == 6, "node %s is reachable but its 'component' is %r", i, c)
        elif p[1] in G.reach(m, p[0]):
            path_ok(m, r, p[0], p[1])
        else:
            no_path(m, r, p[0])


def dijkstra_verify(m, s, t, rv, r):
    d = G.bellman(m, s, rv)
    if t is None:
        par, depth = tree_depths(m, s, r, rv)
        got = tree_costs(m, s, par, rv)
        check(got == d, 'tree distances %s, shortest distances %s', got, d)
    elif t in d:
        path = path_ok(m, r, s, t, rv)
        c = path_cost(m, path, rv)
        check(c == d[t], 'path %s costs %s, the shortest costs %s', path, c, d[t])
    else:
        no_path(m, r, s, rv)


@algo('dijkstra', needs=('cost',), domain=nonneg, params=lambda m: [(s, t, rv, 0) for s, t in src_dst(m)
                                                                      for rv in ((0, 1) if m.directed else (0,))] +
      [(s, None, 0, 1) for s in range(m.n)])
class _:
    def run(g, m, p):
        kw = {'q': _queue('P')} if p[3] else {}
        return g.search(m.name(p[0]), destination=opt(m, p[1]), algo='Dijkstra', reverse=bool(p[2]), **kw)

    def verify(m, g, p, r):
        dijkstra_verify(m, p[0], p[1], bool(p[2]), r)


def prim_verify(m, s, r):
    par, depth = tree_depths(m, s, r)
    R = G.reach(m, s)
    sub = G.M({'d': 0, 'n': m.n, 'e': [[u, v, m.attrs[(u, v)]] for u, v in m.edges if u in R]})
    want, cnt = G.forest_cost(sub)
    got = sum(m.attr(u, v, 'cost') for v, u in par.items())
    check(got == want, 'spanning tree %s costs %s, the minimum is %s', par, got, want)


@algo('prim_search', kind='u', needs=('cost',), domain=costed, params=lambda m: [(s, 0) for s in range(m.n)] + [(m.n - 1, 1)])
class _:
    def run(g, m, p):
        return g.search(m.name(p[0]), algo='Prim', **({'q': _queue('P')} if p[1] else {}))

    def verify(m, g, p, r):
        prim_verify(m, p[0], r)


@algo('mst_prim', kind='u', needs=('cost',), domain=costed, params=lambda m: [(s, 0) for s in range(m.n)] + [(m.n - 1, 1)])
class _:
    def run(g, m, p):
        return g.minimum_spanning_tree_prim(m.name(p[0]), **({'q': _queue('P')} if p[1] else {}))

    def verify(m, g, p, r):
        prim_verify(m, p[0], r)


@algo('kruskal', needs=('cost',), domain=costed, params=lambda m: [(0,), (1,), (2,)])
class _:
    def run(g, m, p):
        if p[0]:                                   # with components of the caller's, both kinds
            import gimpy
            return g.minimum_spanning_tree_kruskal(components=gimpy.DisjointSet(display='off', layout='dot', optimize=p[0] == 2))
        return g.minimum_spanning_tree_kruskal()

    def verify(m, g, p, r):
        check(isinstance(r, list), 'expected a list of edges, got %r', r)
        es = []
        for e in r:
            check(isinstance(e, tuple) and len(e) == 2, '%r is not an edge', e)
            u, v = m.idx(e[0]), m.idx(e[1])
            check(m.has(u, v), '%s is not an edge of the graph', (u, v))
            es.append((u, v))
        want, cnt = G.forest_cost(m)
        sub = G.M({'d': 0, 'n': m.n, 'e': [[u, v, {}] for u, v in es]})
        check(len(es) == cnt and len(G.components(sub)) == m.n - cnt, 'edges %s are not a spanning forest', es)
        got = sum(m.attr(u, v, 'cost') for u, v in es)
        check(got == want, 'spanning forest %s costs %s, the minimum is %s', es, got, want)


# ------------------------------------------------------------------ components

@algo('label_components', kind='u', domain=lambda m: True)
class _:
    def run(g, m, p):
        return g.label_components()

    def verify(m, g, p, r):
        lab = comp_partition(m, g)
        want = G.components(m)
        check(set(map(frozenset, lab.values())) == set(want), 'components %s, should be %s', lab, want)
        check(g.num_components == len(want), 'num_components is %s, should be %s', g.num_components, len(want))
        check(set(lab) == set(range(len(want))), 'component numbers are %s', sorted(lab))


@algo('strong', kind='d', domain=lambda m: True)
class _:
    def run(g, m, p):
        return g.label_strong_component()

    def verify(m, g, p, r):
        lab = comp_partition(m, g)
        want = G.sccs(m)
        check(set(map(frozenset, lab.values())) == want, 'strong components %s, should be %s', lab, want)
        check(g.num_components == len(want), 'num_components is %s, should be %s', g.num_components, len(want))
        check(set(lab) == set(range(len(want))), 'component numbers are %s', sorted(lab))


@algo('tarjan', kind='d')
class _:
    def run(g, m, p):
        return g.tarjan()

    def verify(m, g, p, r):
        ALGOS['strong'].verify(m, g, p, r)


# ------------------------------------------------------------------ depth-first numbering

def dfs_times(m, g, visited, nb):
    """Discovery and finishing numbers of one (possibly multi-root) depth-first search over `visited`."""
    D, F = {}, {}
    for i in visited:
        D[i] = g.get_node_attr(m.name(i), 'disc_time')
        F[i] = g.get_node_attr(m.name(i), 'finish_time')
    k = len(visited)
    check(sorted(D.values(), key=repr) == sorted(range(1, k + 1), key=repr), 'discovery times %s', D)
    check(sorted(F.values(), key=repr) == sorted(range(1, k + 1), key=repr), 'finishing times %s', F)
    anc = {v: sorted((u for u in visited if u != v and D[u] < D[v] and F[u] > F[v]), key=lambda u: D[u])
           for v in visited}
    for v in visited:
        a = anc[v]
        for x, y in zip(a, a[1:]):
            check(F[x] > F[y], 'disc/finish times %s / %s do not nest', D, F)
    for v in visited:
        if anc[v]:
            check(v in nb[anc[v][-1]], '%s was discovered from %s but there is no such edge', v, anc[v][-1])
    for u in visited:
        for v in nb[u]:
            if u != v and v in D and D[u] < D[v]:
                check(F[v] < F[u], 'edge %s leads to a node discovered later but finished later', (u, v))
    return D, F, anc


@algo('dfs', params=nodes_, repeatable=False)
class _:
    def run(g, m, p):
        order, pred = [], {}
        r = g.dfs(m.name(p[0]), topological_order=order, component=3, pred=pred)
        return r, order, pred

    def verify(m, g, p, res):
        r, order, pred = res
        s = p[0]
        R = G.reach(m, s)
        D, F, anc = dfs_times(m, g, sorted(R), m.out)
        check(D[s] == 1 and F[s] == len(R), 'root has times %s, %s', D[s], F[s])
        check(r == (len(R), len(R) + 1), 'returned counters %s after visiting %s nodes', r, len(R))
        o = ids(m, order)
        check(sorted(o) == sorted(R) and all(F[a] > F[b] for a, b in zip(o, o[1:])),
              'topological_order %s is not reverse finishing order %s', o, F)
        par, depth = tree_depths(m, s, pred)
        for v in par:
            check(anc[v][-1] == par[v], 'predecessor of %s is %s, it was discovered from %s', v, par[v], anc[v][-1])
        for i in range(m.n):
            if i in R:
                check(g.get_node_attr(m.name(i), 'component') == 3, 'visited node %s has no component', i)
            else:
                check(g.get_node_attr(m.name(i), 'disc_time') is None and
                      g.get_node_attr(m.name(i), 'finish_time') is None, 'unreachable node %s was visited', i)


def full_dfs(g, m, order):
    d, f = 0, 1
    top = []
    for i in order:
        if g.get_node_attr(m.name(i), 'disc_time') is None:
            d, f = g.dfs(m.name(i), disc_count=d, finish_count=f, topological_order=top)
    return top


@algo('dfs_all', params=lambda m: [(0,), (1,)], repeatable=False)
class _:
    def run(g, m, p):
        return full_dfs(g, m, range(m.n) if not p[0] else range(m.n - 1, -1, -1))

    def verify(m, g, p, top):
        D, F, anc = dfs_times(m, g, list(range(m.n)), m.out)
        o = ids(m, top)
        check(sorted(o) == list(range(m.n)), 'topological_order lists %s', o)
        if m.directed and G.is_dag(m):
            pos = {v: k for k, v in enumerate(o)}
            for u, v in m.edges:
                check(pos[u] < pos[v], 'topological order %s puts %s after %s', o, u, v)


@algo('kosaraju', kind='d', params=lambda m: [(0,), (1,)], repeatable=False)
class _:
    def run(g, m, p):
        top = full_dfs(g, m, range(m.n) if not p[0] else range(m.n - 1, -1, -1))
        c = 0
        for nm in list(top):
            if g.get_node_attr(nm, 'component') is None:
                g.dfs(nm, component=c, transpose=True)
                c += 1
        return c

    def verify(m, g, p, c):
        lab = comp_partition(m, g)
        want = G.sccs(m)
        check(set(map(frozenset, lab.values())) == want and c == len(want),
              'two-pass depth-first search found components %s, should be %s', lab, want)


# ------------------------------------------------------------------ shortest paths with negative costs

@algo('acyclic', kind='d', needs=('cost',), domain=lambda m: costed(m) and G.is_dag(m), params=src_dst)
class _:
    def run(g, m, p):
        return g.acyclic_shortest_path(m.name(p[0]), opt(m, p[1]))

    def verify(m, g, p, r):
        dijkstra_verify(m, p[0], p[1], False, r)


@algo('floyd', needs=('cost',), domain=costed)
class _:
    def run(g, m, p):
        valid, dist, nxt = g.floyd_warshall()
        paths = {}
        if valid:
            for i in range(m.n):
                for j in range(m.n):
                    paths[(i, j)] = g.floyd_warshall_get_path(dist, nxt, m.name(i), m.name(j))
        cyc = []
        if not valid:
            cyc.append((None, g.floyd_warshall_get_cycle(dist, nxt)))
            for i in range(m.n):
                if dist[(m.name(i), m.name(i))] < 0:
                    cyc.append((i, g.floyd_warshall_get_cycle(dist, nxt, m.name(i))))
                else:
                    try:
                        cyc.append((i, g.floyd_warshall_get_cycle(dist, nxt, m.name(i))))
                    except Exception:
                        pass
        else:
            for i in [None] + list(range(m.n)):
                try:
                    cyc.append((i, g.floyd_warshall_get_cycle(dist, nxt, *([] if i is None else [m.name(i)]))))
                except Exception:
                    pass
        return valid, dist, paths, cyc

    def verify(m, g, p, res):
        valid, dist, paths, cyc = res
        neg = G.negative_cycle_exists(G.arcs(m), m.n)
        check(bool(valid) == (not neg), 'distances reported %svalid, the graph has %s negative cycle',
              '' if valid else 'in', 'a' if neg else 'no')
        for i, c in cyc:
            check(not valid, 'a negative cycle %r is reported where there is none', c)
            k = cycle_cost(m, c)
            check(k < 0, 'reported cycle %s costs %s', c, k)
        if not valid:
            return
        for i in range(m.n):
            d = G.bellman(m, i)
            for j in range(m.n):
                x = dist[(m.name(i), m.name(j))]
                if j in d:
                    check(x == d[j], 'distance %s -> %s is %s, should be %s', i, j, x, d[j])
                    pa = path_ok(m, paths[(i, j)], i, j)
                    check(path_cost(m, pa) == d[j], 'path %s costs %s, distance is %s', pa, path_cost(m, pa), d[j])
                else:
                    check(x == 'infinity' or x == G.INFTY, 'distance %s -> %s is %s, there is no path', i, j, x)
                    check(paths[(i, j)] is None, 'path %s -> %s is %s, there is none', i, j, paths[(i, j)])


@algo('negcycle', needs=('cost',), domain=lambda m: m.n == 0 or costed(m))
class _:
    def run(g, m, p):
        return g.get_negative_cycle()

    def verify(m, g, p, r):
        neg = G.negative_cycle_exists(G.arcs(m), m.n)
        if not neg:
            check(r is None, 'reported cycle %r, there is no negative cycle', r)
        else:
            check(r is not None, 'no cycle reported, there is a negative one')
            k = cycle_cost(m, r)
            check(k < 0, 'reported cycle %s costs %s', r, k)


@algo('fifo_label', needs=('cost',), domain=costed, params=nodes_)
class _:
    def run(g, m, p):
        return g.fifo_label_correcting(m.name(p[0]))

    def verify(m, g, p, r):
        s = p[0]
        d = G.bellman(m, s)
        check(isinstance(r, tuple) and len(r) == 2, 'expected a pair, got %r', r)
        if d is None:
            check(r[0] is False, 'a negative cycle is reachable but %r was returned', r)
            k = cycle_cost(m, r[1])
            check(k < 0, 'reported cycle %s costs %s', r[1], k)
            return
        check(r[0] is True, 'no negative cycle is reachable but %r was returned', r)
        par, depth = tree_depths(m, s, r[1])
        got = tree_costs(m, s, par)
        check(got == d, 'tree distances %s, shortest distances %s', got, d)
        for i in range(m.n):
            x = g.get_node_attr(m.name(i), 'distance')
            if i in d:
                check(x == d[i], "'distance' of %s is %r, should be %r", i, x, d[i])
            else:
                check(not isinstance(x, NUM) or x == G.INFTY, "'distance' of unreachable %s is %r", i, x)


# ------------------------------------------------------------------ flows

def st(m):
    return [(s, t) for s in range(m.n) for t in range(m.n) if s != t]


def _mf(name, fn):
    @algo(name, kind='d', needs=('capacity',), domain=flow_net, params=st)
    class _:
        def run(g, m, p):
            return fn(g, m.name(p[0]), m.name(p[1]))

        def verify(m, g, p, r):
            return max_flow_ok(m, g, p[0], p[1])


_mf('maxflow_dfs', lambda g, s, t: g.max_flow(s, t))
_mf('maxflow_bfs', lambda g, s, t: g.max_flow(s, t, algo='BFS'))
_mf('push_fifo', lambda g, s, t: g.max_flow_preflowpush(s, t))
_mf('push_sap', lambda g, s, t: g.max_flow_preflowpush(s, t, algo='SAP'))
_mf('push_high', lambda g, s, t: g.max_flow_preflowpush(s, t, algo='HighestLabel'))


@algo('feasible', kind='d', needs=('capacity', 'demand'),
      domain=lambda m: flow_net(m) and 'demand' in (m.spec.get('na') or {}))
class _:
    def run(g, m, p):
        return g.find_feasible_flow()

    def verify(m, g, p, r):
        want = G.feasible(m, demands(m))
        check(r is want, 'find_feasible_flow returned %r, a feasible flow %s', r,
              'exists' if want else 'does not exist')
        if want:
            feasible_ok(m, g)


@algo('cancel', kind='d', needs=('capacity', 'cost', 'demand'), domain=mcf_net)
class _:
    def run(g, m, p):
        return g.cycle_canceling('off')

    def verify(m, g, p, r):
        want = G.feasible(m, demands(m))
        check(r is want, 'cycle_canceling returned %r, a feasible flow %s', r, 'exists' if want else 'does not exist')
        if want:
            optimal_ok(m, g)


def mcf_connected(m):
    return mcf_net(m) and G.connected(m)


@algo('simplex', kind='d', needs=('capacity', 'cost', 'demand'), domain=mcf_connected,
      params=lambda m: [(r, pv) for r in range(m.n) for pv in ('dantzig', 'first_eligible')])
class _:
    def run(g, m, p):
        return g.network_simplex('off', p[1], m.name(p[0]))

    def verify(m, g, p, r):
        want = G.feasible(m, demands(m))
        check(r is want, 'network_simplex returned %r, a feasible flow %s', r, 'exists' if want else 'does not exist')
        if want:
            optimal_ok(m, g)


@algo('mincost', kind='d', needs=('capacity', 'cost', 'demand'), domain=mcf_connected,
      params=lambda m: [('default',), ('cycle_canceling',), ('simplex',), ('root',)])
class _:
    def run(g, m, p):
        kw = {'default': {}, 'root': {'root': m.name(m.n - 1), 'pivot': 'first_eligible'}}.get(p[0], {'algo': p[0]})
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g.min_cost_flow(**kw)
        return out.getvalue()

    def verify(m, g, p, r):
        want = G.feasible(m, demands(m))
        check(('infeasible' in r) == (not want), 'min_cost_flow printed %r, a feasible flow %s', r, 'exists' if want else 'does not exist')
        if want:
            optimal_ok(m, g)


# ------------------------------------------------------------------ others

@algo('degrees')
class _:
    def run(g, m, p):
        return g.get_degrees()

    def verify(m, g, p, r):
        want = {i: len(m.out[i]) + (len(m.inn[i]) if m.directed else 0) for i in range(m.n)}
        check(isinstance(r, dict) and {m.idx(k): v for k, v in r.items()} == want,
              'degrees %r, should be %r', r, want)


@algo('inout', kind='d')
class _:
    def run(g, m, p):
        return g.get_in_degrees(), g.get_out_degrees()

    def verify(m, g, p, r):
        for got, want in zip(r, (m.inn, m.out)):
            want = {i: len(want[i]) for i in range(m.n)}
            check(isinstance(got, dict) and {m.idx(k): v for k, v in got.items()} == want,
                  'degrees %r, should be %r', got, want)


@algo('diameter', kind='u')
class _:
    def run(g, m, p):
        return g.get_diameter()

    def verify(m, g, p, r):
        H = [G.hops(m, i) for i in range(m.n)]
        want = 'infinity' if any(len(h) < m.n for h in H) else max(max(h.values()) for h in H)
        check(r == want, 'diameter %r, should be %r', r, want)


def ham_exists(m, s, t):
    rest = [i for i in range(m.n) if i != s]
    for perm in itertools.permutations(rest):
        p = (s,) + perm
        if (t is None or p[-1] == t) and all(m.has(u, v) for u, v in zip(p, p[1:])):
            return True
    return False


@algo('hamiltonian', params=src_dst)
class _:
    def run(g, m, p):
        return g.hamiltonian(m.name(p[0]), opt(m, p[1]))

    def verify(m, g, p, r):
        want = ham_exists(m, *p)
        check(r is want, 'hamiltonian returned %r, a Hamiltonian path %s', r, 'exists' if want else 'does not exist')


@algo('page_rank', kind='d', domain=lambda m: True,
      params=lambda m: [(0.85, 400, 1e-11), (0.5, 400, 1e-11), (0.85, 100, 1e-5), (0.85, 60, 0.1), (0.95, 900, 3e-3)])
class _:
    def run(g, m, p):
        if p[1] == 100:
            return g.page_rank()
        return g.page_rank(damping_factor=p[0], max_iterations=p[1], min_delta=p[2])

    def verify(m, g, p, r):
        check(isinstance(r, dict) and {m.idx(k) for k in r} == set(range(m.n)), 'page_rank returned %r', r)
        x = {m.idx(k): v for k, v in r.items()}
        off = 0
        for i in range(m.n):
            want = (1 - p[0]) / m.n + p[0] * sum(x[j] / len(m.out[j]) for j in m.inn[i])
            off += abs(x[i] - want)
            check(off < p[2] + 1e-12, 'rank of %s is %s, its in-neighbours give it %s', i, x[i], want)
            check(x[i] > 0, 'rank of %s is %s', i, x[i])


def summary(r):
    """A coarse picture of an answer, for the outcome histogram."""
    if r is None or isinstance(r, (bool, str, int, float)):
        return repr(r)
    if isinstance(r, tuple):
        return '(' + ','.join(summary(x) for x in r[:2]) + ')'
    if isinstance(r, (list, dict)):
        return '%s[%d]' % (type(r).__name__, len(r))
    return type(r).__name__


def one(spec, name, p, m=None, cls=None):
    """One execution on a fresh graph, judged. Returns (graph, answer)."""
    m = m or G.M(spec)
    a = ALGOS[name]
    g = G.build(spec, cls)
    try:
        r = a.run(g, m, p)
        v = a.verify(m, g, p, r)
    except Violation as x:
        raise Violation('%s%r: %s' % (name, tuple(p), x))
    return g, (v if r is None else r)


def runner(names, cls=None, after=None, pick=None):
    """case = graph: every parameter choice of every named algorithm whose preconditions the graph meets."""
    def run(spec, ctx):
        m = G.M(spec)
        key = repr(sorted(spec.items()))
        for name in names:
            a = ALGOS[name]
            if not a.ok(m):
                ctx.notes[name + ': outside the preconditions'] += 1
                continue
            ctx.state((key, name))
            for p in a.params(m):
                if pick is not None and not pick(m, p):
                    continue
                g, r = one(spec, name, p, m, cls)
                ctx.step()
                ctx.frames += getattr(g, 'frames', 0)
                ctx.outcome(name + ' ' + summary(r if r is not None else getattr(g, 'num_components', None)))
                if after:
                    after(spec, m, name, p, g, r)
    return run
