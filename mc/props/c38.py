"""Pictures of searches and spanning trees: the colours and labels left at the end are the answer."""
import copy

from mc import algos as A
from mc import graphs as G
from mc import std
from mc.core import Space, check

# algorithm, direction, queue
SEARCHES = [(a, rv) for a in ('BFS', 'UnweightedSPT', 'DFS', 'Dijkstra') for rv in (0, 1)]


def green(m, g):
    """(indices of green nodes, pairs of green edges)"""
    ns = {i for i in range(m.n) if g.get_node_attr(m.name(i), 'color') == 'green'}
    es = {tuple(m.idx(x) for x in e) for e in g.edge_attr if g.edge_attr[e].get('color') == 'green'}
    return ns, es


def edge_key(m, u, v):
    return (u, v) if m.directed or (u, v) in m.attrs else (v, u)


def tree_colours(m, g, s, par, reverse, what, nodes=True):
    ns, es = green(m, g)
    want = {edge_key(m, *((v, u) if reverse and m.directed else (u, v))) for v, u in par.items()}
    check(es == want, '%s: green edges %s, the tree returned has %s', what, sorted(es), sorted(want))
    if nodes:
        check(ns == set(par) | {s}, '%s: green nodes %s, reached were %s', what, sorted(ns), sorted(set(par) | {s}))
    for e in g.edge_attr:
        check(g.edge_attr[e].get('color') in (None, 'black', 'green'), '%s: edge %s is left %s', what, e,
              g.edge_attr[e].get('color'))


def growing(look=None):
    """Displayed states in which finished (green) nodes never become unfinished again."""
    def see(g):
        now = {n for n in g.get_node_list() if g.get_node_attr(n, 'color') == 'green'}
        old = getattr(g, 'finished', set())
        check(old <= now, 'a displayed state takes back the finished nodes %s', sorted(map(repr, old - now)))
        g.finished = now
    return see


def run(case, ctx):
    m = G.M(case)
    Cls = std.frame_class(growing())
    nonneg = A.nonneg(m)
    for s in range(m.n):
        nm = m.name(s)
        for algo, rv in SEARCHES:
            if algo == 'Dijkstra' and not nonneg or rv and not m.directed:
                continue
            g = G.build(case, Cls)
            r = g.search(nm, algo=algo, reverse=bool(rv))
            what = 'search(%s, %s%s)' % (s, algo, ', reverse' if rv else '')
            par, depth = A.tree_depths(m, s, r, bool(rv))
            tree_colours(m, g, s, par, rv, what)
            if algo != 'DFS':
                d = G.hops(m, s, bool(rv)) if algo != 'Dijkstra' else G.bellman(m, s, bool(rv))
                for i in range(m.n):
                    lab = g.get_node_attr(m.name(i), 'label')
                    if i in d:
                        check(str(lab) == str(d[i]), '%s: label of %s is %r, its distance is %s', what, i, lab, d[i])
                    else:
                        check(lab == '-', '%s: label of the unreachable node %s is %r', what, i, lab)
            ctx.step()
            ctx.frames += g.frames
            ctx.outcome('%s %d' % (algo, len(par)))
        g = G.build(case, Cls)
        pred = {}
        g.dfs(nm, pred=pred)
        par, depth = A.tree_depths(m, s, pred)
        tree_colours(m, g, s, par, 0, 'dfs(%s)' % s)
        for i in set(par) | {s}:
            lab = str(g.get_node_attr(m.name(i), 'label')).strip('"')
            want = '%s,%s' % (g.get_node_attr(m.name(i), 'disc_time'), g.get_node_attr(m.name(i), 'finish_time'))
            check(lab == want, 'dfs(%s): label of %s is %r, its numbers are %s', s, i, lab, want)
        ctx.step()
        ctx.frames += g.frames
        if not m.directed:
            for what, f in (('search(Prim)', lambda g: g.search(nm, algo='Prim')),
                            ('minimum_spanning_tree_prim', lambda g: g.minimum_spanning_tree_prim(nm))):
                g = G.build(case, Cls)
                r = f(g)
                par, depth = A.tree_depths(m, s, r)
                tree_colours(m, g, s, par, 0, '%s from %s' % (what, s))
                for v, u in par.items():
                    c = m.attrs[edge_key(m, u, v)].get('cost', 1)
                    lab = g.get_node_attr(m.name(v), 'label')
                    check(str(lab) == str(c), '%s from %s: label of %s is %r, its tree edge costs %s', what, s, v, lab, c)
                ctx.step()
                ctx.frames += g.frames
    g = G.build(case)                   # display off: the disjoint set it shows is another graph
    r = g.minimum_spanning_tree_kruskal()
    ns, es = green(m, g)
    got = {tuple(m.idx(x) for x in e) for e in r}
    check(es == got, 'kruskal: green edges %s, the forest returned has %s', sorted(es), sorted(got))
    for e in g.edge_attr:
        check(g.edge_attr[e].get('color') in (None, 'black', 'green'), 'kruskal: edge %s is left %s', e, g.edge_attr[e].get('color'))
    ctx.step()
    ctx.state(repr(case))


def run_path(case, ctx):
    """With a destination: the path returned is green, and so is nothing that is not on the tree searched."""
    m = G.M(case)
    Cls = std.frame_class(growing())
    for s in range(m.n):
        for t in range(m.n):
            for algo, rv in SEARCHES:
                if rv and not m.directed or algo == 'Dijkstra' and not A.nonneg(m):
                    continue
                g = G.build(case, Cls)
                r = g.search(m.name(s), destination=m.name(t), algo=algo, reverse=bool(rv))
                ctx.step()
                if not isinstance(r, list):
                    continue
                p = A.path_ok(m, r, s, t, bool(rv))
                ns, es = green(m, g)
                want = {edge_key(m, *((v, u) if rv and m.directed else (u, v))) for u, v in zip(p, p[1:])}
                what = 'search(%s, %s, %s%s)' % (s, t, algo, ', reverse' if rv else '')
                check(want <= es, '%s: green edges %s do not contain the path %s', what, sorted(es), p)
                check(len(es) <= m.n - 1, '%s: too many green edges %s', what, sorted(es))
                ctx.outcome('%s %d' % (algo, len(p)))
                ctx.frames += g.frames
    ctx.state(('path', repr(case)))


def picture(g):
    """Colours of nodes and edges, labels of nodes; an element never coloured is drawn black."""
    return ({n: (g.get_node_attr(n, 'color') or 'black', str(g.get_node_attr(n, 'label'))) for n in g.get_node_list()},
            {e: g.edge_attr[e].get('color') or 'black' for e in g.edge_attr})


def tasks(m):
    """[(name, function of a graph)]: every search, with and without a destination, and both spanning trees."""
    r = []
    for s in range(m.n):
        for a, rv in SEARCHES:
            if rv and not m.directed or a == 'Dijkstra' and not A.nonneg(m):
                continue
            for t in [None] + list(range(m.n)):
                r.append(('search(%s, %s, %s%s)' % (s, t, a, ', reverse' if rv else ''),
                          lambda g, s=s, t=t, a=a, rv=rv: g.search(m.name(s), destination=None if t is None else m.name(t),
                                                                  algo=a, reverse=bool(rv))))
        if not m.directed:
            r.append(('search(%s, Prim)' % s, lambda g, s=s: g.search(m.name(s), algo='Prim')))
            r.append(('minimum_spanning_tree_prim(%s)' % s, lambda g, s=s: g.minimum_spanning_tree_prim(m.name(s))))
    if not m.directed:
        r.append(('minimum_spanning_tree_kruskal', lambda g: g.minimum_spanning_tree_kruskal()))
    return r


def run_twice(case, ctx):
    """The picture of the second run does not show the first one: it is the picture the same run leaves on a new graph."""
    m = G.M(case)
    todo = tasks(m)
    fresh = []
    for what, f in todo:
        g = G.build(case)
        f(g)
        fresh.append(picture(g))
    for first, f1 in todo:
        g1 = G.build(case)
        f1(g1)
        for (second, f2), (nodes, edges) in zip(todo, fresh):
            g = copy.deepcopy(g1)
            f2(g)
            ns, es = picture(g)
            for e in edges:
                check(es[e] == edges[e], '%s after %s: edge %s is %s, on a new graph it is %s', second, first, e, es[e], edges[e])
            for n in nodes:
                check(ns[n][0] == nodes[n][0], '%s after %s: node %r is %s, on a new graph it is %s', second, first, n,
                      ns[n][0], nodes[n][0])
                check(nodes[n][1] in ('None', ns[n][1]), '%s after %s: node %r is labelled %s, on a new graph %s', second, first, n,
                      ns[n][1], nodes[n][1])
            ctx.step()
    ctx.state(('twice', repr(case)))


C = [{'cost': 1}, {'cost': 3}]


def spaces(tier):
    q = tier == 'quick'
    fam = (5, 6, 12) if q else (5, 6, 7, 8, 12, 20)
    return [Space('d-small', 'all digraphs with self-loops on 1..3 nodes, costs 1, 3',
                  lambda: (s for n in (1, 2, 3) for s in G.all_graphs(n, True, C, n < 3 or not q)), run),
            Space('d-loops', 'all digraphs with self-loops on 3 nodes, cost 1, reversed insertion order',
                  lambda: G.all_graphs(3, True, C[:1], True, -1), run),
            Space('u-small', 'all undirected graphs with self-loops on 1..3 nodes, both spellings, costs 1, 3',
                  lambda: (s for n in (1, 2, 3) for t in (1, -1) for s in G.all_graphs(n, False, C, True, 1, t)), run),
            Space('u-4', 'all 4-node undirected graphs, costs 1, 3', lambda: G.all_graphs(4, False, C), run),
            Space('d-4', 'all 4-node digraphs %s, cost 1' % ('without antiparallel arcs' if q else 'without self-loops'),
                  lambda: G.all_oriented(4, C[:1]) if q else G.all_graphs(4, True, C[:1]), run),
            Space('families', 'named families of 5..%d nodes, directed and undirected, costs 1, 3' % fam[-1],
                  lambda: (s for d in (True, False) for s in G.families(d, C, fam)), run),
            Space('names', 'all graphs on 2..3 nodes under mixed, token and digit names',
                  lambda: G.with_names((s for n in (2, 3) for d in (True, False) for s in G.all_graphs(n, d, C[:1])),
                                       ('mix', 'tok', 'dig', 'fal')), run),
            Space('paths', 'all digraphs and undirected graphs on 2..3 nodes, costs 1, 3; every destination',
                  lambda: (s for n in (2, 3) for d in (True, False) for s in G.all_graphs(n, d, C)), run_path),
            Space('twice', 'every pair of searches on all digraphs and undirected graphs with 2..3 nodes',
                  lambda: (s for n in (2, 3) for d in (True, False) for s in G.all_graphs(n, d, C[:1])), run_twice)]
