"""Answers follow the graph: the same call again, and again after the graph was edited, is right for the graph as it is now."""
import copy

from mc import algos as A
from mc import graphs as G
from mc import rich
from mc.core import Space, Violation
from mc.props.c05 import choices, judged


def edits(spec):
    """Every single edit of the graph: (description, function on the real graph, edited spec)."""
    n, es = spec['n'], spec['e']
    nm = G.NAMES[spec.get('nm', 'int')]

    def out(what, fn, **ch):
        t = copy.deepcopy(spec)
        for k, v in ch.items():
            t[k] = v
        return what, fn, t
    b = spec['na'].get('demand')
    for k, (u, v, at) in enumerate(es):
        e = (nm(u), nm(v))
        yield out('edge %s deleted' % (e,), lambda g, e=e: g.del_edge(e), e=es[:k] + es[k + 1:])
        for a, x in (('cost', 7), ('cost', 0), ('capacity', 5), ('capacity', 0)):
            if at[a] != x:
                yield out('%s of %s set to %s' % (a, e, x), lambda g, e=e, a=a, x=x: g.set_edge_attr(e[0], e[1], a, x),
                          e=es[:k] + [[u, v, dict(at, **{a: x})]] + es[k + 1:])
        if spec['d'] and (v, u) not in {(x[0], x[1]) for x in es}:
            def turn(g, e=e, at=at):
                g.del_edge(e)
                g.add_edge(e[1], e[0], **at)
            yield out('edge %s turned round' % (e,), turn, e=es[:k] + es[k + 1:] + [[v, u, at]])
    for a, x in (('cost', 1), ('capacity', 1)):
        if sum(k[2][a] != x for k in es) > 1:
            def all_(g, a=a, x=x):
                for u, v, _ in es:
                    g.set_edge_attr(nm(u), nm(v), a, x)
            yield 'every %s set to %s' % (a, x), all_, dict(copy.deepcopy(spec), e=[[u, v, dict(at, **{a: x})] for u, v, at in es])
    have = {(x[0], x[1]) for x in es} | {(x[1], x[0]) for x in es}
    at = {'cost': 2, 'capacity': 1, 'user': 'new'}
    for u in range(n):
        for v in range(u + 1, n):
            if (u, v) not in have:
                yield out('edge %s added' % ((nm(u), nm(v)),), lambda g, u=u, v=v: g.add_edge(nm(u), nm(v), **at), e=es + [[u, v, at]])
    free = [(u, v) for u in range(n) for v in range(u + 1, n) if (u, v) not in have]
    for k, (u, v, at0) in enumerate(es):
        for x, y in sorted({free[0], free[-1]}) if free else []:
            def move(g, e=(nm(u), nm(v)), f=(nm(x), nm(y)), at0=at0):
                g.del_edge(e)
                g.add_edge(f[0], f[1], **at0)
            yield out('edge %s moved' % ((nm(u), nm(v)),), move, e=es[:k] + es[k + 1:] + [[x, y, at0]])
    if n > 1 and b:
        for x in ([0] * n, [2] + [0] * (n - 2) + [-2], [-1] + [0] * (n - 2) + [1]):
            def dem(g, x=x):
                for i in range(n):
                    g.set_node_attr(nm(i), 'demand', x[i])
            yield out('demands set to %s' % x, dem, na=dict(spec['na'], demand=x))
    new = dict(spec['na'], user=spec['na']['user'] + ['new'])
    if b:
        new['demand'] = b + [0]

    def grow(g):
        g.add_node(nm(n), user='new', **({'demand': 0} if b else {}))
        if n:
            g.add_edge(nm(0), nm(n), **at)
    if n < 8:
        yield out('a node and an edge to it added', grow, n=n + 1, na=new, e=es + ([[0, n, at]] if n else []))
    if n > 1 and 'no' not in spec:
        sm = {a: x[:-1] for a, x in spec['na'].items()}
        if b:
            sm['demand'] = b[:-2] + [b[-2] + b[-1]]

        def shrink(g):
            g.del_node(nm(n - 1))
            if b:
                g.set_node_attr(nm(n - 2), 'demand', sm['demand'][-1])
        yield out('the last node deleted', shrink, n=n - 1, na=sm, e=[x for x in es if n - 1 not in x[:2]])


def run_edit(deep):
    def run(spec, ctx):
        m = G.M(spec)
        al = [a for a in A.ALGOS.values() if a.ok(m) and a.repeatable]
        es = list(edits(spec))
        for a in al:
            for pa in (a.params(m) if m.n <= 2 else choices(a, m)):
                for what, fn, t in es:
                    m2 = G.M(t)
                    if not a.ok(m2) or tuple(pa) not in [tuple(p) for p in a.params(m2)]:
                        continue
                    g = G.build(spec)
                    judged(a, a, pa, m, g, 'at first')
                    fn(g)
                    judged(a, a, pa, m2, g, '%s%r, then %s' % (a.name, tuple(pa), what))
                    ctx.step(3)
                    ctx.outcome((a.name, what.split()[-1]))
                    if deep:
                        for what3, fn3, t3 in edits(t):
                            m3 = G.M(t3)
                            if a.ok(m3) and tuple(pa) in [tuple(p) for p in a.params(m3)]:
                                g = G.build(spec)
                                a.run(g, m, pa)
                                fn(g)
                                a.run(g, m2, pa)
                                fn3(g)
                                judged(a, a, pa, m3, g, '%s%r, then %s, again, then %s' % (a.name, tuple(pa), what, what3))
                                ctx.step(5)
        ctx.state(repr(sorted(spec.items())))
    return run


def run_repeat(spec, ctx):
    m = G.M(spec)
    for a in A.ALGOS.values():
        if a.ok(m) and a.repeatable:
            for pa in choices(a, m):
                g = G.build(spec)
                for i in range(3):
                    judged(a, a, pa, m, g, 'call %d of the same on one graph' % (i + 1))
                    ctx.step()
                ctx.outcome(a.name)
    ctx.state(repr(sorted(spec.items())))


def spaces(tier):
    q = tier == 'quick'

    def four():
        for s in G.all_graphs(4, True, [{}]):
            yield rich.dress(s, 0, demand=False)

    def fam():
        for d in (True, False):
            for s in G.families(d, [{}], (5, 6) if q else (5, 6, 7, 8)):
                yield rich.dress(s, 3)

    def some(sizes):
        return lambda: (s for s in rich.small(tier) if s['n'] in sizes)
    r = [Space('repeat', 'every algorithm three times with the same arguments on every 4-node digraph and on named families of '
               'directed and undirected graphs', lambda: (s for x in (four(), fam()) for s in x), run_repeat, 60.0),
         Space('edits', 'every small graph, every algorithm, every single edit (edge deleted, added, turned round or put elsewhere, cost, capacity or '
               'demands changed, node added or deleted) between two calls with the same arguments',
               some((1, 2, 3) if q else (1, 2, 3, 4)), run_edit(False), 120.0)]
    if q:
        r.append(Space('edits4', 'the same on the small graphs of 4 nodes', some((4,)), run_edit(False), 120.0))
    else:
        r.append(Space('edits2', 'two edits, three calls, graphs of 1..3 nodes', some((1, 2, 3)), run_edit(True), 300.0))
    return r
