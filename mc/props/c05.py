"""History independence: what ran before on the same graph, on another graph, or was interrupted, does not matter."""
from mc import algos as A
from mc import graphs as G
from mc import rich, std
from mc.core import Space, Violation


class Abort(Exception):
    """Raised from display() by the fault injector (a window that was closed)."""


_F = []


def injected():
    if not _F:
        import gimpy

        class F(gimpy.Graph):
            countdown = None

            def display(self, *a, **k):
                if self.attr['display'] == 'off':
                    return
                if self.countdown is not None:
                    self.countdown -= 1
                    if self.countdown < 0:
                        raise Abort()
        _F.append(F)
    return _F[0]


def choices(a, m, few=2):
    ps = a.params(m)
    if len(ps) <= few:
        return ps
    return [ps[0], ps[-1]] if few == 2 else [ps[0], ps[len(ps) // 2], ps[-1]]


def judged(a, b, pb, m, g, what):
    try:
        r = b.run(g, m, pb)
        b.verify(m, g, pb, r)
    except Violation as v:
        raise Violation('%s, then %s%r: %s' % (what, b.name, tuple(pb), v))
    except Exception as e:
        raise Violation('%s, then %s%r: raised %s: %s' % (what, b.name, tuple(pb), type(e).__name__, e))


def run_pairs(spec, ctx):
    """A then B on one graph; A on one graph, B on another."""
    m = G.M(spec)
    al = [a for a in A.ALGOS.values() if a.ok(m)]
    bl = [b for b in al if b.repeatable]
    for a in al:
        for pa in choices(a, m):
            for b in bl:
                for pb in choices(b, m):
                    g = G.build(spec)
                    a.run(g, m, pa)
                    judged(a, b, pb, m, g, 'first %s%r' % (a.name, tuple(pa)))
                    ctx.step(2)
                    ctx.outcome((a.name, b.name))
        for b in al:
            g1, g2 = G.build(spec), G.build(spec)
            a.run(g1, m, choices(a, m)[0])
            judged(a, b, choices(b, m)[-1], m, g2, 'first %s on another graph' % a.name)
            ctx.step(2)
    ctx.state(repr(sorted(spec.items())))


def run_triples(spec, ctx):
    """A, B, A: the second A must be as right as the first."""
    m = G.M(spec)
    bl = [b for b in A.ALGOS.values() if b.ok(m) and b.repeatable]
    for a in bl:
        for b in bl:
            g = G.build(spec)
            pa, pb = choices(a, m), choices(b, m)
            judged(a, a, pa[0], m, g, 'at first')
            judged(a, b, pb[-1], m, g, 'first %s%r' % (a.name, tuple(pa[0])))
            judged(a, a, pa[-1], m, g, 'first %s%r, %s%r' % (a.name, tuple(pa[0]), b.name, tuple(pb[-1])))
            ctx.step(3)
            ctx.outcome((a.name, b.name))
    ctx.state(repr(sorted(spec.items())))


def aborted(spec, m, a, pa, k):
    """A fresh graph on which a ran until displayed state k; None if a has fewer states."""
    g = G.build(spec, injected(), display='file')
    g.countdown = k
    try:
        a.run(g, m, pa)
        return None
    except Abort:
        g.countdown = None
        return g


def run_abort(every):
    def run(spec, ctx):
        """A interrupted at every displayed state, then B (or A itself) on the same graph."""
        m = G.M(spec)
        al = [a for a in A.ALGOS.values() if a.ok(m)]
        rest = [b for b in al if b.repeatable]
        for a in al:
            for pa in (choices(a, m) if every else choices(a, m)[-1:]):
                k = 0
                while True:
                    g = aborted(spec, m, a, pa, k)
                    if g is None:
                        break
                    ctx.frames += 1
                    bs = rest if every else [rest[k % len(rest)], rest[(7 * k + 3) % len(rest)]] + \
                        ([a] if a.repeatable else [])
                    for i, b in enumerate(bs):
                        if i:
                            g = aborted(spec, m, a, pa, k)
                        judged(a, b, choices(b, m)[-1], m, g,
                               '%s%r interrupted at displayed state %d' % (a.name, tuple(pa), k))
                        ctx.step(2)
                        ctx.outcome((a.name, 'aborted', b.name))
                    k += 1
        ctx.state(('abort', repr(sorted(spec.items()))))
    return run


def change(g, m, spec, k):
    """Mutation k: delete the k-th edge / add a missing edge."""
    e = spec['e']
    if k < len(e):
        g.del_edge((m.name(e[k][0]), m.name(e[k][1])))
        t = dict(spec)
        t['e'] = e[:k] + e[k + 1:]
        return t
    have = {(x[0], x[1]) for x in e} | {(x[1], x[0]) for x in e}
    new = [(u, v) for u in range(spec['n']) for v in range(spec['n']) if u < v and (u, v) not in have]
    k -= len(e)
    if k >= len(new):
        return None
    u, v = new[k]
    at = {'cost': 2, 'capacity': 1, 'user': 'new'}
    g.add_edge(m.name(u), m.name(v), **at)
    t = dict(spec)
    t['e'] = e + [[u, v, at]]
    return t


def run_mutate(spec, ctx):
    """A, then the graph changes by one edge, then A and a fixed partner B on the changed graph."""
    m = G.M(spec)
    al = [a for a in A.ALGOS.values() if a.ok(m)]
    for a in al:
        for k in range(len(spec['e']) + 3):
            g = G.build(spec)
            a.run(g, m, choices(a, m)[0])
            t = change(g, m, spec, k)
            if t is None:
                break
            m2 = G.M(t)
            if a.repeatable and a.ok(m2):
                judged(a, a, choices(a, m2)[-1], m2, g, '%s before the graph changed' % a.name)
                ctx.step(2)
                ctx.outcome((a.name, 'edge %s' % ('removed' if k < len(spec['e']) else 'added')))
    ctx.state(('mutate', repr(sorted(spec.items()))))


def spaces(tier):
    q = tier == 'quick'

    def pick(sizes):
        return lambda: (s for s in rich.small(tier) if s['n'] in sizes)

    def fam():
        for d in (True, False):
            for s in G.families(d, [{}], (5,) if q else (5, 6)):
                yield rich.dress(s, 1)
    return [Space('pairs', 'every ordered pair of algorithms (2 argument choices each) on the same graph and on two '
                  'graphs, every small graph', pick((1, 2, 3)), run_pairs, 60.0),
            Space('triples', 'every A, B, A on every arcs-up digraph and every undirected graph with 4 nodes and on '
                  'named families', lambda: (s for src in (pick((4,))(), fam()) for s in src), run_triples, 60.0),
            Space('aborts', 'every algorithm interrupted at every displayed state, then %s on what is left'
                  % ('itself and two others (rotating)' if q else 'every algorithm'), pick((2, 3)), run_abort(not q), 120.0),
            Space('mutations', 'every algorithm before and after every single edge removal or addition',
                  lambda: rich.more(tier), run_mutate, 60.0)]
