"""Showing an algorithm does not change what it does: with the display on every answer is still right, and every
displayed state is a picture of the whole graph that was given, writable as DOT."""
from mc import algos as A
from mc import dot
from mc import graphs as G
from mc import rich, std
from mc.core import Space, Violation, check

INPUTS = ('cost', 'capacity', 'demand', 'user')


def quick_shot(g):
    """Everything that is input, cheap enough to be taken at every displayed state."""
    return (list(g.nodes), [(n, list(x)) for n, x in g.neighbors.items()],
            [(n, list(x)) for n, x in g.in_neighbors.items()] if hasattr(g, 'in_neighbors') else None,
            [(n, [x.attr.get(a) for a in INPUTS]) for n, x in g.nodes.items()],
            [(e, [x.get(a) for a in INPUTS]) for e, x in g.edge_attr.items()])


PARTS = ('nodes or their order', 'neighbours', 'in-neighbours', 'node attributes', 'edges or their attributes')


def readable(g, m, what):
    try:
        p = dot.parse(g.to_string())
    except dot.DotError as e:
        raise Violation('%s is not valid DOT (%s)' % (what, e))
    check(len(p['nodes']) + sum(len(c['nodes']) for c in p['clusters']) >= m.n, '%s shows %s nodes', what, len(p['nodes']))
    check(len(p['edges']) + sum(len(c['edges']) for c in p['clusters']) == len(m.edges), '%s shows %s edges', what,
          len(p['edges']))
    for _, _, at in p['edges']:
        check(at.get('color', 'black'), '%s has an edge without a colour', what)


def run(case, ctx):
    spec, write = case
    m = G.M(spec)
    for name, a in A.ALGOS.items():
        if not a.ok(m):
            continue
        for p in a.params(m):
            before = []

            def look(g):
                now = quick_shot(g)
                for x, y, part in zip(before[0], now, PARTS):
                    check(x == y, 'displayed state %d of %s%r: the %s changed: %s -> %s', g.frames, name, tuple(p), part, x, y)
                if write:
                    readable(g, m, 'displayed state %d of %s%r' % (g.frames, name, tuple(p)))
            g = G.build(spec, std.frame_class(look))
            before.append(quick_shot(g))
            try:
                r = a.run(g, m, p)
                a.verify(m, g, p, r)
            except Violation as v:
                raise Violation('%s%r with the display on: %s' % (name, tuple(p), v))
            check(g.attr['display'] == 'file', '%s%r left the display mode at %r', name, tuple(p), g.attr['display'])
            ctx.step()
            ctx.frames += g.frames
            ctx.outcome((name, g.frames > 0))
    ctx.state((repr(spec['e']), spec['d'], spec['n'], spec.get('nm')))


def spaces(tier):
    q = tier == 'quick'
    return [Space('shown', 'every algorithm of the registry, every argument choice, display on, on every small graph: the answer '
                  'against its specification, the inputs at every displayed state',
                  lambda: ([s, 0] for s in (rich.small(tier) if q else rich.more(tier))), run, 60.0),
            Space('written', 'the same with every displayed state written as DOT and read back, graphs of up to 3 nodes, '
                  'also with other node names',
                  lambda: ([s, 1] for s in G.with_names((s for s in rich.small(tier) if s['n'] <= 3), ('int', 'mix') if q else
                                                        ('int', 'mix', 'tok', 'fal'))), run, 60.0)]
