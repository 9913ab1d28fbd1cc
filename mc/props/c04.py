"""Algorithms leave the graph's structure and its input attributes alone."""
from mc import algos as A
from mc import graphs as G
from mc import rich
from mc.core import Space, check

INPUTS = ('cost', 'capacity', 'demand', 'user')


def shot(g, d):
    nl = g.get_node_list()
    el = g.get_edge_list()
    r = {'nodes or their order': list(map(repr, nl)),
         'node objects': sorted(map(repr, g.nodes)),
         'edges or their order': list(map(repr, el)),
         'neighbours or their order': [(repr(n), list(map(repr, g.get_neighbors(n)))) for n in nl],
         'node attributes': sorted((repr(n), [repr(g.get_node_attr(n, a)) for a in INPUTS]) for n in nl),
         'edge attributes': sorted((repr(e), [repr(g.edge_attr[e].get(a)) for a in INPUTS]) for e in el),
         'graph': (g.name, g.graph_type, sorted((k, repr(v)) for k, v in g.attr.items())),
         'clusters': repr(sorted((repr(c), list(map(repr, v['node_list']))) for c, v in g.cluster.items()))}
    if d:
        r['in-neighbours or their order'] = [(repr(n), list(map(repr, g.get_in_neighbors(n)))) for n in nl]
    return r


def run(spec, ctx):
    m = G.M(spec)
    for name, a in A.ALGOS.items():
        if not a.ok(m):
            ctx.notes[name + ': outside the preconditions'] += 1
            continue
        ps = a.params(m)
        for p in ps:
            g = G.build(spec)
            g.create_cluster([m.name(0)], {'name': 'k'})
            before = shot(g, m.directed)
            a.run(g, m, p)
            after = shot(g, m.directed)
            for k in before:
                check(before[k] == after[k], '%s%r changed the %s: %s -> %s', name, tuple(p), k, before[k], after[k])
            ctx.step()
        ctx.outcome(name)
        ctx.state((repr(spec['e']), spec['d'], spec['n'], name))


def spaces(tier):
    return [Space('registry', 'every algorithm, every argument choice, on every small graph carrying costs, capacities, '
                  'demands and user attributes', lambda: rich.more(tier), run),
            Space('names', 'the same on 3-node graphs with other node names',
                  lambda: G.with_names((s for s in rich.small(tier) if s['n'] == 3), ('mix', 'tok')), run)]
