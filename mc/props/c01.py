"""Graph mutations and queries agree with an abstract graph after every history."""
import itertools

from mc import graphs as G
from mc import graphops as O
from mc.core import Space

SCHEMES = ('int', 'mix', 'tok', 'dig', 'fal', 'tup', 'odd')


def nm(scheme, k):
    f = G.NAMES[scheme]
    return [f(i) for i in range(k)]


def run_state(case, ctx):
    d, scheme, k, (ns, es) = case
    N = nm(scheme, k)
    for op in O.ops(range(k), d):
        g, m = O.make(d, [N[i] for i in ns], [(N[u], N[v]) for u, v in es], True)
        o = (op[0],) + tuple(G.fresh(N[i]) for i in op[1:])
        ok = O.apply(g, m, o, 'new')
        O.compare(g, m, N, ('x', 'cost'))
        ctx.step()
        ctx.outcome((op[0], ok))
    ctx.state((d, scheme, repr(ns), repr(es)))


def run_seq(case, ctx):
    import gimpy
    d, scheme, k, (ns, es), seq, typ = case
    N = nm(scheme, k)
    g, m = O.make(d, [N[i] for i in ns], [(N[u], N[v]) for u, v in es], True)
    if typ == 'default':
        g, m = gimpy.Graph(), O.GM(False)
    for step, op in enumerate(seq):
        o = (op[0],) + tuple(G.fresh(N[i]) for i in op[1:])
        ok = O.apply(g, m, o, 's%d' % step)
        ctx.step()
        ctx.outcome((op[0], ok))
    O.compare(g, m, N, ('x', 'cost'))
    ctx.state((scheme, m.canon()))


def seqs(d, k, depth, start=([], []), scheme='int', typ=''):
    al = O.ops(range(k), d)
    for seq in itertools.product(al, repeat=depth):
        yield [int(d), scheme, k, start, [list(o) for o in seq], typ]


def prune(d, k, depth, start=([], []), scheme='int'):
    """Op sequences in which every operation is accepted except possibly the last one (a rejected operation
    changes nothing, which is checked where it occurs, so sequences that continue after one add nothing)."""
    al = O.ops(range(k), d)

    def rec(m, seq):
        if seq:
            yield [int(d), scheme, k, start, seq, '']
        if len(seq) == depth:
            return
        for op in al:
            t = O.GM(d)
            t.nodes, t.edges = dict(m.nodes), dict(m.edges)
            ok = {'an': lambda: t.add_node(op[1], {}), 'dn': lambda: t.del_node(op[1]),
                  'ae': lambda: t.add_edge(op[1], op[2], {}), 'de': lambda: t.del_edge(op[1], op[2])}[op[0]]()
            if ok:
                for x in rec(t, seq + [list(op)]):
                    yield x
            elif len(seq) + 1 == depth:
                yield [int(d), scheme, k, start, seq + [list(op)], '']
    m = O.GM(d)
    for n in start[0]:
        m.add_node(n, {})
    for e in start[1]:
        m.add_edge(e[0], e[1], {})
    return rec(m, [])


def spaces(tier):
    q = tier == 'quick'

    def st():
        for d in (0, 1):
            for sc in SCHEMES:
                for k in (1, 2, 3):
                    if k == 3 and sc not in (('int', 'tok') if q else SCHEMES):
                        continue
                    for s in O.states(range(k), d):
                        yield [d, sc, k, s]

    def st4():
        for d in (0,) if q else (0, 1):
            for s in O.states(range(4), d):
                if len(s[0]) == 4:
                    yield [d, 'int', 4, s]

    def sq():
        for d in (0, 1):
            for c in prune(d, 2, 5 if q else 6):
                yield c
            for c in prune(d, 3, 3 if q else 4):
                yield c
            full3 = [[0, 1, 2], [[u, v] for u in range(3) for v in range(3) if d or u <= v]]
            for c in prune(d, 3, 3 if q else 4, full3, 'mix'):
                yield c
        for c in seqs(0, 2, 3, typ='default'):
            yield c
    return [Space('states', 'every graph (with self-loops) on subsets of 1..3 names, directed and undirected, name '
                  'schemes %s, times every operation of the alphabet (add/delete node/edge on every name)' % (SCHEMES,),
                  st, run_state),
            Space('states4', 'every %s graph on 4 names times every operation' % ('undirected' if q else ''), st4, run_state),
            Space('histories', 'every operation history up to depth %s from the empty and from the complete graph on '
                  '2 and 3 names; all queries compared after it' % ('3 to 5' if q else '4 to 6'), sq, run_seq)]
