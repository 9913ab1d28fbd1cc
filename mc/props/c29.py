"""Clusters."""
import itertools

from mc import dot
from mc import graphs as G
from mc import graphops as O
from mc.core import Space, check
from mc.props.c28 import expect, read

ATT = [{}, {'color': 'red'}, {'label': 'my label', 'style': 'filled'}]
NAT = [{}, {'shape': 'box', 'comment': 'a b'}]


def run(case, ctx):
    """case: directed, n, edges, list of clusters (members, explicit name or None, attr index, node attr index),
    operations that follow."""
    import gimpy
    d, scheme, n, es, clusters, after = case
    N = [G.NAMES[scheme](i) for i in range(n)]
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
    for i in range(n):
        g.add_node(N[i], mark='m%d' % i)
    for u, v in es:
        g.add_edge(N[u], N[v], w='%d-%d' % (u, v))
    shared_c = [dict(x) for x in ATT]
    shared_n = [dict(x) for x in NAT]
    want = []
    alive = set(range(n))
    edges = [tuple(e) for e in es]

    def create(mem, name, ai, ni):
        lst = [N[i] for i in mem]
        keep = list(lst)
        attrs = dict(ATT[ai], name=name) if name is not None else shared_c[ai]
        kept = dict(attrs)
        args = (lst,) if name is None and ai == 0 and ni == 0 else (lst, attrs, shared_n[ni])
        before = O.full(g)[:-2]
        g.create_cluster(*args)
        check(O.full(g)[:-2] == before, 'create_cluster changed the graph')
        check(lst == keep and attrs == kept and shared_n[ni] == NAT[ni],
              'create_cluster changed its arguments: %s, %s, %s', lst, attrs, shared_n[ni])
        lst.append('junk')
        if name is not None:
            attrs['late'] = 'late'      # the dictionary is the caller's, the cluster is as created
        want.append([set(mem), name, ATT[ai], NAT[ni]])
    for c in clusters:
        create(*c)
        ctx.step()
    for op in after:
        if op[0] == 'dn':
            g.del_node(N[op[1]])
            alive.discard(op[1])
            edges = [e for e in edges if op[1] not in e]
            for w in want:
                w[0].discard(op[1])
        elif op[0] == 'de':
            g.del_edge((N[op[1]], N[op[2]]))
            edges.remove((op[1], op[2]))
        elif op[0] == 'an':
            g.add_node(N[op[1]], mark='m%d' % op[1])
            alive.add(op[1])
        elif op[0] == 'ae':
            g.add_edge(N[op[1]], N[op[2]], w='%d-%d' % (op[1], op[2]))
            edges.append((op[1], op[2]))
        elif op[0] == 'attr':           # later changes of the dictionaries passed in must not leak into clusters
            for x in shared_c + shared_n:
                x['leak'] = 'leak'
        ctx.step()
    check(len(g.cluster) == len(want), '%d clusters were created, there are %s', len(want), sorted(map(str, g.cluster)))
    p = read(g)
    S = {str(N[i]): i for i in range(n)}
    check(set(p['nodes']) == {str(N[i]) for i in alive}, 'nodes are %s', sorted(p['nodes']))
    for i in alive:
        expect(p['nodes'][str(N[i])], {'mark': 'm%d' % i}, 'node %d' % i)
    got = sorted((S.get(u, u), S.get(v, v)) for u, v, a in p['edges'])
    check(got == sorted(edges), 'edges are written as %s, should be %s', got, sorted(edges))
    for u, v, a in p['edges']:
        expect(a, {'w': '%d-%d' % (S[u], S[v])}, 'edge %s-%s' % (u, v))
    check(len(p['clusters']) == len(want), 'clusters are written as %s', [c['name'] for c in p['clusters']])
    left = list(p['clusters'])
    names = set()
    for mem, name, at, nat in want:
        fit = [c for c in left if (name is None or c['name'] == 'cluster_%s' % name)
               and sorted(c['nodes']) == sorted(str(N[i]) for i in mem)
               and {k: v for k, v in c['attrs'].items() if k != 'name'} == at and c.get('node_attrs', {}) == nat]
        check(fit, 'cluster of %s (name %r, attributes %s, node attributes %s) is not written; written are %s', sorted(mem),
              name, at, nat, left)
        left.remove(fit[0])
        names.add(fit[0]['name'])
        for u, v in fit[0]['edges']:
            check(S[u] in mem and S[v] in mem, 'edge %s leaves the cluster it is written in', (u, v))
        inner = sorted(e for e in edges if e[0] in mem and e[1] in mem)
        there = sorted((S[e[0]], S[e[1]]) for e in fit[0]['edges'])
        check(inner == there, 'edges %s are written in the cluster of %s, its inner edges are %s', there, sorted(mem), inner)
    check(len(names) == len(want), 'cluster names are not distinct: %s', sorted(names))
    ctx.state(repr(case))
    ctx.outcome((len(want), len(alive)))


def disjoint(n, names=(None, 'x', '0')):
    """Every set of up to 3 disjoint non-empty clusters over n nodes, with every naming."""
    for lab in itertools.product(range(4), repeat=n):
        ids = sorted(set(x for x in lab if x))
        if ids != list(range(1, len(ids) + 1)):
            continue
        groups = [[i for i in range(n) if lab[i] == k] for k in ids]
        yield groups


def spaces(tier):
    q = tier == 'quick'
    D = {1: [(u, v) for u in range(3) for v in range(3)], 0: [(u, v) for u in range(3) for v in range(u, 3)]}

    def structure():
        for d in (0, 1):
            ps = D[d]
            if q and d:
                ps = [(0, 1), (1, 0), (1, 2), (2, 1), (0, 0), (2, 0)]
            for mask in range(1 << len(ps)):
                for flip in (0, 1):
                    es = [list(p)[::-1] if flip and not d else list(p) for k, p in enumerate(ps) if mask >> k & 1]
                    if flip and d:
                        es = es[::-1]
                    for groups in disjoint(3):
                        yield [d, 'int', 3, es, [[g, None, 0, 0] for g in groups], []]
                        if len(groups) == 2 and not flip:
                            yield [d, 'mix', 3, es, [[g[::-1], None, 1, 1] for g in groups], []]

    def naming():
        es = [[0, 1], [1, 2], [2, 3], [3, 0]]
        for d in (0, 1):
            for groups in disjoint(4):
                k = len(groups)
                for names in itertools.product((None, 'x', 'c1', '0'), repeat=k):
                    if len([x for x in names if x]) != len(set(x for x in names if x)):
                        continue
                    # a cluster named like an automatic name must not get in the way of automatic names
                    for ai, ni in ((0, 0), (1, 1), (2, 0)):
                        if 'c1' in names and None in names and names.index('c1') > names.index(None):
                            continue
                        yield [d, 'int', 4, es, [[g, nm, ai, ni] for g, nm in zip(groups, names)], [['attr']]]

    def overlapping():
        for a in itertools.chain(*[itertools.combinations(range(3), k) for k in (1, 2, 3)]):
            for sc in ('int', 'tok', 'dig'):
                yield [1, sc, 3, [[0, 1], [2, 1], [1, 0]], [[list(a), 'k', 2, 1]], []]
                yield [0, sc, 3, [[0, 1], [2, 1]], [[list(a), None, 2, 1]], [['attr']]]

    def deleting():
        for d in (0, 1):
            es = [[0, 1], [2, 1], [1, 3], [3, 0]]
            for groups in disjoint(4):
                for ops in itertools.product([['dn', i] for i in range(4)] + [['de', 2, 1], ['de', 3, 0]],
                                             repeat=2):
                    if ops[0] == ops[1] or any(o[0] == 'dn' and p[0] == 'de' and o[1] in p[1:]
                                               for o, p in (ops, )):
                        continue
                    ops = [list(o) for o in ops]
                    yield [d, 'int', 4, es, [[g, None, 0, 0] for g in groups], ops]
                    dead = [o[1] for o in ops if o[0] == 'dn']
                    if dead:
                        other = [i for i in range(4) if i not in dead][0]
                        yield [d, 'mix', 4, es, [[g, None, 1, 0] for g in groups],
                               ops + [['an', dead[0]], ['ae', other, dead[0]]]]
    return [Space('structure', 'every graph on 3 nodes with self-loops%s x every set of disjoint clusters, both edge spellings'
                  % (' (6 arcs for digraphs)' if q else ''), structure, run),
            Space('names', 'every set of disjoint clusters over 4 nodes x explicit, automatic and colliding names x '
                  'attributes', naming, run),
            Space('members', 'every member set under other node-name schemes', overlapping, run),
            Space('histories', 'every pair of deletions (and re-additions) after every clustering of 4 nodes', deleting, run)]
