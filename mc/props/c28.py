"""to_string: what is written is valid DOT and describes exactly this graph."""
import fractions
import itertools
import json
import re
import shutil
import subprocess

from mc import dot
from mc import graphs as G
from mc.core import HarnessError, Space, Violation, check

CHARS = ['a', '0', ' ', '"', '\\', '\n', ',', ':', ';', '-', '.', '\u00e9', '<', '>', '=', '[', ']', '{', '\r', '#',
         '/', '_', 'n', '\t', '|', '%', "'"]
CORE = ['a', '"', '\\', '\n', ' ', ':', 'n', '0']
WORDS = ['', 'None', 'True', 'x1', '1x', '-5', '1.5', '.5', '-.5', '5.', '1e5', '1e-07', 'graphs', 'nodes', 'a-b', 'a->b',
         'a--b', '//x', '/*x*/', '#x', 'http://x.y/z?a=b&c=d', 'C:\\dir\\file', 'say "hi"', '\\N', 'a\\lb\\r', 'two\nlines',
         '\u4e2d\u6587', 'na\u00efve', 'a_b', '_', '__x', '007', '0x1F', '{a|b}', '<a', 'b>', 'a,b', 'trail\\', '\\"', '"a', 'a"',
         'x' * 300, 'y z' * 700, 'subgraph1', 'a b c', ' lead', 'tail ', '\\', '\\\\', '\\\\\\', '"', '\n', '\r\n', '%d', '{}']


def in_domain(s, name=False):
    return not (s.lower() in dot.KEYWORDS or (len(s) > 1 and s[0] == '"' and s[-1] == '"')
                or re.match(r'^<.*>$', s, re.S) or '\0' in s or (name and ':' in s))


def canon(s):
    return re.sub(r'\\+', r'\\', dot.means(s))


def expect(got, want, what):
    check(set(got) == set(want), '%s: attributes %s, should be %s', what, sorted(got), sorted(want))
    for a in want:
        check(dot.same_text(got[a], str(want[a])), '%s: %s is read back as %r, was %r', what, a, got[a], want[a])


def read(g):
    s = g.to_string()
    check(isinstance(s, str), 'to_string returned %r', type(s))
    try:
        return dot.parse(s)
    except dot.DotError as e:
        raise Violation('not valid DOT (%s): %r' % (e, s[:600]))


def run_string(case, ctx):
    """One string in every position at once."""
    import gimpy
    s, d = case
    nm = in_domain(s, True)
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH, name=s if nm else 'G', label=s)
    a, b = (s, 'zz') if nm else ('yy', 'zz')
    g.add_node(a, label=s, user=s)
    g.add_node(b, tooltip='plain')
    g.add_edge(a, b, label=s, comment=s)
    g.create_cluster([b], {'name': s if nm else 'k', 'label': s}, {'color': s})
    p = read(g)
    check(p['type'] == ('digraph' if d else 'graph'), 'type is %s', p['type'])
    check(dot.same_text(p['name'], s if nm else 'G'), 'graph name is read back as %r, was %r', p['name'], s)
    check(dot.same_text(p['attrs'].get('label', '?none'), s), 'graph label is read back as %r, was %r',
          p['attrs'].get('label'), s)
    check(len(p['nodes']) == 2 and 'zz' in p['nodes'], 'nodes are %s', sorted(p['nodes']))
    na = [x for x in p['nodes'] if x != 'zz'][0]
    check(dot.same_text(na, a), 'node name is read back as %r, was %r', na, a)
    expect(p['nodes'][na], {'label': s, 'user': s}, 'node')
    expect(p['nodes']['zz'], {'tooltip': 'plain'}, 'other node')
    check(len(p['edges']) == 1 and p['edges'][0][:2] == (na, 'zz'), 'edges are %s', p['edges'])
    expect(p['edges'][0][2], {'label': s, 'comment': s}, 'edge')
    check(len(p['clusters']) == 1 and p['clusters'][0]['nodes'] == ['zz'], 'clusters are %s', p['clusters'])
    c = p['clusters'][0]
    check(dot.same_text(c['name'], 'cluster_' + (s if nm else 'k')), 'cluster is read back as %r', c['name'])
    check(dot.same_text(c['attrs'].get('label', '?none'), s), 'cluster label is read back as %r, was %r',
          c['attrs'].get('label'), s)
    check(dot.same_text(c.get('node_attrs', {}).get('color', '?none'), s), 'cluster node attribute is read back as %r',
          c.get('node_attrs'))
    check(g.to_string() == g.to_string() and repr(g.get_node(a)) == g.get_node(a).to_string(), 'to_string varies')
    ctx.step()
    ctx.state((s, d))
    ctx.outcome('quoted' if '"' in g.get_node(a).to_string().split(' [')[0] else 'bare')


def run_pair(case, ctx):
    """Two names that must stay apart, in edges of both directions."""
    import gimpy
    s, t, d = case
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
    g.add_edge(s, t, w='1')
    if d:
        g.add_edge(t, s, w='2')
    g.add_edge(t, t, w='3')
    p = read(g)
    check(len(p['nodes']) == 2, 'nodes %r and %r are read back as %s', s, t, sorted(p['nodes']))
    want = [(s, t, '1')] + ([(t, s, '2')] if d else []) + [(t, t, '3')]
    got = [(u, v, a.get('w')) for u, v, a in p['edges']]
    check(len(got) == len(want), 'edges are %s', got)
    for x in want:
        check(any(dot.same_text(y[0], x[0]) and dot.same_text(y[1], x[1]) and y[2] == x[2] for y in got),
              'edge %r is missing, edges are %s', x, got)
    ctx.step()
    ctx.state((s, t, d))


def run_graph(spec, ctx):
    """A whole graph with attributes of many types: exact round trip."""
    m = G.M(spec)
    g = G.build(spec, None, **spec.get('ga', {}))
    p = read(g)
    check(p['type'] == ('digraph' if m.directed else 'graph'), 'type is %s', p['type'])
    ga = dict({'layout': 'fdp'}, **spec.get('ga', {}))
    from gimpy.global_constants import GRAPH_ATTRIBUTES
    expect(p['attrs'], {k: v for k, v in ga.items() if k in GRAPH_ATTRIBUTES}, 'graph')
    check(set(p['nodes']) == {str(m.name(i)) for i in range(m.n)}, 'nodes are read back as %s', sorted(p['nodes']))
    na = spec.get('na', {})
    for i in range(m.n):
        expect(p['nodes'][str(m.name(i))], {a: v[i] for a, v in na.items() if v[i] is not None}, 'node %s' % i)
    want = {(str(m.name(u)), str(m.name(v))): at for (u, v), at in m.attrs.items()}
    got = {(u, v): a for u, v, a in p['edges']}
    check(len(p['edges']) == len(want) and set(got) == set(want), 'edges are read back as %s, should be %s',
          sorted(got), sorted(want))
    for e in want:
        expect(got[e], want[e], 'edge %s' % (e,))
    check(p['clusters'] == [], 'clusters appear: %s', p['clusters'])
    for (u, v), at in m.attrs.items():
        q = dot.parse(('digraph {%s}' if m.directed else 'graph {%s}') % g.edge_to_string((m.name(u), m.name(v))))
        check([x[:2] for x in q['edges']] == [(str(m.name(u)), str(m.name(v)))], 'edge_to_string writes %s', q['edges'])
    ctx.step()
    ctx.state(repr(sorted(spec.items())))
    ctx.outcome((m.n, len(m.attrs)))


def gv(text):
    p = subprocess.run(['dot', '-Tdot_json'], input=text.encode('utf8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0 or b'syntax' in p.stderr:
        return None, p.stderr.decode('utf8', 'replace')
    return json.loads(p.stdout.decode('utf8')), ''


def run_conform(case, ctx):
    """The parser of this check against graphviz itself, on what GiMPy writes for a batch of strings."""
    import gimpy
    if shutil.which('dot') is None:
        ctx.notes['graphviz is not installed'] += 1
        return
    kind, batch = case
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH, name='batch')
    names = {}
    for i, s in enumerate(batch):
        n = s if kind == 'names' else 'n%d' % i
        if any(canon(n) == canon(o) for o in names.values()):
            continue
        names[str(i)] = n
        g.add_node(n, tooltip=s, ordinal=str(i))
        if i % 2:
            g.add_edge('hub', n, comment=s)
        else:
            g.add_edge(n, 'hub', comment=s)
    text = g.to_string()
    ref, err = gv(text)
    check(ref is not None, 'graphviz rejects %r: %s', text[:300], err[:300])
    # what graphviz read must be what was put in ...
    objs = {o['_gvid']: o for o in ref.get('objects', [])}
    check(len(objs) == len(names) + 1, 'graphviz reads %d nodes, there are %d', len(objs), len(names) + 1)
    for o in objs.values():
        if o['name'] == 'hub':
            continue
        i = o.get('ordinal')
        check(i in names, 'graphviz reads an unknown node %r', o['name'])
        check(dot.same_text(o['name'], names[i]), 'graphviz reads node %r as %r', names[i], o['name'])
        check(dot.same_text(o.get('tooltip', ''), batch[int(i)]), 'graphviz reads attribute %r as %r', batch[int(i)],
              o.get('tooltip'))
    E = sorted((objs[e['tail']]['name'], objs[e['head']]['name'], e.get('comment', '')) for e in ref.get('edges', []))
    check(len(E) == len(names), 'graphviz reads %d edges, there are %d', len(E), len(names))
    for t, h, c in E:
        n = t if h == 'hub' else h
        i = [int(o['ordinal']) for o in objs.values() if o['name'] == n][0]
        check(dot.same_text(c, batch[i]) and (t == 'hub') == bool(i % 2), 'graphviz reads edge %s of %r', (t, h, c), batch[i])
    # ... and the parser of this check must agree with it
    mine = dot.parse(text)
    if sorted(o['name'] for o in objs.values()) != sorted(mine['nodes']):
        raise HarnessError('parser disagrees with graphviz on node names')
    for o in objs.values():
        for a, v in mine['nodes'][o['name']].items():
            if o.get(a, '') != v:
                raise HarnessError('parser disagrees with graphviz: %r %s: %r, graphviz %r' % (o['name'], a, v, o.get(a)))
    if E != sorted((u, v, a.get('comment', '')) for u, v, a in mine['edges']):
        raise HarnessError('parser disagrees with graphviz on edges')
    ctx.step(len(batch))
    ctx.notes['strings cross-checked against graphviz'] += len(batch)
    ctx.state((kind, repr(batch[:3])))


VALS = [{'label': 'two words', 'w': 3}, {'cost': -1.5, 'color': 'red', 'flag': True}, {}]
ODD = [0, 0.0, False, True, -0.0, 1e300, 1e-7, -7, 10 ** 20, '', (), [], [1, 'a b'], {}, {'k': 'v'}, frozenset([1]), float('inf'), b'x',
       fractions.Fraction(1, 3), 1j]        # values that are not strings, many of them false


def run_odd(case, ctx):
    """Attribute values of any type: written as str() of them, wherever they are set."""
    import gimpy
    i, j, d = case
    v, w = ODD[i], ODD[j]
    for set_ in (0, 1):
        g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
        if set_:
            g.add_node('a')
            g.add_node('b')
            g.add_edge('a', 'b')
            g.set_node_attr('a', 'user', v)
            g.set_node_attr('a', 'label', w)
            g.get_node('b').set_attr('user', w)
            g.set_edge_attr('a', 'b', 'user', w)
            g.set_edge_attr('a', 'b', 'weight', v)
        else:
            g.add_node('a', user=v, label=w)
            g.add_node('b', user=w)
            g.add_edge('a', 'b', user=w, weight=v)
        p = read(g)
        expect(p['nodes']['a'], {'user': v, 'label': w}, 'node')
        expect(p['nodes']['b'], {'user': w}, 'node')
        expect(p['edges'][0][2], {'user': w, 'weight': v}, 'edge')
        ctx.step()
    ctx.state(tuple(case))


HIST = [('an', 'a', {'label': 'x y'}), ('an', 'b', {}), ('ae', 'a', 'b', {'w': 1}), ('ae', 'b', 'a', {}), ('ae', 'b', 'c', {'w': 2}),
        ('sn', 'a', 'label', 'new'), ('sn', 'a', 'user', 'u 1'), ('do', 'b', 'user', 2), ('se', 'a', 'b', 'w', 5), ('se', 'a', 'b', 'k', 'z z'),
        ('dd', 'a', 'b', 'w', 7), ('dn', 'b'), ('de', 'a', 'b'), ('ga', 'label', 'two words'), ('ga', 'K', 2.5), ('la', 'dot'),
        ('na', 'H h'), ('cl', 'a', {'color': 'red'}), ('cp',)]


def run_history(case, ctx):
    """The text follows the graph: written and read back after every step of a history."""
    import copy
    import gimpy
    from gimpy.global_constants import GRAPH_ATTRIBUTES
    d, ops = case
    g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
    nodes, edges, ga, cl, name = {}, {}, {'layout': 'fdp'}, [], 'G'

    def key(u, v):
        return (u, v) if d or (u, v) in edges else (v, u)

    def look():
        p = read(g)
        check(p['type'] == ('digraph' if d else 'graph') and p['name'] == name, 'type and name are %s %s', p['type'], p['name'])
        expect(p['attrs'], {k: v for k, v in ga.items() if k in GRAPH_ATTRIBUTES}, 'graph')
        check(set(p['nodes']) == set(nodes), 'nodes are %s, should be %s', sorted(p['nodes']), sorted(nodes))
        for n in nodes:
            expect(p['nodes'][n], nodes[n], 'node %s' % n)
        check(sorted(x[:2] for x in p['edges']) == sorted(edges), 'edges are %s, should be %s', p['edges'], sorted(edges))
        for u, v, a in p['edges']:
            expect(a, edges[(u, v)], 'edge %s-%s' % (u, v))
        check([sorted(c['nodes']) for c in p['clusters']] == cl, 'clusters are %s, should be %s', p['clusters'], cl)
        ctx.step()
    look()
    for k in ops:
        op = HIST[k]
        w = op[0]
        if w == 'an' and op[1] not in nodes:
            g.add_node(op[1], **op[2])
            nodes[op[1]] = dict(op[2])
        elif w == 'ae' and op[1:3] not in edges and (d or op[2:0:-1] not in edges):
            g.add_edge(op[1], op[2], **op[3])
            nodes.setdefault(op[1], {})
            nodes.setdefault(op[2], {})
            edges[op[1:3]] = dict(op[3])
        elif w == 'sn' and op[1] in nodes:
            g.set_node_attr(*op[1:])
            nodes[op[1]][op[2]] = op[3]
        elif w == 'do' and op[1] in nodes:
            g.get_node(op[1]).set_attr(*op[2:])
            nodes[op[1]][op[2]] = op[3]
        elif w in ('se', 'dd') and key(*op[1:3]) in edges:
            if w == 'se':
                g.set_edge_attr(*op[1:])
            else:
                g.edge_attr[key(*op[1:3])][op[3]] = op[4]
            edges[key(*op[1:3])][op[3]] = op[4]
        elif w == 'dn' and op[1] in nodes:
            g.del_node(op[1])
            del nodes[op[1]]
            edges = {e: a for e, a in edges.items() if op[1] not in e}
            cl = [[x for x in c if x != op[1]] for c in cl]
        elif w == 'de' and key(*op[1:3]) in edges:
            g.del_edge(op[1:3])
            del edges[key(*op[1:3])]
        elif w == 'ga':
            g.attr[op[1]] = op[2]
            ga[op[1]] = op[2]
        elif w == 'la':
            g.set_layout(op[1])
            ga['layout'] = op[1]
        elif w == 'na':
            g.name = name = op[1]
        elif w == 'cl' and op[1] in nodes and not any(op[1] in c for c in cl):
            g.create_cluster([op[1]], op[2])
            cl = cl + [[op[1]]]
        elif w == 'cp':
            g = copy.deepcopy(g)
        else:
            continue
        look()
    ctx.state((d, repr(sorted(nodes.items())), repr(sorted(edges.items())), repr(sorted(ga.items())), repr(cl)))


NVAL = {'label': ['a b', '', None], 'demand': [-2, 0.25, 10], 'pos': ['1,2!', 'x:y', None]}
GVAL = [{}, {'splines': 'true', 'K': 1.5, 'label': 'Gr aph', 'notdot': 'x y'}, {'rankdir': 'LR', 'size': '7,7', 'dpi': 96,
                                                                             'K': 1e-07, 'overlap': False}]


def spaces(tier):
    q = tier == 'quick'

    def strings():
        seen = set()
        for src in ([''.join(t) for k in (1, 2, 3) for t in itertools.product(CHARS, repeat=k)] if q else
                    [''.join(t) for k in (1, 2, 3, 4) for t in itertools.product(CHARS[:20], repeat=k)],
                    [''.join(t) for k in ((4,) if q else (4, 5, 6)) for t in itertools.product(CORE, repeat=k)], WORDS):
            for s in src:
                if s not in seen and in_domain(s):
                    seen.add(s)
                    yield [s, len(s) % 2]

    def pairs():
        ws = [w for w in WORDS if in_domain(w, True)] + [''.join(t) for k in (1,) for t in itertools.product(CHARS, repeat=k)
                                                        if in_domain(''.join(t), True)]
        for i, s in enumerate(ws):
            for t in ws[i + 1:]:
                if re.sub(r'\\+', r'\\', dot.means(s)) != re.sub(r'\\+', r'\\', dot.means(t)):
                    yield [s, t, (i + len(t)) % 2]

    def graphs():
        for d in (1, 0):
            for ga in GVAL:
                for n in (0, 1, 2):
                    for s in G.all_graphs(n, bool(d), VALS, True):
                        yield dict(s, ga=ga, na={k: v[:n] for k, v in NVAL.items()})
        for nm in ('int', 'neg', 'flt', 'mix', 'tok', 'str', 'fal', 'tup'):
            for d in (1, 0):
                for s in G.all_graphs(3, bool(d), VALS[:1], True):
                    yield dict(s, nm=nm, na={k: v for k, v in NVAL.items()})
        for d in (1, 0):
            for s in G.families(bool(d), VALS, (5, 7, 12)):
                yield s

    def conform():
        al = [''.join(t) for k in (1, 2) for t in itertools.product(CHARS, repeat=k)] + WORDS + \
             [''.join(t) for t in itertools.product(CORE, repeat=3)]
        if not q:
            al += [''.join(t) for t in itertools.product(CHARS, repeat=3)]
        # graphviz keeps '%...' for anonymous objects
        nn = [s for s in al if in_domain(s, True) and s not in ('hub', '') and s[0] != '%']
        vv = [s for s in al if in_domain(s)]
        for kind, l in (('names', nn), ('values', vv)):
            for i in range(0, len(l), 100):
                yield [kind, l[i:i + 100]]
    def histories():
        for d in (1, 0):
            for ops in itertools.product(range(len(HIST)), repeat=3 if q else 4):
                for start in ([2], [0, 2], [2, 4]):
                    yield [d, start + list(ops)]
    return [Space('histories', 'the text written after every step of every history: 3 beginnings x every %s of %d operations (nodes, '
                  'edges, attributes added, changed in three ways and deleted, graph attributes, layout, name, clusters, copies)'
                  % ('triple' if q else 'quadruple', len(HIST)), histories, run_history),
            Space('strings', 'every string of up to %d characters out of %d (quotes, backslashes, line ends, brackets, '
                  'non-ASCII...), every string of 4%s out of %d core characters, and a word list: as node name, graph '
                  'name, cluster name and every kind of attribute value'
                  % (3 if q else 4, len(CHARS) if q else 20, '' if q else '..6', len(CORE)), strings, run_string),
            Space('pairs', 'every pair of special names in one graph', pairs, run_pair),
            Space('graphs', 'every graph with self-loops on 0..3 nodes x attributes of different types x graph '
                  'attributes x name schemes, and named families', graphs, run_graph),
            Space('types', 'every pair of %d attribute values that are not strings (numbers, booleans, containers, false '
                  'ones), on nodes and edges, given when adding or set later' % len(ODD),
                  lambda: ([i, j, d] for i in range(len(ODD)) for j in range(len(ODD)) for d in (0, 1)), run_odd),
            Space('graphviz', 'the parser used as oracle is compared with graphviz on batches of these strings',
                  conform, run_conform, 60.0)]
