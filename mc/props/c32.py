"""random(): every sequence of choices the random number generator can make."""
import itertools
import random as rnd

from mc import graphs as G
from mc.core import Space, Violation, check, freeze

NODE = {'height': 0.5, 'width': 0.5, 'fixedsize': 'true', 'fontsize': 10, 'fontcolor': 'red', 'shape': 'circle'}
EDGE = {'fontsize': 10, 'fontcolor': 'blue'}


class Script(object):
    """Replays a prefix of choices, then always the first alternative; remembers how many alternatives there were."""

    def __init__(self, prefix=()):
        self.pre, self.made = list(prefix), []

    def choose(self, n):
        k = len(self.made)
        c = self.pre[k] if k < len(self.pre) else 0
        self.made.append((c, n))
        return c

    def following(self):
        m = list(self.made)
        while m and m[-1][0] + 1 >= m[-1][1]:
            m.pop()
        if not m:
            return None
        return [c for c, n in m[:-1]] + [m[-1][0] + 1]


def fake_class(script, reals):
    class Fake(rnd.Random):
        def seed(self, *a, **k):
            pass

        def random(self):
            return reals[script.choose(len(reals))]

        def _randbelow(self, n):
            return script.choose(n)

        def getrandbits(self, k):
            return script.choose(1 << k)
    return Fake


class patched(object):
    """The random module under the control of a script."""
    FN = ('random', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'uniform', 'seed', 'getrandbits')

    def __init__(self, script, reals):
        cls = fake_class(script, reals)
        self.new = {f: getattr(cls(), f) for f in self.FN}
        self.new['Random'] = cls

    def __enter__(self):
        self.old = {f: getattr(rnd, f) for f in self.new}
        for f, v in self.new.items():
            setattr(rnd, f, v)

    def __exit__(self, *a):
        for f, v in self.old.items():
            setattr(rnd, f, v)


def judge(g, d, n, kw, made):
    check(g.get_node_list() == list(range(n)) and all(type(x) is int for x in g.get_node_list()),
          'nodes are %s', g.get_node_list())
    nf = kw.get('node_format', NODE)
    ef = kw.get('edge_format', EDGE)
    euclid = kw.get('Euclidean', False)
    scale = kw.get('scale', 10)
    loc = {}
    for i in range(n):
        at = dict(g.get_node(i).attr)
        if euclid:
            x, y = at.pop('locationx'), at.pop('locationy')
            check(0 <= x <= scale and 0 <= y <= scale, 'node %s is at %s, %s outside the square of side %s', i, x, y, scale)
            check(at.pop('pos') == '"%s,%s!"' % (x, y), 'pos of node %s does not give its location', i)
            loc[i] = (x, y)
        check(at == nf, 'node %s has attributes %s, should be %s', i, at, nf)
    E = g.get_edge_list()
    check(len(set(E)) == len(E) and all(u in range(n) and v in range(n) for u, v in E), 'edges are %s', E)
    check(all(u != v for u, v in E), 'there is a self-loop: %s', E)
    lo, hi = kw.get('degree_range', (2, 4)) or (None, None)
    density = kw.get('density')
    closest = euclid and density is None and kw.get('node_selection', 'closest') == 'closest'
    if not d:
        check(len(set(frozenset(e) for e in E)) == len(E), 'an edge is there twice: %s', E)
    elif not kw.get('parallel_allowed', False) and not closest:
        check(not any((v, u) in g.edge_attr for u, v in E), 'there are antiparallel arcs: %s', E)
    lr = kw.get('length_range', (1, 10))
    costs = True
    for u, v in E:
        at = dict(g.edge_attr[(u, v)])
        c = at.pop('cost', None)
        lab = at.pop('label', None)
        check(at == ef, 'edge %s has attributes %s, should be %s', (u, v), at, ef)
        if not euclid:
            if lr is None:
                check(c is None, 'edge %s has cost %s', (u, v), c)
            else:
                check(type(c) is int and lr[0] <= c <= lr[1], 'edge %s has cost %r, not in %s', (u, v), c, lr)
        elif density is None or lr is None:
            dist = ((loc[u][0] - loc[v][0]) ** 2 + (loc[u][1] - loc[v][1]) ** 2) ** 0.5
            f = (kw.get('scale_cost', 5),) if density is None else (1, kw.get('scale_cost', 5))
            check(type(c) is int and any(abs(c - dist * x) <= 0.5 + 1e-9 for x in f),
                  'edge %s of length %s has cost %r', (u, v), dist, c)
        if c is not None:
            want = str(c) if kw.get('add_labels', True) else None
            check(lab == want, 'edge %s of cost %s has label %r', (u, v), c, lab)
        else:
            check(lab is None, 'edge %s without cost has label %r', (u, v), lab)
    for u in range(n):
        out = [b for a, b in E if a == u]
        check(set(out) <= set(g.neighbors[u]), 'neighbors of %s are %s', u, g.neighbors[u])
        if density is None:
            slack = 0
            if closest:
                R = [round((((loc[u][0] - loc[v][0]) ** 2 + (loc[u][1] - loc[v][1]) ** 2) ** 0.5)
                           * kw.get('scale_cost', 5), 0) for v in range(n)]
                slack = 1 if sum(1 for r in R if r == 0) > 1 else 0
                if d and out:
                    far = max(R[v] for v in out)
                    check(all(R[v] >= far for v in range(n) if v != u and v not in out),
                          'node %s is joined to %s although other nodes are closer: %s', u, out, R)
                if d:
                    check(len(out) >= min(lo, n - 1), 'node %s gets %d edges, the degree range starts at %s', u, len(out), lo)
            check(len(out) <= hi + slack, 'node %s gets %d edges, the degree range is up to %s', u, len(out), hi)
    if density is not None:
        if density <= 0:
            check(not E, 'density 0 gives edges %s', E)
        if density >= 1:
            pairs = set(frozenset(e) for e in E)
            check(len(pairs) == n * (n - 1) // 2, 'density 1 joins only %d of %d pairs', len(pairs), n * (n - 1) // 2)
            if d and kw.get('parallel_allowed', False):
                check(len(E) == n * (n - 1), 'density 1 with antiparallel arcs gives %d of %d arcs', len(E), n * (n - 1))


def possible(d, n, kw, reals, edges, costs, deg0, sets):
    """What must occur in some execution: every pair joined, every length, the greatest degree, every density pattern."""
    euclid, density, lr = kw.get('Euclidean', False), kw.get('density'), kw.get('length_range', (1, 10))
    if n < 2:
        return
    if density is not None:
        if 0 < density < 1 and any(x < density for x in reals) and any(x >= density for x in reals):
            k = n * (n - 1) // 2
            want = 4 ** k if d and kw.get('parallel_allowed') else 3 ** k if d else 2 ** k
            check(len(sets) == want, 'density %s: only %d of %d sets of edges can occur', density, len(sets), want)
        if density <= 0:
            return
    else:
        hi = kw.get('degree_range', (2, 4))[1]
        if hi == 0 or euclid and kw.get('node_selection', 'closest') == 'closest':
            return
        want = {(u, v) for u in range(n) for v in range(n) if u != v and (v or euclid)}
        if not d:
            edges, want = {frozenset(e) for e in edges}, {frozenset(e) for e in want}
        check(edges >= want, 'the edges %s cannot occur', sorted(map(sorted, want - edges)))
        check(deg0 == min(hi, n - 1), 'node 0 gets at most %s edges, the degree range is up to %s', deg0, hi)
    if not euclid and lr is not None:
        check(costs == set(range(lr[0], lr[1] + 1)), 'the costs that occur are %s, the range is %s', sorted(costs), lr)


def kwargs(kw):
    r = dict(kw)
    for a in ('degree_range', 'length_range'):
        if a in r and r[a] is not None:
            r[a] = tuple(r[a])
    return r


def run_tree(case, ctx):
    import gimpy
    d, n, kw, reals = case
    kw = kwargs(kw)
    script = Script()
    leaves = 0
    edges, costs, deg0, sets, places = set(), set(), 0, set(), set()
    while True:
        g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
        keep = freeze(kw)
        try:
            with patched(script, reals):
                g.random(numnodes=n, **kw)
            check(freeze(kw) == keep, 'random() changed its arguments')
            judge(g, d, n, kw, script.made)
        except Violation as v:
            raise Violation('%s  [choices %s]' % (v, [c for c, k in script.made]))
        leaves += 1
        E = g.get_edge_list()
        edges.update(E)
        costs.update(g.edge_attr[e].get('cost') for e in E)
        deg0 = max(deg0, sum(1 for e in E if e[0] == 0))
        sets.add(frozenset(E))
        if kw.get('Euclidean'):
            places.add(tuple((g.get_node(i).attr['locationx'], g.get_node(i).attr['locationy']) for i in range(n)))
        ctx.step()
        ctx.state((d, n, repr(sorted(kw.items())), frozenset(g.edge_attr), repr([g.edge_attr[e] for e in g.edge_attr])))
        ctx.outcome(len(g.edge_attr))
        nxt = script.following()
        if nxt is None:
            break
        script = Script(nxt)
    possible(d, n, kw, reals, edges, costs, deg0, sets)
    if n and places:
        axis = {xy[k] for p in places for xy in p for k in (0, 1)}
        check(len(axis) == len(set(reals)) and len(places) == len(axis) ** (2 * n),
              'only %d of %d sets of locations can occur', len(places), len(set(reals)) ** (2 * n))
    # no sharing between the attributes of different nodes and edges
    if n:
        g.set_node_attr(0, 'mark', 1) if hasattr(g, 'set_node_attr') else g.get_node(0).set_attr('mark', 1)
        check(not any('mark' in g.get_node(i).attr for i in range(1, n)), 'nodes share their attributes')
    E = g.get_edge_list()
    if E:
        g.set_edge_attr(E[0][0], E[0][1], 'mark', 1)
        check(not any('mark' in g.edge_attr[e] for e in E[1:]), 'edges share their attributes')
    ctx.notes['sequences of random choices'] += leaves


def run_seed(case, ctx):
    """The graph is a function of the seed and the arguments."""
    import gimpy
    d, n, kw, seed = case
    kw = kwargs(kw)
    pics = []
    for other in (None, 12345, seed):
        if other is not None:
            rnd.seed(other)
            rnd.random()
        g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
        g.random(numnodes=n, seedInput=seed, **kw)
        judge(g, d, n, kw, seed)
        pics.append(g.to_string())
        ctx.step()
    check(pics[0] == pics[1] == pics[2], 'the same seed gives different graphs')
    ctx.state((d, n, repr(sorted(kw.items())), pics[0]))


def run_differ(case, ctx):
    """Different seeds do give different graphs (the seed is used)."""
    import gimpy
    d, kw = case
    pics = set()
    for seed in range(20):
        g = gimpy.Graph(type=gimpy.DIRECTED_GRAPH if d else gimpy.UNDIRECTED_GRAPH)
        g.random(numnodes=12, seedInput=seed, **kwargs(kw))
        pics.add(g.to_string())
        ctx.step()
    check(len(pics) == 20, '20 seeds give only %d graphs', len(pics))
    ctx.state(repr(case))


def spaces(tier):
    q = tier == 'quick'
    L = [{'length_range': [1, 2]}, {'length_range': None}, {'length_range': [5, 5], 'add_labels': False},
         {'length_range': [0, 0]}, {'length_range': [-3, -2]}]
    FM = [{}, {'edge_format': {}, 'node_format': {}}, {'edge_format': {'color': 'red'}, 'node_format': {'shape': 'box'}}]
    PA = [{}, {'parallel_allowed': True}]

    def degree():
        for d in (1, 0):
            for pa in PA:
                for fm in FM:
                    for l in L:
                        for n, dr in ((0, (0, 2)), (1, (0, 0)), (2, (0, 2)), (2, (2, 3)), (3, (0, 1)), (3, (1, 1)), (3, (2, 2)),
                                      (4, (1, 1)), (3, (1, 2))):
                            if n == 3 and dr[1] == 2 and (fm or l not in L[:2] + L[2:3]):
                                continue
                            yield [d, n, dict(dict(dict({'degree_range': dr}, **pa), **fm), **l), []]
        for d in (1, 0):
            for pa in PA:
                if not q:
                    yield [d, 4, dict({'degree_range': [0, 1], 'length_range': [1, 2]}, **pa), []]
                    yield [d, 4, dict({'degree_range': [0, 2], 'length_range': None}, **pa), []]
                    yield [d, 4, dict({'degree_range': [2, 2], 'length_range': [7, 7]}, **pa), []]
                    yield [d, 5, dict({'degree_range': [1, 1], 'length_range': [1, 2]}, **pa), []]
                    yield [d, 3, dict({'degree_range': [3, 3], 'length_range': [0, 1]}, **pa), []]

    def density():
        R = [0.0, 0.5, 0.9999999]
        for d in (1, 0):
            for pa in PA:
                for fm in FM:
                    for l in L:
                        for n in (0, 1, 2, 3):
                            for den in (0, 0.0, 0.5, 0.7, 1, 1.0):
                                yield [d, n, dict(dict(dict({'density': den}, **pa), **fm), **l),
                                       R if n < 3 and not fm else R[::2]]
        if not q:
            for d in (1, 0):
                for pa in PA:
                    yield [d, 4, dict({'density': 0.5, 'length_range': [3, 3]}, **pa), R[::2]]
                    yield [d, 4, dict({'density': 1, 'length_range': None}, **pa), R[::2]]

    def euclid():
        R = [0.0, 0.5, 0.9999999]
        for d in (1, 0):
            for pa in PA:
                for lab in ({}, {'add_labels': False}):
                    for sc in ({}, {'scale': 3, 'scale_cost': 2}):
                        for n in (4, 5):
                            yield [d, n, dict(dict(dict({'Euclidean': True, 'degree_range': (0, 0)}, **pa), **lab), **sc), R[::2]]
                        for n, r in ((0, R), (1, R), (2, [0.0, 0.13, 0.5, 0.9999999]), (3, [0.0, 0.6] if q else R)):
                            base = dict(dict(dict({'Euclidean': True}, **pa), **lab), **sc)
                            for dr in ((0, 1), (1, 1), (0, 2)):
                                if n < 2 and dr[1]:
                                    continue
                                yield [d, n, dict(base, degree_range=dr, node_selection='closest'), r]
                                if n < 3 or dr == (1, 1) and not q or r != R and dr == (0, 1):
                                    yield [d, n, dict(base, degree_range=dr, node_selection='random'), r]
                            for den in (0, 1, 0.5):
                                if n == 3:
                                    yield [d, n, dict(base, density=den, length_range=None), [0.0, 0.6] if not q or d == 0
                                           else [0.6]]
                                else:
                                    yield [d, n, dict(base, density=den, length_range=None), r]

    CONF = [{}, {'degree_range': [0, 3]}, {'density': 0.3}, {'density': 0.9, 'parallel_allowed': True},
            {'Euclidean': True, 'degree_range': [1, 3]}, {'Euclidean': True, 'node_selection': 'random'},
            {'Euclidean': True, 'density': 0.4, 'length_range': None}, {'length_range': None, 'add_labels': False},
            {'parallel_allowed': True, 'length_range': [0, 1]}]

    def seeds():
        for d in (1, 0):
            for kw in CONF:
                for n in (2, 5, 11):
                    for s in range(0, 12 if q else 100):
                        yield [d, n, kw, s]

    def differ():
        for d in (1, 0):
            for kw in CONF:
                yield [d, kw]
    return [Space('degree', 'every sequence of random choices, degree mode, up to %d nodes' % (4 if q else 5), degree, run_tree,
                  300.0),
            Space('density', 'every sequence of random choices, density mode (random numbers below and above the density)',
                  density, run_tree, 300.0),
            Space('Euclidean', 'every sequence of random choices on a grid of coordinates', euclid, run_tree, 300.0),
            Space('seeds', 'the real generator, seeds 0..%d' % (11 if q else 99), seeds, run_seed),
            Space('seed is used', '20 seeds', differ, run_differ)]
