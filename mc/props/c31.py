"""The display argument of an algorithm: that run is shown in that mode, the graph's own mode is not changed."""
import collections

from mc import algos as A
from mc import graphs as G
from mc import rich
from mc.core import Space, check
from coinor.blimpy import Stack, Queue

# name -> (algorithm of the registry whose preconditions apply, call(g, m, s, t, kw))
CALLS = {
    'search': ('dfs_search', lambda g, s, t, kw: g.search(s, **kw)),
    'search to': ('dfs_search', lambda g, s, t, kw: g.search(s, destination=t, **kw)),
    'search BFS': ('bfs_search', lambda g, s, t, kw: g.search(s, algo='BFS', **kw)),
    'search BFS to': ('bfs_search', lambda g, s, t, kw: g.search(s, destination=t, algo='BFS', **kw)),
    'search UnweightedSPT': ('spt_search', lambda g, s, t, kw: g.search(s, algo='UnweightedSPT', **kw)),
    'search Dijkstra': ('dijkstra', lambda g, s, t, kw: g.search(s, algo='Dijkstra', **kw)),
    'search Dijkstra to': ('dijkstra', lambda g, s, t, kw: g.search(s, destination=t, algo='Dijkstra', **kw)),
    'search Prim': ('prim_search', lambda g, s, t, kw: g.search(s, algo='Prim', **kw)),
    'bfs': ('bfs', lambda g, s, t, kw: g.bfs(s, **kw)),
    'dfs': ('dfs', lambda g, s, t, kw: g.dfs(s, **kw)),
    'hamiltonian': ('hamiltonian', lambda g, s, t, kw: g.hamiltonian(s, **kw)),
    'label_components': ('label_components', lambda g, s, t, kw: g.label_components(**kw)),
    'minimum_spanning_tree_prim': ('mst_prim', lambda g, s, t, kw: g.minimum_spanning_tree_prim(s, **kw)),
    'minimum_spanning_tree_kruskal': ('kruskal', lambda g, s, t, kw: g.minimum_spanning_tree_kruskal(**kw)),
    'max_flow': ('maxflow_dfs', lambda g, s, t, kw: g.max_flow(s, t, **kw)),
    'max_flow BFS': ('maxflow_bfs', lambda g, s, t, kw: g.max_flow(s, t, algo='BFS', **kw)),
    'max_flow_preflowpush': ('push_fifo', lambda g, s, t, kw: g.max_flow_preflowpush(s, t, **kw)),
    'max_flow_preflowpush SAP': ('push_sap', lambda g, s, t, kw: g.max_flow_preflowpush(s, t, algo='SAP', **kw)),
    'max_flow_preflowpush HighestLabel': ('push_high', lambda g, s, t, kw: g.max_flow_preflowpush(
        s, t, algo='HighestLabel', **kw)),
    'min_cost_flow': ('mincost', lambda g, s, t, kw: g.min_cost_flow(**kw)),
    'min_cost_flow cycle_canceling': ('cancel', lambda g, s, t, kw: g.min_cost_flow(algo='cycle_canceling', **kw)),
    'network_simplex': ('simplex', lambda g, s, t, kw: g.network_simplex(kw.get('display'), 'dantzig', s)),
    'cycle_canceling': ('cancel', lambda g, s, t, kw: g.cycle_canceling(kw.get('display'))),
}
ALWAYS_GIVEN = ('network_simplex', 'cycle_canceling')
QUIET = ('min_cost_flow cycle_canceling', 'cycle_canceling')      # solve silently whatever the mode
MODES = ('off', 'file', 'svg')
_R = []


def recorder():
    if not _R:
        import gimpy

        class R(gimpy.Graph):
            def display(self, *a, **k):
                self.__dict__.setdefault('modes', []).append(self.attr['display'])
        _R.append(R)
    return _R[0]


def run(spec, ctx):
    m = G.M(spec)
    s, t = m.name(0), m.name(m.n - 1)
    for call, (alg, f) in CALLS.items():
        a = A.ALGOS[alg]
        if not a.ok(m):
            ctx.notes[call + ': outside the preconditions'] += 1
            continue
        if m.n < 2 and ('flow' in call or 'simplex' in call or 'cycle' in call):
            continue
        shown = {}
        for mode in MODES:
            for arg in (None,) + MODES:
                if arg is None and call in ALWAYS_GIVEN:
                    continue
                g = G.build(spec, recorder(), display=mode)
                g.modes = []
                f(g, s, t, {} if arg is None else {'display': arg})
                check(g.attr['display'] == mode, '%s(display=%r) left the display mode at %r, it was %r', call, arg,
                      g.attr['display'], mode)
                want = arg or mode
                seen = [x for x in g.modes if x != 'off']
                check(all(x == want for x in seen), '%s(display=%r) on a graph in mode %r displayed in modes %s', call,
                      arg, mode, sorted(set(seen)))
                if call not in QUIET:
                    key = 'off' if want == 'off' else 'on'
                    shown.setdefault(key, []).append((mode, arg, len(seen)))
                ctx.step()
                ctx.frames += len(seen)
        for key, l in shown.items():
            check(len(set(x[2] for x in l)) == 1, '%s shows a different number of states depending on how the mode was '
                  'given: %s', call, l)
        ctx.outcome((call, shown.get('on', [(0, 0, 0)])[0][2] > 0))
        ctx.state((call, repr(spec['e']), spec['d'], spec['n']))


def run_tree(case, ctx):
    import gimpy
    kind, n, shape = case
    base = gimpy.BinaryTree if kind == 'binary' else gimpy.Tree

    class R(base):
        def display(self, *a, **k):
            self.__dict__.setdefault('modes', []).append(self.attr['display'])

    def calls():
        for nm, f in (('dfs', lambda t, kw: t.dfs(**kw)), ('bfs', lambda t, kw: t.bfs(**kw)),
                      ('dfs root', lambda t, kw: t.dfs(root=0, **kw)),
                      ('traverse', lambda t, kw: t.traverse(**kw)),
                      ('traverse Queue', lambda t, kw: t.traverse(q=Queue(), **kw))):
            yield nm, f
        if kind == 'binary':
            for order in ('pre', 'in', 'post'):
                for pr in 'LR':
                    yield 'print_nodes ' + order + pr, lambda t, kw, o=order, p=pr: t.print_nodes(o, p, **kw)
            yield 'printexp', lambda t, kw: t.printexp(**kw)
            yield 'postordereval', lambda t, kw: t.postordereval(**kw)
    inner = collections.Counter(p for c, p, side in shape)

    def label(c):
        return {'label': '+' if inner[c] == 2 else str(c)}
    for nm, f in calls():
        cnt = set()
        for mode in MODES:
            for arg in (None,) + MODES:
                t = R(display=mode)
                t.add_root(0, **label(0))
                for c, p, side in shape:
                    if kind == 'binary':
                        (t.add_left_child if side == 'L' else t.add_right_child)(c, p, **label(c))
                    else:
                        t.add_child(c, p, **label(c))
                t.modes = []
                f(t, {} if arg is None else {'display': arg})
                check(t.attr['display'] == mode, '%s(display=%r) left the display mode at %r, it was %r', nm, arg,
                      t.attr['display'], mode)
                want = arg or mode
                seen = [x for x in t.modes if x != 'off']
                check(all(x == want for x in seen), '%s(display=%r) on a tree in mode %r displayed in modes %s', nm, arg,
                      mode, sorted(set(seen)))
                if want != 'off':
                    cnt.add(len(seen))
                ctx.step()
                ctx.frames += len(seen)
        check(len(cnt) == 1 and min(cnt) > 0, '%s shows a varying number of states: %s', nm, sorted(cnt))
        ctx.outcome((kind, nm))
    ctx.state((kind, repr(shape)))


def spaces(tier):
    from mc.props.c02 import bin_shapes
    q = tier == 'quick'
    k = 4 if q else 6
    return [Space('algorithms', '%d calls with a display argument x 3 global modes x (no argument + 3 modes), every '
                  'small graph' % len(CALLS),
                  (lambda: rich.small(tier)) if q else (lambda: rich.more(tier)), run, 60.0),
            Space('trees', 'traversals and printing of every binary tree up to %d nodes and every tree of that shape' % k,
                  lambda: ([kind, k, s] for kind in ('binary', 'tree') for s in bin_shapes(k)), run_tree)]
