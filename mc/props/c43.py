"""A run that fails or is interrupted: nodes, edges, inputs and display mode are as before, and the run can be repeated."""
import subprocess

from mc import algos as A
from mc import graphs as G
from mc import rich
from mc.core import Space, Violation, check, freeze
from mc.props import c31
from mc.props.c40 import INPUTS

# call(g, names, s, t, kw), how many end points it takes
CALLS = {k: f for k, (_, f) in c31.CALLS.items()}
NEEDS = {k: a for k, (a, _) in c31.CALLS.items()}
CALLS['minimum_spanning_tree_kruskal'] = lambda g, s, t, kw: g.minimum_spanning_tree_kruskal(components=quiet_set(), **kw)
CALLS['network_simplex first_eligible'] = lambda g, s, t, kw: g.network_simplex(kw.get('display'), 'first_eligible', s)
CALLS['find_feasible_flow'] = lambda g, s, t, kw: g.find_feasible_flow()
CALLS['acyclic_shortest_path'] = lambda g, s, t, kw: g.acyclic_shortest_path(s, t)
CALLS['floyd_warshall'] = lambda g, s, t, kw: g.floyd_warshall()
CALLS['get_negative_cycle'] = lambda g, s, t, kw: g.get_negative_cycle()
CALLS['fifo_label_correcting'] = lambda g, s, t, kw: g.fifo_label_correcting(s)
CALLS['create_residual_graph'] = lambda g, s, t, kw: g.create_residual_graph()
CALLS['tarjan'] = lambda g, s, t, kw: g.tarjan()
CALLS['page_rank'] = lambda g, s, t, kw: g.page_rank()
CALLS['get_degrees'] = lambda g, s, t, kw: g.get_degrees()
CALLS['get_diameter'] = lambda g, s, t, kw: g.get_diameter()
CALLS['hamiltonian to'] = lambda g, s, t, kw: g.hamiltonian(s, t, **kw)
CALLS['search nowhere'] = lambda g, s, t, kw: g.search(s, algo='nowhere', **kw)
CALLS['max_flow nowhere'] = lambda g, s, t, kw: g.max_flow(s, t, algo='nowhere', **kw)
CALLS['max_flow_preflowpush nowhere'] = lambda g, s, t, kw: g.max_flow_preflowpush(s, t, algo='nowhere', **kw)
CALLS['min_cost_flow nowhere'] = lambda g, s, t, kw: g.min_cost_flow(algo='nowhere', **kw)
CALLS['min_cost_flow pivot nowhere'] = lambda g, s, t, kw: g.min_cost_flow(pivot='nowhere', **kw)
CALLS['min_cost_flow root'] = lambda g, s, t, kw: g.min_cost_flow(root=t, **kw)
NEEDS.update({'acyclic_shortest_path': 'acyclic', 'get_diameter': 'diameter', 'network_simplex first_eligible': 'simplex', 'hamiltonian to': 'hamiltonian', 'min_cost_flow root': 'simplex',
              'max_flow nowhere': 'maxflow_dfs', 'max_flow_preflowpush nowhere': 'push_fifo', 'search nowhere': 'bfs',
              'min_cost_flow nowhere': 'simplex', 'min_cost_flow pivot nowhere': 'simplex'})
STOPS = (SystemExit, KeyboardInterrupt, lambda: subprocess.CalledProcessError(1, 'dot'))
GIVEN = c31.ALWAYS_GIVEN + ('network_simplex first_eligible',)
_F = []


def quiet_set():
    import gimpy
    return gimpy.DisjointSet(optimize=False, display='off')


def stopping():
    """A graph whose display() raises at a given picture."""
    if not _F:
        import gimpy

        class F(gimpy.Graph):
            shown, stop, error, after = 0, None, None, 0

            def display(self, *a, **k):
                if self.attr['display'] == 'off':
                    return
                self.shown += 1
                if self.stop is not None and self.shown > self.stop:
                    self.after += 1
                if self.shown == self.stop:
                    raise self.error()
        _F.append(F)
    return _F[0]


def shot(g, caps=True):
    """Structure and inputs; a capacity that was not there may have been filled in."""
    return {'nodes': list(g.nodes), 'neighbours': [(n, list(x)) for n, x in g.neighbors.items()],
            'in-neighbours': [(n, list(x)) for n, x in g.in_neighbors.items()] if hasattr(g, 'in_neighbors') else None,
            'edges': list(g.edge_attr), 'node inputs': [(n, [x.attr.get(a) for a in INPUTS]) for n, x in g.nodes.items()],
            'edge inputs': [(e, [x.get(a) for a in INPUTS if caps or a != 'capacity']) for e, x in g.edge_attr.items()],
            'display mode': g.attr['display'], 'layout': g.attr['layout']}


def same(before, g, what, caps=True):
    now = shot(g, caps)
    for k in before:
        check(freeze(before[k]) == freeze(now[k]), '%s: the %s changed: %s -> %s', what, k, before[k], now[k])


def ends(m, call):
    if call in ('label_components', 'minimum_spanning_tree_kruskal') or call.startswith(('min_cost', 'cycle_')):
        return [(0, m.n - 1)]
    return [(s, t) for s in range(m.n) for t in range(m.n) if s != t or m.n == 1]


def run_stop(spec, ctx):
    """Stop at every picture, in every way."""
    m = G.M(spec)
    for call in CALLS:
        if call not in NEEDS or 'nowhere' in call or not A.ALGOS[NEEDS[call]].ok(m):
            continue
        if m.n < 2 and ('flow' in call or 'simplex' in call or 'cycle' in call):
            continue
        first = ends(m, call)[0]
        for s, t in ends(m, call):
            for mode, arg in (('off', 'file'), ('svg', 'file'), ('file', None)):
                if arg is None and call in GIVEN:
                    continue
                k, n = 0, None
                while n is None or k < n:
                    k += 1
                    for error in STOPS:
                        g = G.build(spec, stopping(), display=mode)
                        if n is not None:
                            g.stop, g.error = k, error
                        before = shot(g)
                        what = '%s%r(display=%r) in mode %s' % (call, (s, t), arg, mode)
                        try:
                            CALLS[call](g, m.name(s), m.name(t), {} if arg is None else {'display': arg})
                            stopped = False
                        except (SystemExit, KeyboardInterrupt, subprocess.CalledProcessError):
                            stopped = True
                        if n is None:
                            n, k = g.shown, 0
                            same(before, g, what)
                            break
                        what += ', stopped at picture %d of %d' % (k, n)
                        check(stopped, '%s goes on', what)
                        check(not g.after, '%s displays %d more', what, g.after)
                        same(before, g, what)
                        ctx.step()
                        ctx.frames += k
                        if mode != 'off' or (s, t) != first:
                            break
                ctx.outcome((call, n > 0))
    ctx.state(repr(sorted(spec.items())))


def flaws(m):
    """Everything that may be wrong with the input: (description, break(g), mend(g))."""
    for i, (u, v) in enumerate(m.edges):
        for a in ('cost', 'capacity'):
            if a not in m.attrs[(u, v)]:
                continue
            old = m.attrs[(u, v)][a]

            def e(g, u=u, v=v):
                return g.edge_attr[(m.name(u), m.name(v))]
            yield 'edge %d without %s' % (i, a), lambda g, e=e, a=a: e(g).pop(a), lambda g, e=e, a=a, old=old: e(g).update({a: old})
            for bad in (None, 'much'):
                yield '%s %r on edge %d' % (a, bad, i), lambda g, e=e, a=a, b=bad: e(g).update({a: b}), \
                    lambda g, e=e, a=a, old=old: e(g).update({a: old})
    if 'demand' in (m.spec.get('na') or {}):
        for i in range(m.n):
            def at(g, i=i):
                return g.get_node(m.name(i)).attr
            old = m.spec['na']['demand'][i]
            yield 'node %d without demand' % i, lambda g, at=at: at(g).pop('demand'), \
                lambda g, at=at, old=old: at(g).update({'demand': old})
            for bad in ('much', 1000000):
                yield 'demand %r at node %d' % (bad, i), lambda g, at=at, b=bad: at(g).update({'demand': b}), \
                    lambda g, at=at, old=old: at(g).update({'demand': old})


def run_flaw(case, ctx):
    """Every call on every flawed input, then with the flaw mended."""
    spec, deep = case
    m = G.M(spec)
    if not m.n:
        return
    every = [('nothing', lambda g: None, lambda g: None)] + list(flaws(m))
    for call, f in CALLS.items():
        if m.n < 2 and ('flow' in call or 'simplex' in call or 'cycle' in call):
            continue
        if any(u == v or (v, u) in m.attrs for u, v in m.edges) and m.directed and ('flow' in call or 'cycle_' in call or 'simplex' in call):
            continue                     # outside the preconditions: nothing is promised, not even an end
        if not m.directed and 'max_flow' in call:
            continue
        if call in ('network_simplex', 'network_simplex first_eligible') + tuple(c for c in CALLS if 'min_cost' in c) and \
                m.directed and not G.connected(m):
            continue
        alg = A.ALGOS.get(NEEDS.get(call))
        if call == 'acyclic_shortest_path' and not (m.directed and G.is_dag(m)):
            continue
        for flaw, spoil, mend in every:
            pairs = [(m.name(0), m.name(m.n - 1))]
            if flaw == 'nothing':
                pairs += [('nowhere', m.name(m.n - 1)), (m.name(0), 'nowhere'), ('nowhere', 'nowhere')]
                if m.n > 2:
                    pairs += [(m.name(m.n - 1), m.name(0))]
            for s, t in pairs:
                for mode, arg in (('off', 'file'), ('file', None)):
                    if arg is None and (call in GIVEN or flaw != 'nothing' and not deep):
                        continue
                    g = G.build(spec, stopping(), display=mode)
                    spoil(g)
                    caps = 'capacity' not in flaw
                    before = shot(g, caps)
                    what = '%s(%r, %r, display=%r) in mode %s with %s' % (call, s, t, arg, mode, flaw)
                    try:
                        f(g, s, t, {} if arg is None else {'display': arg})
                        r = 'ok'
                    except Violation:
                        raise
                    except Exception as e:
                        r = type(e).__name__
                    same(before, g, what + (' (raised %s)' % r if r != 'ok' else ''), caps)
                    ctx.step()
                    ctx.outcome((call, flaw.split(' ')[0], r))
                    mend(g)
                    if alg is not None and alg.ok(m) and alg.repeatable:
                        for p in alg.params(m)[-1:] + (alg.params(m)[:1] if deep else []):
                            try:
                                alg.verify(m, g, p, alg.run(g, m, p))
                            except Exception as e:
                                raise Violation('%s, after that was mended: %s%r: %s%s' % (
                                    what, alg.name, tuple(p), '' if isinstance(e, Violation) else 'raised %s: ' % type(e).__name__, e))
                            ctx.step()
    ctx.state(repr(sorted(spec.items())))


def run_tree(case, ctx):
    """Traversals and printing stopped at every picture; then once more, undisturbed."""
    import contextlib
    import io
    import gimpy
    from coinor.blimpy import Queue
    kind, shape = case
    base = gimpy.BinaryTree if kind == 'binary' else gimpy.Tree

    class R(base):
        shown, stop, error, after, seen = 0, None, None, 0, ()

        def display(self, highlight=None, *a, **k):
            if self.attr['display'] == 'off':
                return
            self.shown += 1
            self.seen = self.seen + (tuple(getattr(x, 'name', x) for x in highlight or ()),)
            if self.stop is not None and self.shown > self.stop:
                self.after += 1
            if self.shown == self.stop:
                raise self.error()

    def make(mode):
        t = R(display=mode)
        leaf = {c for c, p, s in shape} - {p for c, p, s in shape}
        kids = {}
        for c, p, s in shape:
            kids.setdefault(p, []).append(c)

        def label(c):
            return {'label': str(c) if c in leaf or len(kids[c]) < 2 else '+'}
        t.add_root(0, **({'label': '+'} if len(kids.get(0, ())) == 2 else {}))
        for c, p, s in shape:
            if kind == 'binary':
                (t.add_left_child if s == 'L' else t.add_right_child)(c, p, **label(c))
            else:
                t.add_child(c, p, **label(c))
        return t
    calls = {'dfs': lambda t, kw: t.dfs(**kw), 'bfs': lambda t, kw: t.bfs(**kw), 'traverse': lambda t, kw: t.traverse(**kw),
             'traverse Queue': lambda t, kw: t.traverse(q=Queue(), **kw), 'dfs 0': lambda t, kw: t.dfs(root=0, **kw)}
    if kind == 'binary':
        for o in ('pre', 'in', 'post'):
            for pr in 'LR':
                calls['print_nodes %s %s' % (o, pr)] = lambda t, kw, o=o, pr=pr: t.print_nodes(o, pr, **kw)
        calls['printexp'] = lambda t, kw: t.printexp(**kw)
        kids = {}
        for c, p, s in shape:
            kids.setdefault(p, []).append(c)
        calls['postordereval'] = lambda t, kw: t.postordereval(**kw)
    for nm, f in calls.items():
        for mode, arg in (('off', 'file'), ('svg', 'file'), ('file', None), ('file', 'off'), ('file', 'svg')):
            kw = {} if arg is None else {'display': arg}

            def go(t):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    return f(t, kw), buf.getvalue(), t.seen
            t = make(mode)
            before = freeze(t)
            whole = go(t)
            what = '%s(display=%r) in mode %s' % (nm, arg, mode)
            n = t.shown
            t.shown, t.seen = 0, ()
            check(freeze(t.attr) == freeze(make(mode).attr), '%s leaves the attributes %s', what, t.attr)
            check((n > 0) == (arg != 'off'), '%s shows %d pictures', what, n)
            for k in range(1, n + 1):
                for error in STOPS:
                    t = make(mode)
                    t.stop, t.error = k, error
                    before = shot(t), t.root, {x: dict(y.attr) for x, y in t.nodes.items()}
                    w = what + ', stopped at picture %d of %d' % (k, n)
                    try:
                        go(t)
                        stopped = False
                    except (SystemExit, KeyboardInterrupt, subprocess.CalledProcessError):
                        stopped = True
                    check(stopped and not t.after, '%s goes on', w)
                    same(before[0], t, w)
                    check(t.root is before[1] and {x: dict(y.attr) for x, y in t.nodes.items()} == before[2], '%s changes the tree', w)
                    t.shown, t.stop, t.seen = 0, None, ()
                    again = go(t)
                    check(again == whole, '%s, then again: %s, at first %s', w, again, whole)
                    ctx.step(2)
                    ctx.frames += k
            ctx.outcome((nm, n > 0))
    ctx.state(repr(case))


def spaces(tier):
    from mc.props.c02 import bin_shapes
    q = tier == 'quick'
    k = 4 if q else 5
    return [Space('stopped', 'every call that displays, every source and destination, stopped at every picture by a key press, Ctrl-C or a '
                  'failing layout program, on every small graph', lambda: (s for s in rich.small(tier) if not q or s['n'] <= 3 or
                                                                           len(s['e']) <= 4), run_stop, 120.0),
            Space('flawed', 'every algorithm on every small graph with one cost, capacity or demand missing or no number, a demand that '
                  'cannot be met, a source or destination that is not there, an unknown option; then with that mended',
                  lambda: ([s, int(not q)] for s in rich.small(tier) if not q or len(s['e']) <= 3), run_flaw, 120.0),
            Space('trees', 'traversals and printing of every tree of up to %d nodes, stopped at every picture' % k,
                  lambda: ([kind, s] for kind in ('binary', 'tree') for s in bin_shapes(k)), run_tree, 60.0)]
