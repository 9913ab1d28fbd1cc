"""On-screen display (PIL, matplotlib): the layout program and the viewer as adversaries, in every sequence."""
import io
import itertools
import os
import sys

from mc import dot
from mc import graphs as G
from mc import std
from mc.core import Space, check, freeze
from mc.props import c30

# name: (body after recording the input, exit status)
PROGRAMS = {'ok': ('cat "$d/pic.$k"; exit 0', 0),
            'warns': ('echo "Warning: x" >&2; cat "$d/pic.$k"; exit 0', 0),
            'garbage': ('printf "no picture"; exit 0', 'garbage'),
            'empty': ('exit 0', 'garbage'),
            'cut': ('head -c 40 "$d/pic.$k"; exit 0', 'garbage'),
            'fail': ('cat "$d/pic.$k"; exit 1', 1),
            'kill': ('cat "$d/pic.$k"; kill -9 $$', -9),
            'missing': (None, 'missing')}
HEAD = '''#!/bin/sh
d=%s
PATH=/usr/bin:/bin
k=$(cat "$d/count")
echo $((k+1)) > "$d/count"
f=
for a in "$@"; do if [ -f "$a" ]; then f=$a; fi; done
if [ -n "$f" ]; then cat "$f" > "$d/in.$k"; else cat > "$d/in.$k"; fi
printf '%%s\\n' "$@" > "$d/args.$k"
'''
VIEWERS = {'PIL': ('click', 'refused', 'OSError'),
           'matplotlib': ('click', 'timeout', 'key', 'closed', 'OSError', 'KeyboardInterrupt')}
_png = {}


def picture(k):
    """(bytes of a PNG, its pixels): different for every k."""
    from PIL import Image
    if k not in _png:
        px = [((k * 37 + x * 11) % 256, (k // 7 + y) % 256, 255 - (k + x + y) % 200) for y in range(2) for x in range(3)]
        im = Image.new('RGB', (3, 2))
        im.putdata(px)
        b = io.BytesIO()
        im.save(b, 'png')
        _png[k] = (b.getvalue(), px)
    return _png[k]


class Screen(c30.Box):
    """A box whose layout program returns a new picture each time, with stand-ins for the viewers that record what is shown."""

    def __enter__(self):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        from PIL import ImageShow
        screen = self
        self.events, self.viewer, self.made, self.read = [], 'click', 0, 0
        self.shown = lambda a: [tuple(int(v) for v in p[:3]) for row in a for p in row]

        class Viewer(ImageShow.Viewer):
            def show(self, image, **options):
                screen.events.append(('PIL', [[tuple(p) for p in _pixels(image.convert('RGB'))]], None))
                return screen.react()

        def wait(fig, timeout=-1):
            screen.events.append(('wait', screen.images(fig), None))
            return screen.react(fig)

        def show(*a, **k):
            block = a[0] if a else k.get('block')
            screen.events.append(('show', screen.images(plt.gcf()), block))
            return screen.react(plt.gcf())
        self.saved = ImageShow._viewers, matplotlib.figure.Figure.waitforbuttonpress, plt.show, sys.stdin
        ImageShow._viewers = [Viewer()]
        matplotlib.figure.Figure.waitforbuttonpress = wait
        plt.show = show
        sys.stdin = io.StringIO()
        plt.close('all')
        r = c30.Box.__enter__(self)
        self.pictures(4)
        return r

    def images(self, fig):
        return [self.shown(im.get_array()) for ax in fig.axes for im in ax.images]

    def react(self, fig=None):
        v = self.viewer
        if v == 'closed':
            from matplotlib.backend_bases import CloseEvent
            fig.canvas.callbacks.process('close_event', CloseEvent('close_event', fig.canvas))
            return None
        if v == 'OSError':
            raise OSError('no screen')
        if v == 'KeyboardInterrupt':
            raise KeyboardInterrupt
        return {'click': False, 'timeout': None, 'key': True, 'refused': False}[v] if fig is not None else v == 'click'

    def __exit__(self, t, e, tb):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        from PIL import ImageShow
        ImageShow._viewers, matplotlib.figure.Figure.waitforbuttonpress, plt.show, sys.stdin = self.saved
        return c30.Box.__exit__(self, t, e, tb)

    def pictures(self, n):
        while self.made < n:
            with open(os.path.join(self.d, 'pic.%d' % self.made), 'wb') as f:
                f.write(picture(self.made)[0])
            self.made += 1
        with open(os.path.join(self.d, 'count'), 'w') as f:
            f.write('%d\n' % self.read)

    def program(self, tool, prog):
        p = os.path.join(self.d, 'bin', tool)
        if os.path.exists(p):
            os.remove(p)
        if PROGRAMS[prog][0] is not None:
            with open(p, 'w') as f:
                f.write(HEAD % self.d + PROGRAMS[prog][0] + '\n')
            os.chmod(p, 0o755)

    def inputs(self):
        """What the program was given since the last call, [(text, arguments)]."""
        r = []
        while os.path.exists(os.path.join(self.d, 'in.%d' % self.read)):
            r.append((open(os.path.join(self.d, 'in.%d' % self.read), 'rb').read().decode('utf8'),
                      open(os.path.join(self.d, 'args.%d' % self.read)).read().split('\n')[:-1]))
            self.read += 1
        return r


def _pixels(im):
    return [im.getpixel((x, y)) for y in range(im.size[1]) for x in range(im.size[0])]


def outcome(f):
    """(kind, value) of a call: 'ok', 'failed' (the program), 'exit', 'error'."""
    import subprocess
    try:
        return 'ok', f()
    except subprocess.CalledProcessError as e:
        return 'failed', e.returncode
    except SystemExit:
        return 'exit', None
    except KeyboardInterrupt:
        return 'error', 'KeyboardInterrupt'
    except Exception as e:
        return 'error', type(e).__name__


def step(box, g, s, tool):
    """One display call, fully judged."""
    mode, viewer, wait, pause, prog, hl, fmt = s
    g.set_display_mode(mode)
    box.program(tool, prog)
    box.pictures(box.read + 2)
    box.viewer = viewer
    box.events = []
    before, text = freeze(g), g.to_string()
    nodes = g.get_node_list()
    kw = {}
    if hl:
        kw['highlight'] = [nodes[0]] if hl == 'name' else [g.get_node(nodes[-1])]
    if fmt:
        kw['format'] = fmt
    if not wait:
        kw['wait_for_click'] = False
    if pause:
        kw['pause'] = True
    k = box.read
    r = outcome(lambda: g.display(**kw))
    what = 'display(%s) in mode %s, program %s, viewer %s' % (', '.join(sorted(kw)), mode, prog, viewer)
    status = PROGRAMS[prog][1]
    given = box.inputs()
    check(len(given) == (status != 'missing'), '%s: the program was run %d times', what, len(given))
    if given:
        check('-T' + (fmt or 'png') in given[0][1], '%s asks for %s', what, given[0][1])
        if not hl:
            check(given[0][0] == text, '%s: the program was given %r, the graph is %r', what, given[0][0], text)
        else:
            p, p0 = dot.parse(given[0][0]), dot.parse(text)
            want = {n: a.get('color') for n, a in p0['nodes'].items()}
            want[str(nodes[0] if hl == 'name' else nodes[-1])] = 'red'
            got = {n: a.get('color') for n, a in p['nodes'].items()}
            check(got == want, '%s: nodes are drawn %s, should be %s', what, got, want)
    if status == 0:
        ev = 'PIL' if mode == 'PIL' else 'wait' if wait else 'show'
        check([e[0] for e in box.events] == [ev], '%s: viewer events %s, should be one %s', what, [e[0] for e in box.events], ev)
        check(box.events[0][1] == [picture(k)[1]], '%s shows %s, the program drew %s', what, box.events[0][1], picture(k)[1])
        if ev == 'show':
            check(bool(box.events[0][2]) == pause, '%s: the window blocks: %r', what, box.events[0][2])
        if viewer in ('click', 'timeout', 'refused') or viewer == 'key' and not wait:
            check(r == ('ok', None), '%s gives %r', what, r)
        elif viewer in ('key', 'closed'):
            check(r[0] == 'exit', '%s gives %r, the program should end', what, r)
        else:
            check(r[0] in ('exit', 'error'), '%s gives %r', what, r)
    else:
        check(not box.events, '%s: viewer events %s although there is no picture', what, [e[0] for e in box.events])
        if status in (1, -9):
            check(r == ('failed', status), '%s gives %r, the program failed with %s', what, r, status)
    box.clean(what)
    import matplotlib.pyplot as plt
    check(len(plt.get_fignums()) <= 1, '%s leaves %d windows', what, len(plt.get_fignums()))
    check(freeze(g) == before and g.to_string() == text, '%s changes the graph', what)
    return r[0]


def run(case, ctx):
    gname, steps = case
    with Screen() as box:
        g = G.build(c30.GRAPHS[gname], None, layout='neato')
        for i, s in enumerate(steps):
            r = step(box, g, s, 'neato')
            ctx.outcome((s[0], s[4], r))
            g.add_edge('m%d' % i, 'n%d' % i, label='step')
            ctx.step()
        ctx.state(repr(case))


def run_absent(case, ctx):
    """Libraries that are not there: display says so, turns itself off and runs nothing."""
    import contextlib
    import gimpy.graph as M
    mode, absent = case
    old = {}
    for a in absent:
        if not hasattr(M, a):
            ctx.notes['no flag ' + a] += 1
            return
        old[a] = getattr(M, a)
    try:
        for a in absent:
            setattr(M, a, False)
        with Screen() as box:
            g = G.build(c30.GRAPHS['arc'], None, layout='dot', display=mode)
            box.program('dot', 'ok')
            text = g.to_string()
            for turn in range(2):
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    r = outcome(lambda: g.display(**({} if turn else {'highlight': [g.get_node_list()[0]]})))
                check(r == ('ok', None), 'display in mode %s without %s gives %r', mode, absent, r)
                check(('installed' in buf.getvalue()) == (turn == 0), 'display in mode %s without %s prints %r (call %d)', mode, absent,
                      buf.getvalue(), turn + 1)
                check(g.attr['display'] == 'off', 'display in mode %s without %s leaves mode %s', mode, absent, g.attr['display'])
                check(not box.events and not box.inputs(), 'display in mode %s without %s draws', mode, absent)
                check(g.to_string() == text, 'display in mode %s without %s changes the graph', mode, absent)
                box.clean('display')
                ctx.step()
    finally:
        for a in old:
            setattr(M, a, old[a])
    ctx.state(repr(case))


ALGOS = {'BFS': lambda g, n, **k: g.search(n[0], algo='BFS', **k), 'Dijkstra': lambda g, n, **k: g.search(n[0], algo='Dijkstra', **k),
         'dfs': lambda g, n, **k: g.dfs(n[0], **k), 'maxflow': lambda g, n, **k: g.max_flow(n[0], n[-1], **k),
         'preflow': lambda g, n, **k: g.max_flow_preflowpush(n[0], n[-1], **k),
         'simplex': lambda g, n, **k: g.min_cost_flow(**k)}
NETS = [{'d': 1, 'n': 3, 'e': [[0, 1, {'cost': 1, 'capacity': 2}], [1, 2, {'cost': 1, 'capacity': 1}], [0, 2, {'cost': 3, 'capacity': 2}]],
         'na': {'demand': [2, 0, -2]}},
        {'d': 1, 'n': 4, 'e': [[0, 1, {'cost': 2, 'capacity': 2}], [0, 2, {'cost': 1, 'capacity': 2}], [1, 3, {'cost': 1, 'capacity': 2}],
                               [2, 3, {'cost': 1, 'capacity': 1}], [1, 2, {'cost': 0, 'capacity': 1}]],
         'na': {'demand': [3, 0, 0, -3]}, 'nm': 'str'}]


def run_film(case, ctx):
    """An algorithm shown on the screen: the pictures shown are those of the states it displays, in order, and a key ends it."""
    net, algo, mode, stop = case
    texts = []
    C = std.frame_class(lambda g: texts.append(g.to_string()), 'off')
    g = G.build(NETS[net], C, layout='dot')
    f = ALGOS[algo]
    f(g, g.get_node_list(), display='file')
    with Screen() as box:
        g = G.build(NETS[net], None, layout='dot', display='off')
        box.program('dot', 'ok')
        box.pictures(len(texts) + 2)
        react, seen = box.react, []

        def press(fig=None):
            seen.append(1)
            box.viewer = 'key' if stop is not None and len(seen) == stop + 1 else 'click'
            return react(fig)
        box.react = press
        r = outcome(lambda: f(g, g.get_node_list(), display=mode))
        given = [t for t, a in box.inputs()]
        n = len(texts) if stop is None or mode == 'PIL' else min(len(texts), stop + 1)
        what = '%s in mode %s%s' % (algo, mode, '' if stop is None else ', a key at picture %d' % stop)
        check(given == texts[:n], '%s draws %d states, displayed are %d; they differ first at %s', what, len(given), n,
              next((i for i, (a, b) in enumerate(zip(given, texts)) if a != b), None))
        check([e[1] for e in box.events] == [[picture(k)[1]] for k in range(n)], '%s does not show the pictures drawn', what)
        check(r[0] == ('ok' if stop is None or mode == 'PIL' or n <= stop else 'exit'), '%s gives %r', what, r)
        box.clean(what)
        ctx.step(n)
        ctx.frames += n
        ctx.state(repr(case))
        ctx.outcome((algo, r[0]))


def with_xdot(f):
    """f(module gimpy imported where xdot is there, record of what xdot is told)."""
    import types
    told = []
    gtk, pygtk, xdot = (types.ModuleType(n) for n in ('gtk', 'pygtk', 'xdot'))

    class DotWindow(object):
        def __init__(self, *a):
            told.append(['window'])
            self.handlers = {}

        def set_dotcode(self, text, *a):
            told.append(['text', text])

        def connect(self, signal, handler, *a):
            self.handlers[signal] = handler
            DotWindow.last = self

    def main():
        told.append(['main', sorted(DotWindow.last.handlers)])
        if 'destroy' in DotWindow.last.handlers:
            DotWindow.last.handlers['destroy']()
    xdot.DotWindow, gtk.main, gtk.main_quit = DotWindow, main, lambda *a: told.append(['quit'])
    fake = {'gtk': gtk, 'pygtk': pygtk, 'xdot': xdot}
    old = {n: m for n, m in sys.modules.items() if n in fake or n == 'gimpy' or n.startswith('gimpy.')}
    for n in old:
        del sys.modules[n]
    sys.modules.update(fake)
    try:
        import gimpy
        return f(gimpy, told)
    finally:
        for n in [n for n in sys.modules if n in fake or n == 'gimpy' or n.startswith('gimpy.')]:
            del sys.modules[n]
        sys.modules.update(old)


def run_xdot(case, ctx):
    """The viewer is given the text of the graph as it is, and is waited for."""
    gname, calls = case
    spec = c30.GRAPHS[gname]

    def f(gimpy, told):
        with Screen() as box:
            g0 = G.build(spec, None, layout='dot')
            g = gimpy.Graph(type=g0.graph_type, layout='dot', display='xdot')
            for n in g0.get_node_list():
                g.add_node(n, **{k: v for k, v in g0.get_node(n).attr.items() if k not in ('name',)})
            for e in g0.get_edge_list():
                g.add_edge(e[0], e[1])
            for i, hl in enumerate(calls):
                told[:] = []
                before, text = freeze(g), g.to_string()
                n = g.get_node_list()[0 if hl == 'name' else -1]
                r = outcome(lambda: g.display(**({} if not hl else {'highlight': [n if hl == 'name' else g.get_node(n)]})))
                what = 'display(%s) in mode xdot' % ('' if not hl else 'highlight')
                check(r == ('ok', None), '%s gives %r', what, r)
                check([t[0] for t in told] == ['window', 'text', 'main', 'quit'], '%s: xdot is told %r', what, told)
                p, p0 = dot.parse(told[1][1]), dot.parse(text)
                want = {m: a.get('color') for m, a in p0['nodes'].items()}
                if hl:
                    want[str(n)] = 'red'
                else:
                    check(told[1][1] == text, '%s shows %r, the graph is %r', what, told[1][1], text)
                got = {m: a.get('color') for m, a in p['nodes'].items()}
                check(got == want, '%s: nodes are drawn %s, should be %s', what, got, want)
                check(freeze(g) == before and g.to_string() == text, '%s changes the graph', what)
                check(not box.inputs(), '%s runs the layout program', what)
                box.clean(what)
                g.add_edge('m%d' % i, 'n%d' % i, label='step')
                ctx.step()
    with_xdot(f)
    ctx.state(repr(case))


def spaces(tier):
    q = tier == 'quick'

    def all_steps(progs, hls, fmts):
        for mode in VIEWERS:
            for viewer in VIEWERS[mode]:
                for wait, pause in ((True, False), (False, False), (False, True)) if mode == 'matplotlib' else ((True, False),):
                    for prog in progs:
                        for hl in hls:
                            for fmt in fmts:
                                yield [mode, viewer, wait, pause, prog, hl, fmt]

    def single():
        for gname in ('arc', 'undirected', 'unicode'):
            for s in all_steps(PROGRAMS, (None, 'name', 'node'), (None, 'jpg')):
                yield [gname, [s]]

    def pairs():
        few = [s for s in all_steps(('ok', 'fail', 'missing') if q else PROGRAMS, (None, 'name'), (None,))
               if not q or s[1] in ('click', 'key', 'closed') and not s[3]]
        for a, b in itertools.product(few, repeat=2):
            yield ['arc', [a, b]]

    def triples():
        few = [s for s in all_steps(('ok', 'garbage', 'fail'), (None,), (None,)) if s[1] in ('click', 'key') and not s[3]]
        for t in itertools.product(few, repeat=3):
            yield ['arc', list(t)]

    def absent():
        flags = ('PIL_INSTALLED', 'MATPLOTLIB_INSTALLED', 'XDOT_INSTALLED')
        need = {'PIL': ({0},), 'matplotlib': ({0}, {1}), 'xdot': ({2},)}
        for mode in need:
            for k in range(1, 4):
                for sub in itertools.combinations(range(3), k):
                    if any(x <= set(sub) for x in need[mode]):
                        yield [mode, [flags[i] for i in sub]]

    def films():
        for net in range(len(NETS)):
            for algo in ALGOS:
                for mode in VIEWERS:
                    for stop in [None] + (list(range(0, 12, 2 if q else 1)) if mode == 'matplotlib' else []):
                        yield [net, algo, mode, stop]

    r = [Space('calls', 'every way of calling display x behaviour of the layout program x behaviour of the viewer, three graphs', single,
               run, 60.0),
         Space('histories', 'every pair of such calls on one changing graph', pairs, run, 60.0),
         Space('films', 'six algorithms on two networks, shown on the screen, a key pressed at every %spicture' % ('other ' if q else ''),
               films, run_film, 60.0),
         Space('xdot', 'every sequence of up to three calls in mode xdot', lambda: ([gn, list(t)] for gn in ('arc', 'undirected', 'unicode')
               for k in (1, 2, 3) for t in itertools.product((None, 'name', 'node'), repeat=k)), run_xdot, 60.0),
         Space('absent', 'every combination of missing libraries', absent, run_absent, 60.0)]
    if not q:
        r.append(Space('triples', 'every three calls out of the two modes, click or key, three behaviours of the program', triples, run, 60.0))
    return r
