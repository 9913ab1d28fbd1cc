"""Rendering: the external program as an adversary. Every behaviour of the layout program (exit codes, signals, output on
either pipe, missing, not executable), every point at which writing its input fails, is tried."""
import contextlib
import io
import itertools
import json
import os
import resource
import shutil
import signal
import subprocess
import tempfile

from mc import dot
from mc import graphs as G
from mc.core import Space, Violation, check, freeze

BIG = 300000
# name: (body of the program after it has recorded what it was given, exit status, stdout size)
PROGRAMS = {
    'ok-empty': ('exit 0', 0, b''),
    'ok-text': ('printf "drawn"; exit 0', 0, b'drawn'),
    'ok-binary': ('printf "\\000\\377\\r\\n\\032x"; exit 0', 0, b'\x00\xff\r\n\x1ax'),
    'ok-space': ('printf " \\n drawn\\t \\r\\n\\n"; exit 0', 0, b' \n drawn\t \r\n\n'),
    'ok-warns': ('echo "Warning: something" >&2; printf "drawn"; exit 0', 0, b'drawn'),
    'ok-warns-only': ('printf "\\377\\376" >&2; exit 0', 0, b''),
    'ok-big': ('head -c %d /dev/zero; exit 0' % BIG, 0, b'\0' * BIG),
    'ok-big-warns': ('head -c %d /dev/zero >&2; head -c %d /dev/zero; exit 0' % (BIG, BIG), 0, b'\0' * BIG),
    'fail-1': ('exit 1', 1, None),
    'fail-1-text': ('printf "half"; echo "Error: syntax" >&2; exit 1', 1, None),
    'fail-2-big': ('head -c %d /dev/zero >&2; printf "half"; exit 2' % BIG, 2, None),
    'fail-127': ('exit 127', 127, None),
    'fail-255': ('printf "half"; exit 255', 255, None),
    'kill-9': ('printf "half"; kill -9 $$', -9, None),
    'kill-11': ('kill -11 $$', -11, None),
    'kill-15': ('printf "half"; kill -15 $$', -15, None),
    'missing': (None, 'missing', None),
    'not-executable': (None, 'missing', None),
    'directory': (None, 'missing', None),
    'bad-interpreter': (None, 'missing', None),
}
HEAD = '''#!/bin/sh
d=%s
printf '%%s\\n' "$0" "$@" > "$d/args"
f=
for a in "$@"; do if [ -f "$a" ]; then f=$a; fi; done
if [ -n "$f" ]; then cat "$f" > "$d/input"; else cat > "$d/input"; fi
'''
GRAPHS = {
    'empty': {'d': 1, 'n': 0, 'e': []},
    'arc': {'d': 1, 'n': 2, 'e': [[0, 1, {'cost': 3, 'label': 'a "b"'}]]},
    'undirected': {'d': 0, 'n': 3, 'e': [[0, 1, {}], [2, 2, {}]], 'nm': 'mix'},
    'unicode': {'d': 1, 'n': 2, 'e': [[0, 1, {'label': '\u4e2d\u6587 na\u00efve'}]], 'nm': 'str',
                'na': {'label': ['\u00e9', '\U0001f600']}},
    'large': {'d': 1, 'n': 400, 'e': [[i, (i * 7 + 1) % 400, {'label': 'x' * 50}] for i in range(400)], 'nm': 'int'},
}
TOOLS = ('dot', 'neato', 'fdp', 'circo', 'twopi', 'sfdp')
_boxes = itertools.count()


class Hang(BaseException):
    pass


def _hang(s, f):
    raise Hang()


class Box(object):
    """A scratch directory: bin/ is the only directory on PATH, tmp/ is where temporary files go."""

    def __init__(self, real=False):
        self.d = os.path.join(os.environ['MC_SCRATCH'], 'c30-%d-%d' % (os.getpid(), next(_boxes)))
        for x in ('', 'bin', 'tmp', 'cwd'):
            os.makedirs(os.path.join(self.d, x))
        self.real = real

    def __enter__(self):
        self.path, self.old, self.cwd = os.environ.get('PATH'), tempfile.tempdir, os.getcwd()
        if not self.real:
            os.environ['PATH'] = os.path.join(self.d, 'bin') + ':/nowhere'
        tempfile.tempdir = os.path.join(self.d, 'tmp')
        os.chdir(os.path.join(self.d, 'cwd'))
        self.alrm = signal.signal(signal.SIGALRM, _hang)
        signal.setitimer(signal.ITIMER_REAL, 60)
        self.fds = len(os.listdir('/proc/self/fd'))
        return self

    def __exit__(self, t, e, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.alrm)
        os.environ['PATH'] = self.path
        tempfile.tempdir = self.old
        os.chdir(self.cwd)
        shutil.rmtree(self.d)
        if t is Hang:
            raise Violation('the call has not returned after 60 s')

    def install(self, tool, prog):
        for f in os.listdir(os.path.join(self.d, 'bin')):
            p = os.path.join(self.d, 'bin', f)
            os.rmdir(p) if os.path.isdir(p) else os.remove(p)
        p = os.path.join(self.d, 'bin', tool)
        body = PROGRAMS[prog][0]
        if prog == 'missing':
            return
        if prog == 'directory':
            os.mkdir(p)
            return
        with open(p, 'w') as f:
            if prog == 'bad-interpreter':
                f.write('#!/nowhere/interpreter\n')
            else:
                f.write(HEAD % self.d + 'PATH=/usr/bin:/bin\n' if body is None else
                        (HEAD % self.d).replace('\nd=', '\nPATH=/usr/bin:/bin\nd=') + body + '\n')
        if prog != 'not-executable':
            os.chmod(p, 0o755)

    def recorded(self):
        try:
            args = open(os.path.join(self.d, 'args')).read().split('\n')[:-1]
            data = open(os.path.join(self.d, 'input'), 'rb').read()
        except FileNotFoundError:
            return None
        for x in ('args', 'input'):
            os.remove(os.path.join(self.d, x))
        return args, data

    def clean(self, what, leave=()):
        left = os.listdir(os.path.join(self.d, 'tmp'))
        check(not left, '%s leaves temporary files behind: %s', what, left)
        left = sorted(set(os.listdir(os.path.join(self.d, 'cwd'))) - set(leave))
        check(not left, '%s leaves files in the working directory: %s', what, left)
        check(len(os.listdir('/proc/self/fd')) == self.fds, '%s leaves a file open', what)


def call(f):
    """('ok', value) or ('error', exception type name, return code)."""
    try:
        return ('ok', f())
    except subprocess.CalledProcessError as e:
        return ('error', e.returncode)


def attempt(box, g, op, tool, prog, fmt):
    """One rendering call against one behaviour of the program, fully judged."""
    import gimpy
    box.install(tool, prog)
    box.recorded()
    text = g.to_string()
    before = freeze(g)
    body, status, out = PROGRAMS[prog]
    what = '%s(%s, %s) with a program that is %s' % (op, tool, fmt, prog)
    leave = ()
    if op == 'create':
        r = call(lambda: g.create(tool, fmt))
        want = ('ok', None) if status == 'missing' else ('ok', out) if status == 0 else ('error', status)
        check(r == want, '%s gives %r, should be %r', what, repr(r)[:80], repr(want)[:80])
    elif op in ('write', 'write-default'):
        sink = io.BytesIO()
        sink.write(b'head')
        if op == 'write':
            r = call(lambda: g.write(sink, tool, fmt))
        else:
            r = call(lambda: g.write(sink, format=fmt))
        want = ('error', status) if status not in (0, 'missing') else ('ok', None)
        check(r == want, '%s gives %r, should be %r', what, r, want)
        check(sink.getvalue() == b'head' + (out or b''), '%s writes %r', what, sink.getvalue()[:80])
    else:
        leave = ('pic.' + fmt,)
        if op == 'display-over':                       # there is a longer picture of the same name already
            with open('pic.' + fmt, 'wb') as f:
                f.write(b'old picture ' * 40000)
        r = call(lambda: g.display(basename='pic', format=fmt))
        want = ('error', status) if status not in (0, 'missing') else ('ok', None)
        check(r == want, '%s gives %r, should be %r', what, r, want)
        if status == 0:
            with open('pic.' + fmt, 'rb') as f:
                check(f.read() == out, '%s does not write what the program returned', what)
    box.clean(what, leave)
    for x in leave:
        if os.path.exists(x):
            os.remove(x)
    rec = box.recorded()
    if status == 'missing':
        check(rec is None, '%s runs the program', what)
    else:
        check(rec is not None, '%s does not run the program', what)
        args, data = rec
        check(os.path.basename(args[0]) == tool, '%s runs %s', what, args[0])
        check('-T' + fmt in args[1:] or any(a == '-T' and b == fmt for a, b in zip(args, args[1:])),
              '%s asks for %s', what, args[1:])
        check(data == text.encode('utf8'), '%s hands the program %r, the graph is %r', what, data[:200], text[:200])
    check(freeze(g) == before and g.to_string() == text, '%s changes the graph', what)


def run_call(case, ctx):
    gname, op, tool, prog, fmt = case
    with Box() as box:
        g = G.build(GRAPHS[gname], None, layout=tool, display='file')
        attempt(box, g, op, tool, prog, fmt)
        ctx.step()
        ctx.state(tuple(case))
        ctx.outcome((op, str(PROGRAMS[prog][1])))


def run_seq(case, ctx):
    """A history of calls on one graph, which changes in between."""
    with Box() as box:
        g = G.build(GRAPHS['arc'], None, layout='dot', display='file')
        for k, (op, prog) in enumerate(case):
            attempt(box, g, op, 'dot', prog, 'png')
            g.add_edge(1, 100 + k, label='step %d' % k)
            ctx.step()
        ctx.state(repr(case))


def run_fault(case, ctx):
    """The disk is full after `limit` bytes of the temporary file, or there is no directory for it, or the text cannot be
    encoded; afterwards the graph renders normally."""
    kind, gname, limit = case
    with Box() as box:
        g = G.build(GRAPHS[gname], None, layout='dot', display='file')
        n = len(g.to_string().encode('utf8'))
        box.install('dot', 'ok-text')
        before = freeze(g)
        if kind == 'disk full':
            k = {'0': 0, '1': 1, 'half': n // 2, 'last': n - 1}[limit]
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
            try:
                raised = False
                try:
                    r = g.create('dot', 'png')
                except OSError:
                    raised = True
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                signal.signal(signal.SIGXFSZ, old)
            # the program cannot record anything under the limit either; what counts is what is reported and left behind
            check(raised or r is None, 'create reports success (%r) although the graph was not written', r if not raised else 0)
        elif kind == 'no directory':
            tempfile.tempdir = os.path.join(box.d, 'absent')
            try:
                r = g.create('dot', 'png')
            except OSError:
                r = None
            finally:
                tempfile.tempdir = os.path.join(box.d, 'tmp')
            # a version that needs no temporary file may succeed
            check(r in (None, b'drawn'), 'create returns %r', r)
        else:
            a = limit
            if a == 'node':
                g.get_node(0).set_attr('label', 'x\ud800')
            elif a == 'edge':
                g.set_edge_attr(0, 1, 'label', '\udfff')
            else:
                g.attr['label'] = '\ud800'
            before = freeze(g)
            try:
                g.create('dot', 'png')
            except UnicodeError:
                pass
        box.clean('%s: create' % case)
        check(freeze(g) == before, '%s changes the graph', case)
        if kind != 'encoding':
            attempt(box, g, 'create', 'dot', 'ok-text', 'png')
        ctx.step(2)
        ctx.state(tuple(case))
        ctx.outcome(kind)


def run_locale(case, ctx):
    """What the program is given does not depend on the locale."""
    import locale
    gname, op, loc = case
    old = locale.setlocale(locale.LC_CTYPE)
    locale.setlocale(locale.LC_CTYPE, loc)
    try:
        with Box() as box:
            g = G.build(GRAPHS[gname], None, layout='dot', display='file')
            attempt(box, g, op, 'dot', 'ok-text', 'svg')
    finally:
        locale.setlocale(locale.LC_CTYPE, old)
    ctx.step()
    ctx.state(tuple(case))


def run_dot(case, ctx):
    """format 'dot' needs no program: the file is to_string in UTF-8; display off writes nothing."""
    gname, prog, mode = case
    with Box() as box:
        g = G.build(GRAPHS[gname], None, layout='dot', display=mode)
        box.install('dot', prog)
        before = freeze(g)
        sink = io.BytesIO()
        g.write(sink, format='dot')
        check(sink.getvalue() == g.to_string().encode('utf8'), 'write in DOT writes %r', sink.getvalue()[:200])
        sink = io.BytesIO()
        g.write(sink, 'neato', 'dot')
        check(sink.getvalue() == g.to_string().encode('utf8'), 'write in DOT writes %r', sink.getvalue()[:200])
        if mode != 'off':
            with open('out.dot', 'wb') as f:
                f.write(b'// an older picture' * 40000)
        g.display(basename='out', format='dot')
        if mode == 'off':
            box.clean('display when off')
            g.display()
            g.display(highlight=[g.get_node(n) for n in g.get_node_list()], basename='x', format='png')
            box.clean('display when off')
        else:
            with open('out.dot', 'rb') as f:
                check(f.read() == g.to_string().encode('utf8'), 'display in DOT writes something else')
            box.clean('display in DOT', ('out.dot',))
        check(box.recorded() is None, 'writing DOT runs a program')
        check(freeze(g) == before, 'writing DOT or display when off changes the graph')
        ctx.step(3)
        ctx.state(tuple(case))


def run_highlight(case, ctx):
    """Highlighted nodes are red in that picture, and only there, whatever becomes of it."""
    d, colors, sub, kind, prog = case
    with Box() as box:
        g = G.build({'d': d, 'n': 3, 'e': [[0, 1], [2, 1]], 'nm': 'mix', 'na': {'color': colors}}, None, layout='dot',
                    display='file')
        N = g.get_node_list()
        box.install('dot', prog)
        before, text = freeze(g), g.to_string()
        for turn in range(2):
            hl = [N[i] if kind == 'names' or (kind == 'mixed' and k % 2) else g.get_node(N[i]) for k, i in enumerate(sub)]
            given = list(hl)
            r = call(lambda: g.display(highlight=hl, basename='pic'))
            status = PROGRAMS[prog][1]
            check(r == (('error', status) if status not in (0, 'missing') else ('ok', None)), 'display gives %r', r)
            check(len(hl) == len(given) and all(x is y for x, y in zip(hl, given)), 'display changed the list of highlighted nodes')
            rec = box.recorded()
            if rec is not None:
                p = dot.parse(rec[1].decode('utf8'))
                for i in range(3):
                    want = 'red' if i in sub else colors[i]
                    got = p['nodes'][str(N[i])].get('color')
                    check(got == want, 'with %s highlighted (picture %d) node %s is drawn %s, should be %s', sub, turn + 1, i, got, want)
            check(freeze(g) == before and g.to_string() == text, 'display(highlight=%s) with a program that is %s changes the graph: %s '
                  '-> %s', sub, prog, text, g.to_string())
            ctx.step()
        ctx.state(repr(case))
        ctx.outcome((kind, prog))


def run_layout(case, ctx):
    """The layout program is the one of the constructor, set_layout or the argument, in this order of weakness."""
    first, steps = case
    with Box() as box:
        g = G.build(GRAPHS['arc'], None, display='file', **({} if first is None else {'layout': first}))
        now = 'fdp' if first is None else first
        check(g.get_layout() == now, 'get_layout gives %r, should be %r', g.get_layout(), now)
        for kind, tool in steps:
            if kind == 'set':
                g.set_layout(tool)
                now = tool
            elif kind == 'attr':
                g.attr['layout'] = tool
                now = tool
            else:
                box.install(tool, 'ok-text')
                g.write(io.BytesIO(), tool) if kind == 'write' else g.create(tool, 'png')
                check(os.path.basename(box.recorded()[0][0]) == tool, '%s with layout %s does not run it', kind, tool)
            check(g.get_layout() == now, 'after %s get_layout gives %r, should be %r', steps, g.get_layout(), now)
            for op in ('write-default', 'display'):
                box.install(now, 'ok-text')
                g.write(io.BytesIO()) if op == 'write-default' else g.display(basename='pic')
                rec = box.recorded()
                check(rec is not None and os.path.basename(rec[0][0]) == now, '%s does not run %s', op, now)
            ctx.step(3)
        ctx.state(repr(case))
        ctx.outcome(now)


def run_names(case, ctx):
    """The picture goes to basename.format in the directory of the basename; every format but dot is drawn by the program."""
    base, fmt, prog, mode = case
    with Box() as box:
        os.mkdir('sub')
        g = G.build(GRAPHS['arc'], None, layout='dot', display='file')
        before = freeze(g)
        kw = {} if base is None else {'basename': base}
        if fmt is not None:
            kw['format'] = fmt
        name = '%s.%s' % (base or 'graph', fmt or 'png')
        box.install('dot', prog)
        status, out = PROGRAMS[prog][1:]
        if fmt == 'dot':
            status = 0                               # no program is run
        full = base if base is None or not base.startswith('=') else None
        if full is None and base is not None:
            kw['basename'] = os.path.join(box.d, 'tmp', base[1:])
            name = kw['basename'] + '.' + (fmt or 'png')
        r = call(lambda: g.display(**kw))
        want = ('error', status) if status not in (0, 'missing') else ('ok', None)
        check(r == want, 'display(%s) gives %r, should be %r', kw, r, want)
        if status == 0:
            check(os.path.exists(name), 'display(%s) does not write %s but %s', kw, name, sorted(os.listdir('.')))
            with open(name, 'rb') as f:
                check(f.read() == (g.to_string().encode('utf8') if fmt == 'dot' else out), 'display(%s) writes something else', kw)
        if os.path.exists(name):
            os.remove(name)
        check(os.listdir('sub') == [], 'display(%s) leaves %s', kw, os.listdir('sub'))
        box.clean('display(%s)' % kw, ('sub',))
        rec = box.recorded()
        if status != 'missing' and fmt != 'dot':
            check(rec is not None and '-T' + (fmt or 'png') in rec[0], 'display(%s) asks the program for %s', kw, rec)
        check(freeze(g) == before, 'display(%s) changes the graph', kw)
        ctx.step()
        ctx.state(repr(case))
        ctx.outcome((fmt, prog))


def run_real(spec, ctx):
    """Graphviz itself: the picture has exactly the nodes and edges of the graph."""
    if shutil.which('dot') is None:
        ctx.notes['graphviz is not installed'] += 1
        return
    m = G.M(spec)
    with Box(real=True) as box:
        g = G.build(spec, None, layout='dot', display='file')
        r = json.loads(g.create('dot', 'dot_json').decode('utf8'))
        box.clean('create')
        ob = {o['_gvid']: o['name'] for o in r.get('objects', [])}
        want = sorted(str(m.name(i)) for i in range(m.n))
        check(sorted(ob.values()) == want, 'the picture has nodes %s', sorted(ob.values()))
        E = sorted((ob[e['tail']], ob[e['head']]) for e in r.get('edges', []))
        check(E == sorted((str(m.name(u)), str(m.name(v))) for u, v in m.edges), 'the picture has edges %s', E)
        check(r['directed'] == m.directed, 'the picture is %s', r['directed'])
        ctx.step()
        ctx.state(repr(spec))


def spaces(tier):
    q = tier == 'quick'
    OPS = ('create', 'write', 'write-default', 'display', 'display-over')
    names = [x for x in GRAPHS if not (q and x == 'undirected')]
    few = ['ok-text', 'ok-space', 'ok-warns', 'ok-empty', 'fail-1-text', 'kill-9', 'missing', 'not-executable']
    depth = few if q else list(PROGRAMS)

    def calls():
        for prog in PROGRAMS:
            for op in OPS:
                for gn in names:
                    for tool, fmt in ((('dot', 'png'), ('neato', 'svg')) if q else itertools.product(TOOLS, ('png', 'svg', 'pdf'))):
                        yield [gn, op, tool, prog, fmt]

    def seqs():
        for a, b in itertools.product(depth, repeat=2):
            for o, p in itertools.product(('create', 'write', 'display-over'), repeat=2):
                yield [[o, a], [p, b]]
        for t in itertools.product(few if not q else few[4:], repeat=3):
            yield [['create', t[0]], ['write', t[1]], ['display', t[2]]]
            if not q:
                yield [['display', t[0]], ['create', t[1]], ['write', t[2]]]

    def faults():
        for gn in GRAPHS:
            for k in ('0', '1', 'half', 'last'):
                yield ['disk full', gn, k]
            yield ['no directory', gn, '']
        for a in ('node', 'edge', 'graph'):
            yield ['encoding', 'arc', a]

    def locales():
        for gn in GRAPHS:
            for op in OPS:
                for loc in ('C', 'C.UTF-8', 'POSIX'):
                    yield [gn, op, loc]

    def dots():
        for gn in GRAPHS:
            for prog in PROGRAMS:
                for mode in ('off', 'file'):
                    yield [gn, prog, mode]

    def real():
        for d in (1, 0):
            for n in (0, 1, 2):
                for s in G.all_graphs(n, bool(d), [{'label': 'x y'}], True):
                    yield dict(s, nm='mix')
            if not q:
                for s in G.all_graphs(3, bool(d), [{'label': 'x y'}], True):
                    yield s
    def highlights():
        for d in (1, 0):
            for colors in ([None] * 3, ['blue', None, 'red'], ['red', 'green', None]):
                for k in range(4):
                    for sub in itertools.permutations(range(3), k):
                        for kind in ('names', 'nodes', 'mixed'):
                            for prog in ('ok-text', 'fail-1-text', 'missing', 'kill-9'):
                                yield [d, colors, list(sub), kind, prog]

    def layouts():
        st = [[k, t] for k in ('set', 'write', 'create', 'attr') for t in TOOLS[:3 if q else 6]]
        for first in (None,) + TOOLS:
            for a in st:
                for b in st:
                    yield [first, [a, b]]

    def filenames():
        for base in (None, 'pic', 'pic.v1', 'a b', 'sub/pic', 'sub/p.q.r', './pic', '=deep', '=deep.dot', '.hidden', 'x.png',
                     '\u4e2d', "it's", '-n', '$HOME', 'q;r'):
            for fmt in (None, 'png', 'svg', 'dot', 'gv', 'PNG', 'xdot', 'plain', 'svg:cairo', 'cmapx', 'dot_json', 'canon'):
                for prog in ('ok-text', 'ok-empty', 'fail-1-text', 'missing'):
                    yield [base, fmt, prog, 'file']

    return [Space('file names', 'every base name (dots, blanks, directories, shell characters) and format of a list x four behaviours '
                  'of the program', filenames, run_names, 60.0),
            Space('highlight', 'every sequence of highlighted nodes out of 3, given as names or nodes, three colourings, four '
                  'behaviours of the program, two pictures', highlights, run_highlight, 60.0),
            Space('layouts', 'every two steps out of set_layout, the layout attribute, write and create with a layout, from every '
                  'layout of the constructor', layouts, run_layout, 60.0),
            Space('calls', 'every behaviour of the layout program x rendering call x graph x tool and format', calls,
                  run_call, 60.0),
            Space('histories', 'every sequence of 2 (behaviour, call) pairs and of 3 behaviours on one changing graph', seqs,
                  run_seq, 60.0),
            Space('faults', 'a full disk at four points of the temporary file, no temporary directory, text that cannot be '
                  'encoded', faults, run_fault, 60.0),
            Space('locales', 'every graph and call in every locale installed', locales, run_locale, 60.0),
            Space('dot format', 'DOT output and display mode off with every behaviour of the program', dots, run_dot, 60.0),
            Space('graphviz', 'every graph with self-loops on up to %d nodes drawn by graphviz' % (2 if q else 3), real,
                  run_real, 60.0)]
