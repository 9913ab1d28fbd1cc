"""Traversals of Tree and BinaryTree: which node is visited when."""
import itertools

from mc import graphs as G
from mc.core import Space, check
from mc.props.c01 import nm
from mc.props.c02 import bin_shapes
from coinor.blimpy import Stack, Queue


def kids_of(n, shape):
    K = {i: [] for i in range(n)}
    for c, p, s in shape:
        K[p].append((c, s))
    return K


def level_order(r, kids):
    q = [r]
    for u in q:
        q.extend(kids(u))
    return q


def preorder(r, kids):
    out = [r]
    for c in kids(r):
        out += preorder(c, kids)
    return out


def is_preorder(r, kids, seq):
    """seq is a preorder of the subtree at r for some order of the children."""
    pos = {v: i for i, v in enumerate(seq)}

    def rec(u, lo):
        """size of the subtree, or None when it is not contiguous from lo on."""
        if pos[u] != lo:
            return None
        at = lo + 1
        for c in sorted(kids(u), key=lambda c: pos[c]):
            k = rec(c, at)
            if k is None:
                return None
            at += k
        return at - lo
    return rec(r, 0) == len(seq)


def run(case, ctx):
    import gimpy
    binary, scheme, n, shape = case
    N = nm(scheme, n)
    base = gimpy.BinaryTree if binary else gimpy.Tree

    class R(base):
        def display(self, highlight=None, *a, **k):
            if self.attr['display'] == 'off':
                return
            self.seen.append([x.name if isinstance(x, gimpy.graph.Node) else x for x in highlight])
    t = R(display='file')
    t.seen = []
    t.add_root(N[0])
    for c, p, s in shape:
        if binary:
            (t.add_left_child if s == 'L' else t.add_right_child)(N[c], N[p])
        else:
            t.add_child(N[c], N[p])
    used = [0] + [c for c, p, s in shape]
    K = kids_of(n, shape)

    def visits(f):
        t.seen = []
        f()
        ctx.step()
        ctx.frames += len(t.seen)
        v = [x[0] for x in t.seen]
        return [N.index(x) for x in v]

    def kids(u, pr):
        if not binary:
            return [c for c, s in K[u]]
        return [c for c, s in sorted(K[u], key=lambda x: x[1] != pr)]
    for r in used:
        roots = [{'root': N[r]}] + ([{}] if r == 0 else [])
        for kw in roots:
            for pr in ('L', 'R') if binary else ('L',):
                pk = {'priority': pr} if binary else {}
                w = level_order(r, lambda u: kids(u, pr))
                for what, f in (('bfs', lambda: t.bfs(**dict(kw, **pk))),
                                ('traverse(Queue)', lambda: t.traverse(q=Queue(), **dict(kw, **pk)))):
                    got = visits(f)
                    check(got == w, '%s from %s, priority %s, visits %s, should visit %s', what, r, pr, got, w)
                alld = []
                for what, f in (('dfs', lambda: t.dfs(**dict(kw, **pk))),
                                ('traverse(Stack)', lambda: t.traverse(q=Stack(), **dict(kw, **pk))),
                                ('traverse()', lambda: t.traverse(**dict(kw, **pk)))):
                    got = visits(f)
                    check(sorted(got) == sorted(w) and is_preorder(r, lambda u: kids(u, pr), got),
                          '%s from %s, priority %s, visits %s: not a depth-first order', what, r, pr, got)
                    alld.append(got)
                check(alld[0] == alld[1] == alld[2], 'dfs and traverse with a stack disagree: %s', alld)
                if binary:
                    other = visits(lambda: t.dfs(**dict(kw, priority='R' if pr == 'L' else 'L')))
                    mirror = is_mirror(r, K, alld[0], other)
                    check(mirror, 'dfs with the two priorities does not mirror: %s and %s', alld[0], other)
    ctx.state((binary, scheme, n, repr(shape)))
    ctx.outcome(len(used))


def is_mirror(r, K, a, b):
    """Wherever a node has two children, the two orders visit them the other way round."""
    pa = {v: i for i, v in enumerate(a)}
    pb = {v: i for i, v in enumerate(b)}
    for u in pa:
        c = [x for x, s in K[u]]
        if len(c) == 2 and (pa[c[0]] < pa[c[1]]) == (pb[c[0]] < pb[c[1]]):
            return False
    return True


def run_print(case, ctx):
    import gimpy
    import contextlib
    import io
    scheme, n, shape = case
    N = nm(scheme, n)
    t = gimpy.BinaryTree()
    t.add_root(N[0])
    for c, p, s in shape:
        (t.add_left_child if s == 'L' else t.add_right_child)(N[c], N[p])
    K = kids_of(n, shape)

    def walk(u, order, pr):
        first = [c for c, s in K[u] if s == pr]
        second = [c for c, s in K[u] if s != pr]
        a = walk(first[0], order, pr) if first else []
        b = walk(second[0], order, pr) if second else []
        return {'pre': [u] + a + b, 'in': a + [u] + b, 'post': a + b + [u]}[order]
    for r in [0] + [c for c, p, s in shape]:
        for kw in ([{'root': N[r]}] + ([{}] if r == 0 else [])):
            for order in ('pre', 'in', 'post'):
                for pr in 'LR':
                    buf = io.StringIO()
                    with contextlib.redirect_stdout(buf):
                        t.print_nodes(order=order, priority=pr, **kw)
                    got = buf.getvalue()
                    want = ''.join(str(N[i]) + '\n' for i in walk(r, order, pr))
                    check(got == want, 'print_nodes(%r, %r) from %s prints %r, should print %r', order, pr, r, got, want)
                    ctx.step()
    ctx.state(('print', scheme, n, repr(shape)))
    ctx.outcome(('print', len(shape)))


def gen_shapes(n):
    """Every ordered tree on up to n nodes with every insertion order of the nodes (parent before child)."""
    for k in range(1, n + 1):
        for ps in itertools.product(*[range(i) for i in range(1, k)]):
            yield [[i + 1, p, '-'] for i, p in enumerate(ps)]


def spaces(tier):
    q = tier == 'quick'
    b, t = (6, 6) if q else (7, 7)
    return [Space('binary', 'every binary tree on up to %d nodes from every starting node, both priorities' % b,
                  lambda: ([1, sc, b, s] for sc in ('int', 'mix', 'fal', 'odd') for s in bin_shapes(b)), run),
            Space('tree', 'every ordered tree on up to %d nodes, every insertion order, every starting node' % t,
                  lambda: ([0, sc, t, s] for sc in ('int', 'tok', 'fal', 'tup', 'odd') for s in gen_shapes(t)), run),
            Space('print', 'print_nodes: every binary tree on up to %d nodes x 3 orders x 2 priorities x every start' % b,
                  lambda: ([sc, b, s] for sc in ('int', 'mix', 'tok', 'fal', 'odd') for s in bin_shapes(b)), run_print)]
