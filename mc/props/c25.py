"""Tree and BinaryTree structure after every history of additions and leaf deletions."""
import itertools

from mc import graphs as G
from mc import graphops as O
from mc.core import Space, check
from mc.props.c01 import nm


class TM(object):
    def __init__(self):
        self.root = None
        self.par, self.kids, self.side, self.level = {}, {}, {}, {}

    def copy(self):
        t = TM()
        t.root = self.root
        t.par, t.side, t.level = dict(self.par), dict(self.side), dict(self.level)
        t.kids = {k: list(v) for k, v in self.kids.items()}
        return t

    def add(self, n, p, side=None):
        self.par[n], self.kids[n], self.side[n] = p, [], side
        self.level[n] = 0 if p is None else self.level[p] + 1
        if p is None:
            self.root = n
        else:
            self.kids[p].append(n)

    def child(self, p, side):
        return next((c for c in self.kids[p] if self.side[c] == side), None)

    def dele(self, n):
        p = self.par.pop(n)
        del self.kids[n], self.side[n], self.level[n]
        if p is None:
            self.root = None
        else:
            self.kids[p].remove(n)


def enabled(m, k, binary):
    """Accepted operations: (root, n) (child, n, p) (L, n, p) (R, n, p) (del, n)."""
    r = []
    free = [n for n in range(k) if n not in m.par]
    if m.root is None and not m.par:
        return [('root', n) for n in free]
    for p in m.par:
        for n in free:
            if binary:
                for s in 'LR':
                    if m.child(p, s) is None:
                        r.append((s, n, p))
            else:
                r.append(('child', n, p))
    for n in m.par:
        if not m.kids[n] and (binary or m.par[n] is not None):
            r.append(('del', n))
    return r


def mstep(m, op):
    if op[0] == 'root':
        m.add(op[1], None)
    elif op[0] == 'del':
        m.dele(op[1])
    else:
        m.add(op[1], op[2], None if op[0] == 'child' else op[0])


def judge(t, m, N, binary, step):
    check(O.same(t.get_node_list(), [N[i] for i in m.par]), 'nodes are %s, should be %s', t.get_node_list(),
          [N[i] for i in m.par])
    check(set(t.get_edge_list()) == {(N[p], N[n]) for n, p in m.par.items() if p is not None}
          and t.get_edge_num() == len([1 for p in m.par.values() if p is not None]), 'edges are %s', t.get_edge_list())
    if m.root is None:
        check(t.root is None, 'root is %s, the tree is empty', t.root)
    else:
        check(t.root is not None and t.root.name == N[m.root] and t.root is t.get_node(N[m.root]), 'root is %r', t.root)
    for n, p in m.par.items():
        x = t.get_parent(N[n])
        check(x == (None if p is None else N[p]) and (p is not None or x is None), 'parent of %s is %r, should be %r', n, x, p)
        check(t.get_node_attr(N[n], 'level') == m.level[n], 'level of %s is %r, should be %s', n,
              t.get_node_attr(N[n], 'level'), m.level[n])
        check(list(t.get_children(N[n])) == [N[c] for c in m.kids[n]], 'children of %s are %s, should be %s', n,
              t.get_children(N[n]), [N[c] for c in m.kids[n]])
        check(t.get_node_attr(N[n], 'mark') == 'm%s' % n, 'attribute of %s is %r', n, t.get_node_attr(N[n], 'mark'))
        if binary:
            for s, f in (('L', t.get_left_child), ('R', t.get_right_child)):
                c = m.child(n, s)
                w = None if c is None else N[c]
                for arg in (N[n], t.get_node(N[n])):
                    x = f(arg)
                    check(x == w and (w is None) == (x is None), '%s child of %s is %r, should be %r', s, n, x, w)


def run(case, ctx):
    import gimpy
    binary, scheme, k, seq, keep = case
    N = nm(scheme, k)
    old = {}
    t = gimpy.BinaryTree() if binary else gimpy.Tree()
    m = TM()
    for op in seq:
        n = G.fresh(N[op[1]])
        at = {'mark': 'm%s' % op[1]}
        if keep and op[0] != 'del':
            # a node that was deleted comes back with all the attributes it had
            at = dict(old.get(op[1], {}), **at)
        if op[0] == 'root':
            r = t.add_root(n, **at)
            if not binary:
                check(r is t.get_node(n), 'add_root returned %r', r)
        elif op[0] == 'child':
            r = t.add_child(n, G.fresh(N[op[2]]), **at)
            check(r is t.get_node(n), 'add_child returned %r', r)
        elif op[0] == 'del':
            old[op[1]] = {a: v for a, v in t.get_node(n).attr.items() if a != 'parent'}
            t.del_node(n)
        else:
            (t.add_left_child if op[0] == 'L' else t.add_right_child)(n, G.fresh(N[op[2]]), **at)
        mstep(m, op)
        ctx.step()
        ctx.outcome(op[0])
    judge(t, m, N, binary, len(seq))
    ctx.state((binary, scheme, repr(sorted(m.par.items(), key=repr)), repr(sorted(m.side.items(), key=repr)), repr(seq)))


def histories(binary, scheme, k, depth, keep=0):
    def rec(m, seq):
        if seq:
            yield [int(binary), scheme, k, seq, keep]
        if len(seq) == depth:
            return
        for op in enabled(m, k, binary):
            t = m.copy()
            mstep(t, op)
            for x in rec(t, seq + [list(op)]):
                yield x
    return rec(TM(), [])


def spaces(tier):
    q = tier == 'quick'

    def cases():
        for binary in (0, 1):
            for scheme, k, d in ((('int', 4, 5), ('mix', 3, 5), ('tok', 3, 4), ('dig', 3, 4), ('fal', 3, 5)) if q else
                                 (('int', 4, 6), ('int', 5, 5), ('mix', 3, 7), ('tok', 3, 6), ('dig', 3, 6), ('fal', 3, 6))):
                for c in histories(binary, scheme, k, d):
                    yield c
    def moved():
        for binary in (0, 1):
            for k, d in ((3, 6),) if q else ((3, 7), (4, 6)):
                for c in histories(binary, 'int', k, d, 1):
                    if any(op[0] == 'del' for op in c[3][:-1]):
                        yield c
    return [Space('moved', 'every history of depth up to %d in which a node was deleted; nodes that come back are given all '
                  'the attributes they had before (level, side, children marks), which must not override their new place'
                  % (6 if q else 7), moved, run), Space('histories', 'every history of add_root / add_child / add_left_child / add_right_child / deletion of a '
                  'leaf up to depth %d, Tree and BinaryTree, every observable compared after every prefix'
                  % (5 if q else 7), cases, run)]
