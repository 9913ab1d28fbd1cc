"""DisjointSet: every reachable forest, every operation, against a partition."""
import collections
import itertools

from mc import graphs as G
from mc.core import HarnessError, NonTermination, Space, Violation, check, freeze
from mc.props.c01 import nm


class Part(object):
    def __init__(self, blocks):
        self.b = [frozenset(x) for x in blocks]

    def of(self, i):
        return next(x for x in self.b if i in x)

    def union(self, i, j):
        a, b = self.of(i), self.of(j)
        if a == b:
            return False
        self.b = [x for x in self.b if x not in (a, b)] + [a | b]
        return True


def build(start, opt, names, hist):
    import gimpy
    N = nm(names, sum(map(len, start)))
    d = gimpy.DisjointSet(optimize=opt)
    for blk in start:
        d.add([G.fresh(N[i]) for i in blk])
    for op in hist:
        if op[0] == 'u':
            d.union(N[op[1]], N[op[2]])
        else:
            d.find(N[op[1]])
    return d, N


def canon(d, N):
    """Parent pointers and recorded sizes: all that find and union read."""
    return (tuple((i, tuple(repr(x) for x in d.get_neighbors(n))) for i, n in enumerate(N)),
            tuple(sorted((repr(k), v) for k, v in d.sizes.items())) if hasattr(d, 'sizes') else repr(freeze(d)))


def judge(d, N, part, start):
    n = len(N)
    par = {}
    for i in range(n):
        nb = d.get_neighbors(N[i])
        check(len(nb) <= 1, 'item %s has %d parents', i, len(nb))
        par[i] = N.index(nb[0]) if nb else None
    roots = {}
    for i in range(n):
        j, k = i, 0
        while par[j] is not None:
            j = par[j]
            k += 1
            check(k <= n, 'parents run in a circle from %s', i)
        roots[i] = j
    for i in range(n):
        for j in range(n):
            check((roots[i] == roots[j]) == (part.of(i) == part.of(j)), 'items %s and %s: roots %s, %s; sets %s', i, j,
                  roots[i], roots[j], part.b)
    for r in set(roots.values()) if hasattr(d, 'sizes') else ():
        check(d.sizes.get(N[r]) == len(part.of(r)), 'recorded size of the set of %s is %s, should be %s', r,
              d.sizes.get(N[r]), len(part.of(r)))
    return par, roots


def explore(case, ctx):
    """Breadth-first search over all states reachable from the start; every operation in every state."""
    start, opt, names = case
    n = sum(map(len, start))
    ops = [('f', i) for i in range(n)] + [('u', i, j) for i in range(n) for j in range(n)]
    d, N = build(start, opt, names, [])
    p0 = Part(start)
    judge(d, N, p0, start)
    seen = {canon(d, N)}
    queue = collections.deque([[]])
    depth = 0
    while queue:
        hist = queue.popleft()
        depth = max(depth, len(hist))
        for op in ops:
            d, N = build(start, opt, names, hist)
            part = Part(start)
            for h in hist:
                if h[0] == 'u':
                    part.union(h[1], h[2])
            before = canon(d, N)
            try:
                if op[0] == 'f':
                    r = d.find(G.fresh(N[op[1]]))
                    rep = N.index(r)
                    check(rep in part.of(op[1]), 'find(%s) is %s, its set is %s', op[1], rep, sorted(part.of(op[1])))
                    par, roots = judge(d, N, part, start)
                    check(roots[op[1]] == rep, 'find(%s) is %s but the root of its tree is %s', op[1], rep, roots[op[1]])
                    check(d.find(N[op[1]]) == r, 'find(%s) twice gives two answers', op[1])
                else:
                    want = part.union(op[1], op[2])
                    r = d.union(G.fresh(N[op[1]]), G.fresh(N[op[2]]))
                    check(r is want, 'union(%s, %s) returned %r, should be %r', op[1], op[2], r, want)
                    par, roots = judge(d, N, part, start)
                if not opt and op[0] == 'f':
                    check(canon(d, N) == before, 'find without optimization changed the structure')
                if opt:
                    # union by size: the depth of an item stays within log2 of the growth of its set (+1 for the
                    # two-level sets that add() builds)
                    for i in range(n):
                        k, j = 0, i
                        while par[j] is not None:
                            j = par[j]
                            k += 1
                        own = next(len(b) for b in start if i in b)
                        lim = (len(part.of(i)) // own).bit_length() - 1 + (1 if own > 1 else 0)
                        check(k <= lim, 'item %s is %d levels deep in a set of %d items', i, k, len(part.of(i)))
            except Violation as v:
                raise Violation('after %s, %s: %s' % (hist, op, v))
            except (NonTermination, HarnessError):
                raise
            except Exception as e:
                raise Violation('after %s, %s: raised %s: %s' % (hist, op, type(e).__name__, e))
            ctx.step()
            c = canon(d, N)
            if c not in seen:
                seen.add(c)
                queue.append(hist + [op])
    ctx.outcome('%d states, closure at depth %d' % (len(seen), depth))
    for c in seen:
        ctx.state((repr(start), opt, names, c))


def partitions(n):
    def rec(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for k in range(len(blocks)):
            for x in rec(i + 1, blocks[:k] + [blocks[k] + [i]] + blocks[k + 1:]):
                yield x
        for x in rec(i + 1, blocks + [[i]]):
            yield x
    return rec(0, [])


def spaces(tier):
    q = tier == 'quick'

    def cases():
        for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
            for start in partitions(n):
                if n >= 5 and len(start) < n - (1 if n == 5 else 0):
                    continue
                for opt in (True, False):
                    for names in ('int', 'mix', 'tok', 'fal') if n <= 4 else ('int',):
                        yield [start, opt, names]
    return [Space('closure', 'all states reachable by find and union from every initial partition of up to %d items '
                  '(sets added as lists), with and without optimization, 3 naming schemes; closed under all operations'
                  % (5 if q else 6), cases, explore, 600.0)]
