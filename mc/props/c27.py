"""Expression trees: printexp and postordereval."""
import contextlib
import fractions
import io
import itertools

from mc.core import Space, check

OPS = '+-*/'


def trees(k):
    """Every full binary tree with k operators, as nested lists [l, r] / None for a leaf."""
    if k == 0:
        yield None
        return
    for i in range(k):
        for a in trees(i):
            for b in trees(k - 1 - i):
                yield [a, b]


def fill(t, ops, leaves):
    """Assign operators (preorder) and leaves (left to right)."""
    if t is None:
        return str(next(leaves))
    o = next(ops)
    a = fill(t[0], ops, leaves)
    b = fill(t[1], ops, leaves)
    return [o, a, b]


def value(e):
    if isinstance(e, str):
        return fractions.Fraction(int(e))
    a, b = value(e[1]), value(e[2])
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[e[0]]()


def close(r, want, e):
    """Division makes floats; everything else is exact."""
    if '/' not in tokens(e):
        return r == want
    return abs(fractions.Fraction(r) - want) <= fractions.Fraction(1, 10 ** 9) * max(1, size(e))


def size(e):
    """A bound for every intermediate result of the expression."""
    if isinstance(e, str):
        return abs(int(e))
    a, b = size(e[1]), size(e[2])
    if e[0] == '/':
        b = value(e[2])
        return a / abs(b) if b else a
    return a * b if e[0] == '*' else a + b


def tokens(e):
    if isinstance(e, str):
        return [e]
    return ['('] + tokens(e[1]) + [e[0]] + tokens(e[2]) + [')']


def build(e, naming):
    """naming 'label': nodes 0..n-1 carry labels; 'name': leaves and the only operator are the node names."""
    import gimpy
    t = gimpy.BinaryTree()
    cnt = itertools.count()

    def put(x, parent, side):
        i = next(cnt)
        lab = x if isinstance(x, str) else x[0]
        if naming in ('num', 'numname') and isinstance(x, str):
            lab = int(lab)
        if naming in ('name', 'numname'):
            n, at = lab, {}
        else:
            n, at = ('n%d' % i if naming == 'slabel' else i), {'label': lab}
        if parent is None:
            t.add_root(n, **at)
        elif side == 'L':
            t.add_left_child(n, parent, **at)
        else:
            t.add_right_child(n, parent, **at)
        if not isinstance(x, str):
            put(x[1], n, 'L')
            put(x[2], n, 'R')
    put(e, None, None)
    return t


def run(case, ctx):
    e, naming = case
    try:
        want = value(e)
    except ZeroDivisionError:
        want = None
    t = build(e, naming)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        t.printexp()
    got = buf.getvalue().split()
    check(got == tokens(e), 'printexp prints %s, the tree is %s', ' '.join(got), ' '.join(tokens(e)))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = t.postordereval()
    except ZeroDivisionError:
        r = None
    if want is None:
        check(r is None, 'postordereval of %s is %r, it divides by zero', ' '.join(tokens(e)), r)
    else:
        check(r is not None and close(r, want, e), 'postordereval of %s is %r, should be %s', ' '.join(tokens(e)), r, want)
    ctx.step(2)
    ctx.state(repr(e))
    ctx.outcome(float(want) if want is not None else 'division by zero')


def cases(k, leaves, ops=OPS):
    for t in trees(k):
        for os in itertools.product(ops, repeat=k):
            for ls in itertools.product(leaves, repeat=k + 1):
                yield fill(t, iter(os), iter(ls))


def spaces(tier):
    q = tier == 'quick'

    def all_():
        for k, leaves in ((0, range(-2, 12)), (1, (0, 1, 2, 7)), (2, (0, 1, 2, 7)), (3, (0, 2, 3) if q else (0, 1, 2, 7))):
            for e in cases(k, leaves):
                for nmg in ('label', 'slabel', 'num') if k < 3 else ('label', 'num'):
                    yield [e, nmg]
        if not q:
            for e in cases(4, (0, 3), '+-*/'):
                yield [e, 'label']

    def named():
        for e in named1():
            yield [e, 'name']
            yield [e, 'numname']

    def named1():
        for o in OPS:
            for a, b in itertools.permutations(('4', '5', '0', '12'), 2):
                yield [o, a, b]
        for o, p in itertools.permutations(OPS, 2):
            for a, b, c in itertools.permutations(('4', '5', '0', '12'), 3):
                yield [o, a, [p, b, c]]
                yield [o, [p, a, b], c]
    odd = ('9007199254740993', '-3', '007', '+4', '-0', '100000000000000000000')

    def odd_():
        for a in odd:
            for nmg in ('label', 'slabel', 'num') if a not in ('007', '+4', '-0') else ('label', 'slabel'):
                yield [a, nmg]
        for k, leaves in ((1, odd), (2, odd[:4]) if q else (2, odd)):
            for e in cases(k, leaves):
                yield [e, 'label']

    return [Space('numerals', 'every expression with up to 2 operators over large, negative, signed and zero-padded numerals', odd_, run),
            Space('labels', 'every full expression tree with up to %d operators out of + - * / and small integer leaves '
                  '(labels, strings or numbers, on numbered or named nodes)' % (3 if q else 4), all_, run),
            Space('names', 'every expression with 1 or 2 distinct operators whose nodes are named by their symbols (leaves strings or numbers)', named, run)]
