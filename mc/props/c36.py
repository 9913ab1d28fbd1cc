"""Answers do not depend on what the nodes are called or in which order they were added."""
import itertools

from mc import algos as A
from mc import graphs as G
from mc import rich, std
from mc.core import Space

NAMES = tuple(A.ALGOS)


def permuted(specs):
    for s in specs:
        for no in itertools.permutations(range(s['n'])):
            t = dict(s)
            t['no'] = list(no)
            yield t


def spaces(tier):
    q = tier == 'quick'
    return [std.S('names', 'every algorithm and argument choice on every small graph under the node-name schemes %s '
                  '(small, large, negative and fractional numbers, strings, digit strings, mixtures, tuples, falsy objects, strings with spaces at their ends, user-defined '
                  'hashable objects equal but never identical)' % (std.ALLNAMES,),
                  lambda: G.with_names((s for s in rich.small(tier) if s['n'] <= (3 if q else 4)), std.ALLNAMES), NAMES),
            std.S('insertion', 'every algorithm on every 3-node graph under every node insertion order and with '
                  'nodes created by add_edge',
                  lambda: itertools.chain(permuted(s for s in rich.small(tier) if s['n'] == 3),
                                          G.with_names((s for s in rich.small(tier)), ('int', 'mix', 'fal', 'tup', 'odd'), (1,))), NAMES),
            std.S('families', 'named families under 8 schemes',
                  lambda: G.with_names((rich.dress(s, 1) for d in (True, False)
                                        for s in G.families(d, [{}], (5,) if q else (5, 6, 7))),
                                       ('big', 'neg', 'tok', 'mix', 'rev', 'fal', 'tup', 'odd')), NAMES)]
