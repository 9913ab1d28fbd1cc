"""page_rank."""
from mc import std
from mc import graphs as G

NAMES = ('page_rank',)


def spaces(tier):
    return std.directed(tier, NAMES, [{}])
