"""Degrees and diameter."""
from mc import std

NAMES = ('degrees', 'inout', 'diameter')


def spaces(tier):
    return std.directed(tier, NAMES[:2], [{}]) + std.undirected(tier, NAMES, [{}])
