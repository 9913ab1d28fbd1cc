"""Depth-first search()."""
from mc import std

NAMES = ('dfs_search', 'dfs_pq')


def spaces(tier):
    return std.directed(tier, NAMES, [{}]) + std.undirected(tier, NAMES, [{}])
