"""Breadth-first search: BFS, UnweightedSPT and bfs() give shortest hop paths."""
from mc import std

NAMES = ('bfs_search', 'spt_search', 'bfs')


def spaces(tier):
    return std.directed(tier, NAMES, [{}]) + std.undirected(tier, NAMES, [{}])
