"""hamiltonian."""
from mc import std

NAMES = ('hamiltonian',)


def spaces(tier):
    f = (5, 6, 8) if tier == 'quick' else (5, 6, 7, 8, 9)
    return std.directed(tier, NAMES, [{}], fam=f, big=False) + std.undirected(tier, NAMES, [{}], fam=f, big=False)
