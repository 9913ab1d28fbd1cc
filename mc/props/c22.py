"""Network simplex and min_cost_flow."""
from mc.props import c21

NAMES = ('simplex', 'mincost')


def spaces(tier):
    return c21.mcf_spaces(tier, NAMES, 20.0)
