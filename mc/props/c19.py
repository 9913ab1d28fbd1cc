"""max_flow_preflowpush (FIFO, shortest augmenting path and highest label)."""
from mc.props import c18

NAMES = ('push_fifo', 'push_sap', 'push_high')


def spaces(tier):
    return c18.flow_spaces(tier, NAMES)
