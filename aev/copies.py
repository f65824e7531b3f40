"""Frozen copies of graphs that the code under test goes on to change."""
from aesara.graph.basic import Constant, clone_get_equiv, io_toposort
from aesara.tensor.type import TensorType


def frozen(vs):
    """Copies of the variables' graphs, down to the same inputs and generators."""
    memo = clone_get_equiv([], [v for v in vs if v.owner is not None], copy_inputs=False, copy_orphans=False)
    return [memo[v] if v.owner is not None else v for v in vs]


def between(outs):
    """Every computed tensor below `outs`, in order."""
    r = []
    for node in io_toposort([], list(outs)):
        for o in node.outputs:
            if isinstance(o.type, TensorType):
                r.append(o)
    return r
