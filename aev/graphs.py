"""Graph helpers that never touch the original graph."""
from aesara.compile.builders import OpFromGraph
from aesara.graph.basic import clone_replace, io_toposort
from aesara.tensor.elemwise import Elemwise
from aesara.tensor.var import TensorConstant


def cut(var, replace):
    """`var` with the given variables replaced by others (a new graph)."""
    if var in replace:
        return replace[var]
    return clone_replace([var], replace=dict(replace))[0]


def inline(outs):
    """The same expressions with every wrapped graph (OpFromGraph) written out."""
    sub = {}
    for node in io_toposort([], outs):
        new_in = [sub.get(i, i) for i in node.inputs]
        if isinstance(node.op, OpFromGraph) and not isinstance(node.op, Elemwise):
            inner = inline(list(node.op.inner_outputs))
            rep = dict(zip(node.op.inner_inputs, new_in))
            got = iter(clone_replace([v for v in inner if v not in rep], replace=rep))
            inner = [rep[v] if v in rep else next(got) for v in inner]
            for o, v in zip(node.outputs, inner):
                sub[o] = v
        elif any(a is not b for a, b in zip(new_in, node.inputs)):
            n2 = node.clone_with_new_inputs(new_in, strict=False)
            for o, v in zip(node.outputs, n2.outputs):
                v.name = o.name
                sub[o] = v
    return [sub.get(o, o) for o in outs]


def merge(outs):
    """Equal operations on equal inputs (random states included) are shared."""
    sub, table, consts = {}, {}, {}

    def leaf(v):
        if isinstance(v, TensorConstant):
            k = (v.type.dtype, v.data.shape, v.data.tobytes())
            return consts.setdefault(k, v)
        return v

    for node in io_toposort([], outs):
        new_in = [sub.get(i) or leaf(i) for i in node.inputs]
        key = (node.op, tuple(new_in))
        n2 = table.get(key)
        if n2 is None:
            if any(a is not b for a, b in zip(new_in, node.inputs)):
                n2 = node.clone_with_new_inputs(new_in, strict=False)
                for o, v in zip(node.outputs, n2.outputs):
                    v.name = o.name
            else:
                n2 = node
            table[key] = n2
        for o, v in zip(node.outputs, n2.outputs):
            sub[o] = v
    return [sub.get(o, o) for o in outs]


def inline_merge(outs):
    """Wrapped graphs written out and equal computations shared, as the compiler does."""
    return merge(inline(outs))
