"""Which random states a compiled function consumes, for every state it may find.

The function that `aesara.function` really produces is walked over its generator
variables only.  A generator state is a pair of solver integers (stream,
position): every shared generator starts a stream of its own at an arbitrary
position, and a draw moves its generator on by an arbitrary positive amount.
Loops run an arbitrary number of times up to a bound.  The solver then decides
whether any two draws of any two calls can overlap."""
import contextlib

import aesara
import numpy as np
import z3
from aesara.compile.builders import OpFromGraph
from aesara.compile.mode import Mode
from aesara.compile.ops import DeepCopyOp, ViewOp
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant
from aesara.scan.op import Scan
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType

from . import solve
from .core import Unsupported
from .report import Violation

LOOP = 3
MODE = Mode(linker="py", optimizer="fast_run")


def is_rng(v):
    return isinstance(v.type, RandomType)


class Use:
    def __init__(self, label, call, node, sid, start, end, guard):
        self.label, self.call, self.node = label, call, node
        self.sid, self.start, self.end, self.guard = sid, start, end, guard


class Streams:
    def __init__(self, redraw=False):
        self.k = 0
        self.redraw = redraw  # drawing again from one state takes the same amount
        self.state = {}  # container id -> (stream, position)
        self.keep = []
        self.cons = []
        self.uses = []
        self.loops = []

    def int(self, name, lo):
        self.k += 1
        v = z3.Int(f"{name}.{self.k}")
        self.cons.append(v >= lo)
        return v

    def of(self, container):
        i = id(container)
        if i not in self.state:
            self.keep.append(container)
            self.state[i] = (z3.IntVal(len(self.state)), self.int("pos", 0))
        return self.state[i]

    # ---- one call of a compiled function
    def call(self, fn, label):
        fg = fn.maker.fgraph
        env = {}
        exp = fn.maker.expanded_inputs
        if len(exp) != len(fg.inputs):
            raise Unsupported("inputs of the compiled function")
        for v, store in zip(fg.inputs, fn.input_storage):
            if is_rng(v):
                env[v] = self.of(store)
        self.walk(fg.toposort(), env, z3.BoolVal(True), label)
        ups = [i for i, e in enumerate(exp) if e.update is not None]
        outs = fg.outputs[len(fg.outputs) - len(ups):]
        for i, o in zip(ups, outs):
            if is_rng(o):
                self.state[id(fn.input_storage[i])] = self.get(env, o)

    def get(self, env, v):
        if v in env:
            return env[v]
        if isinstance(v, Constant):
            raise Unsupported("a generator constant")
        raise Unsupported(f"generator {v} of unknown origin")

    def draw(self, node, env, guard, label):
        rng = node.inputs[0]
        sid, pos = self.get(env, rng)
        if self.redraw:
            amount = z3.Function(f"amount_{node.op.name}", *[z3.IntSort()] * 3)(sid, pos)
            self.cons.append(amount >= 1)
        else:
            amount = self.int("amount", 1)
        end = pos + amount
        self.uses.append(Use(str(node.op.name), label, node, sid, pos, end, guard))
        env[node.outputs[0]] = (sid, end)

    def walk(self, nodes, env, guard, label):
        for node in nodes:
            ins = [v for v in node.inputs if is_rng(v)]
            outs = [v for v in node.outputs if is_rng(v)]
            if isinstance(node.op, Scan):
                # loops may draw from generators that are their own constants
                self.scan(node, env, guard, label)
            elif not ins and not outs:
                continue
            elif isinstance(node.op, RandomVariable):
                self.draw(node, env, guard, label)
            elif isinstance(node.op, (DeepCopyOp, ViewOp)):
                env[outs[0]] = self.get(env, ins[0])
            elif isinstance(node.op, OpFromGraph):
                fg = node.op.fgraph
                inner = {a: self.get(env, b) for a, b in zip(fg.inputs, node.inputs) if is_rng(a)}
                self.walk(fg.toposort(), inner, guard, label)
                for a, b in zip(node.outputs, fg.outputs):
                    if is_rng(a):
                        env[a] = self.get(inner, b)
            else:
                raise Unsupported(f"{node.op} on generators")

    def scan(self, node, env, guard, label):
        op = node.op
        ii, io = op.inner_inputs, op.inner_outputs
        oi, oo = node.inputs, node.outputs
        steps = oi[0]
        const = isinstance(steps, Constant)
        sh_in = [(a, b) for a, b in zip(op.inner_shared(ii), op.outer_shared(oi)) if is_rng(a)]
        non = [(a, b) for a, b in zip(op.inner_non_seqs(ii), op.outer_non_seqs(oi)) if is_rng(a)]
        sh_out = [(a, b) for a, b in zip(op.inner_shared_outs(io), op.outer_shared_outs(oo)) if is_rng(b)]
        others = [v for v in ii if is_rng(v) and v not in [a for a, _ in sh_in + non]]
        if others or len(sh_in) != len(sh_out):
            raise Unsupported("generators in a loop")
        if not sh_in and not non and not any(isinstance(n.op, (RandomVariable, Scan)) for n in op.fgraph.toposort()):
            return
        bound = LOOP
        if const:
            bound = min(LOOP, int(steps.data))
            T = z3.IntVal(bound)
        else:
            T = self.int("iterations", 0)
            self.cons.append(T <= bound)
        self.loops.append(bound)
        cur = [self.get(env, b) for _, b in sh_in]
        fixed = [(a, self.get(env, b)) for a, b in non]
        for t in range(bound):
            go = z3.And(guard, T > t)
            inner = dict(fixed)
            inner.update({a: s for (a, _), s in zip(sh_in, cur)})
            self.walk(op.fgraph.toposort(), inner, go, label)
            new = [self.get(inner, a) for a, _ in sh_out]
            cur = [(z3.If(T > t, n[0], c[0]), z3.If(T > t, n[1], c[1])) for n, c in zip(new, cur)]
        for (_, b), s in zip(sh_out, cur):
            env[b] = s

    # ---- verdict
    def overlap(self, a, b):
        return z3.And(a.guard, b.guard, a.sid == b.sid, a.start < b.end, b.start < a.end)

    def decide(self, res, timeout_ms=60000, cross=False):
        """None, or a pair of uses that can share a state.

        cross: only uses of different calls."""
        pairs = [(a, b) for i, a in enumerate(self.uses) for b in self.uses[:i] if not cross or a.call != b.call]
        res.claims += len(pairs)
        v, m = solve.check(list(self.cons) + [z3.And(*[u.guard for u in self.uses])], timeout_ms, order=("smt",))
        if v == "sat":
            res.witness += 1
        else:
            raise Unsupported(f"no state reaches every draw ({v})")
        bad = [self.overlap(a, b) for a, b in pairs]
        if not bad:
            return None
        v, m = solve.check(list(self.cons) + [z3.Or(*bad)], timeout_ms, want_model=True, order=("smt",))
        if v == "unsat":
            res.proved += len(pairs)
            return None
        if v == "unknown":
            raise Unsupported("solver gave up on the generator states")
        for (a, b), f in zip(pairs, bad):
            if z3.is_true(m.eval(f, model_completion=True)):
                return a, b
        raise Unsupported("inconsistent model")


# ------------------------------------------------------------------- replay
_PERFORM = RandomVariable.perform
_LOG = [None]


def _traced(self, node, inputs, outputs):
    log = _LOG[0]
    if log is None:
        return _PERFORM(self, node, inputs, outputs)
    before = dict(inputs[0].bit_generator.state["state"])
    _PERFORM(self, node, inputs, outputs)
    after = dict(outputs[0][0].bit_generator.state["state"])
    log.append((log.call, self.name, before, after))


class Log(list):
    call = 0


@contextlib.contextmanager
def traced(log=None):
    """Functions have to be compiled inside, too: a thunk keeps the method."""
    was = RandomVariable.perform
    RandomVariable.perform = _traced
    _LOG[0] = log
    try:
        yield
    finally:
        RandomVariable.perform = was
        _LOG[0] = None


def compiled(*a, **kw):
    with traced():
        return aesara.function(*a, on_unused_input="ignore", mode=MODE, **kw)


def real_calls(calls, cap=20000):
    """Run compiled functions for real and place every draw in its stream.

    calls: [(function, args)].  Returns [(call, op name, stream, start, end)]."""
    stores = {}
    for fn, _ in calls:
        for s in fn.input_storage:
            v = s.storage[0]
            if isinstance(v, np.random.Generator):
                stores[id(s)] = s
    roots = [dict(s.storage[0].bit_generator.state["state"]) for s in stores.values()]
    log = Log()
    with traced(log):
        for i, (fn, args) in enumerate(calls):
            log.call = i
            fn(*args)
    tabs = []
    for r in roots:
        bg = np.random.PCG64(0)
        st = bg.state
        st["state"] = dict(r)
        bg.state = st
        tab = {}
        for k in range(cap):
            tab[bg.state["state"]["state"]] = k
            bg.advance(1)
        tabs.append((r["inc"], tab))
    out = []
    for call, name, b, a in log:
        for j, (inc, tab) in enumerate(tabs):
            if inc == b["inc"] and b["state"] in tab and a["state"] in tab:
                out.append((call, name, j, tab[b["state"]], tab[a["state"]]))
                break
    return out


def real_overlap(calls, cross=False):
    us = real_calls(calls)
    for i, a in enumerate(us):
        for b in us[:i]:
            if cross and a[0] == b[0]:
                continue
            if a[2] == b[2] and a[3] < b[4] and b[3] < a[4]:
                return b, a
    return None


def check_history(res, name, calls, what, cross=False):
    """calls: [(label, function, args)], one after another."""
    s = Streams(redraw=cross)
    for label, fn, _ in calls:
        s.call(fn, label)
    if not s.uses:
        res.claims += 1
        res.proved += 1
        return s
    hit = s.decide(res, cross=cross)
    if hit is None:
        return s
    a, b = hit
    rep = None
    for tries in range(3):
        rep = real_overlap([(fn, args) for _, fn, args in calls], cross)
        if rep:
            break
    text = f"{what}: the draw '{a.label}' of {a.call} can use the random state of the draw '{b.label}' of {b.call}"
    if rep is None:
        res.errors.append(f"{name}: {text}; not reproduced by running the functions")
        return s
    raise Violation(
        f"{text} (seen: '{rep[0][1]}' of call {rep[0][0] + 1} used steps {rep[0][3]}..{rep[0][4]} of a generator, "
        f"'{rep[1][1]}' of call {rep[1][0] + 1} steps {rep[1][3]}..{rep[1][4]})",
        {"claim": what, "calls": [c[0] for c in calls], "seen": [list(x) for x in rep]},
        key=what)
