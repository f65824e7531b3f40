"""Path exploration: run a piece of Python once per feasible outcome of the
symbolic conditions it branches on (used where the encoding must pick a branch)."""
import z3

from . import core
from .solve import STATS, check, cone, quick_unsat, tvars


class Forker:
    """decide(cond) -> bool; both outcomes are explored if both are feasible."""

    def __init__(self, ctx, prefix, timeout_ms=4000):
        self.ctx = ctx
        self.prefix = prefix
        self.taken = []  # outcome of every real fork on this path
        self.memo = {}
        self.pc = []
        self.timeout = timeout_ms

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.memo:
            return self.memo[k][0]
        if quick_unsat(self.ctx, z3.Not(c), self.timeout):
            r = True
        elif quick_unsat(self.ctx, c, self.timeout):
            r = False
        else:
            i = len(self.taken)
            r = self.prefix[i] if i < len(self.prefix) else True
            self.taken.append(r)
            self.pc.append(c if r else z3.Not(c))
            self.ctx.assume.append(self.pc[-1])
            # cached sign facts stay valid: assumptions only grow
        self.memo[k] = (r, c)
        return r


def explore(run, max_paths=4096):
    """run(prefix) -> list of taken decisions; yields nothing, drives run()."""
    todo = [[]]
    n = 0
    while todo:
        prefix = todo.pop()
        taken = run(prefix)
        n += 1
        if n > max_paths:
            raise core.Unsupported(f"more than {max_paths} paths")
        for i in range(len(prefix), len(taken)):
            todo.append(taken[:i] + [not taken[i]])
    return n
