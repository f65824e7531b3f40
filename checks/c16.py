"""C16: sampler construction does not depend on hash or memory order."""
import ast
import collections
import contextlib
import sys

from aev import schedule
from aev.boot import THOROUGH

# before the code under test and what it uses are imported
MODULES = ["aemcmc", "aeppl", "aehmc", "kanren", "etuples", "unification", "cons", "aesara.scan"]
FINDER = schedule.install(MODULES)

import numpy as np
import z3

from aev.env import Claim
from aev.model import KCALLS
from aev.names import Explorer
from aev.report import Check
from aev.twice import Built, compare, equal_graphs, same_states, values_case
from aev.zoo import ZOO, M

import aemcmc  # noqa: F401

MAX = 400 if THOROUGH else 24
WIDTH = 4

check = Check(
    "C16",
    "independence of hash and memory order",
    assumptions=[
        "real arithmetic for the values of the updates",
        "memory addresses and hashes of different objects compare in any order that is an order; sets are iterated in any order",
        "names and numbers of variables (auto_name) grow with creation",
    ],
    bounds=f"the models of aev/zoo.py and of this file; the orders of sets of up to {WIDTH} elements exhaustively (longer ones: reversed, rotated, both), up to {MAX} combinations of orders per model, those that differ from the usual one earliest in the construction first; two constructions of the same model, one after the other",
    functions=["aemcmc.basic.construct_sampler and everything it calls in " + ", ".join(MODULES)],
)


class Schedules(Explorer):
    width = WIDTH

    def run(self, f):
        todo, n = collections.deque([[]]), 0
        self.dropped = 0
        while todo:
            self.prefix = todo.popleft()
            self.taken, self.pc, self.memo = [], [], {}
            self.ranks, self.strings, self.known, self.sets = {}, False, set(), 0
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)
            f()
            n += 1
            if n >= MAX:
                self.dropped = len(todo)
                break
            for i in range(len(self.prefix), len(self.taken)):
                todo.append(self.taken[:i] + [not self.taken[i]])
        return n


@contextlib.contextmanager
def scheduled(ex):
    schedule.ACTIVE[0] = ex
    try:
        yield
    finally:
        schedule.ACTIVE[0] = None


def positions_case(name, m, a):
    """Where each variable lives in the joint state."""
    sw = a.sw
    topo = [n for n in a.order if n in a.nuts]
    size = {n: int(np.prod(sw.shape[n])) for n in topo}

    def spec(E):
        at = 0
        for n in topo:
            del KCALLS[:]
            base = E.run(["step_" + n])["step_" + n]
            other = {}
            for j in range(sw.qsize):
                q = E.inp["probe0"].copy()
                q[j] = E.real("moved") if E.symbolic else float(q[j]) + 0.75
                other[j] = E.run(["step_" + n], inp={"probe0": q})["step_" + n]
            for j in range(sw.qsize):
                same = all(E.same(base[i], other[j][i]) for i in np.ndindex(*base.shape))
                mine = at <= j < at + size[n]
                yield Claim(f"{n} {'takes' if mine else 'leaves'} position {j} of the joint state", same != mine, kind="true")
            at += size[n]
        del KCALLS[:]

    return sw.case(name + " positions", spec)


def build(name, make, positions=True):
    def f(res):
        m = make()
        first = Built(m, res)
        cases, ex = [], Schedules()
        different = []

        def path():
            b = Built(m, res, lambda: scheduled(ex))
            compare(name, m, first, b, f"construction {ex.n + 2} of the same model")
            if ex.n == 0 or not any(equal_graphs(x, b) for x in [first] + different):
                different.append(b)
            ex.n += 1
            ex.total += ex.sets
            res.claims += len(Built.SAME)
            res.proved += len(Built.SAME)

        ex.n = ex.total = 0
        res.paths = ex.run(path)
        res.witness += 1
        res.bounds = f"{res.paths} schedules, {ex.total} set iterations, {ex.dropped} known alternatives left out"
        for k, b in enumerate(different[:4]):
            c = values_case(f"{name} values {k}", m, first, b)
            same_states(name, c, first, b, f"another construction ({k})")
            cases.append(c)
        used = [r for r in first.sw.made if r.get("applied")]
        if positions and len(first.nuts) > 1 and len(used) == 1 and "probe" in first.sw.made[0]:
            k = first.sw.made[0]["probe"]
            cases.append(positions_case(name, m, first))
        return cases

    return f


# ------------------------------------------------------------ models of this file
def entry(name, quick=True):
    def d(f):
        def make():
            m = M()
            f(m)
            return m.done()

        check.add(name, build(name, make), quick)
        return f

    return d


@entry("five unrelated latents")
def _(m):
    vs = []
    for n in ("d", "a", "e", "c", "b"):
        vs.append(m.latent(n, m.srng.normal(0.0, m.scalar("s" + n)), ()))
    m.observe("Y", m.srng.normal(sum(vs), 1.0), "real", ())


@entry("vectors and scalars")
def _(m):
    b = m.latent("b", m.srng.normal(m.scalar("mb", "real"), 1.0, size=(2,)), (2,))
    s = m.latent("s", m.srng.halfnormal(0.0, m.scalar("ms")), ())
    a = m.latent("a", m.srng.normal(b.sum(), 1.0), ())
    m.observe("Y", m.srng.normal(a + b[0], s), "real", ())


@entry("conjugate and joint updates")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("u"), m.scalar("v")), ())
    z = m.latent("z", m.srng.normal(0.0, m.scalar("sz")), ())
    r = m.latent("r", m.srng.gamma(m.scalar("k"), m.scalar("t")), ())
    x = m.latent("x", m.srng.normal(z, 1.0), ())
    m.observe("Y", m.srng.binomial(m.vec("n", 2, "int", lo=0, plus="y"), p, size=(2,)), "int", (2,))
    m.observe("C", m.srng.poisson(r), "int", ())
    m.observe("W", m.srng.normal(x, 1.0), "real", ())


@entry("four conjugate pairs")
def _(m):
    for k in range(4):
        r = m.latent(f"r{k}", m.srng.gamma(m.scalar(f"k{k}"), m.scalar(f"t{k}")), ())
        m.observe(f"C{k}", m.srng.poisson(r), "int", ())


# --------------------------------------------------------------- the machinery
@check.case("every order of a set is explored")
def _(res):
    """Vacuity control: code that does depend on the order is found out."""
    from aesara.tensor import scalar

    src = {
        "list(s)": 6, "[*s]": 6, "[x for x in s]": 6, "sorted(l, key=id)": 6, "tuple(sorted(l, key=lambda v: hash(v)))": 6,
        "[s.pop(), s.pop()]": 6, "max(l, key=id)": 3, "next(iter(s))": 3, "sorted(s, key=str)": 1, "l": 1,
        "[x for x in l if id(x) % 2]": 8, "list({x: 0 for x in l})": 1, "sorted(frozenset(l), key=lambda v: 0)": 6,
    }
    for e, n in src.items():
        tree = schedule.Rewriter().visit(ast.parse(f"lambda s, l: {e}", mode="eval"))
        f = eval(compile(ast.fix_missing_locations(tree), "control", "eval"))
        vs = [scalar(c) for c in "abc"]
        ex, seen = Schedules(), set()

        def path():
            with scheduled(ex):
                r = f(set(vs), vs)
            seen.add(str(r))

        ex.run(path)
        res.claims += 1
        if len(seen) != n:
            res.errors.append(f"{e}: {len(seen)} outcomes explored, {n} exist")
            return None
        res.proved += 1
        res.witness += 1
    missing = [p for p in sys.modules if p.split(".")[0] == "aemcmc" and p not in FINDER.loaded]
    if missing:
        res.errors.append(f"not instrumented: {missing}")
    return None


for name, groups, make, quick, known in ZOO:
    check.add("zoo: " + name, build(name, make), quick and bool(groups & {"mixed", "match"}))
