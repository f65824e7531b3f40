"""C19: the stages of a sampler list every update once, in scan order."""
import z3
import aesara.tensor as at
from aesara.tensor.random import RandomStream

from aemcmc.types import Sampler, SamplingStep

from aev.boot import THOROUGH
from aev.env import Claim
from aev.model import Sweep, View, rest_of, structure
from aev.names import Explorer
from aev.report import Check, Violation, real
from aev.zoo import ZOO

N = 6 if THOROUGH else 5

check = Check(
    "C19",
    "stages of a sampler",
    assumptions=[
        "kernels are different exactly when they are different objects, as sampling steps are",
        "the NUTS kernel is replaced by a stand-in while a sampler is built (see C10)",
        "whether an update reads another's new value is found at generic points of the compiled updates and by the solver",
        "two conjugate updates of the same family have one kernel (the same Op), so they share a stage, which stands where the first one is",
    ],
    bounds=f"every assignment of up to {N} updates to kernels, as outputs of one node or of several; the models of aev/zoo.py in the groups mixed, scan and match",
    functions=["aemcmc.types.Sampler.__post_init__", "aemcmc.basic.construct_sampler", "aemcmc.nuts.construct_sampler"],
)


def same_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def judge(steps, kernel_of, sampler):
    """First thing wrong with the stages; kernel_of gives the kernel of an update."""
    rvs = list(steps)
    st = sampler.stages
    listed = [rv for s in st.values() for rv in s]
    if sorted(map(id, listed)) != sorted(map(id, rvs)):
        return "the stages do not list every updated variable once"
    kernels = list(st)
    for k, s in st.items():
        if not s:
            return "a stage without variables"
        for rv in s:
            if kernel_of(rv) is not k:
                return "a variable in the stage of another kernel"
    at_ = {id(rv): i for i, rv in enumerate(rvs)}
    for s in st.values():
        idx = [at_[id(rv)] for rv in s]
        if idx != sorted(idx):
            return "variables of a stage out of order"
    first = [min(at_[id(rv)] for rv in s) for s in st.values()]
    if first != sorted(first):
        return "stages out of order"
    if len(set(map(id, kernels))) != len(kernels):
        return "a kernel with two stages"
    return None


class Lazy:
    """Stands for an update: its kernel is decided when somebody looks."""

    def __init__(self, world, i):
        self.world, self.i = world, i
        self.owner = self
        self.outputs = [self]
        self.inputs = []

    @property
    def op(self):
        return self.world.kernel(self.i)


class World:
    def __init__(self, ex, n):
        self.ex = ex
        self.k = [z3.Int(f"kernel_{i}") for i in range(n)]
        self.found = {}  # index of the update -> kernel object
        for k in self.k:
            ex.solver.add(k >= 0)

    def kernel(self, i):
        if i not in self.found:
            for j, op in list(self.found.items()):
                if self.ex.decide(self.k[i] == self.k[j]):
                    self.found[i] = op
                    break
            else:
                x = at.scalar()
                self.found[i] = SamplingStep([x], [x + 1.0])
        return self.found[i]


def concrete(assign, joint):
    """A real sampler with this assignment of kernels: what is wrong, or None."""
    srng = RandomStream(0)
    n = len(assign)
    rvs = [srng.normal(float(i), 1.0) for i in range(n)]
    x, outs = at.scalar(), {}
    ops = {}
    for k in assign:
        if k not in ops:
            m = assign.count(k)
            ops[k] = SamplingStep([x], [x + float(i) for i in range(m if joint else 1)])
    nodes = {k: ops[k](at.scalar(), return_list=True) for k in ops} if joint else None
    count = {}
    for rv, k in zip(rvs, assign):
        c = count[k] = count.get(k, -1) + 1
        outs[rv] = nodes[k][c] if joint else ops[k](at.scalar())
    params = {ops[k]: (at.scalar(), at.vector()) for k in list(ops)[::2]}
    ups = {at.scalar(): at.scalar()}
    given = dict(outs), dict(ups), dict(params)
    s = Sampler(outs, ups, params)
    bad = judge(given[0], lambda rv: given[0][rv].owner.op, s)
    if bad:
        return bad
    for lab, got, want in (("sample_steps", s.sample_steps, given[0]), ("updates", s.updates, given[1]), ("parameters", s.parameters, given[2])):
        if not (same_list(list(got), list(want)) and same_list(list(got.values()), list(want.values()))):
            return f"{lab} are not the ones given"
    if any(k not in s.stages for k in s.parameters):
        return "parameters of a kernel that has no stage"
    t = Sampler(dict(outs))
    if t.updates or t.parameters:
        return "a sampler without updates or parameters has some"
    u = Sampler({})
    shared = any(a is not None and a is b for a, b in ((u.updates, t.updates), (u.parameters, t.parameters)))
    if shared or u.stages:
        return "samplers share their updates, parameters or stages"
    return judge(given[0], lambda rv: given[0][rv].owner.op, t)


def assignments(n):
    def build(res):
        ex = Explorer()
        srng = RandomStream(0)
        rvs = [srng.normal(float(i), 1.0) for i in range(n)]

        def path():
            w = World(ex, n)
            steps = {rv: Lazy(w, i) for i, rv in enumerate(rvs)}
            index = {id(rv): i for i, rv in enumerate(rvs)}
            s = real("Sampler", Sampler, dict(steps))
            bad = judge(steps, lambda rv: w.kernel(index[id(rv)]), s)
            res.claims += 1
            if bad is None:
                # the stages say which kernels are the same, whatever they are
                at_ = {id(rv): j for j, st in enumerate(s.stages.values()) for rv in st}
                g = [(w.k[i] == w.k[j]) == z3.BoolVal(at_[id(rvs[i])] == at_[id(rvs[j])])
                     for i in range(n) for j in range(i)]
                m = ex.entails(z3.And(*g) if g else z3.BoolVal(True))
                if m is not None:
                    bad = "stages and kernels differ"
            else:
                ex.ask()
                m = ex.solver.model()
            if bad is None:
                ex.ask()
                m = ex.solver.model()
            assign = [m.eval(k, model_completion=True).as_long() for k in w.k]
            for joint in (False, True):
                msg = real("Sampler", concrete, assign, joint)
                if msg:
                    raise Violation(f"{msg}, for updates by the kernels {assign}", {"claim": msg, "kernels": assign}, key=msg)
            if bad:
                res.errors.append(f"{bad}: no concrete replay with the kernels {assign}")
                return False
            res.proved += 1

        res.paths = ex.run(path)
        res.witness += 1
        return None

    return build


for n in range(N + 1):
    check.add(f"{n} updates", assignments(n))


def sampler_case(name, make):
    def build(res):
        m = make()
        sw = Sweep(m, res)
        s = sw.sampler
        back = {rv: n for n, rv in m.latents.items()}

        def spec(E):
            v = View(E, sw)
            bad = judge(s.sample_steps, lambda rv: s.sample_steps[rv].owner.op, s)
            yield Claim("stages" if bad is None else bad, bad is None, kind="true")
            if bad:
                return
            yield Claim("every update has an entry", sorted(sw.order) == sorted(m.latents), kind="true")
            yield Claim("parameters belong to kernels with a stage", all(k in s.stages for k in s.parameters or {}), kind="true")
            nuts = sw.nuts_names()
            with_params = {back[rv] for k in s.parameters or {} for rv in s.stages.get(k, ())}
            yield Claim("the NUTS kernel has parameters, others have none", with_params == set(nuts), kind="true")
            blocks = ([nuts] if nuts else []) + [[n] for n in sw.order if n not in nuts]
            pos = {n: i for i, n in enumerate(sw.order)}
            for block in blocks:
                n0 = block[0]
                base = v.step(n0)
                used = structure(v, ("rest", n0), lambda: rest_of(v, n0, block, base))
                mine = [back[rv] for rv in s.sample_steps if s.sample_steps[rv].owner is s.sample_steps[m.latents[n0]].owner]
                for k, (new, old) in used.items():
                    if k in mine:
                        continue  # one application of a kernel updates both
                    lead, last = min(pos[n] for n in block), max(pos[n] for n in block)
                    if new:
                        yield Claim(f"{k} is listed before {'+'.join(block)}, which uses its new value", pos[k] < lead, kind="true")
                    elif old:
                        yield Claim(f"{k} is listed after {'+'.join(block)}, which uses its old value", pos[k] > last, kind="true")

        return sw.case(name, spec)

    return build


for name, groups, make, quick, known in ZOO:
    check.add("zoo: " + name, sampler_case(name, make), quick and bool(groups & {"mixed", "scan", "match"}))
