"""C17: building samplers leaves the user's model untouched."""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.compile.ops import update_placeholder
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, ancestors
from aesara.tensor.random.type import RandomType

import aemcmc
from aemcmc import nuts
from aemcmc.rewriting import construct_ir_fgraph
from aemcmc.sample import sample_prior
from aemcmc.utils import ModelInfo

from aev.boot import THOROUGH
from aev.copies import frozen
from aev.env import Case, Claim
from aev.report import Check, Violation, real
from aev.model import nuts_stand_in
from aev.twice import Built, compare, same_states, values_case
from aev.zoo import ZOO, M

check = Check(
    "C17",
    "the user's model stays as it is",
    assumptions=[
        "real arithmetic for the values of the updates",
        "operations may take new generators from the random stream they are given",
    ],
    bounds="the models of aev/zoo.py and of this file; every operation alone, and all of them in two orders with samplers constructed before, between and after; the operations also with no names on the values, and no names at all",
    functions=["aemcmc.basic.construct_sampler", "aemcmc.rewriting.construct_ir_fgraph", "aemcmc.nuts.construct_sampler", "aemcmc.nuts.step", "aemcmc.sample.sample_prior", "aemcmc.utils.ModelInfo"],
)


def data_of(v):
    d = v.data if isinstance(v, Constant) else v.get_value(borrow=True)
    if isinstance(d, np.random.Generator):
        return repr(d.bit_generator.state)
    if isinstance(d, np.random.RandomState):
        return repr(d.get_state())
    if isinstance(d, np.ndarray):
        return (str(d.dtype), d.shape, d.tobytes())
    return repr(d)


class Snapshot:
    """Everything a user can see of the graphs of some variables."""

    def __init__(self, roots, srng, maps):
        self.roots = list(roots)
        self.srng = srng
        self.maps = [(what, m, list(m.items()) if isinstance(m, dict) else list(m)) for what, m in maps]
        self.vars, self.nodes = {}, {}
        for v in ancestors(self.roots):
            self.vars[v] = self.of_var(v)
            if v.owner is not None:
                n = v.owner
                self.nodes[n] = (n.op, list(n.inputs), list(n.outputs))
                for o in n.outputs:
                    self.vars[o] = self.of_var(o)
        self.before = list(srng.state_updates)

    @staticmethod
    def of_var(v):
        d = None
        if isinstance(v, (Constant, SharedVariable)):
            d = data_of(v)
        return dict(name=v.name, type=v.type, owner=v.owner, index=v.index if v.owner else None, value=d,
                    default_update=getattr(v, "default_update", None),
                    test_value=getattr(v.tag, "test_value", None))

    def changed(self):
        for v, old in self.vars.items():
            new = self.of_var(v)
            for k in old:
                if k == "default_update" and placeholder(v, new[k]) and (old[k] is None or placeholder(v, old[k])):
                    # aesara's mark of shared variables used inside Ops
                    continue
                if old[k] is not new[k] and (k in ("owner", "default_update") or not same(old[k], new[k])):
                    yield f"the {k.replace('_', ' ')} of {old['name'] or v} is {str(new[k])[:80]} instead of {str(old[k])[:80]}"
        for n, (op, ins, outs) in self.nodes.items():
            what = f"{outs[-1].name or outs[-1]}"
            if n.op is not op:
                yield f"the operation that computes {what} is {n.op} instead of {op}"
            if len(n.inputs) != len(ins) or any(a is not b for a, b in zip(n.inputs, ins)):
                yield f"the inputs of {what} are {n.inputs} instead of {ins}"
            if len(n.outputs) != len(outs) or any(a is not b for a, b in zip(n.outputs, outs)):
                yield f"the outputs of the node of {what} are others"
        for what, m, items in self.maps:
            now = list(m.items()) if isinstance(m, dict) else list(m)
            if len(now) != len(items) or any(
                x is not y for a, b in zip(now, items)
                for x, y in (zip(a, b) if isinstance(a, tuple) else [(a, b)])
            ):
                yield f"{what} is now {now} instead of {items}"
        now = self.srng.state_updates[: len(self.before)]
        if len(now) != len(self.before) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(now, self.before)):
            yield "the random stream lost or changed its generators"


def placeholder(v, u):
    return u is not None and u.owner is not None and u.owner.op == update_placeholder and u.owner.inputs[0] is v


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


class World:
    def __init__(self, make, res, nameless=None):
        self.m = m = make()
        self.res = res
        rvs = list(m.latents.values()) + list(m.obs.values())
        # what users compute from a model
        self.det = [at.exp(rv).sum() for rv in rvs] + [at.stack([rv.sum() for rv in rvs])]
        for k, d in enumerate(self.det):
            d.name = f"det{k}"
        self.roots = rvs + self.det + list(m.values.values())
        self.obs_map = {m.obs[n]: m.values[n] for n in m.obs}
        self.r2v = {**{rv: rv.type("at_" + n) for n, rv in m.latents.items()}, **self.obs_map}
        self.observed = list(self.obs_map)
        self.n = at.lscalar("n_samples")
        if nameless == "values":
            for v in [*m.values.values(), *self.r2v.values()]:
                v.name = None
        elif nameless == "all":
            for v in ancestors([*self.roots, *self.r2v.values(), self.n]):
                v.name = None

    def shot(self):
        return Snapshot(
            self.roots + list(self.r2v.values()), self.m.srng,
            [("the mapping of observed variables", self.obs_map), ("the mapping of variables", self.r2v), ("the list of observed variables", self.observed)])

    # ---- operations
    def ir(self):
        construct_ir_fgraph(self.obs_map)

    def sampler(self):
        with nuts_stand_in():
            aemcmc.construct_sampler(self.obs_map, self.m.srng)

    def real_sampler(self):
        aemcmc.construct_sampler(self.obs_map, self.m.srng)

    def nuts(self):
        start = {rv: v for rv, v in self.r2v.items() if rv not in self.obs_map}
        if all(rv.type.dtype.startswith("float") for rv in start):
            with nuts_stand_in():
                nuts.construct_sampler(self.m.srng, start, self.obs_map)

    def step(self):
        start = {rv: v for rv, v in self.r2v.items() if rv not in self.obs_map}
        if all(rv.type.dtype.startswith("float") for rv in start):
            with nuts_stand_in():
                nuts.step(self.m.srng, start, self.obs_map)

    def prior(self):
        m = self.m
        sample_prior(m.srng, self.n, *list(m.latents.values())[::-1], *m.obs.values())
        sample_prior(m.srng, 2, *self.det)

    def info(self):
        ModelInfo(tuple(self.observed), self.r2v, tuple(self.det), {})


OPS = ("ir", "sampler", "nuts", "step", "prior", "info")


def watched(w, op, history):
    """The operation, with everything compared before and after it."""
    s = w.shot()
    try:
        getattr(w, op)()
    except Exception as e:
        from aev.core import Unsupported

        if isinstance(e, Unsupported):
            raise
        if op in ("info",):
            raise
        real(op + " after " + (", ".join(history) or "nothing"), lambda: (_ for _ in ()).throw(e))
    w.res.claims += 1
    diffs = list(s.changed())
    if diffs:
        raise Violation(
            f"{op}{' after ' + ', '.join(history) if history else ''}: {diffs[0]}",
            {"claim": f"{op} leaves the model alone", "changes": diffs[:10]}, key=f"{op} leaves the model alone")
    w.res.proved += 1
    history.append(op)


def unchanged_case(name, m, roots, copies):
    outs = {f"now{k}": v for k, v in enumerate(roots)}
    outs.update({f"then{k}": v for k, v in enumerate(copies)})
    ins = {n: v for n, (v, _) in m.inputs.items()}
    dom = {n: d for n, (_, d) in m.inputs.items()}

    def spec(E):
        a = E.run(outputs=[f"now{k}" for k in range(len(roots))])
        b = E.run(outputs=[f"then{k}" for k in range(len(roots))])
        for k, v in enumerate(roots):
            x, y = a[f"now{k}"], b[f"then{k}"]
            yield Claim(f"{v.name}: same shape", x.shape == y.shape, kind="true")
            if x.shape == y.shape:
                for i in np.ndindex(*x.shape):
                    yield Claim(f"{v.name}{list(i)}: same value", x[i], y[i])

    return Case(name, ins, outs, dom, spec, by_state=True)


def build(name, make, with_real, values=True):
    def f(res):
        cases = []
        # a construction on a model nothing else was done with
        ref = Built(make(), res) if values else None
        for op in OPS + (("real_sampler",) if with_real else ()):
            w = World(make, res)
            watched(w, op, [])
            if THOROUGH and values:
                again(cases, name, w, res, ref, [op])
        orders = [("prior", "ir", "nuts", "sampler", "info", "step", "prior")]
        orders += [("sampler", "step", "sampler", "prior", "ir", "nuts", "info", "sampler")]
        for k, order in enumerate(orders):
            w = World(make, res)
            # functions of the variables may not have an encoding
            live = [v for v in w.roots[: len(w.m.latents) + len(w.m.obs)]]
            copies = frozen(live)
            history = []
            for op in order:
                watched(w, op, history)
            if values:
                again(cases, name, w, res, ref, history)
            cases.append(unchanged_case(f"{name}: model after {', '.join(history)}", w.m, live, copies))
        # names are neither required nor given
        for nameless in ("values", "all"):
            for op in OPS:
                if op != "info":
                    watched(World(make, res, nameless), op, [])
            w, history = World(make, res, nameless), []
            for op in ("sampler", "nuts", "prior", "sampler"):
                watched(w, op, history)
        res.witness += 1
        return cases

    return f


def again(cases, name, w, res, ref, history):
    """The sampler constructed now is that of an unused model."""
    first = ref
    b = Built(w.m, res)
    what = f"construction after {', '.join(history)}"
    compare(name, ref.sw.m, first, b, what)
    c = values_case(f"{name}: {what}", ref.sw.m, first, b)
    same_states(name, c, first, b, what)
    cases.append(c)
    res.claims += len(Built.SAME)
    res.proved += len(Built.SAME)


# ------------------------------------------------------------ models of this file
def entry(name, quick=True, **kw):
    def d(f):
        def make():
            m = M()
            f(m)
            return m.done()

        check.add(name, build(name, make, kw.get("with_real", False), kw.get("values", True)), quick)
        return f

    return d


@entry("bounds that depend on a latent", values=False)
def _(m):
    s = m.latent("s", m.srng.halfnormal(0.0, m.scalar("t")), ())
    u = m.latent("u", m.srng.uniform(-s, s), ())
    m.observe("Y", m.srng.normal(u, s), "real", ())


@entry("shared data and constants", with_real=True)
def _(m):
    w = aesara.shared(np.array([0.5, 2.0]), name="w")
    b = m.latent("b", m.srng.normal(w.sum() * 2.0, 1.5), ())
    m.observe("Y", m.srng.normal(b * w, at.as_tensor(np.array([1.0, 2.0]))), "real", (2,))


@entry("locations and scales written out")
def _(m):
    e = m.srng.normal(0.0, 1.0, size=(2,))
    b = m.latent("b", m.srng.normal(m.scalar("mu", "real"), m.scalar("sd"), size=(2,)), (2,))
    m.lat["e"] = e
    e.name = "e"
    m.shapes["e"] = (2,)
    x = b + 2.0 * e
    m.observe("Y", m.srng.normal(x[::-1], 1.0), "real", (2,))


for name, groups, make, quick, known in ZOO:
    check.add("zoo: " + name, build(name, make, THOROUGH), quick and bool(groups & {"mixed", "match"}))
