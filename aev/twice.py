"""Two constructions of a sampler for one model: are they the same?"""
import contextlib

import numpy as np
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import equal_computations, graph_inputs
from aesara.tensor.random.type import RandomType

from .core import Ctx
from .env import Case, Claim, Dom, SymEnv
from .density import SUPPORT
from .model import KCALLS, Sweep, View, cut_below
from .report import Violation


class Built:
    """One construction and what identifies its parts."""

    def __init__(self, m, res, around=contextlib.nullcontext):
        seen = len(m.srng.state_updates)
        with around():
            self.sw = Sweep(m, res, draws="many")
        sw = self.sw
        self.rngs = {}
        for r, _ in m.srng.state_updates[seen:]:
            self.rngs.setdefault(r, f"new{len(self.rngs)}")
        vs = list(sw.sampler.sample_steps.values()) + list(sw.sampler.updates.values())
        for v in graph_inputs(vs):
            if isinstance(v, SharedVariable) and isinstance(v.type, RandomType) and v not in self.rngs:
                old = [k for k, (r, _) in enumerate(m.srng.state_updates[:seen]) if r is v]
                self.rngs[v] = f"old{old[0]}" if old else f"own{len(self.rngs)}"
        back = {rv: n for n, rv in m.latents.items()}
        self.order = [back[rv] for rv in sw.sampler.sample_steps]
        self.init_order = [back[rv] for rv in sw.init]
        self.stages = [[back[rv] for rv in rvs] for rvs in sw.sampler.stages.values()]
        kernels = list(sw.sampler.stages)
        self.params = [
            (kernels.index(k) if k in kernels else -1, [(p.type.dtype, p.type.ndim) for p in ps])
            for k, ps in (sw.sampler.parameters or {}).items()
        ]
        self.ups = list(sw.sampler.updates.items())
        # the states do not depend on the values of the updated variables
        rep = {sw.sampler.sample_steps[rv]: sw.U[n] for n, rv in m.latents.items() if n not in sw.nuts_names()}
        self.states = {self.rngs[k]: cut_below(v, rep) for k, v in self.ups if k in self.rngs}
        self.up_keys = sorted(self.rngs.get(k, "another variable") for k, _ in self.ups)
        self.rng_list = sorted(self.rngs.values())
        self.leaves = (
            list(sw.I.values()) + list(sw.U.values()) + list(sw.params)
            + [r[f] for r in sw.made for f in ("probe",) if f in r]
        )
        self.n_kernels = [r.get("applied", 0) for r in sw.made]
        self.nuts = sw.nuts_names()

    SAME = ("order", "init_order", "stages", "params", "up_keys", "rng_list", "n_kernels", "nuts")

    def graphs(self):
        by = {self.rngs.get(k): v for k, v in self.ups}
        return [self.sw.cut[n] for n in self.sw.cut] + [by[t] for t in sorted(by, key=str)]


def equal_graphs(a, b):
    """Literally the same graphs (inputs and generators in corresponding roles)."""
    ra = sorted(a.rngs, key=a.rngs.get)
    rb = sorted(b.rngs, key=b.rngs.get)
    la, lb = a.leaves + ra, b.leaves + rb
    ga, gb = a.graphs(), b.graphs()
    if len(la) != len(lb) or len(ga) != len(gb):
        return False
    if any(x.type != y.type for x, y in zip(ga, gb)):
        return False
    return equal_computations(ga, gb, la, lb)


def compare(name, m, a, b, what):
    """Structural comparison; raises."""
    for f in Built.SAME:
        x, y = getattr(a, f), getattr(b, f)
        if x != y:
            raise Violation(
                f"{what}: {f.replace('_', ' ')} {y} instead of {x}",
                {"claim": f"the same {f}", "first": x, "other": y}, key=f"the same {f}")


class Side:
    """The names one construction uses in a common case."""

    def __init__(self, E, m, pre):
        self.E, self.m, self.pre = E, m, pre
        self.symbolic, self.case = E.symbolic, E.case
        self.num = E.num
        self.inp = {n[len(pre):] if n.startswith(pre) else n: x for n, x in E.inp.items() if n in m.inputs or n.startswith(pre)}

    def name(self, n):
        return n if n in self.m.inputs else self.pre + n

    def run(self, outs, inp=None):
        r = self.E.run([self.pre + o for o in outs], inp={self.name(n): x for n, x in (inp or {}).items()})
        for o in outs:
            r.out[o] = r.out[self.pre + o]
        return r


def values_case(name, m, a, b):
    """All updates of two constructions are equal for all inputs and noise."""

    def spec(E):
        outs_a = ["A_" + n for n in a.sw.cut]
        outs_b = ["B_" + n for n in b.sw.cut]
        same, scaled = {}, {}
        if bounded:
            # values inside the supports
            for k, x in View(Side(E, m, "A_"), a.sw).base.items():
                scaled["A_" + k] = x
        for n in E.case.inputs:
            if n.startswith("B_"):
                k = n[2:] if n[2:] in m.inputs else "A_" + n[2:]
                same[n] = scaled.get(k, E.inp[k])
        same.update(scaled)
        for n, oa, ob in zip(a.sw.cut, outs_a, outs_b):
            del KCALLS[:]
            ra = E.run([oa], inp=same)
            ka = [dict(c) for c in KCALLS]
            del KCALLS[:]
            rb = E.run([ob], inp=same)
            kb = [dict(c) for c in KCALLS]
            del KCALLS[:]
            good = ra[oa].shape == rb[ob].shape
            yield Claim(f"{n}: same shape", bool(good), kind="true")
            if not good:
                continue
            for i in np.ndindex(*ra[oa].shape):
                yield Claim(f"{n}{list(i)}: same update", ra[oa][i], rb[ob][i])
            yield Claim(f"{n}: same number of kernel applications", len(ka) == len(kb), kind="true")
            for k, (x, y) in enumerate(zip(ka, kb)):
                for f in ("q", "lp_q", "lp_probe", "step_size", "imm"):
                    p, q = np.asarray(x[f]), np.asarray(y[f])
                    yield Claim(f"kernel {k} {f}: same shape", p.shape == q.shape, kind="true")
                    if p.shape == q.shape:
                        for i in np.ndindex(*p.shape):
                            yield Claim(f"{n}: kernel {k} {f}{list(i)}", item(p[i]), item(q[i]))

    bounded = any(SUPPORT.get(m.fam[n]) in ("interval", "lower") for n in m.latents)
    ca = a.sw.case(name, None)
    cb = b.sw.case(name, None)
    inputs, outs, dom = {}, {}, {}
    for pre, c in (("A_", ca), ("B_", cb)):
        for n, v in c.inputs.items():
            if n in m.inputs and (c is ca or b.sw.m is m):
                inputs[n], dom[n] = v, c.domain[n]
                if n in b.sw.m.fixed:
                    x = b.sw.m.fixed[n]
                    dom[n] = Dom("const", np.shape(x), value=x)
            elif n in m.inputs:
                inputs[pre + n], dom[pre + n] = v, Dom("real", c.domain[n].shape)
            elif not n.startswith("val_") or (pre == "A_" and bounded):
                inputs[pre + n], dom[pre + n] = v, c.domain[n]
        for n, v in (a if pre == "A_" else b).sw.cut.items():
            outs[pre + n] = v
    if bounded:
        for n, ps in m.par.items():
            for i, p in enumerate(ps):
                outs[f"A_par_{n}_{i}"] = p
    case = Case(name, inputs, outs, dom, spec, by_state=True)
    case.tags = {**a.rngs, **b.rngs}
    return case


def item(x):
    return x.item() if isinstance(x, np.generic) else x


def same_states(name, case, a, b, what):
    """Every generator is left in the same state."""
    E = SymEnv(case, Ctx())
    same = {n: E.inp[n[2:] if n[2:] in a.sw.m.inputs else "A_" + n[2:]] for n in case.inputs if n.startswith("B_")}
    for t, v in a.states.items():
        w = b.states[t]
        x, y = E.run([v], inp=same)[v], E.run([w], inp=same)[w]
        if x != y:
            raise Violation(
                f"{what}: generator {t} ends up as {y} instead of {x}",
                {"claim": "the same updates of generators", "first": str(x), "other": str(y)}, key="the same updates of generators")
