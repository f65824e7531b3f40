"""Generic correctness of a whole sampler against the model it was built for.

The oracle is the joint density of the *user's* graph (families' textbook
densities, parameters evaluated from the user's own expressions); the code under
test is what `construct_sampler` returns.  The NUTS kernel itself (aehmc) is
replaced by a stand-in that records what it is given: its start, its target at
the start and at an arbitrary point, and its parameters."""
import contextlib

import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import Apply, Constant, ancestors, clone_replace, graph_inputs, io_toposort
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.op import Op
from aesara.tensor.random.op import RandomVariable

from . import core
from .core import Unsupported
from .density import SUPPORT, logdens, to_noise
from .env import Case, Claim, Dom
from .families import NAMES, noise_kind
from .graphs import inline_merge
from .interp import HANDLERS
from .laws import Gaussian, add, div, mul, neg, noise_elems, sub, total
from .report import Violation, real

KCALLS = []


class KernelStandIn(Op):
    """new position := probe; everything the kernel is given is recorded."""

    __props__ = ("ident",)
    FIELDS = ("q", "step_size", "imm", "lp_q", "lp_probe", "probe", "mom")

    def __init__(self, ident=0):
        self.ident = ident

    def make_node(self, *xs):
        xs = [at.as_tensor_variable(x) for x in xs]
        return Apply(self, xs, [xs[0].type()])

    def perform(self, node, inputs, outputs):
        KCALLS.append({k: np.array(v) for k, v in zip(self.FIELDS, inputs)} | {"ident": self.ident})
        outputs[0][0] = np.array(inputs[5], dtype=node.outputs[0].type.dtype)

    def infer_shape(self, fgraph, node, shapes):
        return [shapes[5]]


def _h(it, node, op, x):
    KCALLS.append(dict(zip(op.FIELDS, x)) | {"ident": op.ident})
    return [x[5]]


HANDLERS[KernelStandIn] = _h


@contextlib.contextmanager
def nuts_stand_in(draws="one"):
    """Replace aehmc's kernel (not aemcmc's code) while a sampler is built.

    draws="many": the stand-in draws like aehmc's kernel does, from a generator
    with a default update only, from one with an update of its own and inside a
    loop whose updates are returned."""
    import aehmc.hmc as ahmc
    import aehmc.nuts as anuts

    import aemcmc.nuts as mn

    made = []

    def new_state(q, logprob_fn):
        return q, -logprob_fn(q), at.zeros_like(q)

    def new_kernel(srng, logprob_fn, *a, **kw):
        k = len(made)
        rec = {"logprob_fn": logprob_fn}
        made.append(rec)

        def kernel(q, *rest):
            step_size, imm = rest[-2:]
            probe = q.type(f"probe{k}")
            rec["probe"] = probe
            rec["q"] = q
            mom = srng.normal(0.0, 1.0, size=q.shape)
            if draws == "many":
                u = srng.uniform(0.0, 1.0)
                z, upd = aesara.scan(lambda: srng.normal(0.0, 1.0), n_steps=3)
                t, more = aesara.scan(lambda: srng.normal(0.0, 1.0), n_steps=2)
                upd = dict(upd)
                upd[u.owner.inputs[0]] = u.owner.outputs[0]
                upd.update(more)
                mom = mom + u + z.sum() + t.sum()
            else:
                upd = {mom.owner.inputs[0]: mom.owner.outputs[0]}
            newq = KernelStandIn(k)(q, step_size, imm, logprob_fn(q), logprob_fn(probe), probe, mom)
            rec["applied"] = rec.get("applied", 0) + 1
            return (newq, at.zeros(()), at.zeros_like(q), at.zeros(()), at.zeros(()),
                    at.zeros((), dtype="bool"), at.zeros((), dtype="bool")), upd

        return kernel

    import aehmc

    spots = []
    for mod in (anuts, ahmc, mn):
        for nm, new in (("new_kernel", new_kernel), ("new_state", new_state)):
            if hasattr(mod, nm) and not (mod is ahmc and nm == "new_kernel"):
                spots.append((mod, nm, getattr(mod, nm)))
                setattr(mod, nm, new)
    try:
        yield made
    finally:
        for mod, nm, old in spots:
            setattr(mod, nm, old)


class Model:
    """latents, obs: {name: rv}; values: {name of observed rv: value variable};
    inputs: {name: (variable, Dom)}; alt: {name: another constant value}."""

    def __init__(self, latents, obs, values, inputs, srng, shapes=None, alt=None):
        self.latents = latents
        self.obs = obs
        self.values = values
        self.inputs = inputs
        self.srng = srng
        self.shapes = shapes or {}
        self.alt = alt or {}
        self.upper = {}
        self.fixed = {}  # data that are constants
        self.fam = {n: NAMES.get(rv.owner.op.name) for n, rv in {**latents, **obs}.items()}

    # ---- oracle
    def oracle_graph(self):
        """Parameter graphs of every random variable in terms of value inputs."""
        self.val = {n: rv.type(f"val_{n}") for n, rv in self.latents.items()}
        rep = {rv: self.val[n] for n, rv in self.latents.items()}
        # integer-valued observations used as inputs of other variables
        for n, rv in self.obs.items():
            rep[rv] = self.values[n]
        # values the code computes from a draw of the model itself are never wanted
        self.par = {}
        flat, spans = [], {}
        for n, rv in {**self.latents, **self.obs}.items():
            ps = rv.owner.inputs[3:]
            spans[n] = (len(flat), len(flat) + len(ps))
            flat += list(ps)
        flat = [_sub_below(v, rep) for v in flat]
        for n, (a, b) in spans.items():
            self.par[n] = flat[a:b]

    def topo_latents(self):
        order = []
        outs = list(self.latents.values()) + list(self.obs.values())
        back = {rv: n for n, rv in self.latents.items()}
        for node in io_toposort([], outs):
            for o in node.outputs:
                if o in back:
                    order.append(back[o])
        return order


def _sub_below(v, rep):
    if v in rep:
        return rep[v]
    if v.owner is None:
        return v
    return clone_replace([v], replace=rep)[0]


class Sweep:
    """The sampler constructed for a model, cut into single updates."""

    def __init__(self, m, res, label="construct_sampler", draws="one"):
        self.m = m
        self.struct = {}
        self.via = {}
        m.oracle_graph()  # before the code under test sees the graph
        with nuts_stand_in(draws) as made:
            self.construct(m, label)
        self.made = made
        steps = self.sampler.sample_steps
        self.steps = {}
        back = {rv: n for n, rv in m.latents.items()}
        extra = [str(k) for k in steps if k not in back]
        missing = [n for n, rv in m.latents.items() if rv not in steps]
        noinit = [n for n, rv in m.latents.items() if rv not in self.init]
        if extra or missing or noinit:
            raise Violation(
                f"the sampler's steps do not cover exactly the model's latents "
                f"(unexpected: {extra}, without a step: {missing}, without an initial value: {noinit})",
                key="coverage")
        self.order = [back[k] for k in steps]
        flat = inline_merge([steps[rv] for rv in m.latents.values()])
        for n, v in zip(m.latents, flat):
            self.steps[n] = v
        self.I = {n: self.init[rv] for n, rv in m.latents.items()}
        self.U = {n: m.latents[n].type(f"upd_{n}") for n in m.latents}
        self.cut = {}
        for n in self.steps:
            rep = {self.steps[k]: self.U[k] for k in self.steps if k != n and self.steps[k] is not self.steps[n]}
            rep = {k: v for k, v in rep.items() if k is not self.steps[n]}
            self.cut[n] = cut_below(self.steps[n], rep)
        block = self.nuts_names()
        for n in block:
            # updates of one kernel application belong together
            rep = {self.steps[k]: self.U[k] for k in self.steps if k not in block}
            self.cut[n] = cut_below(self.steps[n], rep)
        self.params = []
        for kern, ps in (self.sampler.parameters or {}).items():
            self.params += list(ps)
        self.shape = {}
        for n, rv in m.latents.items():
            s = m.shapes.get(n)
            if s is None:
                s = tuple(rv.type.shape)
                if None in s:
                    raise Unsupported(f"shape of {n} not known")
            self.shape[n] = tuple(s)

    def construct(self, m, label):
        import aemcmc

        obs_map = {m.obs[n]: m.values[n] for n in m.obs}
        self.sampler, self.init = real(label, aemcmc.construct_sampler, obs_map, m.srng)

    def stray_inputs(self):
        """Inputs of the steps that are neither the user's, initial values nor parameters."""
        known = set(v for v, _ in self.m.inputs.values()) | set(self.I.values()) | set(self.params)
        known |= set(r["probe"] for r in self.made if "probe" in r)
        known |= set(self.m.values.values())
        out = []
        for v in graph_inputs(list(self.steps.values())):
            if not isinstance(v, (Constant, SharedVariable)) and v not in known:
                out.append(v)
        return out

    # ---- a case with all the symbols
    def case(self, name, spec, extra_outputs=None, **kw):
        m = self.m
        inputs, dom = {}, {}
        for n, (v, d) in m.inputs.items():
            inputs[n], dom[n] = v, d
        for n in m.latents:
            for pre, tab in (("init_", self.I), ("upd_", self.U), ("val_", m.val)):
                inputs[pre + n] = tab[n]
                dom[pre + n] = self.dom(n)
        nq = {}
        for k, r in enumerate(self.made):
            if "probe" not in r:
                continue
            inputs[f"probe{k}"] = r["probe"]
        self.qsize = sum(int(np.prod(self.shape[n])) for n in self.nuts_names())
        for k, r in enumerate(self.made):
            if "probe" in r:
                dom[f"probe{k}"] = Dom("real", (self.qsize,))
        for i, p in enumerate(self.params):
            nm = f"param{i}"
            inputs[nm] = p
            dom[nm] = Dom("pos", tuple(self.qsize for _ in range(p.type.ndim)))
        outs = dict(extra_outputs or {})
        for n, s in self.cut.items():
            outs["step_" + n] = s
        for n, ps in m.par.items():
            for i, p in enumerate(ps):
                outs[f"par_{n}_{i}"] = p
        return Case(name, inputs, outs, dom, spec, **kw)

    def nuts_names(self):
        out = []
        for n in self.order:
            if any(isinstance(v.owner.op, KernelStandIn) for v in deep_ancestors(self.cut[n]) if v.owner):
                out.append(n)
        return out

    def dom(self, n):
        fam = self.m.fam[n]
        sup = SUPPORT.get(fam)
        if sup in ("pos", "lower"):
            return Dom("pos", self.shape[n], hi=self.m.upper.get(n))
        if sup in ("unit", "interval"):
            return Dom("unit", self.shape[n])
        return Dom("real", self.shape[n])


class NutsSweep(Sweep):
    """aemcmc.nuts called directly, with the variables in a given order."""

    def __init__(self, m, res, order, whole, label="nuts.construct_sampler"):
        self.names, self.whole = order, whole
        super().__init__(m, res, label)

    def construct(self, m, label):
        import aemcmc.nuts as nuts
        from types import SimpleNamespace

        rvs = {**m.latents, **m.obs}
        init = {rvs[n]: rvs[n].type("start_" + n) for n in self.names if n in m.latents}
        seen = {rvs[n]: m.values[n] for n in self.names if n in m.obs}
        if self.whole:
            steps, updates, params = real(label, nuts.construct_sampler, m.srng, init, seen)
        else:
            steps, updates, pair = real("nuts.step", nuts.step, m.srng, init, seen)
            params = {None: pair}
        self.init = init
        self.sampler = SimpleNamespace(sample_steps=steps, updates=updates, parameters=params)


def deep_ancestors(v):
    """Ancestors, looking inside ops that wrap a graph."""
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        for a in ancestors([x]):
            if a in seen:
                continue
            seen.add(a)
            if a.owner is not None and hasattr(a.owner.op, "inner_outputs"):
                for o in a.owner.op.inner_outputs:
                    if o not in seen:
                        todo.append(o)
    return seen


def cut_below(v, rep):
    return clone_replace([v], replace=rep)[0] if rep else v


# ------------------------------------------------------------------- claims
class View:
    """Evaluation of one sweep in an environment."""

    def __init__(self, E, sw):
        self.E, self.sw, self.m = E, sw, sw.m
        self._num = None
        # interval-supported variables: the symbols are positions inside the interval
        self.base = {}
        for pre in ("init_", "upd_"):
            vals = {}
            for n in self.m.topo_latents():
                raw = E.inp[pre + n]
                vals[n] = self.scale(n, raw, vals)
            for n, v in vals.items():
                self.base[pre + n] = v

    def scale(self, n, raw, vals, inp=None):
        sup = SUPPORT.get(self.m.fam[n])
        if sup not in ("interval", "lower"):
            return raw
        ps = self.params(n, vals, inp)
        if sup == "lower":
            lo = np.broadcast_to(ps[0], raw.shape)
            out = np.empty(raw.shape, dtype=object)
            for i in np.ndindex(*raw.shape):
                out[i] = add(self.E, lo[i], raw[i])
            return out
        lo, hi = (np.broadcast_to(p, raw.shape) for p in ps)
        out = np.empty(raw.shape, dtype=object)
        for i in np.ndindex(*raw.shape):
            out[i] = add(self.E, lo[i], mul(self.E, sub(self.E, hi[i], lo[i]), raw[i]))
        return out

    def inp_of(self, vals=None, inp=None):
        d = {}
        for k, v in self.base.items():
            d[k] = v
        for n, v in (vals or {}).items():
            d["val_" + n] = v
        d.update(inp or {})
        return d

    def params(self, n, vals, inp=None):
        outs = [f"par_{n}_{i}" for i in range(len(self.m.par[n]))]
        keep = {k: v for k, v in (inp or {}).items()}
        for k, v in vals.items():
            keep["val_" + k] = v
        r = self.E.run(outs, inp=keep)
        if r.draws:
            raise Unsupported("a parameter depends on a variable outside the model")
        return [r[o] for o in outs]

    def lj(self, vals, inp=None, only=None, swap=False):
        """Log joint density of the model at the given latent values."""
        E = self.E
        out = E.num(0)
        outs = [f"par_{n}_{i}" for n in self.m.par for i in range(len(self.m.par[n]))]
        r = E.run(outs, inp=self.inp_of(vals, inp))
        for n in self.m.par:
            if only is not None and n not in only:
                continue
            ps = [r[f"par_{n}_{i}"] for i in range(len(self.m.par[n]))]
            if n in vals:
                x = vals[n]
            else:
                vn = self.value_name(n)
                x = (inp or {}).get(vn, E.inp[vn]) if vn else self.const_value(n)
            shp = np.broadcast_shapes(x.shape, *[p.shape for p in ps])
            if shp != x.shape:
                raise Unsupported(f"value of {n} has shape {x.shape}, parameters {shp}")
            for i in np.ndindex(*shp):
                pi = [np.broadcast_to(p, shp)[i] for p in ps]
                if swap and self.m.fam[n] == "nbinom":
                    pi[1] = sub(E, 1, pi[1])
                out = add(E, out, logdens(E, self.m.fam[n], pi, x[i]))
        return out

    def value_name(self, n):
        v = self.m.values[n]
        for k, (var, d) in self.m.inputs.items():
            if var is v:
                return k
        return None

    def const_value(self, n):
        d = np.asarray(self.m.values[n].data)
        o = np.empty(d.shape, dtype=object)
        for i in np.ndindex(*d.shape):
            o[i] = d[i].item() if not self.E.symbolic else core.Fraction(d[i].item())
        return o

    # -- one update
    def step(self, n, inp=None, noise=None):
        """One update.  Draws that make the new value of another latent k are
        expressed by that value, so that the update is read as one that takes
        the updated k (both graphs may be built on the same draws)."""
        inner = noise or self.E.default_noise
        own = set(self.sw.struct.get(("law", n), (None, {}))[1])

        def provide(fam, token, params, shape, names):
            b = inner(fam, token, params, shape, names)
            for i in np.ndindex(*shape):
                hit = self.sw.via.get(names[i])
                if hit is not None and hit[0] != n and names[i] not in own:
                    b[i] = self.via_noise(names[i], hit, inp, inner)
            return b

        if not self.sw.via:
            return self.raw_step(n, inp, inner)
        out, draws, calls = self.raw_step(n, inp, provide)
        # the shared draws and those behind them belong to the other update
        foreign = {nm for nm, h in self.sw.via.items() if h[0] != n and nm not in own}
        owners = {self.sw.via[nm][0] for d in draws for nm in d.names.ravel() if nm in foreign}
        for k in owners:
            foreign |= {nm for d in self.raw_step(k, inp, inner)[1] for nm in d.names.ravel()}
        draws = [d for d in draws if not all(nm in foreign for nm in d.names.ravel())]
        return out, draws, calls

    def via_noise(self, name, hit, inp, inner):
        E = self.E
        k, e, kind, r = hit
        x = (inp or {}).get("upd_" + k, self.base["upd_" + k])[e]
        if kind == "beta":
            return x

        def one(fam, token, params, shape, names):
            b = inner(fam, token, params, shape, names)
            for i in np.ndindex(*shape):
                if names[i] == name:
                    b[i] = E.num(1)
            return b

        c = self.raw_step(k, inp, one)[0][e]
        return div(E, E.pow(x, r), E.pow(c, r))

    def raw_step(self, n, inp=None, noise=None):
        del KCALLS[:]
        r = self.E.run(["step_" + n], noise=noise, inp=self.inp_of(None, inp))
        calls = [dict(c) for c in KCALLS]
        for c in calls:
            for f, v in list(c.items()):
                if isinstance(v, np.ndarray) and v.dtype != object:
                    o = np.empty(v.shape, dtype=object)
                    for i in np.ndindex(*v.shape):
                        o[i] = v[i].item()
                    c[f] = o
        del KCALLS[:]
        return r["step_" + n], r.draws, calls

    def same_arr(self, a, b):
        if a.shape != b.shape:
            return False
        return all(self.same1(a[i], b[i]) for i in np.ndindex(*a.shape))

    def same1(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        return self.E.same(a, b)

    def same_step(self, s1, s2):
        (o1, d1, c1), (o2, d2, c2) = s1, s2
        if not self.same_arr(o1, o2):
            return False
        k1 = {self._key(d): d for d in d1}
        k2 = {self._key(d): d for d in d2}
        if set(k1) != set(k2):
            return False
        for k, d in k1.items():
            e = k2[k]
            for p, q in zip(d.params, e.params):
                if not self.same_arr(p, q):
                    return False
        if len(c1) != len(c2):
            return False
        for a, b in zip(c1, c2):
            for f in ("q", "lp_q", "lp_probe", "step_size", "imm"):
                if not self.same_arr(a[f], b[f]):
                    return False
        return True

    @staticmethod
    def _key(d):
        return (d.fam, str(d.names.ravel()[0]) if d.names.size else "", d.shape)

    def alt(self, name):
        """A second, independent value of a symbol array."""
        E = self.E
        d = E.case.domain[name]
        if d.noalt:
            return None
        if d.kind == "const":
            a = self.m.alt.get(name)
            if a is None:
                return None
            o = np.empty(np.shape(a), dtype=object)
            for i in np.ndindex(*o.shape):
                x = np.asarray(a)[i].item()
                o[i] = core.Fraction(x) if E.symbolic else x
            return o
        if E.symbolic:
            return d.symbols(E.ctx, "alt." + name)
        a = d.numbers(E.assign, "alt." + name, "float64")
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            o[i] = a[i].item()
        return o

    def fresh_value(self, n, tag, vals):
        """Arbitrary value of a latent (inside its support given the others)."""
        d = self.sw.dom(n)
        if self.E.symbolic:
            raw = d.symbols(self.E.ctx, f"{tag}.{n}")
        else:
            a = d.numbers(self.E.assign, f"{tag}.{n}", "float64")
            raw = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                raw[i] = a[i].item()
        return self.scale(n, raw, vals)

    def depends(self, n, name, base=None):
        """Does the update of n read the symbol?  A difference met at a generic
        point of the real compiled function settles `yes`, the solver `no`."""
        a = self.alt(name)
        if a is None:
            return None
        var = self.E.case.inputs[name]
        cutvar = self.sw.cut[n]
        shared = name.startswith("upd_") and any(h[0] == name[4:] != n for h in self.sw.via.values())
        if not shared and not any(x is var for x in deep_ancestors(cutvar)):
            return False
        if self.E.symbolic:
            from .numeric import SALT

            for num in self.numeric_views():
                SALT[0] = num.E.salt
                try:
                    if num.depends(n, name):
                        return True
                except Exception:
                    pass  # left to the solver
        base = base or self.step(n)
        if name.startswith(("init_", "upd_")):
            k = name.split("_", 1)[1]
            pre = name.split("_", 1)[0] + "_"
            vals = {q: self.base[pre + q] for q in self.m.latents}
            a = self.scale(k, a, vals)
        return not self.same_step(base, self.step(n, inp={name: a}))

    def numeric_views(self):
        if self._num is None:
            from .env import NumEnv

            self._num = []
            for k in range(2):
                E = NumEnv(self.E.case, {"seed": f"s{k}"})
                self._num.append(View(E, self.sw))
        return self._num


def structure(view, key, f):
    """Which symbols an update reads is decided symbolically, once."""
    tab = view.sw.struct
    if view.E.symbolic:
        tab[key] = f()
    elif key not in tab:
        return f()
    return tab[key]


def rest_of(view, n, block, base):
    """Which value (initial or updated) of every other latent update n reads."""
    used = {}
    for k in view.m.latents:
        if k == n or k in block:
            continue
        u = view.depends(n, "upd_" + k, base)
        i = view.depends(n, "init_" + k, base)
        used[k] = (u, i)
    return used


def scan_claims(v, base_of):
    """Initial values, distinct updates, no draws from the prior."""
    E, m, sw = v.E, v.m, v.sw
    ini = [sw.init[rv] for rv in m.latents.values()]
    yield Claim("every latent, and nothing else, has an initial value",
                set(sw.init) == set(m.latents.values()), kind="true")
    yield Claim("initial values are distinct inputs", len(set(ini)) == len(ini)
                and all(i.owner is None and not isinstance(i, (Constant, SharedVariable)) for i in ini), kind="true")
    ups = [sw.sampler.sample_steps[rv] for rv in m.latents.values()]
    yield Claim("latents have updates of their own", len(set(ups)) == len(ups), kind="true")
    for n, rv in m.latents.items():
        yield Claim(f"types of {n}, its initial value and its update agree",
                    rv.type.dtype == sw.init[rv].type.dtype == sw.sampler.sample_steps[rv].type.dtype
                    and rv.type.ndim == sw.init[rv].type.ndim == sw.sampler.sample_steps[rv].type.ndim, kind="true")
    prior = {}
    for k, rv in {**m.latents, **m.obs}.items():
        tag = E.case.tags.get(rv.owner.inputs[0])
        if tag is not None:
            prior[("rng", tag)] = k
    vals = [{n: v.base[pre + n] for n in m.latents} for pre in ("init_", "upd_")]
    for n in m.latents:
        for d in base_of(n)[1]:
            k = prior.get(d.token)
            if k is None or m.fam[k] != d.fam or len(m.par[k]) != len(d.params):
                continue
            same = False
            for vv in vals:
                ps = v.params(k, vv)
                try:
                    same = same or all(v.same_arr(np.broadcast_to(p, np.shape(q)), q) for p, q in zip(ps, d.params))
                except ValueError:
                    pass
            yield Claim(f"update of {n} does not use a draw of {k} from the model", not same, kind="true")


def sweep_claims(E, sw, exact=True, blanket=True, nuts=True, compose=True, known=None, scan=False):
    """All claims about one sampler."""
    m = sw.m
    v = View(E, sw)
    nuts_names = sw.nuts_names()
    yield Claim("steps read only the user's inputs, the initial values and the parameters",
                not sw.stray_inputs(), kind="true")
    blocks = [nuts_names] if nuts_names else []
    blocks += [[n] for n in sw.order if n not in nuts_names]
    edges = []
    find_laws(v, [n for n in sw.order if n not in nuts_names])
    for block in blocks:
        n0 = block[0]
        base = v.step(n0)
        used = structure(v, ("rest", n0), lambda: rest_of(v, n0, block, base))
        now = used if E.symbolic else None
        rest = {}
        for k, (u, i) in used.items():
            if compose:
                if not E.symbolic and u and i:
                    now = now or rest_of(v, n0, block, base)
                    clash = all(now[k])
                else:
                    clash = u and i
                yield Claim(f"update of {'+'.join(block)} reads one value of {k}, not both the old and the new one",
                            not clash, kind="true")
            rest[k] = v.base["upd_" + k] if u else v.base["init_" + k]
            if u:
                edges.append((k, n0))
            elif i:
                edges.append((n0, k))
        if compose:
            for n in block:
                shp = base[0].shape if n == n0 else v.step(n)[0].shape
                yield Claim(f"shape of the updated {n}", str(shp) == str(sw.shape[n]), kind="true")
        if block == nuts_names:
            if nuts:
                yield from nuts_claims(v, block, rest)
        else:
            if blanket:
                yield from blanket_claims(v, n0, rest, used, base, (known or {}).get(n0))
            if exact:
                yield from exact_claims(v, n0, rest, base, (known or {}).get(n0))
    if compose:
        yield Claim("the updates form one scan of the latents", acyclic(edges, blocks), kind="true")
    if scan:
        yield from scan_claims(v, v.step)


def acyclic(edges, blocks):
    rep = {n: b[0] for b in blocks for n in b}
    g = {}
    for a, b in edges:
        a, b = rep[a], rep[b]
        if a != b:
            g.setdefault(a, set()).add(b)
    state = {}

    def visit(x):
        if state.get(x) == 1:
            return False
        if state.get(x) == 2:
            return True
        state[x] = 1
        ok = all(visit(y) for y in g.get(x, ()))
        state[x] = 2
        return ok

    return all(visit(x) for x in list(g))


def blanket_claims(v, n, rest, used, base, known=None):
    """Whatever the update does not look at must not matter for its conditional."""
    E, m = v.E, v.m
    t1 = v.fresh_value(n, "t1", rest)
    t2 = v.fresh_value(n, "t2", rest)

    def ratio(rest, inp=None):
        return sub(E, v.lj({**rest, n: t1}, inp), v.lj({**rest, n: t2}, inp))

    r0 = None
    for name in m.inputs:
        dep = structure(v, ("dep", n, name), lambda: v.depends(n, name, base))
        if dep is None or dep:
            continue
        r0 = r0 if r0 is not None else ratio(rest)
        yield Claim(f"update of {n} ignores {name}: so does the conditional of {n}", ratio(rest, {name: v.alt(name)}), r0)
    for k, (u, i) in used.items():
        if u or i:
            continue
        r0 = r0 if r0 is not None else ratio(rest)
        other = dict(rest)
        other[k] = v.fresh_value(k, "alt", rest)
        yield Claim(f"update of {n} ignores {k}: so does the conditional of {n}", ratio(other), r0)


def find_law(v, n):
    """How the new value is made from its last draws, read off at a generic point
    of the real compiled function; the solver confirms it (law_claims)."""
    E = v.E
    out, draws, _ = v.raw_step(n)
    elems = list(np.ndindex(*out.shape))
    final, used = {}, set()

    for e in elems:
        x = out[e]
        hit = None
        for d, i in noise_elems(draws, ("beta",)):
            if d.names[i] not in used and E.same(d.out[i], x):
                hit = ("beta", d.names[i], None)
        for d, i in noise_elems(draws, ("stdgamma",)) if hit is None else ():
            if d.names[i] in used:
                continue

            def fix(val, nm=d.names[i]):
                def provide(fam, token, params, shape, names):
                    b = E.default_noise(fam, token, params, shape, names)
                    for j in np.ndindex(*shape):
                        if names[j] == nm:
                            b[j] = val
                    return b

                return v.raw_step(n, noise=provide)[0][e]

            one, two = fix(E.num(1)), fix(E.num(2))
            for r in (1, -1, 2, -2):
                # x**r == c * noise
                c = E.pow(one, r)
                if E.same(E.pow(x, r), c * d.noise[i]) and E.same(E.pow(two, r), c * 2):
                    hit = ("gamma", d.names[i], r)
                    break
            if hit:
                break
        if hit is None:
            break
        used.add(hit[1])
        final[hit[1]] = (e, hit)
    if len(final) == len(elems):
        return "draws", final
    normals = [d for d in draws if noise_kind(d.fam) == "normal"]
    need = {}
    for d in normals:
        for i in d.elems():

            def provide(fam, token, params, shape, names, nm=d.names[i]):
                b = E.default_noise(fam, token, params, shape, names)
                for j in np.ndindex(*shape):
                    if names[j] == nm:
                        b[j] = b[j] + 1.5
                return b

            if not v.same_arr(v.raw_step(n, noise=provide)[0], out):
                need[d.names[i]] = None
    if need:
        return "gauss", need
    return None, {}


def find_laws(v, names):
    """Laws of the specialised updates, and the draws other updates share with them."""
    tab = v.sw.struct
    if "laws" in tab:
        return
    num = v.numeric_views()[0] if v.E.symbolic else v
    from .numeric import SALT

    SALT[0] = num.E.salt
    seen = {}
    for n in names:
        try:
            tab[("law", n)] = find_law(num, n)
        except (Unsupported, NotImplementedError):
            raise
        except Exception as e:
            raise Violation(f"the update of {n} raises {type(e).__name__}: {str(e).splitlines()[0]}",
                            {"claim": f"update of {n}", "detail": str(e)[:2000]}, key=f"update of {n}")
    for n in names:
        kind, final = tab[("law", n)]
        if kind == "draws":
            for nm, (e, (k, _, r)) in final.items():
                seen.setdefault(nm, []).append((n, e, k, r))
    for nm, hits in seen.items():
        if len(hits) == 1:
            v.sw.via[nm] = hits[0]
    tab["laws"] = True


def law_claims(v, n):
    E = v.E
    kind, final = v.sw.struct[("law", n)]
    out, draws, _ = v.raw_step(n)
    for nm, (e, (k, _, r)) in final.items() if kind == "draws" else ():
        hits = [(d, i) for d in draws for i in d.elems() if d.names[i] == nm]
        if len(hits) != 1:
            yield Claim(f"update of {n}: one draw for {n}{list(e)}", False, kind="true")
            continue
        d, i = hits[0]
        if k == "beta":
            yield Claim(f"update of {n}: {n}{list(e)} is a beta draw", out[e], d.out[i])
        else:

            def provide(fam, token, params, shape, names):
                b = E.default_noise(fam, token, params, shape, names)
                for j in np.ndindex(*shape):
                    if names[j] == nm:
                        b[j] = E.num(1)
                return b

            one = v.raw_step(n, noise=provide)[0][e]
            yield Claim(f"update of {n}: {n}{list(e)} is a power of a gamma draw",
                        E.pow(out[e], r), mul(E, E.pow(one, r), d.noise[i]))


def exact_claims(v, n, rest, base, known=None):
    """pi(t) a(aux | t) is proportional to k(t | aux) in t."""
    E, m = v.E, v.m
    kind, final = v.sw.struct[("law", n)]
    if kind is None:
        yield Claim(f"update of {n}: the update is a draw from a known family", False, kind="true")
        return
    yield from law_claims(v, n)
    def rerun(fix):
        def provide(fam, token, params, shape, names):
            b = E.default_noise(fam, token, params, shape, names)
            for i in np.ndindex(*shape):
                if names[i] in fix:
                    b[i] = fix[names[i]]
            return b

        return v.step(n, noise=provide)

    aux = {}  # name -> value

    def auxval(fam, nm):
        if nm not in aux:
            k = noise_kind(fam)
            aux[nm] = (E.pos if k in ("stdgamma", "polyagamma") else E.unit if k == "beta" else E.real)("aux." + nm)
        return aux[nm]

    def at_point(t, fix):
        """The update when the current value is t and the auxiliaries are fixed."""

        def provide(fam, token, params, shape, names):
            b = E.default_noise(fam, token, params, shape, names)
            for i in np.ndindex(*shape):
                if names[i] in fix:
                    b[i] = fix[names[i]]
                elif names[i] not in final:
                    b[i] = to_noise(E, fam, [p[i] for p in params], auxval(fam, names[i]))
            return b

        return v.step(n, inp={"init_" + n: t}, noise=provide)

    t1 = v.fresh_value(n, "t1", rest)
    t2 = v.fresh_value(n, "t2", rest)

    def log_aux(draws):
        o = E.num(0)
        for d in draws:
            for i in d.elems():
                if d.names[i] in final:
                    continue
                o = add(E, o, logdens(E, d.fam, [p[i] for p in d.params], aux[d.names[i]]))
        return o

    def log_kernel(t, cur):
        """log k(t | aux) with the parameters met when the current value is cur."""
        o = E.num(0)
        if kind == "draws":
            s = at_point(cur, {})
            for nm, (e, (fam, _, r)) in final.items():
                d, i = [(d, i) for d in s[1] for i in d.elems() if d.names[i] == nm][0]
                if fam == "beta":
                    o = add(E, o, logdens(E, "beta", [p[i] for p in d.params], t[e]))
                else:
                    one = at_point(cur, {nm: E.num(1)})[0][e]
                    c = E.pow(one, r)
                    k = d.law(i)[1][0]
                    xr = div(E, E.pow(t[e], r), c)
                    o = add(E, o, mul(E, r - 1, E.log(t[e])), mul(E, sub(E, k, 1), E.log(xr)), neg(E, xr))
            return o
        zero = {nm: E.num(0) for nm in final}
        mean = at_point(cur, zero)[0].ravel()
        cols = []
        for nm in final:
            c = at_point(cur, {**zero, nm: E.num(1)})[0].ravel()
            cols.append([sub(E, a, b) for a, b in zip(c, mean)])
        p = len(mean)
        C = [[total(E, [mul(E, c[i], c[j]) for c in cols]) for j in range(p)] for i in range(p)]
        dx = [sub(E, a, b) for a, b in zip(t.ravel(), mean)]
        if p == 1:
            qf = div(E, mul(E, dx[0], dx[0]), C[0][0])
        else:
            det = sub(E, mul(E, C[0][0], C[1][1]), mul(E, C[0][1], C[1][0]))
            adj = [[C[1][1], neg(E, C[0][1])], [neg(E, C[1][0]), C[0][0]]]
            qf = div(E, total(E, [mul(E, dx[i], adj[i][j], dx[j]) for i in range(2) for j in range(2)]), det)
        return neg(E, div(E, qf, 2))

    if kind == "gauss":
        g = rerun({})
        zero = {nm: E.num(0) for nm in final}
        mean = rerun(zero)[0].ravel()
        acc = list(mean)
        nv = {d.names[i]: d.noise[i] for d in g[1] for i in d.elems()}
        for nm in final:
            c = rerun({**zero, nm: E.num(1)})[0].ravel()
            acc = [add(E, a, mul(E, sub(E, x, b), nv[nm])) for a, x, b in zip(acc, c, mean)]
        for j, (a, b) in enumerate(zip(g[0].ravel(), acc)):
            yield Claim(f"update of {n}: element {j} is affine in the normal noise", a, b)
    dep_self = aux or structure(v, ("self", n), lambda: v.depends(n, "init_" + n, base))
    if kind == "gauss" and t1.size > 1:
        yield from gauss_exact(v, n, rest, final, at_point, log_aux, t1, t2, dep_self)
        return
    d1 = at_point(t1, {})
    d2 = at_point(t2, {})
    k1, k2 = log_kernel(t1, t1), log_kernel(t2, t1)
    if dep_self:
        yield Claim(f"update of {n}: given the auxiliaries the old value does not matter",
                    sub(E, log_kernel(t1, t2), log_kernel(t2, t2)), sub(E, k1, k2))
    lhs = sub(E, add(E, v.lj({**rest, n: t1}), log_aux(d1[1])), add(E, v.lj({**rest, n: t2}), log_aux(d2[1])))
    c = Claim(f"update of {n} leaves the conditional of {n} given everything else invariant", lhs, sub(E, k1, k2))
    if known is not None:
        # recorded: the likelihood of a negative binomial is used with p and 1 - p swapped
        alt = sub(E, add(E, v.lj({**rest, n: t1}, swap=True), log_aux(d1[1])),
                  add(E, v.lj({**rest, n: t2}, swap=True), log_aux(d2[1])))
        c.known = (known, (alt, c.rhs))
    yield c


def gauss_exact(v, n, rest, final, at_point, log_aux, t1, t2, dep_self):
    """The same for several coefficients, through the precision of the target."""
    E = v.E

    def f(t):
        return add(E, v.lj({**rest, n: t}), log_aux(at_point(t, {})[1]))

    def law(cur):
        zero = {nm: E.num(0) for nm in final}
        mean = at_point(cur, zero)[0].ravel()
        cols = []
        for nm in final:
            c = at_point(cur, {**zero, nm: E.num(1)})[0].ravel()
            cols.append([sub(E, a, b) for a, b in zip(c, mean)])
        return mean, cols

    p = t1.size

    def pt(*js):
        o = np.empty(t1.shape, dtype=object)
        fl = [E.num(0)] * p
        for j in js:
            fl[j] = add(E, fl[j], E.num(1))
        for j, i in enumerate(np.ndindex(*t1.shape)):
            o[i] = fl[j]
        return o

    lab = f"update of {n} leaves the conditional of {n} given everything else invariant"
    f0 = f(pt())
    f1 = [f(pt(j)) for j in range(p)]
    Q = [[None] * p for _ in range(p)]
    for i in range(p):
        for j in range(i, p):
            fij = f(pt(i, j))
            Q[i][j] = Q[j][i] = neg(E, add(E, sub(E, fij, f1[i]), sub(E, f0, f1[j])))
    g = [add(E, sub(E, f1[i], f0), div(E, Q[i][i], 2)) for i in range(p)]

    def quad(t):
        x = t.ravel()
        return total(E, [mul(E, g[i], x[i]) for i in range(p)]
                     + [neg(E, div(E, mul(E, x[i], Q[i][j], x[j]), 2)) for i in range(p) for j in range(p)])

    yield Claim(f"{lab} (Gaussian target)", sub(E, f(t1), f(t2)), sub(E, quad(t1), quad(t2)))
    mean, cols = law(t1)
    if dep_self:
        mean2, cols2 = law(t2)
        flat = [(a, b) for a, b in zip(mean, mean2)]
        flat += [(a, b) for c, d in zip(cols, cols2) for a, b in zip(c, d)]
        for a, b in flat:
            yield Claim(f"update of {n}: given the auxiliaries the old value does not matter", a, b)
    for i in range(p):
        yield Claim(f"{lab} (mean)", total(E, [mul(E, Q[i][j], mean[j]) for j in range(p)]), g[i])
        for j in range(p):
            cij = [total(E, [mul(E, c[k], c[j]) for c in cols]) for k in range(p)]
            yield Claim(f"{lab} (covariance)", total(E, [mul(E, Q[i][k], cij[k]) for k in range(p)]),
                        E.num(1 if i == j else 0))


def nuts_claims(v, block, rest):
    E, m, sw = v.E, v.m, v.sw
    lab = "+".join(block)
    xs, call = {}, None
    for n in block:
        o, draws, calls = v.step(n)
        yield Claim(f"NUTS update of {n}: one kernel application", len(calls) == 1, kind="true")
        if len(calls) != 1:
            return
        call = calls[0]
        xs[n] = o
        if o.shape != sw.shape[n]:
            return
    q0 = call["q"]
    nq = sum(int(np.prod(sw.shape[n])) for n in block)
    yield Claim(f"NUTS on {lab}: dimension of the position", q0.shape == (nq,), kind="true")
    if q0.shape != (nq,):
        return
    pname = f"probe{call['ident']}"
    cur = {n: v.base["init_" + n] for n in block}
    # the identity kernel returns the current values
    for n in block:
        o, _, _ = v.step(n, inp={pname: q0})
        for i in np.ndindex(*sw.shape[n]):
            yield Claim(f"NUTS on {lab}: the start of {n}{list(i)} is its current value", o[i], cur[n][i])

    def dens(vals):
        o = v.lj({**rest, **vals})
        for n in block:
            fam = m.fam[n]
            sup = SUPPORT.get(fam)
            for i in np.ndindex(*sw.shape[n]):
                x = vals[n][i]
                if sup == "pos":
                    o = add(E, o, E.log(x))
                elif sup == "lower":
                    lo = v.params(n, {**rest, **vals})[0]
                    o = add(E, o, E.log(sub(E, x, np.broadcast_to(lo, vals[n].shape)[i])))
                elif sup == "unit":
                    o = add(E, o, E.log(x), E.log(sub(E, 1, x)))
                elif sup == "interval":
                    lo, hi = v.params(n, {**rest, **vals})
                    lo, hi = np.broadcast_to(lo, x_shape(vals[n]))[i], np.broadcast_to(hi, x_shape(vals[n]))[i]
                    o = add(E, o, E.log(sub(E, x, lo)), E.log(sub(E, hi, x)), neg(E, E.log(sub(E, hi, lo))))
        return o

    for n in block:
        sup = SUPPORT.get(m.fam[n])
        ps = v.params(n, {**rest, **xs}) if sup in ("lower", "interval") else ()
        ps = [np.broadcast_to(p, sw.shape[n]) for p in ps]
        for i in np.ndindex(*sw.shape[n]):
            x = xs[n][i]
            if ps:
                yield Claim(f"NUTS on {lab}: new {n}{list(i)} is above its lower bound", gt(E, x, ps[0][i]), kind="true")
            if sup == "interval":
                yield Claim(f"NUTS on {lab}: new {n}{list(i)} is below its upper bound", gt(E, ps[1][i], x), kind="true")
            if sup in ("pos", "unit"):
                yield Claim(f"NUTS on {lab}: new {n}{list(i)} is positive", gt(E, x, 0), kind="true")
            if sup == "unit":
                yield Claim(f"NUTS on {lab}: new {n}{list(i)} is below one", gt(E, 1, x), kind="true")
    yield Claim(f"NUTS on {lab}: the target is the conditional density of the values returned",
                sub(E, call["lp_probe"][()], call["lp_q"][()]), sub(E, dens(xs), dens(cur)),
                hyp=[gt(E, hi, x) for n, hi in m.upper.items() if n in block for x in xs[n].ravel()])
    if len(sw.params) == 2:
        for f, i in (("step_size", 0), ("imm", 1)):
            sym = E.inp[f"param{i}"]
            a = call[f]
            yield Claim(f"NUTS on {lab}: shape of parameter {f}", a.shape == sym.shape, kind="true")
            if a.shape == sym.shape:
                for j in np.ndindex(*sym.shape):
                    yield Claim(f"NUTS on {lab}: the kernel runs with the returned {f}{list(j)}", a[j], sym[j])
    else:
        yield Claim(f"NUTS on {lab}: a step size and a mass matrix are returned", False, kind="true")


def x_shape(a):
    return a.shape


def gt(E, a, b):
    if E.symbolic:
        return core.cmp(a, b, "gt")
    return float(a) > float(b)
