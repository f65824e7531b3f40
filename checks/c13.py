"""C13: reparametrisation relations preserve the distribution."""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.fg import FunctionGraph
from aesara.graph.rewriting.kanren import KanrenRelationSub
from aesara.tensor.random import RandomStream

from aev.copies import frozen
from aev.env import Case, Claim, Dom
from aev.laws import deps, mul, noise_policy
from aev.report import Check, Violation, real

from aemcmc.transforms import invgamma_exponential, location_scale_transform

check = Check(
    "C13",
    "reparametrisations",
    assumptions=[
        "real arithmetic",
        "numpy's location-scale samplers return loc + scale * standard noise, its gamma-type samplers scale * standard gamma noise",
        "rewriting happens through aesara's KanrenRelationSub, as the relations are meant to be used",
    ],
    bounds="locations, scales and sizes with up to two dimensions of length at most 3; a variable on its own, with random parameters, inside a model that uses it further, and rewritten twice in a row",
    functions=["aemcmc.transforms.location_scale_transform", "aemcmc.transforms.invgamma_exponential"],
)

MEMBERS = ["cauchy", "gumbel", "laplace", "logistic", "normal"]
KINDS = ("normal", "gumbel", "logistic", "laplace", "cauchy", "halfnormal", "halfcauchy", "stdgamma", "uniform", "beta", "weibull", "t")


def rewrite(relation, fgraph, var):
    """`var` rewritten by the relation, None if it does not apply."""
    r = real("rewriting", KanrenRelationSub(relation).transform, fgraph, var.owner)
    if not r:
        return None
    if isinstance(r, dict):
        return r.get(var)
    if len(r) == 1:
        # a node's default output
        return r[0]
    return r[var.owner.outputs.index(var)]


def swap(relation):
    return lambda x, y: relation(y, x)


def compare(name, before, target, after, inputs, domain, alt=None):
    """before/after: the outputs of the model; target: position of the variable
    that was rewritten.  Other random variables keep their draws."""
    outs = {f"old{k}": v for k, v in enumerate(before)}
    outs.update({f"new{k}": v for k, v in enumerate(after)})
    old = [f"old{k}" for k in range(len(before))]
    new = [f"new{k}" for k in range(len(after))]
    t = f"new{target}"

    def spec(E):
        r0 = E.run(outputs=old)
        x0 = r0[f"old{target}"]
        own = None
        for d in r0.draws:
            if d.shape == x0.shape and all(E.same(d.out[i], x0[i]) for i in d.elems()):
                own = d
        if own is None:
            # a deterministic expression of one draw
            own = r0.draws[-1]
        others = [d for d in r0.draws if d is not own]
        rest = {d.names[i] for d in others for i in d.elems()}

        def run(fixed):
            return E.run(outputs=new, noise=noise_policy(E, fixed))

        r1 = run({})
        x1 = r1[t]
        yield Claim("shape", str(x1.shape) == str(x0.shape), kind="true")
        if x1.shape != x0.shape:
            return
        fresh = [d for d in r1.draws if not {d.names[i] for i in d.elems()} <= rest]
        yield Claim("the other variables are drawn as before", rest == {d.names[i] for d in r1.draws if d not in fresh for i in d.elems()}, kind="true")
        used, fixed = [], {}
        for i in np.ndindex(*x1.shape):
            hit = deps(E, fresh, x1[i], run, KINDS, lambda r: r[t][i])
            hit0 = [(d, j) for d, j in deps(E, [own], x0[i], lambda f: E.run(outputs=old, noise=noise_policy(E, f)), KINDS, lambda r: r[f"old{target}"][i])]
            yield Claim(f"{list(i)} depends on one noise element, like the original", len(hit) == len(hit0) == 1, kind="true")
            if len(hit) != 1 or len(hit0) != 1:
                return
            (d, j), (d0, j0) = hit[0], hit0[0]
            used.append(d.names[j])
            k, p = d.law(j)
            k0, p0 = d0.law(j0)
            yield Claim(f"{list(i)}: noise of the same kind", k == k0 and len(p) == len(p0), kind="true")
            if k != k0 or len(p) != len(p0):
                return
            for a, b in zip(p, p0):
                yield Claim(f"{list(i)}: parameter of the noise", a, b if not isinstance(b, int) else E.num(b))
            fixed[d.names[j]] = d0.noise[j0]
        yield Claim("every element has its own noise", len(set(used)) == len(used), kind="true")
        r2 = run(fixed)
        for k, (a, b) in enumerate(zip(new, old)):
            if r2[a].shape != r0[b].shape:
                yield Claim(f"output {k}: shape", False, kind="true")
                continue
            for i in np.ndindex(*r2[a].shape):
                c = Claim(f"output {k}{list(i)}", r2[a][i], r0[b][i])
                if alt is not None and k == target:
                    c.known = alt(E, own, i, r2[a][i])
                yield c

    return Case(name, inputs, outs, domain, spec, by_state=True)


class S:
    """Inputs and domains under construction."""

    def __init__(self):
        self.srng = RandomStream(0)
        self.ins, self.dom = {}, {}

    def real(self, name, shape=(), dtype="float64"):
        return self.put(name, Dom("real", shape), shape, dtype)

    def pos(self, name, shape=(), dtype="float64"):
        return self.put(name, Dom("pos", shape), shape, dtype)

    def put(self, name, dom, shape, dtype):
        v = at.TensorType(dtype, tuple(1 if k == 1 else None for k in shape))(name)
        self.ins[name], self.dom[name] = v, dom
        return v


# --------------------------------------------------------------- location-scale
def configs():
    c = {}
    c["scalars"] = lambda s, rv: rv(s.real("mu"), s.pos("sd"))
    c["scalars, size"] = lambda s, rv: rv(s.real("mu"), s.pos("sd"), size=(2,))
    c["scalars, two sizes"] = lambda s, rv: rv(s.real("mu"), s.pos("sd"), size=(2, 3))
    c["vector location"] = lambda s, rv: rv(s.real("mu", (3,)), s.pos("sd"))
    c["vector scale"] = lambda s, rv: rv(s.real("mu"), s.pos("sd", (3,)))
    c["vectors"] = lambda s, rv: rv(s.real("mu", (2,)), s.pos("sd", (2,)))
    c["vectors, size"] = lambda s, rv: rv(s.real("mu", (2,)), s.pos("sd", (2,)), size=(3, 2))
    c["vector location, size"] = lambda s, rv: rv(s.real("mu", (2,)), s.pos("sd"), size=(2,))
    c["column and row"] = lambda s, rv: rv(s.real("mu", (2, 1)), s.pos("sd", (3,)))
    c["matrix location"] = lambda s, rv: rv(s.real("mu", (2, 2)), s.pos("sd"))
    c["row scale of a matrix"] = lambda s, rv: rv(s.real("mu", (2, 2)), s.pos("sd", (1, 2)))
    c["length-one location"] = lambda s, rv: rv(s.real("mu", (1,)), s.pos("sd", (3,)))
    c["constants"] = lambda s, rv: rv(2, 3)
    c["constant vector"] = lambda s, rv: rv(np.array([1.0, -2.0]), 0.5)
    c["standard"] = lambda s, rv: rv(0, 1, size=(2,))
    c["one scalar for both"] = lambda s, rv: (lambda a: rv(a, a, size=(2,)))(s.pos("a"))
    c["symbolic size"] = lambda s, rv: rv(s.real("mu"), s.pos("sd"), size=s.real("X", (3,)).shape)
    c["single precision"] = lambda s, rv: rv(s.real("mu", (2,), "float32"), s.pos("sd", (), "float32"))
    c["expressions"] = lambda s, rv: rv(at.exp(s.real("a", (2,))) - 1, at.sqr(s.pos("b")) + 1)
    return c


def centered(fam, make):
    def build(res):
        s = S()
        rv = make(s, getattr(s.srng, fam))
        (before,) = frozen([rv])
        fg = FunctionGraph(outputs=[rv], clone=False)
        new = rewrite(location_scale_transform, fg, rv)
        res.claims += 1
        if new is None:
            raise Violation(f"the non-centered form of a {fam} variable is not produced", {"claim": "applies"}, key="applies")
        res.proved += 1
        res.claims += 1
        if new.dtype != rv.dtype:
            raise Violation(f"a {rv.dtype} variable is turned into one of type {new.dtype}", {"claim": "dtype"}, key="dtype")
        res.proved += 1
        return compare(fam, [before], 0, [new], s.ins, s.dom)

    return build


for fam in MEMBERS:
    for nm, make in configs().items():
        check.add(f"{fam}: {nm}", centered(fam, make))


# ------------------------------------------------------------ inside of a model
def in_model(kind, fam):
    def build(res):
        s = S()
        rv = getattr(s.srng, fam)
        if kind == "random parameters":
            mu = s.srng.normal(s.real("m"), 1.0, name="mu")
            sd = s.srng.halfnormal(0.0, s.pos("t"), name="sd")
            X = rv(mu, sd, size=(2,), name="X")
            Y = s.srng.normal(X, 1.0, name="Y")
            outs, goal = [mu, sd, X, Y], [X]
        elif kind == "vectors of random parameters":
            mu = s.srng.normal(s.real("m", (2,)), 1.0, name="mu")
            sd = s.srng.halfcauchy(0.0, s.pos("t"), size=(2,), name="sd")
            X = rv(mu, sd, name="X")
            Y = s.srng.gamma(at.exp(X), sd[0], name="Y")
            outs, goal = [mu, sd, X, Y], [X]
        elif kind == "two in a chain":
            mu = rv(s.real("m"), s.pos("t"), name="mu")
            X = rv(mu, at.exp(mu), size=(2,), name="X")
            Y = s.srng.normal(X.sum(), 1.0, name="Y")
            outs, goal = [mu, X, Y], [X, mu]
        elif kind == "two in a chain, parent first":
            mu = rv(s.real("m"), s.pos("t"), name="mu")
            X = rv(mu, at.exp(mu), size=(2,), name="X")
            Y = s.srng.normal(X.sum(), 1.0, name="Y")
            outs, goal = [mu, X, Y], [mu, X]
        else:  # the variable is used twice
            X = rv(s.real("m", (2,)), s.pos("t"), name="X")
            Y = s.srng.normal(X[0] * X[1], at.exp(X[0]), name="Y")
            Z = s.srng.normal(X, at.exp(Y), name="Z")
            outs, goal = [X, Y, Z], [X]
        fg = FunctionGraph(outputs=list(outs), clone=False)
        cases = []
        for k, g in enumerate(goal):
            at_ = outs.index(g)
            var = fg.outputs[at_]
            before = frozen(fg.outputs)
            new = rewrite(location_scale_transform, fg, var)
            if new is None:
                raise Violation(f"the non-centered form of {g} is not produced", {"claim": "applies"}, key="applies")
            fg.replace(var, new, import_missing=True)
            after = frozen(fg.outputs)
            cases.append(compare(f"{kind} {k}", before, at_, after, s.ins, s.dom))
        return cases

    return build


KINDS_IN_MODEL = ["random parameters", "vectors of random parameters", "two in a chain", "two in a chain, parent first", "used twice"]
for kind in KINDS_IN_MODEL:
    for fam in MEMBERS:
        check.add(f"model: {kind}, {fam}", in_model(kind, fam))


# ---------------------------------------------------------- what must not match
def others():
    o = {}
    o["halfnormal"] = lambda s: s.srng.halfnormal(s.real("mu"), s.pos("sd"))
    o["halfcauchy"] = lambda s: s.srng.halfcauchy(s.real("mu"), s.pos("sd"), size=(2,))
    o["uniform"] = lambda s: s.srng.uniform(s.real("mu"), s.real("sd"))
    o["uniform, size"] = lambda s: s.srng.uniform(s.real("mu"), s.real("sd"), size=(2,))
    o["lognormal"] = lambda s: s.srng.lognormal(s.real("mu"), s.pos("sd"))
    o["gamma"] = lambda s: s.srng.gamma(s.pos("mu"), s.pos("sd"))
    o["beta"] = lambda s: s.srng.beta(s.pos("mu"), s.pos("sd"))
    o["invgamma"] = lambda s: s.srng.invgamma(s.pos("mu"), s.pos("sd"))
    o["exponential"] = lambda s: s.srng.exponential(s.pos("sd"))
    o["t"] = lambda s: s.srng.t(s.pos("nu"), s.real("mu"), s.pos("sd"))
    o["t, vector location"] = lambda s: s.srng.t(s.pos("nu"), s.real("mu", (2,)), s.pos("sd"))
    o["invgamma, shape 2"] = lambda s: s.srng.invgamma(2.0, s.pos("sd"))
    o["invgamma, shapes"] = lambda s: s.srng.invgamma(np.array([1.0, 2.0]), s.pos("sd"))
    o["invgamma, vector of ones"] = lambda s: s.srng.invgamma(np.ones(2), s.pos("sd"))
    o["invgamma, one in a vector"] = lambda s: s.srng.invgamma(np.ones(1), s.pos("sd"))
    o["invgamma, scale one"] = lambda s: s.srng.invgamma(s.pos("mu"), 1.0)
    o["gamma, shape 1"] = lambda s: s.srng.gamma(1.0, s.pos("sd"))
    o["beta, ones"] = lambda s: s.srng.beta(1.0, s.pos("sd"))
    o["weibull"] = lambda s: s.srng.weibull(s.pos("sd"))
    o["location plus scaled normal"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.normal(0, 1)
    o["location plus scaled normals"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.normal(0, 1, size=(2,))
    o["vector plus one scaled normal"] = lambda s: s.real("mu", (2,)) + s.pos("sd") * s.srng.normal(0, 1)
    o["scaled normal, general"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.normal(1, 2)
    o["shifted Cauchy"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.cauchy(0, 1)
    o["shifted exponential"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.exponential(1.0)
    o["shifted half-normal"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.halfnormal(0, 1)
    o["shifted uniform"] = lambda s: s.real("mu") + s.pos("sd") * s.srng.uniform(0, 1)
    o["reciprocal of an exponential"] = lambda s: 1.0 / s.srng.exponential(s.pos("sd"))
    o["reciprocals of exponentials"] = lambda s: 1.0 / s.srng.exponential(s.pos("sd", (2,)))
    o["twice the reciprocal of an exponential"] = lambda s: 2.0 / s.srng.exponential(s.pos("sd"))
    o["reciprocal of a gamma"] = lambda s: 1.0 / s.srng.gamma(1.0, s.pos("sd"))
    return o


RELATIONS = {
    "location-scale": location_scale_transform,
    "location-scale, backwards": swap(location_scale_transform),
    "inverse gamma": invgamma_exponential,
    "inverse gamma, backwards": swap(invgamma_exponential),
}


def other(nm, make):
    def build(res):
        cases, applied = [], []
        for rel, relation in RELATIONS.items():
            s = S()
            rv = make(s)
            (before,) = frozen([rv])
            fg = FunctionGraph(outputs=[rv], clone=False)
            new = rewrite(relation, fg, rv)
            res.claims += 1
            res.proved += 1
            if new is not None:
                # whatever it is, it must have the same law
                applied.append(rel)
                cases.append(compare(f"{rel}: {nm}", [before], 0, [new], s.ins, s.dom))
        res.samples.append({"case": nm, "applied": applied})
        return cases

    return build


for nm, make in others().items():
    check.add(f"other: {nm}", other(nm, make))


# ------------------------------------------------------------------ inverse gamma
def ig_configs():
    c = {}
    c["scalar"] = lambda s: s.srng.invgamma(1.0, s.pos("c"))
    c["integer shape"] = lambda s: s.srng.invgamma(1, s.pos("c"))
    c["size"] = lambda s: s.srng.invgamma(1.0, s.pos("c"), size=(2,))
    c["vector"] = lambda s: s.srng.invgamma(1.0, s.pos("c", (2,)))
    c["vector, size"] = lambda s: s.srng.invgamma(1.0, s.pos("c", (2,)), size=(3, 2))
    c["unit scale"] = lambda s: s.srng.invgamma(1.0, 1.0, size=(2,))
    c["constant scale"] = lambda s: s.srng.invgamma(1.0, 4.0)
    c["expression"] = lambda s: s.srng.invgamma(1.0, at.exp(s.real("c", (2,))))
    return c


def inverse_gamma(nm, make):
    def build(res):
        s = S()
        rv = make(s)
        (before,) = frozen([rv])
        fg = FunctionGraph(outputs=[rv], clone=False)
        new = rewrite(invgamma_exponential, fg, rv)
        res.claims += 1
        if new is None:
            raise Violation("an inverse gamma with shape 1 is not turned into the reciprocal of an exponential", {"claim": "applies"}, key="applies")
        res.proved += 1

        def alt(E, own, i, x):
            # the recorded form: the exponential has scale c, not rate c
            return "invgamma-exponential-scale", (mul(E, x, own.params[1][i], own.noise[i]), E.num(1))

        return compare(nm, [before], 0, [new], s.ins, s.dom, alt)

    return build


for nm, make in ig_configs().items():
    check.add(f"inverse gamma: {nm}", inverse_gamma(nm, make))
