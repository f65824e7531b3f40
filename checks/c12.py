"""C12: the internal representation and its expansion keep the model's meaning."""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.graph.basic import graph_inputs, io_toposort
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable

from aev.copies import between, frozen
from aev.env import Case, Claim, Dom
from aev.report import Check, Violation, real
from aev.zoo import ZOO, M

import aemcmc.rewriting as rw

check = Check(
    "C12",
    "internal representation",
    assumptions=[
        "real arithmetic",
        "a random draw is a function of its generator's state, family and parameters",
        "values of shared data variables are the ones they hold",
    ],
    bounds="the models of aev/zoo.py and the expression family of this file (sums, products, powers, comparisons, reductions, transposes, broadcasts, indexing over random scalars, vectors and matrices) at the small shapes used there",
    functions=[
        "aemcmc.rewriting.construct_ir_fgraph",
        "aemcmc.rewriting.local_elemwise_dimshuffle_subsume",
        "aemcmc.rewriting.SubsumingElemwise",
        "aemcmc.rewriting.inline_SubsumingElemwise",
        "aemcmc.rewriting.expand_subsumptions",
    ],
)


def rvs_below(outs):
    return [n.outputs[1] for n in io_toposort([], list(outs)) if isinstance(n.op, RandomVariable)]


def subsumed(outs):
    return [n for n in io_toposort([], list(outs)) if isinstance(n.op, rw.SubsumingElemwise)]


def flat(E, x, y):
    try:
        x, y = np.broadcast_arrays(x, y)
    except ValueError:
        yield None
        return
    for i in np.ndindex(*x.shape):
        yield i, x[i], y[i]


def build_case(name, res, obs, inputs, domain, srng, finders, clone=True):
    obs = dict(obs)
    keys = list(obs)
    rvs = rvs_below(keys)
    det = [v for v in between(keys) if v not in rvs]
    before = dict(zip(rvs + det, frozen(rvs + det)))
    fgraph, new_obs, memo, new_to_old = real(
        "converting the model", rw.construct_ir_fgraph, obs, *([] if clone else [False]))

    def fail(msg, key):
        raise Violation(f"{name}: {msg}", {"claim": key}, key=key)

    # the mappings
    res.claims += 5
    if sorted(map(id, new_to_old.values())) != sorted(map(id, rvs)):
        fail(f"the new variables stand for {sorted(map(str, new_to_old.values()))}, the model's are {sorted(map(str, rvs))}", "random variables covered")
    old_to_new = {o: n for n, o in new_to_old.items()}
    if set(fgraph.outputs) != set(new_to_old):
        fail("the graph's outputs are not the new random variables", "outputs")
    for k, v in obs.items():
        if new_obs.get(old_to_new[k]) is not v:
            fail(f"the observed value of {k} is not attached to its new variable", "observed values")
    if len(new_obs) != len(obs):
        fail("observed values for other variables", "observed values")
    for o in rvs if clone else []:
        if memo.get(o) is not old_to_new[o]:
            fail(f"the conversion maps {o} to something else than its new variable", "mapping of random variables")
    if clone and any(o in fgraph.variables for o in rvs):
        fail("the converted model contains variables of the original one", "copied")
    res.proved += 5

    outs, pairs = {}, []

    def put(stage, o, v):
        outs.setdefault(f"model/{ids[o]}", before[o])
        key = f"{stage}/{ids[o]}"
        outs[key] = v
        pairs.append((f"{stage} keeps {ids[o]}", f"model/{ids[o]}", key))

    ids = {o: (o.name or o.owner.inputs[0].name or "rv") + f"#{i}" for i, o in enumerate(rvs)}
    ids.update({o: f"{o.owner.op}#{i}"[:60] for i, o in enumerate(det)})
    order = [old_to_new[o] for o in rvs]

    def stage(stg, vs):
        for o, v in zip(rvs, frozen(vs)):
            put(stg, o, v)
            a, b = before[o].owner, v.owner
            res.claims += 1
            if not isinstance(b.op, RandomVariable) or a.op.name != b.op.name or len(a.inputs) != len(b.inputs):
                fail(f"{stg} turns the variable {ids[o]} into {b.op}", f"{stg} keeps the family of {ids[o]}")
            res.proved += 1
            for k, (x, y) in enumerate(zip(a.inputs[3:], b.inputs[3:])):
                outs[f"model/{ids[o]}.{k}"] = x
                outs[f"{stg}/{ids[o]}.{k}"] = y
                pairs.append((f"{stg} keeps parameter {k} of {ids[o]}", f"model/{ids[o]}.{k}", f"{stg}/{ids[o]}.{k}"))

    stage("conversion", order)
    if clone:
        known = [o for o in det if o in memo]
        for o, v in zip(known, frozen([memo[o] for o in known])):
            put("conversion (deterministic)", o, v)
    else:
        stage("conversion, model changed in place", rvs)
    def once(stg):
        res.claims += 1
        got = rvs_below(fgraph.outputs)
        if set(got) != set(fgraph.outputs):
            fail(f"after {stg} the graph draws some variables of the model more than once", f"{stg}: each variable drawn once")
        res.proved += 1

    once("conversion")
    n_sub = len(subsumed(fgraph.outputs))
    if finders:
        fgraph.attach_feature(rw.SamplerTracker(srng, new_obs))
        real("looking for samplers", rw.sampler_rewrites_db.query("+basic").rewrite, fgraph)
        label = "search and expansion"
    else:
        real("expanding", rw.expand_subsumptions.rewrite, fgraph)
        label = "expansion"
    res.claims += 1
    left = subsumed(fgraph.outputs)
    if left:
        fail(f"{left[0]} is left after the expansion", "nothing subsumed is left")
    res.proved += 1
    if len(fgraph.outputs) != len(order):
        fail("the expansion changes the number of outputs", "outputs")
    once(label)
    # the expansion may replace variables, outputs keep their positions
    pos = {id(v): i for i, v in enumerate(new_to_old)}
    stage(label, [fgraph.outputs[pos[id(v)]] for v in order])

    def spec(E):
        r = E.run()
        for lab, a, b in pairs:
            if r[a].shape != r[b].shape and "parameter" not in lab:
                yield Claim(lab + ": shape", E.num(0), E.num(1))
                continue
            for hit in flat(E, r[a], r[b]):
                if hit is None:
                    yield Claim(lab + ": shape", E.num(0), E.num(1))
                    break
                i, x, y = hit
                yield Claim(lab + (str(list(i)) if i else ""), x, y)

    res.samples.append({"case": name, "subsumed": n_sub, "variables": len(pairs)})
    return Case(name, inputs, outs, domain, spec, by_state=True)


# ---------------------------------------------------------- expression family
def family():
    c = aesara.shared(1.75, name="c")
    d = aesara.shared(np.array([0.5, -1.25]), name="d")
    out = []

    def e(nm, f):
        out.append((nm, f))

    e("negated double", lambda b, s, z, w: -2.0 * z)
    e("shared factor", lambda b, s, z, w: c * z)
    e("shared factor and constant", lambda b, s, z, w: 2 * c * z)
    e("input factor and constant", lambda b, s, z, w: at.mul(2.0, s, z))
    e("input factor twice", lambda b, s, z, w: at.mul(s, s, z))
    e("sum of three", lambda b, s, z, w: at.add(1.0, s, z))
    e("constant plus", lambda b, s, z, w: 1 + z)
    e("minus", lambda b, s, z, w: 1 - z)
    e("minus one's sum", lambda b, s, z, w: z - z.sum())
    e("quotient", lambda b, s, z, w: 2 / (s + z**2))
    e("half", lambda b, s, z, w: z / 2)
    e("square", lambda b, s, z, w: z**2)
    e("cube of a scalar", lambda b, s, z, w: z + w**3)
    e("switch", lambda b, s, z, w: at.switch(z > 0, z, 1.0))
    e("switch on a random scalar", lambda b, s, z, w: at.switch(at.gt(w, 0), z, 2.0))
    e("switch with a constant condition", lambda b, s, z, w: at.switch(at.ge(s, 0), z, w))
    e("maximum", lambda b, s, z, w: at.maximum(z, w))
    e("comparison times", lambda b, s, z, w: at.gt(z, 0) * z)
    e("at most one", lambda b, s, z, w: at.le(z, 1) + 0.0)
    e("equality", lambda b, s, z, w: at.eq(z, w) + 0.0)
    e("and", lambda b, s, z, w: at.and_(at.gt(z, 0), at.gt(w, 0)) * 1.0)
    e("clip", lambda b, s, z, w: at.clip(z, -1, 1))
    e("scalar used three times", lambda b, s, z, w: at.add(w, w, z))
    e("scalar used in a product", lambda b, s, z, w: at.mul(w, w, z, b))
    e("difference of equals", lambda b, s, z, w: (z - w) - (z - w) + z)
    e("outer product, transposed", lambda b, s, z, w: (2 * at.outer(z, b)).T.sum(1))
    e("column against row", lambda b, s, z, w: (z[:, None] - b).sum(0))
    e("column against row, divided", lambda b, s, z, w: (z[:, None] / (1 + b**2)).sum(1))
    e("row against column", lambda b, s, z, w: (b[None, :] * z[:, None] + w).max(1) if False else (b[None, :] * z[:, None] + w).sum(1))
    e("three axes", lambda b, s, z, w: (b[:, None, None] * z[None, :, None] + b[None, None, :]).sum((0, 1)))
    e("matrix times row", lambda b, s, z, w: (at.outer(z, b) * b).sum(1))
    e("transposed matrix plus row", lambda b, s, z, w: (at.outer(z, b).T + b).sum(1))
    e("reduction over a new axis", lambda b, s, z, w: (1 / (s + z**2))[:, None].sum(1))
    e("shared vector plus column", lambda b, s, z, w: (d + z[:, None]).sum(1))
    e("exponential of a scaled column", lambda b, s, z, w: z + at.exp(s * z[:, None]).sum(1))
    e("one operation, different constants", lambda b, s, z, w: np.array([1.0, 2.0]) / w + at.exp(np.array([3.0, 4.0]) / w) * z)
    e("one product, different factors", lambda b, s, z, w: (2.0 * z[:, None] + at.exp(3.0 * z[:, None])).sum(1))
    e("one operation, constants exchanged", lambda b, s, z, w: (z[:, None] - 1.0).sum(1) * (1.0 - z[:, None]).sum(1))
    e("one operation on two variables", lambda b, s, z, w: (2.0 * z[:, None] - at.exp(2.0 * b[:, None])).sum(1))
    e("one operation, shared and constant", lambda b, s, z, w: (c * z[:, None] - 1.75 * z[:, None] + at.sqr(s * z[:, None])).sum(1))
    e("one switch, different branches", lambda b, s, z, w: at.switch(at.gt(w, 0), np.array([1.0, 2.0]), 3.0) - at.switch(at.gt(w, 0), np.array([1.0, 4.0]), 3.0) * z)
    e("powers of a broadcast", lambda b, s, z, w: z + (z[:, None] ** 2 + z[:, None] ** 3).sum(1))
    e("sigmoid", lambda b, s, z, w: at.sigmoid(-z))
    e("logistic by hand", lambda b, s, z, w: 1 / (1 + at.exp(-z)))
    e("sigmoid of a shifted predictor", lambda b, s, z, w: at.sigmoid(w + z))
    e("negated sigmoid of a negation", lambda b, s, z, w: 1 - at.sigmoid(-(z * s)))
    e("nested squares", lambda b, s, z, w: at.sqr(w) * at.sqrt(s) * z)
    e("reciprocal scale", lambda b, s, z, w: z / at.sqrt(1 + w**2))
    e("first element", lambda b, s, z, w: b[0] + z)
    e("reversed", lambda b, s, z, w: b[::-1] * z + w)
    e("indexed by data", lambda b, s, z, w: b[np.array([1, 1])] * w)
    e("concatenation", lambda b, s, z, w: at.concatenate([b[:1], z[1:]]) * w)
    e("stacked", lambda b, s, z, w: at.stack([w, b[0]]) - z)
    e("filled", lambda b, s, z, w: at.ones_like(z) * w)
    e("broadcast", lambda b, s, z, w: at.broadcast_to(w, z.shape) + b)
    e("repeated mean", lambda b, s, z, w: (z - z.mean()) / s)
    e("sum of columns", lambda b, s, z, w: at.stack([b, z], axis=1).dot(at.stack([w, w])))
    e("cast of a comparison", lambda b, s, z, w: at.cast(z > w, "float64") * b)
    e("identity powers", lambda b, s, z, w: z**1 + w**0 * b)
    e("product with zero", lambda b, s, z, w: z * 0 + w)
    e("unused reshape", lambda b, s, z, w: z.reshape((2, 1)).T[0] * w)
    e("dimension dropped", lambda b, s, z, w: (z[None] * w)[0])
    e("dimshuffled twice", lambda b, s, z, w: (z.dimshuffle("x", 0).dimshuffle(1, 0) * w)[:, 0])
    return out


ALONE = {"one operation, different constants", "one switch, different branches", "sum of three", "column against row", "switch on a random scalar", "transposed matrix plus row", "scalar used three times"}


def member(nm, f, finders, clone, chained):
    def build(res):
        m = M()
        X = m.mat("X", 2, 2)
        s = m.scalar("s")
        w = m.latent("w", m.srng.normal(0, s), ())
        b = m.latent("beta", m.srng.normal(w if chained else 0, m.vec("sd", 2)), (2,))
        mu = f(b, s, X @ b, w)
        obs = {}
        if chained:
            # the expression between two latents and below an observation
            t = m.latent("t", m.srng.normal(mu, at.exp(w)), (2,))
            Y = m.srng.normal((t * w)[:, None], at.exp(b))
            obs[Y] = at.matrix("y")
        else:
            Y = m.srng.normal(mu, 1.0)
            obs[Y] = at.vector("y")
        ins = {n: v for n, (v, _) in m.inp.items()}
        dom = {n: d for n, (_, d) in m.inp.items()}
        return build_case(nm, res, obs, ins, dom, m.srng, finders, clone)

    return build


for nm, f in family():
    check.add(f"{nm}", member(nm, f, True, True, False))
    check.add(f"{nm}, chained", member(nm, f, False, True, True), nm in ALONE)
    if nm in ALONE:
        check.add(f"{nm}, in place", member(nm, f, False, False, False))


def of_zoo(name, make, finders):
    def build(res):
        m = make()
        obs = {m.obs[n]: m.values[n] for n in m.obs}
        skip = {n.lower() for n in m.obs}
        used = set(graph_inputs(list(obs)))
        ins = {n: v for n, (v, _) in m.inputs.items() if n not in skip or v in used}
        dom = {n: d for n, (_, d) in m.inputs.items() if n in ins}
        if any(d.plus is not None for d in dom.values()):
            for n, (v, d) in m.inputs.items():
                ins.setdefault(n, v)
                dom.setdefault(n, d)
        return build_case(name, res, obs, ins, dom, m.srng, finders)

    return build


for k, (name, groups, make, quick, known) in enumerate(ZOO):
    check.add("zoo: " + name, of_zoo(name, make, k % 2 == 0), quick)
