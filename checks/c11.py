"""C11: every sweep consumes fresh, independent randomness."""
import itertools

import aesara.tensor as at
import numpy as np

from aev.boot import THOROUGH
from aev.model import Sweep
from aev.report import Check, real
from aev.streams import LOOP, check_history, compiled
from aev.zoo import ZOO

check = Check(
    "C11",
    "fresh randomness",
    assumptions=[
        "generator states are (stream, position) pairs; a draw moves its generator on by an arbitrary positive amount, also one that differs from draw to draw",
        "the generators of one RandomStream start separate streams (aesara's seeding)",
        "the NUTS kernel is replaced by a stand-in that draws from a generator with a default update, from one with an explicit update and inside a loop; aehmc's own draws are outside",
    ],
    bounds=f"three calls in a row, from any positions of the generators, of the function aesara.function compiles from all steps, each step alone and (thorough) each subset, and of two such functions in turn; loops of up to {LOOP} iterations with an arbitrary trip count; models of aev/zoo.py in the group mixed and selected others",
    functions=["aemcmc.basic.construct_sampler (its updates)", "aemcmc.nuts.construct_sampler (its updates)", "aemcmc.gibbs.sample_CRT", "aemcmc.gibbs.nbinom_logistic_finder", "aemcmc.types.SamplingStep", "aesara.function's output for them"],
)




def numbers(sw):
    m, args, var = sw.m, {}, []
    for n, (v, d) in sorted(m.inputs.items(), key=lambda e: e[1][1].plus is not None):
        a = d.numbers({}, n, v.type.dtype)
        if np.asarray(a).dtype.kind in "iu":
            # loops over counts go round
            a = np.full_like(a, 6 if d.hi is None else d.hi)
        if d.plus is not None:
            a = np.asarray(a + args[d.plus], dtype=v.type.dtype)
        args[n] = a
        var.append((v, a))
    for n in m.latents:
        var.append((sw.I[n], sw.dom(n).numbers({}, "init_" + n, sw.I[n].type.dtype)))
    sw.qsize = sum(int(np.prod(sw.shape[n])) for n in sw.nuts_names())
    for i, p in enumerate(sw.params):
        var.append((p, np.ones([sw.qsize] * p.type.ndim, dtype=p.type.dtype)))
    for k, r in enumerate(sw.made):
        if "probe" in r:
            var.append((r["probe"], np.zeros(sw.qsize)))
    return var


def add(name, make, quick):
    def build(res):
        m = make()
        sw = Sweep(m, res, draws="many")
        var = numbers(sw)
        names = list(m.latents)
        subsets = [tuple(names)] + [(n,) for n in names if len(names) > 1]
        if THOROUGH:
            subsets += [c for r in range(2, len(names)) for c in itertools.combinations(names, r)]
        fns = {}
        for sub in subsets:
            outs = [sw.sampler.sample_steps[m.latents[n]] for n in sub]
            fns[sub] = real(f"compiling the steps of {'+'.join(sub)}", compiled, [v for v, _ in var], outs,
                            updates=sw.sampler.updates)
        args = [a for _, a in var]

        def history(subs):
            calls = [(f"call {i + 1} ({'+'.join(s)})", fns[s], args) for i, s in enumerate(subs)]
            return check_history(res, name, calls, f"steps of {' then '.join('+'.join(s) for s in dict.fromkeys(subs))}")

        n = 0
        for sub in subsets:
            n += len(history([sub] * 3).uses)
        if len(names) > 1:
            for sub in subsets[1:]:
                history([subsets[0], sub, subsets[0], sub])
        res.samples.append({"case": name, "functions": ["+".join(s) for s in subsets], "draws": n})

    check.add(name, build, quick)


for name, groups, make, quick, known in ZOO:
    if groups & {"mixed", "match"} or name in ("nuts: three levels", "nuts: uniform below an earlier uniform"):
        add(name, make, quick)


def real_kernel(res):
    """aehmc's own kernel: it draws the momentum again wherever it is used, so
    only draws of different calls are compared."""
    import aemcmc

    srng = at.random.RandomStream(0)
    X, y = at.matrix("X"), at.lvector("y")
    s0 = srng.halfnormal(0.0, 1.0, name="s0")
    b = srng.normal(0.0, s0, size=(2,), name="b")
    Y = srng.bernoulli(at.sigmoid(X @ b))
    sampler, init = real("constructing a sampler", aemcmc.construct_sampler, {Y: y}, srng)
    ps = [p for v in sampler.parameters.values() for p in v]
    inputs = [y, X, init[s0], init[b], *ps]
    fn = real("compiling the steps", compiled, inputs, list(sampler.sample_steps.values()), updates=sampler.updates)
    args = [np.array([0, 1]), np.eye(2), 1.0, np.ones(2), 0.1] + [np.ones([3] * p.type.ndim) for p in ps[1:]]
    s = check_history(res, "aehmc kernel", [(f"call {k + 1}", fn, args) for k in range(3)], "steps of s0+b with aehmc's kernel", cross=True)
    res.samples.append({"case": "aehmc kernel", "draws": len(s.uses)})


check.add("aehmc's own kernel", real_kernel)
