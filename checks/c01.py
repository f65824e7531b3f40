"""C01: conjugate steps draw from the exact conditional posterior."""
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
from aev.env import Case, Claim, Dom
from aev.laws import add, beta_law, div, gamma_law, mul, noise_policy, sub, tokens_claim, total
from aev.report import Check, Violation, real

check = Check(
    "C01",
    "conjugate posteriors",
    assumptions=[
        "real arithmetic; counts are relaxed to non-negative reals",
        "beta/gamma draws have the law their parameters state (numpy's samplers)",
        "a latent that gets a NUTS step instead is not this property's subject (C08, C10)",
    ],
    bounds="latent shapes (), (2,), (3,), (2,2); observation shapes equal to the latent's or broadcasting it; scalar and vector hyperparameters",
    functions=[
        "aemcmc.basic.construct_sampler",
        "aemcmc.conjugates.gamma_poisson_conjugateo / local_gamma_poisson_posterior",
        "aemcmc.conjugates.beta_binomial_conjugateo / local_beta_binomial_posterior",
        "aemcmc.conjugates.beta_negative_binomial_conjugateo / local_beta_negative_binomial_posterior",
    ],
)

TENSORS = {0: at.scalar, 1: at.vector, 2: at.matrix}


def tens(name, shape, dtype="float64"):
    return at.TensorType(dtype, tuple(1 if k == 1 else None for k in shape))(name)


def bc(E, a, shape):
    return np.broadcast_to(a, shape)


def model(kind, latent, obs, hyper, nshape, size, known, wrap=None, obs_size=False):
    """kind: bb | gp | bnb; latent/obs: shapes; hyper: shape of a and b;
    size: give the prior an explicit size."""

    def build(res):
        srng = RandomStream(0)
        a, b = tens("a", hyper), tens("b", hyper)
        kw = {"size": latent} if size else {}
        okw = {"size": obs} if obs_size else {}
        ins = {"a": a, "b": b}
        dom = {"a": Dom("pos", hyper), "b": Dom("pos", hyper)}
        if kind == "gp":
            z = srng.gamma(a, b, name="z", **kw)
            Y = srng.poisson(z, name="Y", **okw)
        else:
            z = srng.beta(a, b, name="z", **kw)
            n = tens("n", nshape, "int64")
            ins["n"] = n
            dom["n"] = Dom("real", nshape, lo=0)
            op = srng.binomial if kind == "bb" else srng.negative_binomial
            Y = op(n, z, name="Y", **okw)
        y = Y.clone()
        y.name = "y"
        ins["y"] = y
        dom["y"] = Dom("real", obs, lo=0)
        sampler, init = real("construct_sampler", aemcmc.construct_sampler, {Y: y}, srng)
        step = sampler.sample_steps.get(z)
        if step is None:
            raise Violation("the latent has no sampling step", {"claim": "step"}, key="step")
        if sampler.parameters:
            # sampled by NUTS: exactness is C10's subject
            res.labels.append("not a closed-form step: no claim")
            return None
        ins["z0"] = init[z]
        dom["z0"] = Dom("pos", latent)

        def spec(E):
            def run(fixed):
                return E.run(noise=noise_policy(E, fixed))

            r = run({})
            out = r["step"]
            yield Claim("shape of the update", tuple(out.shape) == tuple(latent), kind="true")
            if tuple(out.shape) != tuple(latent):
                return
            yv = bc(E, E.inp["y"], obs)
            av, bv = bc(E, E.inp["a"], latent), bc(E, E.inp["b"], latent)
            nv = bc(E, E.inp["n"], obs) if "n" in ins else None
            # which observations belong to which latent element
            ids = np.empty(latent, dtype=object)
            for k in np.ndindex(*latent):
                ids[k] = k
            idb = np.broadcast_to(ids, obs) if len(obs) >= len(latent) else None
            used = []
            for k in np.ndindex(*latent):
                mine = [i for i in np.ndindex(*obs) if idb[i] == k]
                sy = total(E, [yv[i] for i in mine])
                if kind == "gp":
                    sh, sc, who = gamma_law(E, run, r, "step", k)
                    yield Claim(f"update[{k}] is a gamma draw", who is not None, kind="true")
                    if who is None:
                        continue
                    yield Claim(f"gamma shape[{k}]", sh, add(E, av[k], sy))
                    # prior written with rate b; posterior rate b + number of observations
                    yield Claim(f"gamma rate[{k}]", mul(E, sc, add(E, bv[k], len(mine))), 1)
                else:
                    pa, pb, who = beta_law(E, r, out[k], k)
                    yield Claim(f"update[{k}] is a beta draw", who is not None, kind="true")
                    if who is None:
                        continue
                    sn = total(E, [nv[i] for i in mine])
                    if kind == "bb":
                        ea, eb = add(E, av[k], sy), sub(E, add(E, bv[k], sn), sy)
                        wa, wb = ea, eb
                    else:
                        # aesara's NB(n, p): pmf proportional to p^n (1-p)^y
                        ea, eb = add(E, av[k], sn), add(E, bv[k], sy)
                        wa, wb = add(E, av[k], sy), add(E, bv[k], sn)
                    c1, c2 = Claim(f"beta first parameter[{k}]", pa, ea), Claim(f"beta second parameter[{k}]", pb, eb)
                    if known and kind == "bnb":
                        c1.known = (known, (pa, wa))
                        c2.known = (known, (pb, wb))
                    yield c1
                    yield c2
                used.append(who)
            yield Claim("elements are drawn independently", len(set(used)) == len(used), kind="true")
            yield from tokens_claim(r.draws, "step")

        return Case(
            "c01", ins, {"step": step}, dom, spec,
            info={"functions": ["aemcmc.construct_sampler"]},
        )

    return build


KF = "beta-negative-binomial-swapped"
for kind in ("bb", "gp", "bnb"):
    k = KF if kind == "bnb" else None
    for nm, latent, obs, hyper, nsh, size, q in [
        ("scalar", (), (), (), (), False, True),
        ("vector", (3,), (3,), (3,), (3,), False, True),
        ("vector size", (2,), (2,), (), (2,), True, True),
        ("vector size scalar n", (3,), (3,), (), (), True, True),
        ("matrix", (2, 2), (2, 2), (2, 2), (2, 2), False, True),
        ("matrix size, row hyper", (2, 2), (2, 2), (2,), (), True, True),
        ("length-one", (1,), (1,), (1,), (1,), False, True),
    ]:
        check.add(f"{kind} {nm}", model(kind, latent, obs, hyper, nsh, size, k), quick=q)
    # several observations share a latent
    check.add(f"{kind} shared latent, sized observations", model(kind, (), (3,), (), (), False, k, obs_size=True))
    check.add(f"{kind} row of latents, matrix of observations", model(kind, (2,), (3, 2), (2,), (), False, k, obs_size=True))
    check.add(f"{kind} length-one latent, vector observations", model(kind, (1,), (3,), (1,), (), False, k, obs_size=True))
    if kind != "gp":
        check.add(f"{kind} shared latent, vector trials", model(kind, (), (3,), (), (3,), False, k))
        check.add(f"{kind} row of latents, matrix of trials", model(kind, (2,), (3, 2), (2,), (3, 2), False, k))
        check.add(f"{kind} shared latent, matrix trials", model(kind, (), (2, 2), (), (2, 2), False, k))
