"""C06: horseshoe shrinkage update."""
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
from aemcmc import gibbs
from aev.env import Case, Claim, Dom
from aev.graphs import cut
from aev.laws import add, distinct_tokens, div, mul, noise_elems, total
from aev.report import Check, Violation, real

check = Check(
    "C06",
    "horseshoe step",
    assumptions=[
        "real arithmetic",
        "half-Cauchy as a mixture of inverse gammas: x^2 | u ~ IG(1/2, 1/u), u ~ IG(1/2, 1); hence 1/u | x ~ Exp(rate 1 + 1/x^2), 1/lambda_j^2 | . ~ Exp(rate 1/u_j + beta_j^2 / (2 tau^2 sigma^2)), 1/tau^2 | . ~ Gamma((p+1)/2, rate 1/z + sum beta_j^2/lambda_j^2 / (2 sigma^2))",
    ],
    bounds="p in 1..3 coefficients (4 thorough), p = 12 and 64 with two non-zero ones; scalar and length-one global scale; function called directly and through construct_sampler (observed coefficients, Bernoulli and negative-binomial regression)",
    functions=[
        "aemcmc.construct_sampler",
        "aemcmc.gibbs.normal_horseshoe_finder",
        "aemcmc.gibbs.horseshoe_match",
        "aemcmc.gibbs.horseshoe_posterior",
    ],
)


def mentions(E, value):
    """Noise names occurring in a value (symbolic runs), else None."""
    if not E.symbolic:
        return None
    from aev.core import V
    from aev.solve import tvars

    if not isinstance(value, V):
        return set()
    return tvars(value.z3()) & set(E.ctx.vars)


def exp_atoms(E, draws, value):
    names = mentions(E, value)
    out = []
    for d, i in noise_elems(draws, ("stdgamma",)):
        if names is not None and d.names[i] not in names:
            continue
        out.append((d, i, d.law(i)[1][0]))
    return out


def horseshoe_claims(E, r, beta, lam, tau, sigma2, lam_out, tau_out, label, only=None):
    p = len(beta)
    js = range(p) if only is None else only
    one = E.num(1)
    used = []
    yield Claim(f"{label}: every draw uses its own random state", distinct_tokens(r.draws), kind="true")
    ok_shape = len(lam_out) == p and len(tau_out) == 1
    yield Claim(f"{label}: shapes of the updates", ok_shape, kind="true")
    if not ok_shape:
        return
    inv2 = [div(E, one, mul(E, l, l)) for l in lam_out]
    for j in js:
        v = inv2[j]
        at_ = [(d, i) for d, i, s in exp_atoms(E, r.draws, v) if E.same(s, one)]
        half_b2 = div(E, mul(E, beta[j], beta[j]), mul(E, E.num(2), mul(E, tau, tau), sigma2))
        hit = None
        for u in at_:
            ups = div(E, u[0].noise[u[1]], add(E, one, div(E, one, mul(E, lam[j], lam[j]))))
            rate = add(E, ups, half_b2)
            for e in at_:
                if e is u or hit:
                    continue
                if E.same(mul(E, v, rate), e[0].noise[e[1]]):
                    hit = (u, e)
            if hit:
                break
        yield Claim(f"{label}: 1/lambda_{j}^2 is an exponential draw with rate 1/u_{j} + beta_{j}^2/(2 tau^2 sigma^2), 1/u_{j} ~ Exp(1 + 1/lambda_{j}^2)",
                    hit is not None, kind="true")
        if hit:
            used += [(h[0].token, h[1]) for h in hit]
            u, e = hit
            ups = div(E, u[0].noise[u[1]], add(E, one, div(E, one, mul(E, lam[j], lam[j]))))
            yield Claim(f"{label}: lambda_{j} conditional", mul(E, v, add(E, ups, half_b2)), e[0].noise[e[1]])
    tv = div(E, one, mul(E, tau_out[0], tau_out[0]))
    pen = total(E, [mul(E, beta[j], beta[j], inv2[j]) for j in range(p) if not E.same(beta[j], E.num(0))], E.num(0))
    pen = div(E, pen, mul(E, E.num(2), sigma2))
    atoms = exp_atoms(E, r.draws, tv)
    gs = [(d, i) for d, i, s in atoms if E.same(s, div(E, E.num(p + 1), E.num(2)))]
    zs = [(d, i) for d, i, s in atoms if E.same(s, one)]
    hit = None
    for z in zs:
        if (z[0].token, z[1]) in used:
            continue
        ze = div(E, z[0].noise[z[1]], add(E, one, div(E, one, mul(E, tau, tau))))
        rate = add(E, ze, pen)
        for g in gs:
            if (g[0].token, g[1]) == (z[0].token, z[1]) or (g[0].token, g[1]) in used:
                continue
            if E.same(mul(E, tv, rate), g[0].noise[g[1]]):
                hit = (z, g)
                break
        if hit:
            break
    yield Claim(f"{label}: 1/tau^2 is a Gamma((p+1)/2) draw with rate 1/z + sum beta^2/lambda'^2/(2 sigma^2), 1/z ~ Exp(1 + 1/tau^2)",
                hit is not None, kind="true")
    if hit:
        used += [(h[0].token, h[1]) for h in hit]
    yield Claim(f"{label}: the {2 * len(js) + 2} draws are distinct", len(set(used)) == len(used), kind="true")
    for k, v in enumerate(list(lam_out) + list(tau_out)):
        c = (v > 0) if not E.symbolic else None
        if E.symbolic:
            from aev import core

            c = core.cmp(v, 0, "gt")
        yield Claim(f"{label}: update {k} is positive", c, kind="true")


def direct(p, tau_vec):
    def build(res):
        srng = RandomStream(0)
        beta, lam2 = at.vector("beta"), at.vector("lam2")
        s2 = at.scalar("s2")
        tau2 = at.TensorType("float64", (1,))("tau2") if tau_vec else at.scalar("tau2")
        lo, to = real("horseshoe_posterior", gibbs.horseshoe_posterior, srng, beta, s2, lam2, tau2)

        def spec(E):
            r = E.run()
            lam = [E.sqrt(v) for v in E.inp["lam2"]]
            tau = E.sqrt(E.inp["tau2"].ravel()[0])
            yield from horseshoe_claims(E, r, list(E.inp["beta"]), lam, tau, E.inp["s2"][()],
                                        list(r["lam"].ravel()), list(r["tau"].ravel()), "horseshoe_posterior")

        return Case("direct", {"beta": beta, "lam2": lam2, "s2": s2, "tau2": tau2}, {"lam": lo, "tau": to},
                    {"beta": Dom("real", (p,)), "lam2": Dom("pos", (p,)), "s2": Dom("pos"),
                     "tau2": Dom("pos", (1,) if tau_vec else ())}, spec)

    return build


def wide(p, where):
    """Many coefficients, all zero but those at two positions."""

    def build(res):
        srng = RandomStream(0)
        some = at.vector("some")
        beta = at.set_subtensor(at.zeros(p)[np.array(where)], some)
        lam2, s2, tau2 = at.vector("lam2"), at.scalar("s2"), at.scalar("tau2")
        lo, to = real("horseshoe_posterior", gibbs.horseshoe_posterior, srng, beta, s2, lam2, tau2)
        only = sorted({0, *where, p // 2, p - 1})

        def spec(E):
            r = E.run()
            bv = [E.num(0)] * p
            for k, j in enumerate(where):
                bv[j] = E.inp["some"][k]
            lam = [E.sqrt(v) for v in E.inp["lam2"]]
            yield from horseshoe_claims(E, r, bv, lam, E.sqrt(E.inp["tau2"][()]), E.inp["s2"][()],
                                        list(r["lam"].ravel()), list(r["tau"].ravel()), "horseshoe_posterior", only)

        return Case("wide", {"some": some, "lam2": lam2, "s2": s2, "tau2": tau2}, {"lam": lo, "tau": to},
                    {"some": Dom("real", (len(where),)), "lam2": Dom("pos", (p,)), "s2": Dom("pos"), "tau2": Dom("pos")}, spec)

    return build


def sampler(p, kind, tau_vec=False, swap=False):
    def build(res):
        srng = RandomStream(0)
        X = at.matrix("X")
        size = X.shape[1] if kind != "obs" else at.lscalar("size")
        tau = srng.halfcauchy(0, 1, size=1, name="tau") if tau_vec else srng.halfcauchy(0, 1, name="tau")
        lam = srng.halfcauchy(0, 1, size=size, name="lam")
        beta = srng.normal(0, tau * lam if swap else lam * tau, size=size, name="beta")
        bv = at.vector("bv")
        if kind == "obs":
            obs = {beta: bv}
        elif kind == "bern":
            Y = srng.bernoulli(at.sigmoid(-(X @ beta)), name="Y")
            obs = {Y: at.lvector("y")}
        else:
            Y = srng.nbinom(at.scalar("h"), at.sigmoid(-(X @ beta)), name="Y")
            obs = {Y: at.lvector("y")}
        s, init = real("construct_sampler", aemcmc.construct_sampler, obs, srng)
        if s.parameters:
            raise Violation("the horseshoe model does not get the horseshoe update", key="horseshoe step")
        steps = [s.sample_steps[lam], s.sample_steps[tau]]
        if kind != "obs":
            from aesara.graph.basic import clone_replace

            steps = clone_replace(steps, replace={s.sample_steps[beta]: bv, init[beta]: bv})

        def spec(E):
            r = E.run()
            yield from horseshoe_claims(E, r, list(E.inp["beta"]), list(E.inp["lam"]), E.inp["tau"].ravel()[0],
                                        E.num(1), list(r["lam'"].ravel()), list(r["tau'"].ravel()), "horseshoe step")

        return Case("sampler", {"beta": bv, "lam": init[lam], "tau": init[tau]},
                    {"lam'": steps[0], "tau'": steps[1]},
                    {"beta": Dom("real", (p,)), "lam": Dom("pos", (p,)), "tau": Dom("pos", (1,) if tau_vec else ())}, spec)

    return build


for p in (1, 2, 3):
    check.add(f"function p={p}", direct(p, False))
    check.add(f"function p={p} length-one tau", direct(p, True))
    check.add(f"sampler p={p} observed coefficients", sampler(p, "obs"))
check.add("sampler p=2 observed coefficients, length-one tau", sampler(2, "obs", True))
check.add("sampler p=2 observed coefficients, tau * lambda", sampler(2, "obs", False, True))
check.add("function p=12, two coefficients that are not zero", wide(12, (3, 11)))
check.add("function p=64, two coefficients that are not zero", wide(64, (0, 40)))
for k in ("bern", "nbinom"):
    check.add(f"sampler p=2 {k} regression", sampler(2, k))
    check.add(f"sampler p=3 {k} regression, length-one tau", sampler(3, k, True))
check.add("function p=4", direct(4, False), quick=False)
check.add("sampler p=4 observed coefficients", sampler(4, "obs"), quick=False)
