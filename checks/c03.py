"""C03: Bernoulli regression coefficient update."""
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
from aemcmc import gibbs
from aev.env import Case, Claim, Dom
from aev.laws import add, mul, sub
from aev.regress import pg_regression_claims
from aev.report import Check, Violation, real

check = Check(
    "C03",
    "logistic regression Gibbs step",
    assumptions=[
        "real arithmetic; labels relaxed to reals in [0, 1]",
        "Polson-Scott-Windle identity: with omega_i ~ PG(1, x_i beta) the conditional of beta is N(A^-1 X'(y - 1/2), A^-1) when P(y=1) = sigmoid(x beta), with X'(1/2 - y) when P(y=1) = sigmoid(-x beta), A = X' diag(omega) X + diag(sd^-2); PG(h, z) = PG(h, -z)",
        "Cholesky abstracted by its contract; the Polya-Gamma sampler itself is trusted (C18)",
    ],
    bounds="design matrices n x p with (n,p) in {1,2,3}x{1,2,3} (see cases), vector and scalar prior standard deviations",
    functions=[
        "aemcmc.construct_sampler",
        "aemcmc.gibbs.bern_logistic_finder",
        "aemcmc.gibbs.bern_normal_posterior",
        "aemcmc.gibbs.normal_regression_posterior",
        "aemcmc.dists.multivariate_normal_rue2005",
        "aemcmc.dists.multivariate_normal_cong2017",
    ],
)


def direct(n, p):
    def build(res):
        srng = RandomStream(0)
        beta, sd, X, y = at.vector("beta"), at.vector("sd"), at.matrix("X"), at.lvector("y")
        out = real("bern_normal_posterior", gibbs.bern_normal_posterior, srng, beta, sd, X, y)
        return mk(n, p, {"beta": beta, "sd": sd, "X": X, "y": y}, out, (p,))

    return build


# bern_normal_posterior documents P(y = 1) = 1 / (1 + exp(-x beta)); the models the
# sampler constructor matches are Y ~ Bernoulli(sigmoid(-(X @ beta)))
def mk(n, p, ins, out, sdshape, name="bern_normal_posterior", sign=1):
    def spec(E):
        X, beta, y = E.inp["X"], E.inp["beta"], E.inp["y"]
        sd = np.broadcast_to(E.inp["sd"], (p,))
        half = E.num(1) / 2
        kap = [mul(E, sign, sub(E, y[i], half)) for i in range(n)]
        yield from pg_regression_claims(E, "out", n, p, X, beta, sd, [1] * n, kap, name)

    return Case(
        name, ins, {"out": out},
        {
            "beta": Dom("real", (p,)),
            "sd": Dom("pos", sdshape),
            "X": Dom("real", (n, p)),
            "y": Dom("int", (n,), lo=0, hi=1),
        },
        spec,
    )


def sampler(n, p, scalar_sd=False, const_X=False):
    def build(res):
        srng = RandomStream(0)
        X = at.matrix("X")
        sd = at.scalar("sd") if scalar_sd else at.vector("sd")
        beta = srng.normal(0, sd, size=X.shape[1], name="beta") if scalar_sd else srng.normal(0, sd, name="beta")
        Y = srng.bernoulli(at.sigmoid(-(X @ beta)), name="Y")
        y = Y.clone()
        y.name = "y"
        s, init = real("construct_sampler", aemcmc.construct_sampler, {Y: y}, srng)
        if s.parameters:
            res.labels.append("sampled by NUTS: no claim")
            return None
        out = s.sample_steps[beta]
        return mk(n, p, {"beta": init[beta], "sd": sd, "X": X, "y": y}, out, () if scalar_sd else (p,), "bern_logistic step", sign=-1)

    return build


for n, p in ((1, 1), (2, 1), (2, 2), (1, 2), (3, 2), (2, 3), (1, 3)):
    check.add(f"function n={n} p={p}", direct(n, p))
for n, p in ((1, 1), (2, 2), (1, 2), (3, 1)):
    check.add(f"sampler n={n} p={p}", sampler(n, p))
    check.add(f"sampler n={n} p={p} scalar sd", sampler(n, p, True))
check.add("function n=3 p=3", direct(3, 3), quick=False)
