"""C04: negative-binomial regression coefficient update."""
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
from aemcmc import gibbs
from aev.env import Case, Claim, Dom
from aev.laws import add, mul, sub
from aev.regress import pg_regression_claims
from aev.report import Check, Violation, real

check = Check(
    "C04",
    "negative-binomial regression Gibbs step",
    assumptions=[
        "real arithmetic; counts relaxed to non-negative reals",
        "Polson-Scott-Windle identity for NB(h, sigmoid(-x beta)) with pmf proportional to p^h (1-p)^y: with omega_i ~ PG(y_i + h, x_i beta) the conditional of beta is N(A^-1 X'(y - h)/2, A^-1), A = X' diag(omega) X + diag(sd^-2)",
        "Cholesky abstracted by its contract; the Polya-Gamma sampler itself is trusted (C18)",
    ],
    bounds="design matrices n x p with n,p <= 3 (see cases), scalar and per-observation dispersion, known or gamma-distributed dispersion",
    functions=[
        "aemcmc.construct_sampler",
        "aemcmc.gibbs.nbinom_logistic_finder",
        "aemcmc.gibbs.nbinom_normal_posterior",
        "aemcmc.gibbs.normal_regression_posterior",
        "aemcmc.dists.multivariate_normal_rue2005",
        "aemcmc.dists.multivariate_normal_cong2017",
    ],
)


def mk(n, p, ins, out, hshape, name, sdshape):
    def spec(E):
        X, beta, y = E.inp["X"], E.inp["beta"], E.inp["y"]
        h = np.broadcast_to(E.inp["h"], (n,))
        sd = np.broadcast_to(E.inp["sd"], (p,))
        half = E.num(1) / 2
        kap = [mul(E, half, sub(E, y[i], h[i])) for i in range(n)]
        sh = [add(E, y[i], h[i]) for i in range(n)]
        yield from pg_regression_claims(E, "out", n, p, X, beta, sd, sh, kap, name)

    dom = {
        "beta": Dom("real", (p,)),
        "sd": Dom("pos", sdshape),
        "X": Dom("real", (n, p)),
        "h": Dom("pos", hshape),
        "y": Dom("int", (n,), lo=0),
    }
    for k in ins:
        if k not in dom:
            dom[k] = Dom("pos", ())
    return Case(name, ins, {"out": out}, dom, spec)


def direct(n, p, hvec):
    def build(res):
        srng = RandomStream(0)
        beta, sd, X, y = at.vector("beta"), at.vector("sd"), at.matrix("X"), at.lvector("y")
        h = at.vector("h") if hvec else at.scalar("h")
        out = real("nbinom_normal_posterior", gibbs.nbinom_normal_posterior, srng, beta, sd, X, h, y)
        return mk(n, p, {"beta": beta, "sd": sd, "X": X, "h": h, "y": y}, out, (n,) if hvec else (), "nbinom_normal_posterior", (p,))

    return build


def sampler(n, p, hkind, scalar_sd=False):
    def build(res):
        srng = RandomStream(0)
        X = at.matrix("X")
        sd = at.scalar("sd") if scalar_sd else at.vector("sd")
        beta = srng.normal(0, sd, size=X.shape[1], name="beta") if scalar_sd else srng.normal(0, sd, name="beta")
        ins = {}
        if hkind == "rv":
            a, b = at.scalar("a"), at.scalar("b")
            hh = srng.gamma(a, b, name="h")
            ins = {"a": a, "b": b}
        else:
            hh = at.scalar("h") if hkind == "scalar" else at.vector("h")
        Y = srng.nbinom(hh, at.sigmoid(-(X @ beta)), name="Y")
        y = Y.clone()
        y.name = "y"
        s, init = real("construct_sampler", aemcmc.construct_sampler, {Y: y}, srng)
        if s.parameters:
            res.labels.append("sampled by NUTS: no claim")
            return None
        hv = init[hh] if hkind == "rv" else hh
        ins = {"beta": init[beta], "sd": sd, "X": X, "h": hv, "y": y, **ins}
        out = s.sample_steps[beta]
        return mk(n, p, ins, out, (n,) if hkind == "vector" else (), "nbinom_logistic step", () if scalar_sd else (p,))

    return build


for n, p in ((1, 1), (2, 1), (2, 2), (1, 2), (3, 2), (2, 3)):
    check.add(f"function n={n} p={p}", direct(n, p, False))
for n, p in ((2, 1), (2, 2), (2, 3)):
    check.add(f"function n={n} p={p} vector h", direct(n, p, True))
for n, p in ((1, 1), (2, 2), (1, 2)):
    for hk in ("scalar", "vector", "rv"):
        check.add(f"sampler n={n} p={p} h={hk}", sampler(n, p, hk))
check.add("sampler n=2 p=2 scalar sd", sampler(2, 2, "scalar", True))
check.add("sampler n=1 p=2 scalar sd, h rv", sampler(1, 2, "rv", True))
check.add("function n=3 p=3", direct(3, 3, False), quick=False)
check.add("function n=3 p=3 vector h", direct(3, 3, True), quick=False)
