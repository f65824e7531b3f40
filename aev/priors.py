"""Models one prior family, link or likelihood away from a supported form."""
import aesara.tensor as at
import numpy as np

from .zoo import HMAX, M, bern, design, nb, trials

NEAR = []


def entry(name, quick=True):
    def deco(f):
        def make(supply="input"):
            m = M()
            m.supply = supply
            f(m)
            return m.done()

        NEAR.append((name, make, quick))
        return f

    return deco


# families of variables above zero, of any length
POS = {
    "log-normal": lambda m, **k: m.srng.lognormal(m.scalar("loc", "real"), m.scalar("sc"), **k),
    "Weibull": lambda m, **k: m.srng.weibull(m.scalar("sh"), **k),
    "inverse-gamma": lambda m, **k: m.srng.invgamma(m.scalar("sh"), m.scalar("sc"), **k),
    "chi-square": lambda m, **k: m.srng.chisquare(m.scalar("df"), **k),
    "exponential": lambda m, **k: m.srng.exponential(m.scalar("sc"), **k),
    "half-normal": lambda m, **k: m.srng.halfnormal(0.0, m.scalar("sc"), **k),
    "half-Cauchy": lambda m, **k: m.srng.halfcauchy(0.0, m.scalar("sc"), **k),
    "uniform": lambda m, **k: m.srng.uniform(0.0, m.scalar("w"), **k),
    "gamma": lambda m, **k: m.srng.gamma(m.scalar("sh"), m.scalar("sc"), **k),
}
REAL = {
    "Laplace": lambda m, **k: m.srng.laplace(0.0, m.scalar("sc"), **k),
    "logistic": lambda m, **k: m.srng.logistic(0.0, m.scalar("sc"), **k),
    "Gumbel": lambda m, **k: m.srng.gumbel(0.0, m.scalar("sc"), **k),
    "Cauchy": lambda m, **k: m.srng.cauchy(0.0, m.scalar("sc"), **k),
    "Student t": lambda m, **k: m.srng.t(m.scalar("nu"), 0.0, m.scalar("sc"), **k),
}

for fam, f in POS.items():
    if fam != "gamma":

        @entry(f"negative-binomial regression, {fam} dispersion")
        def _(m, f=f):
            X = design(m)
            b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
            h = m.latent("h", f(m), hi=HMAX)
            m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))

        @entry(f"Poisson, {fam} rate")
        def _(m, f=f):
            m.observe("Y", m.srng.poisson(m.latent("r", f(m))))

        @entry(f"two Poissons, {fam} rates")
        def _(m, f=f):
            m.observe("Y", m.srng.poisson(m.latent("r", f(m, size=2), (2,))), shape=(2,))

    if fam != "half-Cauchy":

        @entry(f"horseshoe, {fam} global scale")
        def _(m, f=f):
            X = design(m, 2, 2)
            tau = m.latent("tau", f(m))
            lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
            b = m.latent("beta", m.srng.normal(0, lam * tau, size=2), (2,))
            bern(m, -(X @ b))

        @entry(f"horseshoe, {fam} local scales")
        def _(m, f=f):
            X = design(m, 2, 2)
            tau = m.latent("tau", m.srng.halfcauchy(0, 1.0))
            lam = m.latent("lam", f(m, size=2))
            b = m.latent("beta", m.srng.normal(0, lam * tau, size=2), (2,))
            bern(m, -(X @ b))


# with the parameters of a standard half-Cauchy
ZERO_ONE = {
    "half-normal(0, 1)": lambda m, **k: m.srng.halfnormal(0.0, 1.0, **k),
    "log-normal(0, 1)": lambda m, **k: m.srng.lognormal(0.0, 1.0, **k),
    "uniform(0, 1)": lambda m, **k: m.srng.uniform(0.0, 1.0, **k),
}

for fam, f in ZERO_ONE.items():
    for order in ("local first", "global first"):
        for part in ("local", "global"):

            @entry(f"horseshoe, {fam} {part} scale, {order}")
            def _(m, f=f, order=order, part=part):
                X = design(m, 2, 2)
                hc = lambda m, **k: m.srng.halfcauchy(0.0, 1.0, **k)
                tau = m.latent("tau", (f if part == "global" else hc)(m))
                lam = m.latent("lam", (f if part == "local" else hc)(m, size=2))
                sd = lam * tau if order == "local first" else tau * lam
                b = m.latent("beta", m.srng.normal(0, sd, size=2), (2,))
                bern(m, -(X @ b))


for fam, f in {**REAL, **POS}.items():

    @entry(f"logistic regression, {fam} coefficients")
    def _(m, f=f):
        X = design(m)
        b = m.latent("beta", f(m, size=1), (1,))
        bern(m, -(X @ b))

    @entry(f"negative-binomial regression, {fam} coefficients")
    def _(m, f=f):
        X = design(m)
        b = m.latent("beta", f(m, size=1), (1,))
        nb(m, m.scalar("h", hi=HMAX), -(X @ b))


LINKS = {
    "minus twice the predictor": lambda X, b: at.sigmoid(-2.0 * (X @ b)),
    "half the predictor": lambda X, b: at.sigmoid(-0.5 * (X @ b)),
    "exponential of the predictor": lambda X, b: at.sigmoid(-at.exp(X @ b)),
    "squared predictor": lambda X, b: at.sigmoid(-((X @ b) ** 2)),
    "squared coefficients": lambda X, b: at.sigmoid(-(X @ b**2)),
    "offset": lambda X, b: at.sigmoid(-(X @ b) + 1.0),
    "offset inside": lambda X, b: at.sigmoid(-((X @ b) + 1.0)),
    "complementary log-log": lambda X, b: at.exp(-at.exp(X @ b)),
    "square of the sigmoid": lambda X, b: at.sigmoid(-(X @ b)) ** 2,
    "half the sigmoid": lambda X, b: 0.5 * at.sigmoid(-(X @ b)),
    "one minus the sigmoid": lambda X, b: 1 - at.sigmoid(-(X @ b)),
    "quotient": lambda X, b: 1 / (1 + at.exp(X @ b)),
    "predictor from the other side": lambda X, b: at.sigmoid(-(b @ X.T)),
    "transposed matrix": lambda X, b: at.sigmoid(-(X.T.T @ b)),
    "elementwise product": lambda X, b: at.sigmoid(-(X * b).sum(axis=1)),
    "first row for all": lambda X, b: at.sigmoid(-(X @ b)[0]) * np.ones(2),
}

for what, f in LINKS.items():

    @entry(f"logistic regression, {what}")
    def _(m, f=f):
        X = design(m)
        b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
        m.observe("Y", m.srng.bernoulli(f(X, b)), value=np.array([1, 0]), alt=np.array([0, 1]))

    if what == "complementary log-log":
        continue

    @entry(f"negative-binomial regression, {what}")
    def _(m, f=f):
        X = design(m)
        b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
        m.observe("Y", m.srng.nbinom(m.scalar("h", hi=HMAX), f(X, b)), shape=(2,))


RATES = {
    "twice the rate": lambda r: 2.0 * r,
    "inverse rate": lambda r: 1 / r,
    "squared rate": lambda r: r**2,
    "square root of the rate": lambda r: at.sqrt(r),
    "shifted rate": lambda r: r + 1.0,
    "exponential of the rate": lambda r: at.exp(-r),
}

for what, f in RATES.items():

    @entry(f"gamma-Poisson, {what}")
    def _(m, f=f):
        r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
        m.observe("Y", m.srng.poisson(f(r)))


PROBS = {
    "squared p": lambda p: p**2,
    "half p": lambda p: 0.5 * p,
    "square root of p": lambda p: at.sqrt(p),
    "one minus p": lambda p: 1 - p,
}

for what, f in PROBS.items():

    @entry(f"beta-binomial, {what}")
    def _(m, f=f):
        p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
        m.observe("Y", m.srng.binomial(trials(m), f(p)), noalt=True)

    @entry(f"beta-negative-binomial, {what}")
    def _(m, f=f):
        p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
        m.observe("Y", m.srng.nbinom(m.scalar("n", hi=HMAX), f(p)))


@entry("negative binomial with uniform prior")
def _(m):
    p = m.latent("p", m.srng.uniform(0, 1))
    m.observe("Y", m.srng.nbinom(m.scalar("n", hi=HMAX), p))


@entry("two binomials with uniform priors")
def _(m):
    p = m.latent("p", m.srng.uniform(0, 1, size=2), (2,))
    m.observe("Y", m.srng.binomial(trials(m, 2), p), shape=(2,), noalt=True)


@entry("beta prior of a Poisson rate")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(p))


@entry("gamma prior of an exponential scale")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.exponential(r), kind="pos")


@entry("beta prior of a Bernoulli probability")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.bernoulli(p), value=1, alt=0)


@entry("gamma prior of a Poisson rate and of its own shape")
def _(m):
    a = m.latent("a", m.srng.gamma(m.scalar("c"), m.scalar("d")))
    r = m.latent("r", m.srng.gamma(a, a))
    m.observe("Y", m.srng.poisson(r))
