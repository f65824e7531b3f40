"""Models, written with the public aesara API only.

Each entry is (name, groups, maker); groups say which checks use it:
  match  - a specialised update is expected to be usable (not required)
  near   - one detail away from a matched model
  mixed  - several latents, several kinds of updates
  nuts   - NUTS only
"""
import aesara
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from .env import Dom
from .model import Model

ZOO = []
# aeppl switches to a Poisson approximation above 1e10
HMAX = 10**9


class M:
    """Small builder around Model."""

    #: what data are: symbolic inputs, shared variables or constants
    supply = "input"

    def __init__(self):
        self.srng = RandomStream(0)
        self.fixed = {}
        self.lat, self.obs, self.val = {}, {}, {}
        self.inp, self.shapes, self.alt, self.upper = {}, {}, {}, {}

    def scalar(self, n, kind="pos", **kw):
        return self.data(n, (at.lscalar if kind == "int" else at.scalar)(n), Dom(kind, **kw))

    def vec(self, n, k, kind="pos", **kw):
        return self.data(n, (at.lvector if kind == "int" else at.vector)(n), Dom(kind, (k,), **kw))

    def mat(self, n, a, b, kind="real"):
        return self.data(n, at.matrix(n), Dom(kind, (a, b)))

    def data(self, n, v, dom):
        if self.supply != "input":
            x = dom.numbers({}, n, v.type.dtype)
            if dom.plus is not None:
                # the observations come later
                x = np.asarray(x + 7, dtype=v.type.dtype)
            if self.supply == "constant":
                # what constant folding makes of them has to be exact
                if dom.kind in ("pos", "real", "unit"):
                    k = np.floor(abs(x) * 97).astype(int)
                    x = np.sign(x) * 2.0 ** (-1.0 - k % 3 if dom.kind == "unit" else np.array([-2.0, -1, 1, 2, 3])[k % 5])
                self.fixed[n] = x
                return at.as_tensor(x, name=n)
            v = aesara.shared(x, name=n)
        self.inp[n] = (v, dom)
        return v

    def latent(self, n, rv, shape=None, hi=None):
        if hi is not None:
            self.upper[n] = hi
        rv.name = n
        self.lat[n] = rv
        if shape is not None:
            self.shapes[n] = tuple(shape)
        return rv

    def observe(self, n, rv, kind="int", shape=(), lo=0, hi=None, value=None, alt=None, noalt=False):
        rv.name = n
        self.obs[n] = rv
        nd = rv.type.ndim
        nm = n.lower()
        v = at.TensorType(rv.type.dtype, (None,) * nd)(nm)
        if value is not None:
            self.inp[nm] = (v, Dom("const", np.shape(value), value=np.asarray(value)))
            if alt is not None:
                self.alt[nm] = np.asarray(alt)
        else:
            kw = {"lo": lo} if kind == "int" else {}
            kw["noalt"] = noalt
            if hi is not None:
                kw["hi"] = hi
            self.inp[nm] = (v, Dom(kind, shape, **kw))
        if self.supply != "input":
            (_, dom) = self.inp.pop(nm)
            v = self.data(nm, v, dom)
        self.val[n] = v
        return rv

    def done(self):
        mod = Model(self.lat, self.obs, self.val, self.inp, self.srng, self.shapes, self.alt)
        mod.upper = self.upper
        mod.fixed = self.fixed
        return mod


def trials(m, k=None):
    """Numbers of trials: at least the observed counts y."""
    if k is None:
        return m.scalar("n", "int", lo=0, plus="y")
    return m.vec("n", k, "int", lo=0, plus="y")


def entry(name, *groups, quick=True, known=None):
    def deco(f):
        def make(supply="input"):
            m = M()
            m.supply = supply
            f(m)
            return m.done()

        ZOO.append((name, set(groups), make, quick, known or {}))
        return f

    return deco


def make(name):
    (m,) = [e[2] for e in ZOO if e[0] == name]
    return m()


# ------------------------------------------------------------- closed forms
@entry("beta-binomial", "match")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)


@entry("beta-binomial, two groups", "match")
def _(m):
    p = m.latent("p", m.srng.beta(m.vec("a", 2), m.vec("b", 2), size=(2,)))
    m.observe("Y", m.srng.binomial(trials(m, 2), p, size=(2,)), shape=(2,), noalt=True)


@entry("gamma-Poisson", "match")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(r))


@entry("gamma-Poisson, two groups", "match")
def _(m):
    r = m.latent("r", m.srng.gamma(m.vec("a", 2), m.vec("b", 2), size=(2,)))
    m.observe("Y", m.srng.poisson(r, size=(2,)), shape=(2,))


@entry("beta-negative-binomial", "match", known={"p": "beta-negative-binomial-swapped"})
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.nbinom(m.scalar("h", hi=HMAX), p))


# near misses of the closed forms
@entry("gamma-Poisson, exposure", "near")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(m.scalar("e") * r))


@entry("gamma-Poisson, offset", "near")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(r + m.scalar("e")))


@entry("gamma-Poisson, one rate for two counts", "near")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(r, size=(2,)), shape=(2,))


@entry("gamma-Poisson, two observed counts of one rate", "near")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(r))
    m.observe("Z", m.srng.poisson(r))


@entry("Poisson with exponential prior", "near")
def _(m):
    r = m.latent("r", m.srng.exponential(m.scalar("s")))
    m.observe("Y", m.srng.poisson(r))


@entry("Poisson with inverse-gamma prior", "near")
def _(m):
    r = m.latent("r", m.srng.invgamma(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.poisson(r))


@entry("binomial with one minus p", "near")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.binomial(trials(m), 1 - p), noalt=True)


@entry("binomial, p also in a Bernoulli", "near")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)
    m.observe("Z", m.srng.bernoulli(p), value=1, alt=0)


@entry("binomial with uniform prior", "near")
def _(m):
    p = m.latent("p", m.srng.uniform(0, 1))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)


@entry("one p for two binomials", "near")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    m.observe("Y", m.srng.binomial(trials(m, 2), p, size=(2,)), shape=(2,), noalt=True)


# ------------------------------------------------- mixtures with closed forms
@entry("beta-binomial, random prior parameter", "mixed")
def _(m):
    a = m.latent("a", m.srng.exponential(m.scalar("s")))
    p = m.latent("p", m.srng.beta(a, m.scalar("b")))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)


@entry("gamma-Poisson, random prior rate", "mixed")
def _(m):
    b = m.latent("b", m.srng.gamma(m.scalar("k"), m.scalar("l")))
    r = m.latent("r", m.srng.gamma(m.scalar("a"), b))
    m.observe("Y", m.srng.poisson(r))


@entry("gamma-Poisson, random prior rate shared by two rates", "mixed")
def _(m):
    b = m.latent("b", m.srng.halfnormal(0, m.scalar("s")))
    r = m.latent("r", m.srng.gamma(m.vec("a", 2), b, size=(2,)))
    m.observe("Y", m.srng.poisson(r, size=(2,)), shape=(2,))


@entry("beta-binomial and gamma-Poisson side by side", "mixed")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    r = m.latent("r", m.srng.gamma(m.scalar("c"), m.scalar("d")))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)
    m.observe("Z", m.srng.poisson(r))


@entry("chain: p feeds the prior of a Poisson rate", "mixed")
def _(m):
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    r = m.latent("r", m.srng.gamma(m.scalar("c"), p))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)
    m.observe("Z", m.srng.poisson(r))


# ------------------------------------------------------------- regressions
def design(m, n=2, p=1, name="X"):
    """Symbolic for one coefficient; constant for more (symbolic in C02/C03)."""
    if p == 1:
        return m.mat(name, n, p)
    v = at.matrix(name)
    X = np.array([[1.0, 2.0], [3.0, -1.0]])[:n, :p]
    v = m.data(name, v, Dom("const", X.shape, value=X))
    m.alt[name] = X * np.array([[1.0, -2.0]])[:, :p]
    return v


def bern(m, eta, n=2, name="Y"):
    y = np.array([1, 0, 1, 1][:n])
    return m.observe(name, m.srng.bernoulli(at.sigmoid(eta)), value=y, alt=1 - y)


def nb(m, h, eta, n=2, name="Y"):
    return m.observe(name, m.srng.nbinom(h, at.sigmoid(eta)), shape=(n,))


@entry("logistic regression", "match")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression, one sd", "match")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.scalar("sd"), size=(1,)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression, two coefficients", "match", quick=False)
def _(m):
    X = design(m, 2, 2)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 2)), (2,))
    bern(m, -(X @ b))


@entry("negative-binomial regression", "match")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    nb(m, m.scalar("h", hi=HMAX), -(X @ b))


@entry("negative-binomial regression, gamma dispersion", "mixed", known={"h": "dispersion-rate"})
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))


@entry("logistic regression, positive multiplier", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, X @ b)


@entry("logistic regression, multiplier -2", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -2.0 * (X @ b))


@entry("logistic regression, symbolic multiplier", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, m.scalar("c", "real") * (X @ b))


@entry("logistic regression, non-zero prior mean", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(1.0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression, symbolic prior mean", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(m.scalar("mu", "real"), m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression, logistic prior", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.logistic(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression, intercept", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(m.scalar("c", "real") + X @ b))


@entry("logistic regression, coefficients used twice", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))
    m.observe("Z", m.srng.normal(b, 1.0), kind="real", shape=(1,))


@entry("two logistic regressions with one set of coefficients", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))
    W = m.mat("W", 2, 1)
    bern(m, -(W @ b), name="Z")


@entry("logistic regression, coefficients transformed", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ at.exp(b)))


@entry("negative-binomial regression, positive multiplier", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    nb(m, m.scalar("h", hi=HMAX), X @ b)


@entry("negative-binomial regression, non-zero prior mean", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(-1.0, m.vec("sd", 1)), (1,))
    nb(m, m.scalar("h", hi=HMAX), -(X @ b))


@entry("negative-binomial regression, logistic prior", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.logistic(0, m.vec("sd", 1)), (1,))
    nb(m, m.scalar("h", hi=HMAX), -(X @ b))


@entry("negative-binomial regression, one dispersion per observation", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    nb(m, m.vec("h", 2, hi=HMAX), -(X @ b))


@entry("negative-binomial regression, vector of gamma dispersions", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c"), size=(2,)), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 2]), alt=np.array([0, 2]))


@entry("negative-binomial regression, exponential dispersion", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    h = m.latent("h", m.srng.exponential(m.scalar("s")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))


@entry("negative-binomial regression, gamma dispersion, coefficients used twice", "near", known={"h": "dispersion-rate"})
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))
    m.observe("Z", m.srng.normal(b, 1.0), kind="real", shape=(1,))


@entry("negative-binomial regression, gamma dispersion, coefficients observed", "near", known={"h": "dispersion-rate"})
def _(m):
    X = design(m)
    b = m.observe("B", m.srng.normal(0, m.vec("sd", 1)), kind="real", shape=(1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))


@entry("negative-binomial regression, dispersion used twice", "near")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))
    m.observe("Z", m.srng.poisson(h), value=3, alt=1)


@entry("logistic regression, random sd", "mixed")
def _(m):
    X = design(m)
    s = m.latent("s", m.srng.halfnormal(0, 1.0))
    b = m.latent("beta", m.srng.normal(0, s, size=(1,)), (1,))
    bern(m, -(X @ b))


@entry("logistic regression with random intercept", "mixed")
def _(m):
    X = design(m)
    c = m.latent("c", m.srng.normal(0, 1.0))
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(c + X @ b))


@entry("two separate logistic regressions", "mixed")
def _(m):
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))
    W = m.mat("W", 2, 1)
    c = m.latent("gamma", m.srng.normal(0, m.scalar("se"), size=(1,)), (1,))
    bern(m, -(W @ c), name="Z")


@entry("a latent common to a regression and a Poisson rate", "mixed")
def _(m):
    X = design(m)
    s = m.latent("s", m.srng.gamma(m.scalar("a"), m.scalar("b")))
    b = m.latent("beta", m.srng.normal(0, s, size=(1,)), (1,))
    bern(m, -(X @ b))
    m.observe("Z", m.srng.poisson(s))


# ------------------------------------------------------------- horseshoe
def horseshoe(m, p=1, tscale=1.0, lscale=1.0, loc=0.0, order=0, extra=None):
    X = design(m, 2, p)
    tau = m.latent("tau", m.srng.halfcauchy(0, tscale))
    lam = m.latent("lam", m.srng.halfcauchy(0, lscale, size=p))
    sd = lam * tau if order == 0 else tau * lam
    if extra is not None:
        sd = sd * extra
    b = m.latent("beta", m.srng.normal(loc, sd, size=p), (p,))
    return X, tau, lam, b


@entry("horseshoe logistic, one coefficient", "mixed")
def _(m):
    X, tau, lam, b = horseshoe(m)
    bern(m, -(X @ b))


@entry("horseshoe logistic, two coefficients", "match", "mixed")
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    bern(m, -(X @ b))


@entry("horseshoe logistic, factors swapped", "match", quick=False)
def _(m):
    X, tau, lam, b = horseshoe(m, 2, order=1)
    bern(m, -(X @ b))


@entry("horseshoe negative binomial", "match", "mixed")
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    nb(m, m.scalar("h", hi=HMAX), -(X @ b))


@entry("horseshoe negative binomial with dispersion", "mixed", known={"h": "dispersion-rate"})
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))


@entry("horseshoe of normals observed directly", "match")
def _(m):
    tau = m.latent("tau", m.srng.halfcauchy(0, 1.0))
    lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
    m.observe("B", m.srng.normal(0, lam * tau, size=2), kind="real", shape=(2,))


@entry("horseshoe, global scale 2", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2, tscale=2.0)
    bern(m, -(X @ b))


@entry("horseshoe, local scale 2", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2, lscale=2.0)
    bern(m, -(X @ b))


@entry("horseshoe, coefficients with mean one", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2, loc=1.0)
    bern(m, -(X @ b))


@entry("horseshoe, additional factor", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2, extra=m.scalar("c"))
    bern(m, -(X @ b))


@entry("horseshoe, global scale used twice", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    bern(m, -(X @ b))
    m.observe("Z", m.srng.poisson(tau))


@entry("horseshoe, local scales used twice", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    bern(m, -(X @ b))
    m.observe("Z", m.srng.poisson(lam), shape=(2,))


@entry("horseshoe, local scales observed", "near")
def _(m):
    X = design(m, 2, 2)
    tau = m.latent("tau", m.srng.halfcauchy(0, 1.0))
    lam = m.observe("L", m.srng.halfcauchy(0, 1.0, size=2), kind="pos", shape=(2,))
    b = m.latent("beta", m.srng.normal(0, lam * tau, size=2), (2,))
    bern(m, -(X @ b))


@entry("horseshoe, global scale observed", "near")
def _(m):
    X = design(m, 2, 2)
    tau = m.observe("T", m.srng.halfcauchy(0, 1.0), kind="pos")
    lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
    b = m.latent("beta", m.srng.normal(0, lam * tau, size=2), (2,))
    bern(m, -(X @ b))


@entry("horseshoe, one global scale for two sets of coefficients", "near")
def _(m):
    X, tau, lam, b = horseshoe(m, 2)
    bern(m, -(X @ b))
    l2 = m.latent("lam2", m.srng.halfcauchy(0, 1.0, size=2))
    c = m.latent("gamma", m.srng.normal(0, l2 * tau, size=2), (2,))
    W = design(m, 2, 2, "W")
    bern(m, -(W @ c), name="Z")


@entry("global shrinkage only", "near")
def _(m):
    X = design(m, 2, 2)
    tau = m.latent("tau", m.srng.halfcauchy(0, 1.0))
    b = m.latent("beta", m.srng.normal(0, tau, size=2), (2,))
    bern(m, -(X @ b))


@entry("local shrinkage only", "near")
def _(m):
    X = design(m, 2, 2)
    lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
    b = m.latent("beta", m.srng.normal(0, lam, size=2), (2,))
    bern(m, -(X @ b))


@entry("horseshoe with half-normal global scale", "near")
def _(m):
    X = design(m, 2, 2)
    tau = m.latent("tau", m.srng.halfnormal(0, 1.0))
    lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
    b = m.latent("beta", m.srng.normal(0, lam * tau, size=2), (2,))
    bern(m, -(X @ b))


@entry("horseshoe with square-rooted scale", "near")
def _(m):
    X = design(m, 2, 2)
    tau = m.latent("tau", m.srng.halfcauchy(0, 1.0))
    lam = m.latent("lam", m.srng.halfcauchy(0, 1.0, size=2))
    b = m.latent("beta", m.srng.normal(0, at.sqrt(lam * tau), size=2), (2,))
    bern(m, -(X @ b))


# ------------------------------------------------------------------ NUTS only
def observed_normal(m, mu, sd=1.0, shape=(), name="Y", **kw):
    return m.observe(name, m.srng.normal(mu, sd, **kw), kind="real", shape=shape)


@entry("nuts: normal mean and half-normal scale", "nuts")
def _(m):
    mu = m.latent("mu", m.srng.normal(m.scalar("a", "real"), m.scalar("b")))
    s = m.latent("s", m.srng.halfnormal(0, m.scalar("c")))
    observed_normal(m, mu, s, (2,), size=(2,))


FAMILIES = {
    "laplace": lambda m: m.srng.laplace(m.scalar("a", "real"), m.scalar("b")),
    "logistic": lambda m: m.srng.logistic(m.scalar("a", "real"), m.scalar("b")),
    "gumbel": lambda m: m.srng.gumbel(m.scalar("a", "real"), m.scalar("b")),
    "cauchy": lambda m: m.srng.cauchy(m.scalar("a", "real"), m.scalar("b")),
    "t": lambda m: m.srng.t(m.scalar("a"), m.scalar("c", "real"), m.scalar("b")),
    "half-Cauchy": lambda m: m.srng.halfcauchy(0.0, m.scalar("b")),
    "half-normal above a bound": lambda m: m.srng.halfnormal(m.scalar("a", "real"), m.scalar("b")),
    "gamma": lambda m: m.srng.gamma(m.scalar("a"), m.scalar("b")),
    "inverse gamma": lambda m: m.srng.invgamma(m.scalar("a"), m.scalar("b")),
    "exponential": lambda m: m.srng.exponential(m.scalar("b")),
    "log-normal": lambda m: m.srng.lognormal(m.scalar("a", "real"), m.scalar("b")),
    "chi-square": lambda m: m.srng.chisquare(m.scalar("a")),
    "Weibull": lambda m: m.srng.weibull(m.scalar("a")),
    "beta": lambda m: m.srng.beta(m.scalar("a"), m.scalar("b")),
}


def _family(fam, make):
    @entry(f"nuts: {fam} latent", "nuts")
    def _(m):
        x = m.latent("x", make(m))
        observed_normal(m, x)


for _fam, _make in FAMILIES.items():
    _family(_fam, _make)


@entry("nuts: uniform latent", "nuts")
def _(m):
    lo = m.scalar("lo", "real")
    x = m.latent("x", m.srng.uniform(lo, lo + m.scalar("w")))
    observed_normal(m, x)


@entry("nuts: uniform with bounds from other latents", "nuts")
def _(m):
    lo = m.latent("lo", m.srng.normal(0.0, m.scalar("s")))
    w = m.latent("w", m.srng.halfnormal(0.0, m.scalar("t")))
    x = m.latent("x", m.srng.uniform(lo, lo + w))
    observed_normal(m, x)


@entry("nuts: uniform below an earlier uniform", "nuts")
def _(m):
    x = m.latent("x", m.srng.uniform(0.0, m.scalar("w")))
    z = m.latent("z", m.srng.uniform(0.0, x))
    observed_normal(m, z)


@entry("nuts: half-normal above another latent", "nuts")
def _(m):
    mu = m.latent("mu", m.srng.normal(0.0, m.scalar("s")))
    x = m.latent("x", m.srng.halfnormal(mu, m.scalar("t")))
    observed_normal(m, x, mu * mu + 1)


@entry("nuts: bounds from an observed variable", "nuts")
def _(m):
    w = m.observe("W", m.srng.gamma(2.0, 1.0), kind="pos")
    x = m.latent("x", m.srng.uniform(0.0, w))
    observed_normal(m, x)


@entry("nuts: scalar, vector and matrix latents", "nuts")
def _(m):
    a = m.latent("a", m.srng.normal(0.0, m.vec("sa", 2)), (2,))
    s = m.latent("s", m.srng.exponential(m.scalar("r")))
    B = m.latent("B", m.srng.normal(0.0, s, size=(2, 1)))
    p = m.latent("p", m.srng.beta(m.vec("u", 2), m.vec("v", 2)), (2,))
    observed_normal(m, a + (p * B.T)[0], s, (2,))


@entry("nuts: three levels", "nuts")
def _(m):
    a = m.latent("a", m.srng.normal(0.0, m.scalar("s")))
    t = m.latent("t", m.srng.halfcauchy(0.0, 1.0))
    b = m.latent("b", m.srng.normal(a, t, size=(2,)))
    observed_normal(m, b, m.scalar("r"), (2,))


@entry("nuts: deterministic expressions of latents", "nuts")
def _(m):
    a = m.latent("a", m.srng.normal(0.0, 1.0))
    b = m.latent("b", m.srng.normal(0.0, 1.0))
    observed_normal(m, a * m.vec("x", 2, "real") + b * b, at.exp(b), (2,))


@entry("nuts: observed variable as a predictor", "nuts")
def _(m):
    x = m.observe("W", m.srng.normal(0.0, 1.0), kind="real")
    b = m.latent("b", m.srng.normal(x, 2.0))
    observed_normal(m, b * x)


@entry("nuts: latent between two observed variables", "nuts")
def _(m):
    w = m.observe("W", m.srng.gamma(2.0, 1.0), kind="pos")
    b = m.latent("b", m.srng.gamma(3.0, w))
    m.observe("Y", m.srng.poisson(b * w + 1))


@entry("nuts: observed constants", "nuts")
def _(m):
    mu = m.latent("mu", m.srng.normal(0.0, 10.0))
    m.obs["Y"] = rv = m.srng.normal(mu, m.scalar("s"), size=(2,))
    rv.name = "Y"
    m.val["Y"] = at.as_tensor(np.array([1.5, -0.25]))


# ----------------------------------------------------------- scans of updates
@entry("scan: NUTS latent between two closed forms", "mixed")
def _(m):
    s = m.latent("s", m.srng.halfnormal(0, 1.0))
    p = m.latent("p", m.srng.beta(1.0 + s, m.scalar("b")))
    r = m.latent("r", m.srng.gamma(m.scalar("c"), 1.0 + s * s))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)
    m.observe("Z", m.srng.poisson(r))


@entry("scan: predictors of a regression are observed variables", "mixed")
def _(m):
    X = m.observe("X", m.srng.normal(0, 1.0, size=(2, 1)), kind="real", shape=(2, 1))
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("scan: predictors of a regression are latent", "mixed")
def _(m):
    X = m.latent("X", m.srng.normal(0, 1.0, size=(2, 1)))
    b = m.latent("beta", m.srng.normal(0, m.vec("sd", 1)), (1,))
    bern(m, -(X @ b))


@entry("scan: prior scale through a deterministic expression of two latents", "mixed")
def _(m):
    u = m.latent("u", m.srng.exponential(m.scalar("r")))
    p = m.latent("p", m.srng.beta(m.scalar("a"), m.scalar("b")))
    r = m.latent("r", m.srng.gamma(u + p, at.exp(p) * u))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)
    m.observe("Z", m.srng.poisson(r))


@entry("scan: observed count in the prior of another latent", "mixed")
def _(m):
    r = m.latent("r", m.srng.gamma(m.scalar("c"), m.scalar("d")))
    z = m.observe("Z", m.srng.poisson(r))
    p = m.latent("p", m.srng.beta(m.scalar("a"), 1.0 + z))
    m.observe("Y", m.srng.binomial(trials(m), p), noalt=True)


@entry("scan: regression next to a closed form, coupled by a NUTS latent", "mixed")
def _(m):
    X = design(m)
    s = m.latent("s", m.srng.halfnormal(0, 1.0))
    b = m.latent("beta", m.srng.normal(0, s, size=(1,)), (1,))
    r = m.latent("r", m.srng.gamma(m.scalar("c"), s))
    bern(m, -(X @ b))
    m.observe("Z", m.srng.poisson(r))


@entry("scan: two regressions with one random prior scale", "mixed")
def _(m):
    s = m.latent("s", m.srng.exponential(m.scalar("r")))
    X = design(m)
    b = m.latent("beta", m.srng.normal(0, s, size=(1,)), (1,))
    bern(m, -(X @ b))
    W = m.mat("W", 2, 1)
    c = m.latent("gamma", m.srng.normal(0, 2 * s, size=(1,)), (1,))
    nb(m, m.scalar("h", hi=HMAX), -(W @ c), name="Z")


@entry("scan: dispersion, coefficients and their scale", "mixed", known={"h": "dispersion-rate"})
def _(m):
    X = design(m)
    s = m.latent("s", m.srng.halfnormal(0, 1.0))
    b = m.latent("beta", m.srng.normal(0, s, size=(1,)), (1,))
    h = m.latent("h", m.srng.gamma(m.scalar("a"), m.scalar("c")), hi=HMAX)
    m.observe("Y", m.srng.nbinom(h, at.sigmoid(-(X @ b))), value=np.array([1, 0]), alt=np.array([0, 2]))
