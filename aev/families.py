"""Random families as deterministic functions of standard noise.

Every draw of the code under test is written  out = f(params, noise)  where the
noise law does not depend on anything the code computes (location-scale and
gamma families), or the noise *is* the outcome and its law is recorded with the
parameters (beta, categorical, Polya-Gamma ...).  The same table drives the
symbolic executor and the numeric replay of the compiled functions.
"""
import numpy as np

LOCSCALE = {
    "normal": "normal",
    "gumbel": "gumbel",
    "logistic": "logistic",
    "laplace": "laplace",
    "cauchy": "cauchy",
    "halfnormal": "halfnormal",
    "halfcauchy": "halfcauchy",
}
POSITIVE_NOISE = {"halfnormal", "halfcauchy", "stdgamma", "beta", "polyagamma", "uniform"}
DISCRETE = {"bernoulli", "categorical", "poisson", "binomial", "nbinom", "randint"}

# op.name of aesara's RandomVariables -> our family
NAMES = {
    "normal": "normal",
    "gumbel": "gumbel",
    "logistic": "logistic",
    "laplace": "laplace",
    "cauchy": "cauchy",
    "halfnormal": "halfnormal",
    "halfcauchy": "halfcauchy",
    "t": "t",
    "uniform": "uniform",
    "exponential": "exponential",
    "gamma": "gamma",
    "invgamma": "invgamma",
    "beta": "beta",
    "bernoulli": "bernoulli",
    "categorical": "categorical",
    "poisson": "poisson",
    "binomial": "binomial",
    "nbinom": "nbinom",
    "polyagamma": "polyagamma",
    "lognormal": "lognormal",
    "chisquare": "chisquare",
    "weibull": "weibull",
    "integers": "randint",
    "randint": "randint",
    "multivariate_normal": "mvnormal",
    "dirichlet": "dirichlet",
}

NDIM_PARAMS = {"categorical": [1], "mvnormal": [1, 2], "dirichlet": [1]}
NDIM_SUPP = {"mvnormal": 1, "dirichlet": 1}


def noise_kind(fam):
    if fam in LOCSCALE or fam in ("t",):
        return fam
    if fam in ("gamma", "exponential", "invgamma", "chisquare"):
        return "stdgamma"
    if fam == "lognormal":
        return "normal"
    if fam == "mvnormal":
        return "normal"
    return fam


def noise_params(fam, params):
    """Parameters that select the law of the standard noise."""
    if fam == "gamma" or fam == "invgamma":
        return (params[0],)
    if fam == "exponential":
        return (1,)
    if fam == "t":
        return (params[0],)
    if fam in LOCSCALE or fam in ("uniform", "lognormal"):
        return ()
    return tuple(params)


def apply_family(fam, params, eps, ops):
    """ops: object with .exp and .div for the element domain in use."""
    if fam in LOCSCALE:
        return params[0] + params[1] * eps
    if fam == "t":
        return params[1] + params[2] * eps
    if fam == "uniform":
        return params[0] + (params[1] - params[0]) * eps
    if fam == "gamma":
        return params[1] * eps
    if fam == "exponential":
        return params[0] * eps
    if fam == "invgamma":
        return ops.div(params[1], eps)
    if fam == "lognormal":
        return ops.exp(params[0] + params[1] * eps)
    return eps


class Draw:
    """One executed random variable."""

    def __init__(self, fam, token, params, shape, noise, out, names):
        self.fam = fam
        self.token = token  # RNG state consumed (free algebra term)
        self.params = params  # tuple of arrays broadcast to `shape`
        self.shape = shape
        self.noise = noise
        self.out = out
        self.names = names

    def law(self, idx):
        """(noise kind, law-selecting parameters) of element idx."""
        return noise_kind(self.fam), noise_params(
            self.fam, [p[idx] for p in self.params]
        )

    def elems(self):
        return list(np.ndindex(*self.shape))

    def __repr__(self):
        return f"Draw({self.fam}, {self.token}, {self.shape})"


def token_name(t):
    """Readable, stable name of an RNG state term."""
    k = 0
    while t[0] == "adv":
        k += 1
        t = t[1]
    return f"{t[1]}.{k}"
