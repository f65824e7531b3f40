"""Log-densities of aesara's random families, written from their definitions.

Node parameters are aesara's: gamma/exponential by scale, negative binomial with
pmf proportional to p^n (1-p)^y, inverse gamma by scale.  Terms that are constant
in every symbol may be dropped; terms in any parameter may not."""
from .core import Unsupported
from .laws import add, div, mul, neg, sub

SUPPORT = {
    "normal": "real",
    "laplace": "real",
    "logistic": "real",
    "gumbel": "real",
    "cauchy": "real",
    "t": "real",
    "halfnormal": "lower",
    "halfcauchy": "pos",
    "gamma": "pos",
    "exponential": "pos",
    "invgamma": "pos",
    "lognormal": "pos",
    "chisquare": "pos",
    "weibull": "pos",
    "beta": "unit",
    "uniform": "interval",
}


def sq(E, x):
    return mul(E, x, x)


def logdens(E, fam, p, x):
    log, gln = E.log, E.gammaln
    half = E.num(1) / 2
    if fam in ("normal", "halfnormal"):
        return sub(E, neg(E, mul(E, half, sq(E, div(E, sub(E, x, p[0]), p[1])))), log(p[1]))
    if fam in ("cauchy", "halfcauchy"):
        z = div(E, sub(E, x, p[0]), p[1])
        return neg(E, add(E, log(p[1]), log(add(E, 1, sq(E, z)))))
    if fam == "logistic":
        e = E.exp(neg(E, div(E, sub(E, x, p[0]), p[1])))
        return sub(E, neg(E, div(E, sub(E, x, p[0]), p[1])), add(E, log(p[1]), mul(E, 2, log(add(E, 1, e)))))
    if fam == "laplace":
        return neg(E, add(E, log(p[1]), div(E, E.abs(sub(E, x, p[0])), p[1])))
    if fam == "gumbel":
        z = div(E, sub(E, x, p[0]), p[1])
        return neg(E, add(E, z, E.exp(neg(E, z)), log(p[1])))
    if fam == "t":
        nu, z = p[0], div(E, sub(E, x, p[1]), p[2])
        h = div(E, add(E, nu, 1), 2)
        return sub(E, sub(E, gln(h), gln(div(E, nu, 2))),
                   add(E, mul(E, half, log(nu)), log(p[2]), mul(E, h, log(add(E, 1, div(E, sq(E, z), nu))))))
    if fam == "chisquare":
        k = div(E, p[0], 2)
        return sub(E, mul(E, sub(E, k, 1), log(x)), add(E, div(E, x, 2), gln(k), mul(E, k, log(E.num(2)))))
    if fam == "weibull":
        return sub(E, add(E, log(p[0]), mul(E, sub(E, p[0], 1), log(x))), E.pow(x, p[0]))
    if fam == "lognormal":
        z = div(E, sub(E, log(x), p[0]), p[1])
        return neg(E, add(E, mul(E, half, sq(E, z)), log(p[1]), log(x)))
    if fam == "gamma":
        return sub(E, mul(E, sub(E, p[0], 1), log(x)),
                   add(E, div(E, x, p[1]), gln(p[0]), mul(E, p[0], log(p[1]))))
    if fam == "exponential":
        return neg(E, add(E, div(E, x, p[0]), log(p[0])))
    if fam == "invgamma":
        return sub(E, mul(E, p[0], log(p[1])),
                   add(E, mul(E, add(E, p[0], 1), log(x)), div(E, p[1], x), gln(p[0])))
    if fam == "beta":
        return add(E, mul(E, sub(E, p[0], 1), log(x)), mul(E, sub(E, p[1], 1), log(sub(E, 1, x))),
                   gln(add(E, p[0], p[1])), neg(E, gln(p[0])), neg(E, gln(p[1])))
    if fam == "uniform":
        return neg(E, log(sub(E, p[1], p[0])))
    if fam == "poisson":
        return sub(E, mul(E, x, log(p[0])), add(E, p[0], gln(add(E, x, 1))))
    if fam == "binomial":
        return add(E, mul(E, x, log(p[1])), mul(E, sub(E, p[0], x), log(sub(E, 1, p[1]))),
                   gln(add(E, p[0], 1)), neg(E, gln(add(E, x, 1))),
                   neg(E, gln(add(E, sub(E, p[0], x), 1))))
    if fam == "nbinom":
        return add(E, mul(E, p[0], log(p[1])), mul(E, x, log(sub(E, 1, p[1]))),
                   gln(add(E, x, p[0])), neg(E, gln(p[0])), neg(E, gln(add(E, x, 1))))
    if fam == "bernoulli":
        return add(E, mul(E, x, log(p[0])), mul(E, sub(E, 1, x), log(sub(E, 1, p[0]))))
    if fam == "polyagamma":
        # relative to the PG(h, 0) density
        h, z, w = p[0], p[1], x
        lc = sub(E, log(add(E, 1, E.exp(z))), div(E, z, 2))
        return sub(E, mul(E, h, lc), mul(E, half, sq(E, z), w))
    raise Unsupported(f"no density for {fam}")


def to_noise(E, fam, p, v):
    """The standard noise that makes a draw of the family take the value v."""
    if fam in ("normal", "cauchy", "laplace", "logistic", "halfnormal", "halfcauchy"):
        return div(E, sub(E, v, p[0]), p[1])
    if fam == "gamma":
        return div(E, v, p[1])
    if fam == "exponential":
        return div(E, v, p[0])
    if fam == "invgamma":
        return div(E, p[1], v)
    if fam in ("beta", "polyagamma", "bernoulli"):
        return v
    raise Unsupported(f"no noise inversion for {fam}")
