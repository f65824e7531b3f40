"""C02: multivariate normal samplers draw from the stated Gaussian."""
import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from aev.boot import THOROUGH
from aev.env import Case, Claim, Dom
from aev.laws import Gaussian, add, div, gaussian_claims, mul, total
from aev.report import Check

from aemcmc import dists, gibbs

check = Check(
    "C02",
    "Gaussian samplers",
    assumptions=[
        "real arithmetic (floating-point rounding is not modelled)",
        "Cholesky is abstracted by its contract L L^T = M, L lower triangular with positive diagonal (M positive definite); solve/solve_triangular by exact rational solution",
        "RNG draws are independent standard normals",
    ],
    bounds="rue2005: p<=3 (4 thorough); cong2017: p<=3, n<=2 (3 thorough); regression posterior: (n,p) in 1..3 on both sides of p>n",
    functions=[
        "aemcmc.dists.multivariate_normal_rue2005",
        "aemcmc.dists.multivariate_normal_cong2017",
        "aemcmc.gibbs.normal_regression_posterior",
        "aemcmc.gibbs.normal_regression_overdetermined_posterior",
        "aemcmc.gibbs.normal_regression_underdetermined_posterior",
    ],
)


def rue(p, sparse=False, label=None):
    def build(res):
        srng = RandomStream(0)
        b = at.vector("b")
        F = at.matrix("F")  # Q = F F^T + diag(d): every positive definite matrix
        d = at.vector("d")
        Q = F @ F.T + at.diag(d)
        if sparse:
            from aesara.sparse import csc_from_dense

            Qs = csc_from_dense(Q)
        else:
            Qs = Q
        out = dists.multivariate_normal_rue2005(srng, b, Qs)

        def spec(E):
            g = Gaussian(E, "out")
            Fv, dv, bv = E.inp["F"], E.inp["d"], E.inp["b"]
            A = np.empty((p, p), dtype=object)
            for i in range(p):
                for j in range(p):
                    A[i, j] = total(E, [mul(E, Fv[i, k], Fv[j, k]) for k in range(p)])
                    if i == j:
                        A[i, j] = add(E, A[i, j], dv[i])
            yield from gaussian_claims(E, g, A, bv, "N(Q^-1 b, Q^-1)")

        return Case(
            f"rue2005 p={p} sparse={sparse}",
            {"b": b, "F": F, "d": d},
            {"out": out},
            {"b": Dom("real", (p,)), "F": Dom("real", (p, p)), "d": Dom("pos", (p,))},
            spec,
        )

    return build


def quad(E, X, w, i, j, n):
    return total(E, [mul(E, w[k], X[k, i], X[k, j]) for k in range(n)])


def cong(n, p):
    def build(res):
        srng = RandomStream(0)
        Am, om, phi, t = at.vector("A"), at.vector("omega"), at.matrix("phi"), at.vector("t")
        out = dists.multivariate_normal_cong2017(srng, Am, om, phi, t)

        def spec(E):
            g = Gaussian(E, "out")
            Av, ov, ph, tv = (E.inp[k] for k in ("A", "omega", "phi", "t"))
            A = np.empty((p, p), dtype=object)
            for i in range(p):
                for j in range(p):
                    A[i, j] = quad(E, ph, ov, i, j, n)
                    if i == j:
                        A[i, j] = add(E, A[i, j], Av[i])
            b = [total(E, [mul(E, ph[k, i], ov[k], tv[k]) for k in range(n)]) for i in range(p)]
            yield from gaussian_claims(E, g, A, b, "N(L^-1 Phi'Omega t, L^-1)")

        return Case(
            f"cong2017 n={n} p={p}",
            {"A": Am, "omega": om, "phi": phi, "t": t},
            {"out": out},
            {
                "A": Dom("pos", (p,)),
                "omega": Dom("pos", (n,)),
                "phi": Dom("real", (n, p)),
                "t": Dom("real", (n,)),
            },
            spec,
        )

    return build


def regression(n, p, fn="normal_regression_posterior"):
    def build(res):
        srng = RandomStream(0)
        om, li, X, z = at.vector("omega"), at.vector("lmbdatau_inv"), at.matrix("X"), at.vector("z")
        out = getattr(gibbs, fn)(srng, om, li, X, z)

        def spec(E):
            g = Gaussian(E, "out")
            ov, lv, Xv, zv = (E.inp[k] for k in ("omega", "li", "X", "z"))
            A = np.empty((p, p), dtype=object)
            for i in range(p):
                for j in range(p):
                    A[i, j] = quad(E, Xv, ov, i, j, n)
                    if i == j:
                        A[i, j] = add(E, A[i, j], mul(E, lv[i], lv[i]))
            b = [total(E, [mul(E, Xv[k, i], ov[k], zv[k]) for k in range(n)]) for i in range(p)]
            yield from gaussian_claims(E, g, A, b, "beta | z")

        return Case(
            f"{fn} n={n} p={p}",
            {"omega": om, "li": li, "X": X, "z": z},
            {"out": out},
            {
                "omega": Dom("pos", (n,)),
                "li": Dom("pos", (p,)),
                "X": Dom("real", (n, p)),
                "z": Dom("real", (n,)),
            },
            spec,
        )

    return build


for p in (1, 2, 3):
    check.add(f"rue2005 p={p}", rue(p))
check.add("rue2005 p=4", rue(4), quick=False)
check.add("rue2005 sparse p=2", rue(2, sparse=True))
for n, p in ((1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (2, 1)):
    check.add(f"cong2017 n={n} p={p}", cong(n, p))
check.add("cong2017 n=3 p=3", cong(3, 3), quick=False)
check.add("cong2017 n=3 p=2", cong(3, 2), quick=False)
for n, p in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 2), (2, 3), (1, 3)):
    check.add(f"regression n={n} p={p}", regression(n, p))
check.add("regression n=3 p=3", regression(3, 3), quick=False)
