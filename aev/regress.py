"""Shared pieces of the Polya-Gamma regression checks (C03, C04)."""
import numpy as np

from .env import Claim
from .laws import Gaussian, add, chol_form, distinct_tokens, div, gaussian_claims, mul, noise_policy, sub, total


def linpred(E, X, beta, i):
    return total(E, [mul(E, X[i, j], beta[j]) for j in range(len(beta))])


def pg_regression_claims(E, out, n, p, X, beta, sd, shape_i, kappa_i, label):
    """One step: omega_i ~ PG(shape_i, x_i beta), then
    beta | omega ~ N(A^-1 X' kappa, A^-1), A = X' diag(omega) X + diag(sd^-2)."""
    g = Gaussian(E, out)
    pgs = [d for d in g.draws if d.fam == "polyagamma"]
    yield Claim(f"{label}: exactly one Polya-Gamma draw per observation",
                len(pgs) == 1 and pgs[0].shape == (n,), kind="true")
    if len(pgs) != 1 or pgs[0].shape != (n,):
        return
    d = pgs[0]
    for i in range(n):
        yield Claim(f"{label}: shape of the auxiliary [{i}]", d.params[0][i], shape_i[i])
        psi = linpred(E, X, beta, i)
        # PG(h, z) = PG(h, -z)
        yield Claim(f"{label}: squared tilt of the auxiliary [{i}]",
                    mul(E, d.params[1][i], d.params[1][i]), mul(E, psi, psi))
    w = [d.noise[i] for i in range(n)]
    A = np.empty((p, p), dtype=object)
    for i in range(p):
        for j in range(p):
            A[i, j] = total(E, [mul(E, w[k], X[k, i], X[k, j]) for k in range(n)])
            if i == j:
                A[i, j] = add(E, A[i, j], div(E, 1, mul(E, sd[i], sd[i])))
    b = [total(E, [mul(E, X[k, i], kappa_i[k]) for k in range(n)]) for i in range(p)]
    yield from gaussian_claims(E, g, A, b, f"{label}: coefficients | auxiliaries")
    yield Claim(f"{label}: every draw uses its own random state", distinct_tokens(g.draws), kind="true")
