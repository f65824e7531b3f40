"""Reusable pieces of specifications: laws of outputs given recorded draws."""
import itertools

import numpy as np

from . import core
from .core import V
from .env import Claim
from .families import noise_kind
from .interp import s_add, s_div, s_mul, s_sub


def add(E, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_add(r, x) if E.symbolic else r + x
    return r


def mul(E, *xs):
    r = xs[0]
    for x in xs[1:]:
        r = s_mul(r, x) if E.symbolic else r * x
    return r


def sub(E, a, b):
    return s_sub(a, b) if E.symbolic else a - b


def div(E, a, b):
    return s_div(a, b) if E.symbolic else E.div(a, b)


def neg(E, a):
    return sub(E, 0, a)


def total(E, xs, zero=0):
    r = zero
    for x in xs:
        r = add(E, r, x)
    return r


def noise_policy(E, kind_values):
    """Noise callable: names in `kind_values` (dict name->value) are fixed, the
    kinds listed under key '*kind' get that constant, the rest is default."""

    def provide(fam, token, params, shape, names):
        base = None
        kind = noise_kind(fam)
        star = kind_values.get("*" + kind)
        out = np.empty(shape, dtype=object)
        need = False
        for i in np.ndindex(*shape):
            v = kind_values.get(names[i], star)
            if v is None:
                need = True
            out[i] = v
        if need:
            base = E.default_noise(fam, token, params, shape, names)
            for i in np.ndindex(*shape):
                if out[i] is None:
                    out[i] = base[i]
        return out

    return provide


class Gaussian:
    """An output that is affine in the standard normal noise."""

    def __init__(self, E, outname, extra=None, run_kw=None):
        extra = dict(extra or {})
        run_kw = run_kw or {}
        full = E.run(noise=noise_policy(E, extra), **run_kw)
        self.full = full
        self.E = E
        self.names = []
        for d in full.draws:
            if noise_kind(d.fam) == "normal":
                self.names += [d.names[i] for i in d.elems()]
        zero = E.run(noise=noise_policy(E, {**extra, "*normal": 0}), **run_kw)
        self.mean = zero[outname].ravel()
        self.out = full[outname].ravel()
        cols = []
        for n in self.names:
            r = E.run(noise=noise_policy(E, {**extra, "*normal": 0, n: 1}), **run_kw)
            cols.append([sub(E, a, m) for a, m in zip(r[outname].ravel(), self.mean)])
        self.cols = cols
        self.draws = full.draws

    def noise_value(self, name):
        for d in self.draws:
            for i in d.elems():
                if d.names[i] == name:
                    return d.noise[i]
        raise KeyError(name)

    def affine_claims(self, label):
        E = self.E
        for j in range(len(self.out)):
            rhs = self.mean[j]
            for n, c in zip(self.names, self.cols):
                rhs = add(E, rhs, mul(E, c[j], self.noise_value(n)))
            yield Claim(f"{label}: output {j} is affine in the normal noise", self.out[j], rhs)

    def cov(self, i, j):
        return total(self.E, [mul(self.E, c[i], c[j]) for c in self.cols])


def chol_form(E, A, strict=False):
    """If a matrix the code factored is provably A, return L L^T (same value,
    expressed with the factor the outputs use); otherwise A itself."""
    if not E.symbolic:
        return A
    n = A.shape[0]
    for M, L in E.ctx.chols:
        if M.shape != A.shape:
            continue
        if all(E.same(M[i, j], A[i, j]) for i in range(n) for j in range(i + 1)):
            out = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    out[i, j] = total(E, [mul(E, L[i, k], L[j, k]) for k in range(min(i, j) + 1)])
            return out
    return A


def gaussian_claims(E, g, A, b, label):
    """Output law is N(A^{-1} b, A^{-1})."""
    n = A.shape[0]
    if len(g.mean) != n:
        yield Claim(f"{label}: dimension", len(g.mean), n)
        return
    A = chol_form(E, A)
    for i in range(n):
        lhs = total(E, [mul(E, A[i, j], g.mean[j]) for j in range(n)])
        yield Claim(f"{label}: precision * mean [{i}]", lhs, b[i])
    yield from g.affine_claims(label)
    for i in range(n):
        for k in range(n):
            lhs = total(E, [mul(E, A[i, j], g.cov(j, k)) for j in range(n)])
            yield Claim(f"{label}: precision * covariance [{i},{k}]", lhs, 1 if i == k else 0)


def chol_lemmas(E, A, label):
    """Explicit claims that the factored matrix is the stated precision."""
    if not E.symbolic:
        return
    n = A.shape[0]
    for k, (M, L) in enumerate(E.ctx.chols):
        if M.shape == A.shape:
            for i in range(n):
                for j in range(i + 1):
                    yield Claim(f"{label}: factored matrix {k} [{i},{j}]", M[i, j], A[i, j])


def distinct_tokens(draws):
    toks = [d.token for d in draws]
    return len(set(toks)) == len(toks)


# ------------------------------------------------------- laws of single outputs
def owner_draw(E, draws, value, kinds):
    """The draw element whose noise the value equals (exactly)."""
    for d in draws:
        if noise_kind(d.fam) not in kinds:
            continue
        for i in d.elems():
            if E.same(d.out[i], value):
                return d, i
    return None, None


def noise_elems(draws, kinds):
    for d in draws:
        if noise_kind(d.fam) in kinds:
            for i in d.elems():
                yield d, i


def deps(E, draws, value, run, kinds, pick):
    """Noise elements (d, i) the value really depends on: changing the element
    to another arbitrary value is not a no-op for the value."""
    out = []
    for d, i in noise_elems(draws, kinds):
        alt = E.pos("alt_" + d.names[i]) if noise_kind(d.fam) in (
            "stdgamma", "polyagamma", "beta", "uniform", "halfnormal", "halfcauchy"
        ) else E.real("alt_" + d.names[i])
        r = run({d.names[i]: alt})
        if not E.same(pick(r), value):
            out.append((d, i))
    return out


def tokens_claim(draws, label):
    yield Claim(f"{label}: every draw uses its own random state", distinct_tokens(draws), kind="true")


def beta_law(E, res, value, label):
    """(a, b) of a value that is a beta draw; None + claim if it is not one."""
    d, i = owner_draw(E, res.draws, value, ("beta",))
    if d is None:
        return None, None, None
    return d.params[0][i], d.params[1][i], (d.token, i)


def gamma_law(E, run, res, outname, idx):
    """(shape, rate, element) of an output that is c * standard-gamma noise."""
    value = res[outname][idx]
    for d, i in noise_elems(res.draws, ("stdgamma",)):
        r1 = run({d.names[i]: 1})
        c = r1[outname][idx]
        if E.same(value, mul(E, c, d.noise[i])):
            kind, par = d.law(i)
            return par[0], c, (d.token, i)
    return None, None, None
