"""C05: Chinese-restaurant-table draw and negative-binomial dispersion step."""
import itertools

import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

import aemcmc
from aemcmc import gibbs
from aev.discrete import outcomes, prob
from aev.env import Case, Claim, Dom
from aev.families import noise_kind
from aev.laws import add, distinct_tokens, mul, sub, total
from aev.report import Check, Violation, real

check = Check(
    "C05",
    "CRT draw and dispersion step",
    assumptions=[
        "real arithmetic",
        "augmentation identity (Zhou et al.): for y ~ NB(h, p) with pmf proportional to p^h (1-p)^y and l ~ CRT(y, h), the conditional of h ~ Gamma(a, scale b) given l is Gamma(a + sum l_i, rate 1/b - sum log p_i)",
        "CRT(y, h) has pmf |s(y, l)| h^l / (h (h+1) ... (h+y-1)) (unsigned Stirling numbers)",
    ],
    bounds="table counts y <= 5 (7 thorough), up to 4 observations in vectors and a 2x2 matrix, every Bernoulli outcome enumerated with symbolic probabilities; counts up to 150 and 21 observations as sums of Bernoulli draws with outcomes left open; a, b, h, p (or X, beta) symbolic",
    functions=[
        "aemcmc.gibbs.sample_CRT",
        "aemcmc.gibbs.nbinom_dispersion_posterior",
        "aemcmc.gibbs.nbinom_logistic_finder",
        "aemcmc.construct_sampler",
    ],
)


def stirling(n):
    """|s(n, k)| for k = 0..n."""
    r = [1]
    for m in range(n):
        new = [0] * (len(r) + 1)
        for k, c in enumerate(r):
            new[k] += c * m
            new[k + 1] += c
        r = new
    return r


def rising(E, h, n):
    r = E.num(1)
    for k in range(n):
        r = mul(E, r, add(E, h, E.num(k)))
    return r


def power(E, h, n):
    r = E.num(1)
    for _ in range(n):
        r = mul(E, r, h)
    return r


def fresh_tokens(draws):
    """Draws that produced at least one element use pairwise distinct states."""
    return distinct_tokens([d for d in draws if d.elems()])


def to_int(E, v, hi):
    if not E.symbolic:
        r = round(float(v))
        return r if abs(r - float(v)) < 1e-9 and 0 <= r <= hi else None
    for k in range(hi + 1):
        if E.same(v, E.num(k)):
            return k
    return None


def one_of(E, v, hi):
    if not E.symbolic:
        return any(E.same(v, k) for k in range(hi + 1))
    import z3

    from aev import core

    return z3.Or(*[core.as_bool(core.cmp(v, E.num(k), "eq")) for k in range(hi + 1)])


def crt(yval):
    yval = np.asarray(yval)

    def build(res):
        srng = RandomStream(0)
        h = at.scalar("h")
        y = at.TensorType("int64", (None,) * yval.ndim)("y")
        out, upd = real("sample_CRT", gibbs.sample_CRT, srng, y, h)

        def spec(E):
            hv = E.inp["h"][()]
            law = {}
            tok = True
            bad = None
            for ch, fac, r, rec in outcomes(E):
                o = r["out"]
                if o.shape != yval.shape:
                    bad = f"shape {o.shape} for counts of shape {yval.shape}"
                    break
                key = tuple(to_int(E, v, int(m)) for v, m in zip(o.ravel(), yval.ravel()))
                tok = tok and fresh_tokens(r.draws)
                law.setdefault(key, []).append(prob(E, fac))
            yield Claim("the result has one entry per count", bad is None, kind="true")
            if bad:
                return
            yield Claim("every Bernoulli draw uses its own random state", tok, kind="true")
            yield Claim("every value is between 0 and its count", not any(None in k for k in law), kind="true")
            norm = E.num(1)
            for m in yval.ravel():
                norm = mul(E, norm, rising(E, hv, int(m)))
            for key in itertools.product(*[range(int(m) + 1) for m in yval.ravel()]):
                c = 1
                for l, m in zip(key, yval.ravel()):
                    c *= stirling(int(m))[l]
                lhs = mul(E, total(E, law.get(key, []), E.num(0)), norm)
                yield Claim(f"P(L = {key}) is the CRT probability", lhs,
                            mul(E, E.num(c), power(E, hv, sum(key))))

        return Case("sample_CRT", {"y": y, "h": h}, {"out": out},
                    {"y": Dom("const", yval.shape, value=yval), "h": Dom("pos", ())}, spec)

    return build


def dispersion_claims(E, out, yval, pv, label, fixed_shape=()):
    """The law of h' is the mixture over CRT tables of the stated gamma."""
    a, b, h = E.inp["a"][()], E.inp["b"][()], E.inp["h"][()]
    rate = E.div(E.num(1), b)
    wrong = rate
    for p in pv:
        rate = sub(E, rate, E.log(p))
        wrong = sub(E, wrong, E.log(sub(E, E.num(1), p)))
    tot = int(sum(yval))
    law = {}
    tok = True
    scale_seen = []
    odd = []
    from aev.laws import noise_elems

    for ch, fac, r, rec in outcomes(E):
        o = r[out]
        if o.shape != fixed_shape:
            yield Claim(f"{label}: shape of the update", str(o.shape) == str(fixed_shape), kind="true")
            return
        tok = tok and fresh_tokens(r.draws)
        v = o[()]
        hit = None
        for d, i in noise_elems(r.draws, ("stdgamma",)):
            if d.fam == "gamma" and E.same(d.out[i], v):
                hit = (d.params[0][i], d.params[1][i])
        if hit is None:
            yield Claim(f"{label}: the update is a gamma draw", False, kind="true")
            return
        l = to_int(E, sub(E, hit[0], a), tot)
        law.setdefault(l, []).append(prob(E, fac))
        if l is None:
            odd.append(sub(E, hit[0], a))
        if not scale_seen:
            scale_seen.append(hit[1])
            c = Claim(f"{label}: rate of the gamma draw", mul(E, hit[1], rate), E.num(1))
            c.known = ("dispersion-rate", (mul(E, hit[1], wrong), E.num(1)))
            yield c
        else:
            yield Claim(f"{label}: rate does not depend on the tables", hit[1], scale_seen[0])
    yield Claim(f"{label}: every draw uses its own random state", tok, kind="true")
    for v in odd[:2]:
        yield Claim(f"{label}: shape is a plus a number of tables", one_of(E, v, tot), kind="true")
    yield Claim(f"{label}: the number of tables is known", None not in law, kind="true")
    if None in law:
        return
    conv = [1]
    norm = E.num(1)
    for m in yval:
        conv = list(np.convolve(conv, stirling(int(m))))
        norm = mul(E, norm, rising(E, h, int(m)))
    for l, c in enumerate(conv):
        lhs = mul(E, total(E, law.get(l, []), E.num(0)), norm)
        yield Claim(f"{label}: P(tables = {l})", lhs, mul(E, E.num(int(c)), power(E, h, l)))


def direct(yval):
    yval = np.asarray(yval)
    n = len(yval)

    def build(res):
        srng = RandomStream(0)
        h, a, b = at.scalar("h"), at.scalar("a"), at.scalar("b")
        p = at.vector("p")
        y = at.lvector("y")
        out, upd = real("nbinom_dispersion_posterior", gibbs.nbinom_dispersion_posterior, srng, h, p, a, b, y)

        def spec(E):
            yield from dispersion_claims(E, "out", yval, list(E.inp["p"]), "h | y, p")

        return Case("dispersion", {"h": h, "p": p, "a": a, "b": b, "y": y}, {"out": out},
                    {"h": Dom("pos"), "a": Dom("pos"), "b": Dom("pos"), "p": Dom("unit", (n,)),
                     "y": Dom("const", (n,), value=yval)}, spec)

    return build


def sampler(yval, p):
    yval = np.asarray(yval)
    n = len(yval)

    def build(res):
        srng = RandomStream(0)
        X, sd, a, b = at.matrix("X"), at.vector("sd"), at.scalar("a"), at.scalar("b")
        beta = srng.normal(0, sd, name="beta")
        h = srng.gamma(a, 1 / b, name="h")
        Y = srng.nbinom(h, at.sigmoid(-(X @ beta)), name="Y")
        y = at.lvector("y")
        s, init = real("construct_sampler", aemcmc.construct_sampler, {Y: y}, srng)
        if s.parameters:
            res.labels.append("sampled by NUTS: no claim")
            return None
        step = s.sample_steps[h]
        bstep = s.sample_steps[beta]
        newbeta = at.vector("newbeta")

        def spec(E):
            nb = E.inp["newbeta"]
            pv = []
            for i in range(n):
                eta = total(E, [mul(E, E.inp["X"][i, j], nb[j]) for j in range(p)])
                pv.append(E.div(E.num(1), add(E, E.num(1), E.exp(eta))))

            yield from dispersion_claims(E, "out", yval, pv, "h | y, beta")

        # cut the graph at the coefficient update: the step is h' | beta
        from aev.graphs import cut

        step = cut(step, {bstep: newbeta, init[beta]: newbeta})
        return Case("dispersion step", {"h": init[h], "X": X, "sd": sd, "a": a, "b": b, "y": y, "newbeta": newbeta},
                    {"out": step},
                    {"h": Dom("pos"), "a": Dom("pos"), "b": Dom("pos"), "X": Dom("real", (n, p)), "sd": Dom("pos", (p,)),
                     "newbeta": Dom("real", (p,)), "y": Dom("const", (n,), value=yval)}, spec)

    return build


def bernoulli_draws(E, yval):
    """One run with the outcomes of the Bernoulli draws left open; the claims
    that their probabilities are the ones of these counts, in any order."""
    got = []

    def provide(fam, token, params, shape, names):
        out = E.default_noise(fam, token, params, shape, names)
        if noise_kind(fam) == "bernoulli":
            for i in np.ndindex(*shape):
                got.append((params[0][i], out[i]))
        return out

    r = E.run(noise=provide)
    h = E.inp["h"][()]
    # a draw with probability one is no draw
    fixed = [b for p, b in got if E.same(p, E.num(1))]
    free = [(p, b) for p, b in got if not E.same(p, E.num(1))]
    want = [E.div(h, add(E, h, E.num(n - 1))) for m in yval for n in range(2, int(m) + 1)]
    return r, fixed, free, want


def matched(E, free, want):
    """The two lists of probabilities, in corresponding order."""
    left = list(free)
    pairs = []
    for k, w in enumerate(want):
        if k >= len(free):
            break
        i = next((i for i, (p, b) in enumerate(left) if E.same(p, w)), 0)
        pairs.append((left.pop(i)[0], w))
    return pairs


def table_claims(E, label, value, fixed, free, want, positive):
    yield Claim(f"{label}: one Bernoulli draw per customer but the first", len(free) == len(want), kind="true")
    if len(free) != len(want):
        return
    for k, (p, w) in enumerate(matched(E, free, want)):
        yield Claim(f"{label}: probability {k} of a new table", p, w)
    s = total(E, [b for _, b in free], E.num(0))
    yield Claim(f"{label}: the number of tables", value, add(E, s, E.num(positive)))


def many(yval):
    """Large counts: the draw as a sum of independent Bernoulli variables."""
    def build(res):
        srng = RandomStream(0)
        h = at.scalar("h")
        y = at.lvector("y")
        out, upd = real("sample_CRT", gibbs.sample_CRT, srng, y, h)

        def spec(E):
            r, fixed, free, want = bernoulli_draws(E, yval)
            yield Claim("every Bernoulli draw uses its own random state", fresh_tokens(r.draws), kind="true")
            yield Claim("the result has one entry per count", r["out"].shape == (len(yval),), kind="true")
            v = total(E, list(r["out"]), E.num(0))
            yield from table_claims(E, "CRT", v, fixed, free, want, sum(1 for m in yval if m))

        return Case("sample_CRT", {"y": y, "h": h}, {"out": out},
                    {"y": Dom("const", (len(yval),), value=np.array(yval)), "h": Dom("pos", ())}, spec)

    return build


def many_dispersion(yval):
    def build(res):
        srng = RandomStream(0)
        h, a, b = at.scalar("h"), at.scalar("a"), at.scalar("b")
        p = at.vector("p")
        y = at.lvector("y")
        n = len(yval)
        out, upd = real("nbinom_dispersion_posterior", gibbs.nbinom_dispersion_posterior, srng, h, p, a, b, y)
        from aev.laws import noise_elems

        def spec(E):
            r, fixed, free, want = bernoulli_draws(E, yval)
            v = r["out"][()]
            hit = [d.params[0][i] for d, i in noise_elems(r.draws, ("stdgamma",)) if d.fam == "gamma" and E.same(d.out[i], v)]
            yield Claim("the update is a gamma draw", len(hit) == 1, kind="true")
            if len(hit) == 1:
                yield from table_claims(E, "shape minus a", sub(E, hit[0], E.inp["a"][()]), fixed, free, want, sum(1 for m in yval if m))

        return Case("dispersion", {"h": h, "p": p, "a": a, "b": b, "y": y}, {"out": out},
                    {"h": Dom("pos"), "a": Dom("pos"), "b": Dom("pos"), "p": Dom("unit", (n,)),
                     "y": Dom("const", (n,), value=np.array(yval))}, spec)

    return build


for yv in ([40], [150], [0, 12, 30], [20] + [1] * 20):
    check.add(f"CRT, large counts {yv[:3]}", many(yv))
    check.add(f"dispersion, large counts {yv[:3]}", many_dispersion(yv))
for yv in ([0], [1], [2], [3], [4], [2, 3], [0, 3], [1, 0, 2], [3, 3]):
    check.add(f"CRT y={yv}", crt(yv))
check.add("CRT y=5", crt([5]))
check.add("CRT scalar y=3", crt(3))
check.add("CRT matrix y", crt([[2, 1], [0, 3]]))
check.add("CRT y=[7]", crt([7]), quick=False)
check.add("CRT y=[4,4]", crt([4, 4]), quick=False)
check.add("CRT y=[2,3,2]", crt([2, 3, 2]), quick=False)
for yv in ([0], [2], [3, 1], [0, 2], [2, 2], [1, 0, 3]):
    check.add(f"dispersion y={yv}", direct(yv))
check.add("dispersion y=[3,3,1]", direct([3, 3, 1]), quick=False)
for yv, p in (([2], 1), ([1, 2], 2), ([3], 2)):
    check.add(f"step y={yv} p={p}", sampler(yv, p))
