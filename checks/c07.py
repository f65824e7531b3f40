"""C07: forward filtering, backward sampling."""
import itertools

import aesara.tensor as at
import numpy as np
from aesara.tensor.random import RandomStream

from aemcmc import ffbs
from aev.discrete import outcomes, prob
from aev.env import Case, Claim, Dom
from aev.laws import add, distinct_tokens, mul, total
from aev.report import Check, Violation, real

check = Check(
    "C07",
    "FFBS",
    assumptions=[
        "real arithmetic (underflow of the unscaled forward quantities is outside, see C20)",
        "oracle: P(s_1..s_N | y) is proportional to (gamma_0 Gamma_1)[s_1] L_1[s_1] prod_n Gamma_n[s_(n-1), s_n] L_n[s_n] (gamma_0 is the law of the state before the first observation)",
    ],
    bounds="M states x N observations: (2,1) (2,2) (2,3) (3,1) (3,2) (1,2) quick, (2,4) (4,2) (3,3) (2,5) (5,2) (3,4 banded) thorough; one transition matrix per time or a single broadcast one; all probabilities and log-likelihoods symbolic, selected zero and minus-infinity patterns; (2,8) (2,12) (3,6) for chains that only move forward; any value in place of the log-likelihood maximum (over-approximation); every path of the rescaling switch; every state sequence",
    functions=["aemcmc.ffbs.ffbs_step"],
)


def case(M, N, single=False, bound=None, zeros=(), zero0=(), ninf=()):
    """zeros: (n, i, j) transition entries that are zero; zero0: initial states of probability zero;
    ninf: (m, n) log-likelihoods that are minus infinity."""

    def build(res):
        srng = RandomStream(0)
        g0 = at.vector("g0")
        G = at.tensor3("G")
        ll = at.matrix("ll")
        K = 1 if single else N
        # zeros are imposed by constant masks so that the remaining entries stay free
        m0 = np.ones(M)
        for i in zero0:
            m0[i] = 0
        mG = np.ones((K, M, M))
        for n, i, j in zeros:
            mG[min(n, K - 1), i, j] = 0
        lv = ll
        if ninf:
            keep = np.ones((M, N), dtype=bool)
            for m, n in ninf:
                keep[m, n] = False
            lv = at.switch(keep, ll, -np.inf)
        kw = {} if bound is None else {"lower_prec_bound": bound}
        out, upd = real("ffbs_step", ffbs.ffbs_step, g0 * m0, G * mG, lv, srng, **kw)

        def spec(E):
            gv = [E.inp["g0"][i] if m0[i] else E.num(0) for i in range(M)]
            Gv = [[[E.inp["G"][n if not single else 0, i, j] if mG[n if not single else 0, i, j] else E.num(0)
                    for j in range(M)] for i in range(M)] for n in range(N)]
            L = [[E.num(0) if (m, n) in ninf else E.exp(E.inp["ll"][m, n]) for n in range(N)] for m in range(M)]

            def weight(s):
                w = mul(E, total(E, [mul(E, gv[i], Gv[0][i][s[0]]) for i in range(M)]), L[s[0]][0])
                for n in range(1, N):
                    w = mul(E, w, Gv[n][s[n - 1]][s[n]], L[s[n]][n])
                return w

            seqs = list(itertools.product(range(M), repeat=N))
            # sequences that are impossible whatever the free values
            alive = {s: _alive(s, m0, mG, single, M, N) and not any((s[n], n) in ninf for n in range(N)) for s in seqs}
            if len(seqs) > 300:
                seqs = [s for s in seqs if alive[s]]
            W = {s: weight(s) for s in seqs}
            Z = total(E, [W[s] for s in seqs if alive[s]], E.num(0))
            got = {}
            tok, shape_ok, sums = True, True, []
            for ch, fac, r, rec in outcomes(E):
                o = r["out"]
                if o.shape != (N,):
                    shape_ok = False
                    break
                dead = any((not E.symbolic and f == 0) or (E.symbolic and not _nonzero(f)) for f in fac)
                if dead:
                    continue
                tok = tok and distinct_tokens(r.draws)
                s = tuple(int(v) if not hasattr(v, "c") else int(v.c) for v in o)
                got.setdefault(s, []).append(prob(E, fac))
                for c, pr, nm in rec:
                    sums.append(total(E, pr))
            yield Claim("one state per observation", shape_ok, kind="true")
            if not shape_ok:
                return
            yield Claim("every state draw uses its own random state", tok, kind="true")
            for k, v in enumerate(sums[: 2 * M * N]):
                yield Claim(f"state probabilities sum to one [{k}]", v, E.num(1))
            yield Claim("only sequences of known states", all(s in alive for s in got), kind="true")
            for s in got:
                if s not in W:
                    yield Claim(f"P(states = {s}) is zero", total(E, got[s]), E.num(0))
            for s in seqs:
                lhs = mul(E, total(E, got.get(s, []), E.num(0)), Z)
                yield Claim(f"P(states = {s}) is the smoothing probability", lhs, W[s] if alive[s] else E.num(0))

        return Case(f"M={M} N={N}", {"g0": g0, "G": G, "ll": ll}, {"out": out},
                    {"g0": Dom("pos", (M,)), "G": Dom("pos", (K, M, M)), "ll": Dom("real", (M, N))},
                    spec, fork=True, opaque_max=True)

    return build


def _nonzero(f):
    from aev.core import V

    if isinstance(f, V):
        return not (f.is_const() and f.c == 0)
    return f != 0


def _alive(s, m0, mG, single, M, N):
    g = lambda n, i, j: mG[0 if single else n, i, j]
    if not any(m0[i] and g(0, i, s[0]) for i in range(M)):
        return False
    return all(g(n, s[n - 1], s[n]) for n in range(1, N))


check.add("M=2 N=1", case(2, 1))
check.add("M=3 N=1", case(3, 1))
check.add("M=2 N=2", case(2, 2))
check.add("M=2 N=2 one transition matrix", case(2, 2, True))
check.add("M=3 N=2", case(3, 2))
check.add("M=2 N=3", case(2, 3))
check.add("M=2 N=3 one transition matrix", case(2, 3, True))
check.add("M=2 N=2 precision bound 1/2", case(2, 2, bound=0.5))
check.add("M=1 N=2", case(1, 2))
check.add("M=2 N=2 absorbing state", case(2, 2, zeros=[(0, 0, 1), (1, 0, 1)]))
check.add("M=2 N=2 alternating", case(2, 2, zeros=[(0, 0, 0), (0, 1, 1), (1, 0, 0), (1, 1, 1)]))
check.add("M=2 N=3 alternating, known start", case(2, 3, zeros=[(n, i, i) for n in range(3) for i in range(2)], zero0=[0]))
check.add("M=2 N=2 one impossible observation", case(2, 2, ninf=[(0, 1)]))
check.add("M=2 N=3 observations that reveal the state", case(2, 3, ninf=[(0, 0), (1, 2)]))


def forward(M, N):
    return [(n, i, j) for n in range(N) for i in range(M) for j in range(M) if j < i or j > i + 1]


check.add("M=2 N=8 one change", case(2, 8, zeros=forward(2, 8), zero0=[1], bound=0.0))
check.add("M=2 N=12 one change, one transition matrix", case(2, 12, True, zeros=forward(2, 12), zero0=[1], bound=0.0))
check.add("M=3 N=6 two changes", case(3, 6, zeros=forward(3, 6), zero0=[1, 2], bound=0.0))
check.add("M=3 N=3", case(3, 3), quick=False)
check.add("M=2 N=4", case(2, 4), quick=False)
check.add("M=4 N=2", case(4, 2), quick=False)
check.add("M=3 N=3 one transition matrix", case(3, 3, True), quick=False)
check.add("M=2 N=5", case(2, 5), quick=False)
check.add("M=5 N=2", case(5, 2), quick=False)
check.add("M=2 N=4 precision bound 1/2", case(2, 4, bound=0.5), quick=False)
check.add("M=3 N=4 left to right", case(3, 4, zeros=[(n, i, j) for n in range(4) for i in range(3) for j in range(3) if j < i or j > i + 1], zero0=[1, 2]), quick=False)
