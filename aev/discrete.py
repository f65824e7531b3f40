"""Exact enumeration of the discrete draws of a run.

The probabilities stay symbolic; the (finite) outcomes are enumerated, so a law
of the result is a sum of symbolic products that the solver compares."""
import numpy as np

from .families import noise_kind
from .laws import mul, sub


def outcomes(E, outputs=None, extra=None, inp=None, limit=600, run_kw=None):
    """Yields (choices, probability factors, result) for every outcome."""
    extra = extra or {}
    todo = [[]]
    n = 0
    while todo:
        script = todo.pop()
        rec = []

        def provide(fam, token, params, shape, names):
            kind = noise_kind(fam)
            if kind not in ("bernoulli", "categorical"):
                return E.default_noise(fam, token, params, shape, names)
            out = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                k = len(rec)
                if kind == "bernoulli":
                    p = params[0][i]
                    pr = [sub(E, 1, p), p]
                else:
                    pr = list(params[0][i])
                # outcomes whose probability is identically zero are not followed
                live = [c for c in range(len(pr)) if not _zero(pr[c])]
                if not live:
                    live = [0]
                c = script[k] if k < len(script) else live[0]
                rec.append((c, pr, names[i]))
                out[i] = c
            return out

        res = E.run(outputs, noise=provide, inp=inp, **(run_kw or {}))
        n += 1
        if n > limit:
            from .core import Unsupported

            raise Unsupported("too many discrete outcomes")
        ch = [r[0] for r in rec]
        yield ch, [r[1][r[0]] for r in rec], res, rec
        for j in range(len(script), len(rec)):
            for c in range(rec[j][0] + 1, len(rec[j][1])):
                if not _zero(rec[j][1][c]):
                    todo.append(ch[:j] + [c])


def _zero(p):
    from .core import V

    if isinstance(p, V):
        return p.is_const() and p.c == 0
    return float(p) == 0.0


def prob(E, factors):
    p = E.num(1)
    for f in factors:
        p = mul(E, p, f)
    return p
