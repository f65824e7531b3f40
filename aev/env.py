"""One specification, two worlds.

A Case names the graph under test and the declared domain of its inputs.  Its
spec is a generator of Claims over an environment E; the same spec is run with
symbolic values (the solver decides the claims) and, for a counterexample, with
the numbers of the solver's model against the real compiled function.
"""
import math
from fractions import Fraction

import numpy as np
import z3
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import graph_inputs
from aesara.tensor.random.type import RandomType

from . import core
from .core import Ctx, Undefined, Unsupported, V, lift
from .interp import A, Interp, s_div, s_gammaln, s_pow, sym_noise
from .numeric import SALT, SCALE, NumFn, default_noise_value, num_noise


class Claim:
    def __init__(self, label, lhs, rhs=None, kind="eq", hyp=()):
        self.label = label
        self.lhs = lhs
        self.rhs = rhs
        self.kind = kind  # 'eq' | 'true'
        self.hyp = hyp


class Result:
    def __init__(self, out, draws):
        self.out = out
        self.draws = draws

    def __getitem__(self, k):
        return self.out[k]


class Case:
    """inputs: {name: aesara variable}; outputs: {name: aesara variable};
    domain: {name: Dom}; spec: f(E) -> iterable of Claim."""

    def __init__(self, name, inputs, outputs, domain, spec, updates=None, info=None, fork=False,
                 opaque_max=False, by_state=False):
        self.by_state = by_state  # one generator state and family, one noise
        self.fork = fork
        self.opaque_max = opaque_max
        self.name = name
        self.inputs = inputs
        self.outputs = outputs
        self.domain = domain
        self.spec = spec
        self.updates = updates
        self.info = info or {}
        self.tags = {}
        roots = list(outputs.values())
        for u in (updates or {}).values():
            roots.append(u)
        for v in graph_inputs(roots):
            if isinstance(v, SharedVariable) and isinstance(v.type, RandomType):
                self.tags.setdefault(v, f"r{len(self.tags)}")
        self._fn = None


class Dom:
    """Domain of one input: kind in pos|real|int|unit|const and a shape."""

    def __init__(self, kind, shape=(), value=None, lo=None, hi=None, plus=None, noalt=False):
        self.plus = plus  # the values are those of another input plus this domain
        self.noalt = noalt or plus is not None
        self.kind = kind
        self.shape = tuple(shape)
        self.value = value
        self.lo, self.hi = lo, hi

    def symbols(self, ctx, name):
        if self.kind == "const":
            return A(self.value)
        out = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            n = name + ("_" + "_".join(map(str, i)) if i else "")
            if self.kind == "pos":
                new = n not in ctx.vars
                out[i] = ctx.pos(n)
                if new and self.hi is not None:
                    ctx.assume.append(ctx.vars[n] <= self.hi)
            elif self.kind == "unit":
                new = n not in ctx.vars
                out[i] = ctx.pos(n)
                if new:
                    ctx.assume.append(ctx.vars[n] < 1)
            elif self.kind == "int":
                out[i] = ctx.real(n, self.lo, self.hi)
                ctx.int_valued.add(n)
            else:
                out[i] = ctx.real(n, self.lo, self.hi)
        return out

    def numbers(self, assign, name, dtype):
        if self.kind == "const":
            return np.asarray(self.value, dtype=dtype)
        out = np.empty(self.shape, dtype="float64")
        for i in np.ndindex(*self.shape):
            n = name + ("_" + "_".join(map(str, i)) if i else "")
            v = assign.get(n)
            if v is None:
                k = {"pos": "stdgamma", "unit": "uniform"}.get(self.kind, "normal")
                v = default_noise_value(n, k)
                if self.kind == "int":
                    v = abs(round(v))
                if self.lo is not None:
                    v = max(v, self.lo)
            out[i] = float(v)
        if np.dtype(dtype).kind in "iu":
            # counts are relaxed to reals in the encoding
            return np.asarray(np.rint(out), dtype=dtype)
        return np.asarray(out, dtype=dtype)


class SymEnv:
    symbolic = True

    def __init__(self, case, ctx):
        self.case = case
        self.ctx = core.use(ctx)
        self.inp = {n: d.symbols(ctx, n) for n, d in case.domain.items()}
        for n, d in case.domain.items():
            if d.plus is not None:
                for i in np.ndindex(*d.shape):
                    self.inp[n][i] = self.inp[n][i] + self.inp[d.plus][i]
        self.draws = []
        self.assume_log = []
        self.default_noise = sym_noise(ctx)
        self.default_noise.by_state = case.by_state

    def run(self, outputs=None, noise=None, inp=None, override=None):
        case = self.case
        env = {}
        for n, var in case.inputs.items():
            env[var] = (inp or {}).get(n, self.inp[n])
        for var, val in (override or {}).items():
            env[var] = val
        it = Interp(self.ctx, env, noise or self.default_noise, dict(case.tags))
        res = {}
        for n in outputs or case.outputs:
            o = case.outputs[n] if isinstance(n, str) else n
            res[n] = it(o)
        return Result(res, it.draws)

    # element functions
    def log(self, x):
        return core.vlog(x)

    def exp(self, x):
        return core.vexp(x if isinstance(x, (V, float)) else lift(x))

    def abs(self, x):
        return core.vabs(core.lift(x, self.ctx))

    def sqrt(self, x):
        return core.vsqrt(x)

    def div(self, a, b):
        return s_div(a, b)

    def gammaln(self, x):
        return s_gammaln(x)

    def pow(self, a, b):
        return s_pow(a, b)

    def num(self, x):
        return Fraction(x)

    def real(self, name, **kw):
        return self.ctx.real(name, **kw)

    def pos(self, name):
        return self.ctx.pos(name)

    def unit(self, name):
        v = self.ctx.pos(name)
        x = self.ctx.vars[name]
        if ("unit", name) not in self.ctx.cache:
            self.ctx.cache[("unit", name)] = True
            self.ctx.assume.append(x < 1)
        return v

    def same(self, a, b):
        """Are two elements provably equal? (solver)"""
        from .solve import prove

        
        if not isinstance(a, V) and not isinstance(b, V):
            return a == b
        g = core.cmp(a, b, "eq")
        if isinstance(g, bool):
            return g
        v = prove(self.ctx, g, timeout_ms=5000)
        if v.status == "refuted" and len(self.ctx.hints) < 12:
            # a structural mismatch: this model is a candidate counterexample
            d = core.lift(a, self.ctx) - core.lift(b, self.ctx)
            self.ctx.hints.append((g, v, None if isinstance(d, float) else d.n))
        return v.status == "proved"

    def true(self, c):
        return c


class NumEnv:
    symbolic = False

    def __init__(self, case, assign):
        self.case = case
        self.assign = dict(assign)
        self.salt = SALT[0] = str(assign.get("seed", ""))
        SCALE[0] = assign.get("scale")
        self.inp = {}
        self.args = {}
        order = sorted(case.domain.items(), key=lambda nd: nd[1].plus is not None)
        for n, d in order:
            var = case.inputs.get(n)
            dt = var.type.dtype if var is not None else "float64"
            a = d.numbers(assign, n, dt)
            if d.plus is not None:
                a = np.asarray(a + self.args[d.plus], dtype=dt)
            self.args[n] = a
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                o[i] = a[i].item()
            self.inp[n] = o
        self.default_noise = num_noise(self.assign)
        self.default_noise.by_state = case.by_state

    def run(self, outputs=None, noise=None, inp=None, override=None):
        case = self.case
        names = list(outputs or case.outputs)
        key = tuple(id(n) if not isinstance(n, str) else n for n in names)
        if case._fn is None:
            case._fn = {}
        fn = case._fn.get(key)
        if fn is None:
            fn = NumFn(
                list(case.inputs.values()),
                [case.outputs[n] if isinstance(n, str) else n for n in names],
                case.tags,
                updates=None,
            )
            case._fn[key] = fn
        args = []
        for n, var in case.inputs.items():
            a = self.args[n]
            if inp and n in inp:
                a = np.asarray(
                    np.vectorize(float, otypes=[float])(inp[n]) if np.size(inp[n]) else inp[n],
                    dtype=var.type.dtype,
                ).reshape(np.shape(inp[n]))
            args.append(a)

        outs, draws = fn(args, noise or self.default_noise)
        res = {}
        for n, o in zip(names, outs):
            o = np.asarray(o)
            b = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                b[i] = o[i].item()
            res[n] = b
        return Result(res, draws)

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def exp(self, x):
        return math.exp(x)

    def abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def div(self, a, b):
        return float(a) / float(b) if b else math.nan

    def gammaln(self, x):
        return math.lgamma(x)

    def pow(self, a, b):
        return float(a) ** float(b)

    def num(self, x):
        return float(x)

    def real(self, name, lo=None, hi=None):
        v = self.assign.get(name)
        if v is None:
            v = default_noise_value(name, "normal")
            if lo is not None and v < lo:
                v = float(lo) + abs(v)
        return float(v)

    def pos(self, name):
        v = self.assign.get(name)
        return float(default_noise_value(name, "stdgamma") if v is None else v)

    def unit(self, name):
        v = self.assign.get(name)
        return float(default_noise_value(name, "uniform") if v is None else v)

    def same(self, a, b):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))
