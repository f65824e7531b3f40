"""Symbolic executor for Aesara graphs (the IR that aemcmc's code produces).

The graphs are the ones the code under test builds on this run; every node is
executed on small concrete shapes with symbolic real elements.  Anything the
executor does not model raises Unsupported (no verdict), never a guess.
"""
import math
from fractions import Fraction

import numpy as np
import z3
from aesara.compile.builders import OpFromGraph
from aesara.compile.ops import ViewOp, DeepCopyOp
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant
from aesara.ifelse import IfElse
from aesara.scan.op import Scan
from aesara.tensor import basic as atb
from aesara.tensor import elemwise as ate
from aesara.tensor import math as atm
from aesara.tensor import nlinalg, slinalg, subtensor as sub
from aesara.tensor import extra_ops
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.random.type import RandomType
from aesara.tensor.type import TensorType

import importlib

ats = importlib.import_module("aesara.tensor.shape")
from . import core
from .core import (
    Undefined,
    Unsupported,
    V,
    asnum,
    b_and,
    b_not,
    b_or,
    boolv,
    cmp,
    is_sym,
    ite,
    lift,
    num,
    vabs,
    vexp,
    vlog,
    vmax,
    vmin,
    vsqrt,
    vuf,
)
from .families import NAMES, NDIM_PARAMS, NDIM_SUPP, Draw, apply_family, noise_kind, token_name


def A(x):
    """Object array from nested values / elements."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, (np.ndarray, np.generic)):
        out = np.empty(np.shape(x), dtype=object)
        a = np.asarray(x)
        for i in np.ndindex(*a.shape):
            out[i] = num(a[i])
        return out
    if isinstance(x, (list, tuple)):
        parts = [A(v) for v in x]
        if not parts:
            return np.empty((0,), dtype=object)
        out = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p[()]
        return out
    out = np.empty((), dtype=object)
    out[()] = num(x)
    return out


def ew(f, *arrs):
    """Broadcasting elementwise application on object arrays."""
    bs = np.broadcast_shapes(*[a.shape for a in arrs])
    ar = [np.broadcast_to(a, bs) for a in arrs]
    out = np.empty(bs, dtype=object)
    for i in np.ndindex(*bs):
        out[i] = f(*[a[i] for a in ar])
    return out


def as_int(v):
    v = asnum(v)
    if isinstance(v, V):
        if v.is_const():
            v = v.c
        else:
            raise Unsupported("symbolic integer used as an index/size")
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise Unsupported("non-integer index")
        return int(v)
    return int(v)


def ints(a):
    return tuple(as_int(v) for v in np.asarray(a, dtype=object).ravel())


# ------------------------------------------------------------ scalar ops
def s_add(*a):
    r = asnum(a[0])
    for b in a[1:]:
        b = asnum(b)
        r = _lift2(r, b, lambda x, y: x + y)
    return r


def _bool2v(x):
    return lift(x) if isinstance(x, z3.BoolRef) else asnum(x)


def _lift2(a, b, f):
    a, b = _bool2v(a), _bool2v(b)
    if isinstance(b, V) and isinstance(a, float):
        return f(a, b)
    return f(a, b)


def s_mul(*a):
    r = asnum(a[0])
    for b in a[1:]:
        r = _lift2(r, b, _mul)
    return r


def _mul(x, y):
    if isinstance(x, float) and isinstance(y, V):
        return y * x
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, V) or isinstance(y, V):
            return x * y
        if x == 0 or y == 0:
            return math.nan
        return float(x) * float(y)
    return x * y


def s_sub(a, b):
    return _lift2(a, b, lambda x, y: x - y)


def s_div(a, b):
    a, b = _bool2v(a), _bool2v(b)
    if isinstance(b, float):
        if math.isinf(b) and not isinstance(a, float):
            return Fraction(0)
        return math.nan
    if not isinstance(b, V):
        if b == 0:
            if isinstance(a, V):
                s = core.sign(a)
                if s is None:
                    raise Unsupported("symbolic value divided by zero")
            else:
                s = (a > 0) - (a < 0) if not (isinstance(a, float) and math.isnan(a)) else 0
            return math.nan if s == 0 else s * math.inf
        if isinstance(a, (V,)):
            return a * Fraction(1, 1) / b if not isinstance(b, V) else a / b
        if isinstance(a, float):
            return a / float(b)
        return Fraction(a) / Fraction(b)
    if isinstance(a, float):
        return core._special_mul(b.inv(), a)
    return lift(a) / b


def s_pow(a, b):
    a, b = _bool2v(a), _bool2v(b)
    if isinstance(b, V) and b.is_const():
        b = b.c
    if isinstance(b, V):
        if isinstance(a, V):
            return vexp(vlog(a) * b)
        return vexp(lift(vlog(a)) * b)
    if isinstance(a, V):
        if isinstance(b, float):
            raise Unsupported("pow with non-finite exponent")
        return a ** (Fraction(b) if isinstance(b, Fraction) else int(b))
    if isinstance(a, float) or isinstance(b, float):
        return float(a) ** float(b)
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    if isinstance(b, int):
        if b >= 0:
            return a ** b
        return s_div(1, a ** (-b))
    if b.denominator == 2:
        return s_pow(vsqrt(a), b.numerator)
    return vexp(lift(vlog(a)) * b)


def s_floordiv(a, b):
    a, b = asnum(a), asnum(b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("symbolic integer division")
    return a // b


def s_mod(a, b):
    a, b = asnum(a), asnum(b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("symbolic modulo")
    return a % b


def s_sigmoid(x):
    x = _bool2v(x)
    if isinstance(x, float):
        return Fraction(1) if x > 0 else Fraction(0)
    e = vexp(-lift(x))
    return s_div(1, s_add(1, e))


def s_softplus(x):
    if isinstance(x, float):
        return x if x > 0 else Fraction(0)
    return vlog(s_add(1, vexp(lift(_bool2v(x)))))


def s_sgn(x):
    x = _bool2v(x)
    s = core.sign(x) if isinstance(x, V) else (x > 0) - (x < 0)
    if s is not None:
        return s
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def s_neg(x):
    return -_bool2v(x)


def s_isnan(x):
    return isinstance(x, float) and math.isnan(x)


def s_isinf(x):
    return isinstance(x, float) and math.isinf(x)


def s_log1p(x):
    return vlog(s_add(1, x))


def s_expm1(x):
    return s_sub(_vexp(x), 1)


def _vexp(x):
    x = _bool2v(x)
    return vexp(x if isinstance(x, (V, float)) else lift(x)) if not isinstance(x, float) else vexp(x)


def _vlog(x):
    return vlog(_bool2v(x))


def s_log1mexp(x):
    return vlog(s_sub(1, _vexp(x)))


def s_switch(c, a, b):
    return ite(c, a, b)


def s_gammaln(x):
    x = _bool2v(x)
    if not isinstance(x, V):
        x = Fraction(x) if not isinstance(x, float) else x
        if isinstance(x, Fraction) and x.denominator == 1 and 0 < x < 60:
            return vlog(Fraction(math.factorial(int(x) - 1)))
        x = lift(x)
    if isinstance(x, V) and x.n is not None and x.c == 1 and not x.e:
        # gamma(z + k) = z (z + 1) ... (z + k - 1) gamma(z)
        n = x.x.canon(x.n)
        if z3.is_app_of(n, z3.Z3_OP_ADD):
            k = [t.as_fraction() for t in n.children() if z3.is_rational_value(t)]
            if len(k) == 1 and k[0].denominator == 1 and 1 <= k[0] <= 20:
                z = x - k[0]
                if isinstance(z, V) and (z.n is None or x.x.positive(z.n)) and z.c > 0:
                    out = vuf("gammaln", z)
                    for i in range(int(k[0])):
                        out = out + vlog(z + i)
                    return out
    return vuf("gammaln", x)


def s_clip(x, lo, hi):
    return vmin(vmax(_bool2v(x), lo), hi)


def s_floor(x):
    x = asnum(x)
    if is_sym(x):
        raise Unsupported("floor of a symbolic value")
    return Fraction(math.floor(x))


def s_ceil(x):
    x = asnum(x)
    if is_sym(x):
        raise Unsupported("ceil of a symbolic value")
    return Fraction(math.ceil(x))


def s_eq(a, b):
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
    return cmp(asnum(a), asnum(b), "eq")


def _c(op):
    return lambda a, b: cmp(asnum(a), asnum(b), op)


def _uf(name, odd=False):
    def f(x):
        x = _bool2v(x)
        if isinstance(x, float):
            raise Unsupported(f"{name} of a non-finite value")
        if not is_sym(x) and x == 0 and odd:
            return Fraction(0)
        return vuf(name, lift(x))

    return f


def s_and(a, b):
    return b_and(a, b)


SCALAR = {
    "Add": s_add,
    "Mul": s_mul,
    "Sub": s_sub,
    "TrueDivide": s_div,
    "FloorDivide": s_floordiv,
    "Mod": s_mod,
    "Pow": s_pow,
    "Neg": s_neg,
    "Abs": lambda x: vabs(_bool2v(x)),
    "Sqr": lambda x: s_mul(x, x),
    "Sqrt": lambda x: vsqrt(_bool2v(x)),
    "Exp": _vexp,
    "Expm1": s_expm1,
    "Log": _vlog,
    "Log1p": s_log1p,
    "Log2": lambda x: s_div(_vlog(x), vlog(Fraction(2))),
    "Log10": lambda x: s_div(_vlog(x), vlog(Fraction(10))),
    "Reciprocal": lambda x: s_div(1, x),
    "Sigmoid": s_sigmoid,
    "ScalarSigmoid": s_sigmoid,
    "Softplus": s_softplus,
    "Log1mexp": s_log1mexp,
    "LT": _c("lt"),
    "GT": _c("gt"),
    "LE": _c("le"),
    "GE": _c("ge"),
    "EQ": s_eq,
    "NEQ": lambda a, b: b_not(s_eq(a, b)),
    "AND": s_and,
    "OR": b_or,
    "XOR": lambda a, b: b_not(s_eq(boolv(a), boolv(b))),
    "Invert": b_not,
    "Switch": s_switch,
    "ScalarMaximum": lambda *a: _fold(vmax, a),
    "ScalarMinimum": lambda *a: _fold(vmin, a),
    "Maximum": lambda *a: _fold(vmax, a),
    "Minimum": lambda *a: _fold(vmin, a),
    "Identity": lambda x: x,
    "Second": lambda a, b: b,
    "Sgn": s_sgn,
    "IsNan": s_isnan,
    "IsInf": s_isinf,
    "GammaLn": s_gammaln,
    "Clip": s_clip,
    "Floor": s_floor,
    "Ceil": s_ceil,
    "Erf": _uf("erf", True),
    "Erfc": _uf("erfc"),
    "Erfcx": _uf("erfcx"),
    "Psi": _uf("psi"),
    "Tanh": _uf("tanh", True),
    "Sin": _uf("sin", True),
    "Cos": _uf("cos"),
    "ArcTan": _uf("arctan", True),
}


def _fold(f, a):
    r = _bool2v(a[0])
    for b in a[1:]:
        r = f(r, _bool2v(b))
    return r


def cast_elem(v, dtype):
    if dtype == "bool":
        return boolv(v)
    if dtype.startswith(("int", "uint")):
        v = asnum(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, V):
            if v.is_const():
                return int(v.c)
            if core.is_int_valued(v):
                return v
            raise Unsupported("cast of a symbolic real to an integer type")
        if isinstance(v, float):
            raise Undefined("cast of a non-finite value to an integer")
        return int(v)
    if isinstance(v, bool):
        return int(v)
    return v


class FakeOps:
    exp = staticmethod(vexp)

    @staticmethod
    def div(a, b):
        return s_div(a, b)


def sym_noise(ctx):
    """Default noise provider: one fresh symbol per element."""

    def provide(fam, token, params, shape, names):
        kind = noise_kind(fam)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            if kind in ("normal", "gumbel", "logistic", "laplace", "cauchy", "t"):
                out[i] = ctx.real(names[i])
            elif kind in ("halfnormal", "halfcauchy", "stdgamma", "polyagamma", "weibull"):
                out[i] = ctx.pos(names[i])
            elif kind in ("beta", "uniform"):
                new = names[i] not in ctx.vars
                v = ctx.pos(names[i])
                if new:
                    ctx.assume.append(ctx.vars[names[i]] < 1)
                out[i] = v
            elif kind in ("poisson", "binomial", "nbinom"):
                # a count used as a real value (never as an index)
                out[i] = ctx.real(names[i], lo=0)
                ctx.int_valued.add(names[i])
            elif kind == "bernoulli":
                new = names[i] not in ctx.vars
                v = ctx.real(names[i])
                if new:
                    x = ctx.vars[names[i]]
                    ctx.assume.append(z3.Or(x == 0, x == 1))
                    ctx.int_valued.add(names[i])
                out[i] = v
            else:
                raise Unsupported(f"no symbolic noise for {fam}")
        return out

    return provide


def batch_shape(fam, size, params):
    nd = NDIM_PARAMS.get(fam, [0] * len(params))
    if size is not None and len(size):
        return tuple(size)
    shp = ()
    for p, d in zip(params, nd):
        shp = np.broadcast_shapes(shp, p.shape[: p.ndim - d])
    return tuple(shp)


class Interp:
    def __init__(self, ctx, env=None, noise=None, tags=None, draws=None, cache=None):
        self.ctx = ctx
        self.env = dict(env or {})
        self.noise = noise or sym_noise(ctx)
        self.draws = draws if draws is not None else []
        self.drawcache = cache if cache is not None else {}
        self.tags = tags if tags is not None else {}
        self.chols = ctx.chols
        self.ops_seen = ctx.ops_seen

    # --
    def child(self, env):
        c = Interp(self.ctx, env, self.noise, self.tags, self.draws, self.drawcache)
        return c

    def tag(self, shared):
        t = self.tags.get(shared)
        if t is None:
            t = f"rng{len(self.tags)}"
            self.tags[shared] = t
        return t

    def __call__(self, v):
        e = self.env.get(v)
        if e is not None or v in self.env:
            return e
        if isinstance(v, Constant):
            if isinstance(v.type, TensorType):
                r = A(v.data)
                if v.type.dtype == "bool":
                    r = ew(boolv, r)
            elif hasattr(v.data, "toarray"):
                r = A(v.data.toarray())
            else:
                r = v.data
            self.env[v] = r
            return r
        if v.owner is None:
            if isinstance(v.type, RandomType):
                if isinstance(v, SharedVariable):
                    r = ("rng", self.tag(v))
                    self.env[v] = r
                    return r
                raise Unsupported(f"free RNG input {v}")
            if isinstance(v, SharedVariable):
                r = A(v.get_value())
                self.env[v] = r
                return r
            raise Unsupported(f"graph input without a value: {v} {v.type}")
        # iterative evaluation of long chains
        stack = [v]
        while stack:
            w = stack[-1]
            if w in self.env:
                stack.pop()
                continue
            if w.owner is None or isinstance(w, Constant):
                self(w)
                stack.pop()
                continue
            op = w.owner.op
            if isinstance(op, IfElse):
                c = w.owner.inputs[0]
                if c not in self.env:
                    stack.append(c)
                    continue
                cv = boolv(self.env[c][()])
                if not isinstance(cv, bool):
                    raise Unsupported("symbolic ifelse condition")
                n = op.n_outs
                i = w.owner.outputs.index(w)
                b = w.owner.inputs[1 + i if cv else 1 + n + i]
                if b not in self.env:
                    stack.append(b)
                    continue
                self.env[w] = self.env[b]
                stack.pop()
                continue
            todo = [i for i in w.owner.inputs if i not in self.env]
            todo = self._needed(w.owner, todo)
            if todo:
                stack.extend(todo)
                continue
            outs = self.node(w.owner)
            for o, r in zip(w.owner.outputs, outs):
                # an explicit override of an output wins
                if o not in self.env:
                    self.env[o] = r
            stack.pop()
        return self.env[v]

    def _needed(self, node, todo):
        return todo

    # -- node dispatch --
    def node(self, node):
        op = node.op
        self.ops_seen.add(type(op).__name__)
        x = [self.env[i] for i in node.inputs]
        for cls in type(op).__mro__:
            f = HANDLERS.get(cls)
            if f is not None:
                r = f(self, node, op, x)
                break
        else:
            r = self.fallback(node, op, x)
        if not isinstance(r, list):
            r = [r]
        for o, a in zip(node.outputs, r):
            if isinstance(o.type, TensorType) and a is not None and a.ndim != o.type.ndim:
                raise Unsupported(f"rank mismatch in {node}: {a.shape} vs {o.type}")
        return r

    def fallback(self, node, op, x):
        ins = []
        for i, a in zip(node.inputs, x):
            if isinstance(a, np.ndarray):
                if any(is_sym(e) and not (isinstance(e, V) and e.is_const()) for e in a.ravel()):
                    raise Unsupported(f"op {op} ({type(op).__name__}) on symbolic input")
                b = np.empty(a.shape, dtype=i.type.dtype)
                for k in np.ndindex(*a.shape):
                    e = a[k]
                    b[k] = float(e.c) if isinstance(e, V) else e if not isinstance(e, Fraction) else float(e)
                ins.append(b)
            else:
                raise Unsupported(f"op {op} ({type(op).__name__})")
        st = [[None] for _ in node.outputs]
        op.perform(node, ins, st)
        return [A(s[0]) for s in st]


HANDLERS = {}


def handles(*classes):
    def d(f):
        for c in classes:
            HANDLERS[c] = f
        return f

    return d


@handles(ate.Elemwise)
def h_elemwise(it, node, op, x):
    so = op.scalar_op
    name = type(so).__name__
    it.ops_seen.add("scalar." + name)
    if isinstance(op, OpFromGraph):
        return h_ofg(it, node, op, x)
    if name == "Cast":
        dt = so.o_type.dtype
        return ew(lambda v: cast_elem(v, dt), *x)
    if name == "Composite":
        raise Unsupported("Composite scalar op")
    f = SCALAR.get(name)
    if f is None:
        # concrete values only
        return it.fallback(node, op, x)
    # numpy requires static broadcast dims; shapes must agree or be 1
    out = ew(f, *x)
    dt = node.outputs[0].type.dtype
    if dt == "bool":
        out = ew(boolv, out)
    return out


@handles(ate.DimShuffle)
def h_dimshuffle(it, node, op, x):
    a = x[0]
    drop = [d for d in range(a.ndim) if d not in op.new_order]
    for d in drop:
        if a.shape[d] != 1:
            raise Undefined("DimShuffle drops a non-broadcastable dimension")
    keep = [d for d in op.new_order if d != "x"]
    b = a.transpose(keep + drop).reshape([a.shape[d] for d in keep])
    idx = tuple(None if d == "x" else slice(None) for d in op.new_order)
    return b[idx] if idx else b


def _reduce(a, axis, f, init):
    if axis is None:
        axis = tuple(range(a.ndim))
    axis = tuple(sorted(d % a.ndim for d in axis)) if a.ndim else ()
    if not axis:
        return a
    rest = [d for d in range(a.ndim) if d not in axis]
    b = a.transpose(rest + list(axis))
    shp = tuple(a.shape[d] for d in rest)
    b = b.reshape(shp + (-1,)) if b.size else b.reshape(shp + (int(np.prod([a.shape[d] for d in axis])),))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        row = list(b[i])
        if not row:
            if init is None:
                raise Undefined("reduction of an empty axis")
            out[i] = init
            continue
        r = row[0]
        if init is not None:
            r = f(init, r)
        for e in row[1:]:
            r = f(r, e)
        out[i] = r
    return out


REDUCERS = {
    "Add": (s_add, 0),
    "Mul": (s_mul, 1),
    "ScalarMaximum": (lambda a, b: vmax(_bool2v(a), _bool2v(b)), None),
    "ScalarMinimum": (lambda a, b: vmin(_bool2v(a), _bool2v(b)), None),
    "AND": (b_and, True),
    "OR": (b_or, False),
}


@handles(ate.CAReduce)
def h_careduce(it, node, op, x):
    name = type(op.scalar_op).__name__
    if name not in REDUCERS:
        return it.fallback(node, op, x)
    f, init = REDUCERS[name]
    return _reduce(x[0], op.axis, f, init)


@handles(atm.MaxAndArgmax)
def h_maxarg(it, node, op, x):
    a = x[0]
    m = _reduce(a, op.axis, lambda p, r: vmax(_bool2v(p), _bool2v(r)), None)
    arg = None
    if not any(is_sym(e) for e in a.ravel()):
        ax = op.axis
        if len(ax) == a.ndim:
            arg = A(int(np.argmax(a.astype(float))))
        elif len(ax) == 1:
            arg = A(np.argmax(a.astype(float), axis=ax[0]))
    return [m, arg]


@handles(atm.Dot)
def h_dot(it, node, op, x):
    a, b = x
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise Undefined(f"dot shape mismatch {a.shape} {b.shape}")
    return dot(a, b)


def dot(a, b):
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            r = 0
            for k in range(a2.shape[1]):
                r = s_add(r, s_mul(a2[i, k], b2[k, j]))
            out[i, j] = r
    if b.ndim == 1:
        out = out[:, 0]
    if a.ndim == 1:
        out = out[0]
    return out if isinstance(out, np.ndarray) else A(out)


@handles(ats.Shape)
def h_shape(it, node, op, x):
    return A([int(d) for d in x[0].shape]) if x[0].ndim else np.empty((0,), dtype=object)


@handles(ats.Shape_i)
def h_shape_i(it, node, op, x):
    return A(int(x[0].shape[op.i]))


@handles(ats.SpecifyShape)
def h_specify(it, node, op, x):
    for d, s in zip(x[0].shape, x[1:]):
        if isinstance(s, np.ndarray) and as_int(s[()]) != d:
            raise Undefined("SpecifyShape mismatch")
    return x[0]


@handles(ats.Reshape)
def h_reshape(it, node, op, x):
    shp = ints(x[1])
    try:
        return x[0].reshape(shp)
    except ValueError as e:
        raise Undefined(str(e))


@handles(ats.Unbroadcast)
def h_unbroadcast(it, node, op, x):
    return x[0]


@handles(atb.Alloc)
def h_alloc(it, node, op, x):
    shp = tuple(as_int(d[()]) for d in x[1:])
    return np.array(np.broadcast_to(x[0], shp), dtype=object)


@handles(atb.AllocEmpty)
def h_allocempty(it, node, op, x):
    return np.empty(tuple(as_int(d[()]) for d in x), dtype=object)


@handles(extra_ops.BroadcastTo)
def h_broadcast_to(it, node, op, x):
    shp = tuple(as_int(d[()]) for d in x[1:])
    try:
        return np.array(np.broadcast_to(x[0], shp), dtype=object)
    except ValueError as e:
        raise Undefined(str(e))


@handles(extra_ops.BroadcastArrays) if hasattr(extra_ops, "BroadcastArrays") else (lambda f: f)
def h_broadcast_arrays(it, node, op, x):
    shp = np.broadcast_shapes(*[a.shape for a in x])
    return [np.array(np.broadcast_to(a, shp), dtype=object) for a in x]


@handles(atb.MakeVector)
def h_makevector(it, node, op, x):
    return A([a[()] for a in x]) if x else np.empty((0,), dtype=object)


@handles(atb.ScalarFromTensor, atb.TensorFromScalar)
def h_identity(it, node, op, x):
    return x[0]


@handles(ViewOp, DeepCopyOp)
def h_view(it, node, op, x):
    return x[0]


@handles(atb.ARange)
def h_arange(it, node, op, x):
    a, b, c = (as_int(v[()]) for v in x)
    r = list(range(a, b, c))
    return A(r) if r else np.empty((0,), dtype=object)


@handles(atb.Join)
def h_join(it, node, op, x):
    ax = as_int(x[0][()])
    return np.concatenate(x[1:], axis=ax)


@handles(atb.Split)
def h_split(it, node, op, x):
    a, ax, sizes = x
    ax = as_int(ax[()])
    sz = ints(sizes)
    cuts = np.cumsum(sz)[:-1]
    if sum(sz) != a.shape[ax]:
        raise Undefined("Split sizes")
    return list(np.split(a, cuts, axis=ax))


@handles(atb.ExtractDiag)
def h_extractdiag(it, node, op, x):
    return np.array(x[0].diagonal(op.offset, op.axis1, op.axis2), dtype=object)


@handles(nlinalg.AllocDiag) if hasattr(nlinalg, "AllocDiag") else (lambda f: f)
def h_nl_allocdiag(it, node, op, x):
    return _mkdiag(x[0])


@handles(atb.AllocDiag) if hasattr(atb, "AllocDiag") else (lambda f: f)
def h_allocdiag(it, node, op, x):
    return _mkdiag(x[0])


def _mkdiag(a):
    n = a.shape[-1]
    out = np.empty((n, n), dtype=object)
    out[...] = 0
    for i in range(n):
        out[i, i] = a[i]
    return out


@handles(atb.Eye) if hasattr(atb, "Eye") else (lambda f: f)
def h_eye(it, node, op, x):
    n, m, k = (as_int(v[()]) for v in x)
    return A(np.eye(n, m, k))


@handles(atb.Tri) if hasattr(atb, "Tri") else (lambda f: f)
def h_tri(it, node, op, x):
    n, m, k = (as_int(v[()]) for v in x)
    return A(np.tri(n, m, k))


@handles(atb.PermuteRowElements) if hasattr(atb, "PermuteRowElements") else (lambda f: f)
def h_perm(it, node, op, x):
    raise Unsupported("PermuteRowElements")


@handles(extra_ops.CumOp)
def h_cumop(it, node, op, x):
    a = x[0]
    f = s_add if op.mode == "add" else s_mul
    ax = op.axis
    if ax is None:
        a = a.reshape(-1)
        ax = 0
    a = np.moveaxis(a, ax, 0).copy()
    for i in range(1, a.shape[0]):
        a[i] = ew(f, A(a[i - 1]), A(a[i]))
    return np.moveaxis(a, 0, ax)


def _conv_idx(it, e):
    if e is None:
        return None
    if isinstance(e, slice):
        def g(u):
            if u is None:
                return None
            return as_int(u[()]) if isinstance(u, np.ndarray) else int(u)
        return slice(g(e.start), g(e.stop), g(e.step))
    return e


def _sub_index(op, idx_vals):
    """Rebuild the python index of a Subtensor/IncSubtensor."""
    it = iter(idx_vals)

    def conv(e):
        if isinstance(e, slice):
            return slice(conv(e.start), conv(e.stop), conv(e.step))
        if e is None:
            return None
        if isinstance(e, (int, np.integer)):
            return int(e)
        return as_int(next(it)[()])

    return tuple(conv(e) for e in op.idx_list)


def _get(a, idx):
    try:
        r = a[idx]
    except IndexError as e:
        raise Undefined(str(e))
    if isinstance(r, np.ndarray):
        return r
    o = np.empty((), dtype=object)
    o[()] = r
    return o


@handles(sub.Subtensor)
def h_subtensor(it, node, op, x):
    return _get(x[0], _sub_index(op, x[1:]))


@handles(sub.IncSubtensor)
def h_incsubtensor(it, node, op, x):
    a = x[0].copy()
    idx = _sub_index(op, x[2:])
    cur = _get(a, idx)
    y = np.broadcast_to(x[1], cur.shape)
    new = y if op.set_instead_of_inc else ew(s_add, cur, y)
    a[idx] = new if new.ndim else new[()]
    return a


def _adv_idx(vals):
    out = []
    for v in vals:
        if v is None:
            out.append(None)
        elif isinstance(v, slice):
            out.append(_conv_idx(None, v))
        elif isinstance(v, np.ndarray):
            if v.size and all(isinstance(e, (bool,)) for e in v.ravel()):
                out.append(v.astype(bool))
            else:
                b = np.empty(v.shape, dtype=int)
                for k in np.ndindex(*v.shape):
                    b[k] = as_int(v[k])
                out.append(b)
        else:
            raise Unsupported(f"index {v!r}")
    return tuple(out)


@handles(sub.AdvancedSubtensor, sub.AdvancedSubtensor1)
def h_advsub(it, node, op, x):
    return _get(x[0], _adv_idx(x[1:]))


@handles(sub.AdvancedIncSubtensor, sub.AdvancedIncSubtensor1)
def h_advinc(it, node, op, x):
    a = x[0].copy()
    idx = _adv_idx(x[2:])
    cur = _get(a, idx)
    y = np.broadcast_to(x[1], cur.shape)
    if op.set_instead_of_inc:
        a[idx] = y if y.ndim else y[()]
        return a
    # duplicates accumulate
    lin = np.arange(a.size).reshape(a.shape)[idx]
    flat = a.reshape(-1).copy()
    for k in np.ndindex(*cur.shape):
        j = lin[k] if np.ndim(lin) else int(lin)
        flat[j] = s_add(flat[j], y[k])
    return flat.reshape(a.shape)


@handles(sub.MakeSlice) if hasattr(sub, "MakeSlice") else (lambda f: f)
def h_makeslice(it, node, op, x):
    return [slice(*[None if v is None else v for v in x])]


try:
    from aesara.tensor.type_other import MakeSlice as _MS

    HANDLERS[_MS] = h_makeslice
except Exception:  # pragma: no cover
    pass


# ------------------------------------------------------------ linear algebra
def matdet(a):
    n = a.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return a[0, 0]
    if n == 2:
        return s_sub(s_mul(a[0, 0], a[1, 1]), s_mul(a[0, 1], a[1, 0]))
    r = 0
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = s_mul(a[0, j], matdet(m))
        r = s_add(r, t if j % 2 == 0 else s_neg(t))
    return r


def solve_cramer(a, b):
    n = a.shape[0]
    vec = b.ndim == 1
    b2 = b[:, None] if vec else b
    d = matdet(a)
    out = np.empty(b2.shape, dtype=object)
    cof = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = matdet(np.delete(np.delete(a, i, 0), j, 1))
            cof[i, j] = c if (i + j) % 2 == 0 else s_neg(c)
    for j in range(b2.shape[1]):
        for i in range(n):
            r = 0
            for k in range(n):
                r = s_add(r, s_mul(cof[k, i], b2[k, j]))
            out[i, j] = s_div(r, d)
    return out[:, 0] if vec else out


@handles(slinalg.Cholesky)
def h_cholesky(it, node, op, x):
    m = x[0]
    if m.ndim != 2:
        raise Unsupported("batched Cholesky")
    n = m.shape[0]
    if m.shape != (n, n):
        raise Undefined("Cholesky of a non-square matrix")
    lower = op.lower
    # only one triangle is read by the real op
    ref = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            ref[i, j] = m[max(i, j), min(i, j)] if lower else m[min(i, j), max(i, j)]
    L = None
    for mm, LL in it.chols:
        if mm.shape == ref.shape and all(
            core.vkey(mm[k]) == core.vkey(ref[k]) for k in np.ndindex(n, n)
        ):
            L = LL
            break
    if L is None:
        ctx = it.ctx
        L = np.empty((n, n), dtype=object)
        L[...] = 0
        for i in range(n):
            for j in range(i + 1):
                if i == j:
                    L[i, j] = ctx.fresh("L", pos=True, kind="chol")
                else:
                    L[i, j] = ctx.fresh("L")
        for i in range(n):
            for j in range(i + 1):
                s = 0
                for k in range(j + 1):
                    s = s_add(s, s_mul(L[i, k], L[j, k]))
                ctx.defs.append(core.as_bool(lift(s).eq(lift(ref[i, j]))))
        ctx.need_pd.append(ref)
        it.chols.append((ref, L))
    return L if lower else L.T


def _tri_solve(a, b, lower, trans, unit):
    n = a.shape[0]
    if trans:
        a = a.T
        lower = not lower
    vec = b.ndim == 1
    b2 = b[:, None] if vec else b
    if b2.shape[0] != n:
        raise Undefined("solve_triangular shape mismatch")
    out = np.empty(b2.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for j in range(b2.shape[1]):
        for i in order:
            r = b2[i, j]
            for k in range(i) if lower else range(i + 1, n):
                r = s_sub(r, s_mul(a[i, k], out[k, j]))
            out[i, j] = r if unit else s_div(r, a[i, i])
    return out[:, 0] if vec else out


@handles(slinalg.SolveTriangular)
def h_solvetri(it, node, op, x):
    a, b = x[0], x[1]
    trans = getattr(op, "trans", 0) in (1, "T", 2, "C")
    return _tri_solve(a, b, op.lower, trans, getattr(op, "unit_diagonal", False))


@handles(slinalg.Solve)
def h_solve(it, node, op, x):
    a, b = x[0], x[1]
    if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
        raise Undefined("solve shape mismatch")
    n = a.shape[0]
    if getattr(op, "assume_a", "gen") in ("pos", "sym", "her"):
        ref = a.copy()
        lower = op.lower
        for i in range(n):
            for j in range(n):
                ref[i, j] = a[max(i, j), min(i, j)] if lower else a[min(i, j), max(i, j)]
        if getattr(op, "assume_a") == "pos":
            it.ctx.need_pd.append(ref)
        a = ref
    return solve_cramer(a, b)


@handles(nlinalg.MatrixInverse)
def h_inv(it, node, op, x):
    n = x[0].shape[0]
    return solve_cramer(x[0], A(np.eye(n)))


@handles(nlinalg.Det)
def h_det(it, node, op, x):
    return A(matdet(x[0]))


if hasattr(slinalg, "CholeskySolve"):

    @handles(slinalg.CholeskySolve)
    def h_chosolve(it, node, op, x):
        C, b = x
        y = _tri_solve(C, b, op.lower, not op.lower, False) if op.lower else _tri_solve(C, b, False, True, False)
        return _tri_solve(C, y, op.lower, op.lower, False)


# ------------------------------------------------------------ sparse
def _install_sparse():
    from aesara.sparse import basic as sb

    @handles(sb.DenseFromSparse, sb.SparseFromDense)
    def h_sp(it, node, op, x):
        return x[0]

    @handles(sb.CSM)
    def h_csm(it, node, op, x):
        data, indices, indptr, shape = x
        r, c = ints(shape)
        ii, pp = ints(indices), ints(indptr)
        out = np.empty((r, c), dtype=object)
        out[...] = 0
        n = c if op.format == "csc" else r
        for k in range(n):
            for t in range(pp[k], pp[k + 1]):
                if op.format == "csc":
                    out[ii[t], k] = data[t]
                else:
                    out[k, ii[t]] = data[t]
        return out


_install_sparse()


# ------------------------------------------------------------ control / graphs
def h_ofg(it, node, op, x):
    fg_in = list(op.inner_inputs)
    env = dict(zip(fg_in, x))
    if len(x) != len(fg_in):
        # SubsumingElemwise drops shared inputs from the node
        for s, v in zip(fg_in[len(x):], op.shared_inputs):
            env[s] = it(v)
    c = it.child(env)
    return [c(o) for o in op.inner_outputs]


HANDLERS[OpFromGraph] = h_ofg


@handles(Scan)
def h_scan(it, node, op, x):
    info = op.info
    n = as_int(x[0][()])
    inp = list(node.inputs)
    pos = {v: k for k, v in enumerate(inp)}
    if info.n_mit_mot:
        raise Unsupported("mit-mot scan")
    o_seqs = op.outer_seqs(inp)
    o_mit = op.outer_mitsot(inp)
    o_sit = op.outer_sitsot(inp)
    o_shared = op.outer_shared(inp)
    o_nit = op.outer_nitsot(inp)
    o_nonseq = op.outer_non_seqs(inp)
    ii = list(op.inner_inputs)
    i_seqs = op.inner_seqs(ii)
    i_mit = op.inner_mitsot(ii)  # list of lists
    i_sit = op.inner_sitsot(ii)
    i_shared = op.inner_shared(ii)
    i_nonseq = op.inner_non_seqs(ii)
    io = list(op.inner_outputs)
    mit_bufs = [it.env[v].copy() for v in o_mit]
    sit_bufs = [it.env[v].copy() for v in o_sit]
    taps = [t for t in info.mit_sot_in_slices]
    shared = [it.env[v] for v in o_shared]
    nit = [[] for _ in o_nit]
    k_mit, k_sit, k_nit, k_sh = len(o_mit), len(o_sit), len(o_nit), len(o_shared)
    for s in o_seqs:
        if it.env[s].shape[0] < n:
            raise Undefined("scan sequence too short")
    done = n
    for step in range(n):
        env = {}
        for iv, ov in zip(i_seqs, o_seqs):
            env[iv] = _get(it.env[ov], step)
        for b, ivs, tp in zip(mit_bufs, i_mit, taps):
            off = -min(tp)
            for iv, t in zip(ivs, tp):
                env[iv] = _get(b, step + t + off)
        for b, iv in zip(sit_bufs, i_sit):
            env[iv] = _get(b, step)
        for s, iv in zip(shared, i_shared):
            env[iv] = s
        for iv, ov in zip(i_nonseq, o_nonseq):
            env[iv] = it.env[ov]
        c = it.child(env)
        outs = [c(o) for o in io]
        p = 0
        for b, tp in zip(mit_bufs, taps):
            _store(b, step - min(tp), outs[p])
            p += 1
        for b in sit_bufs:
            _store(b, step + 1, outs[p])
            p += 1
        for r in nit:
            r.append(outs[p])
            p += 1
        for j in range(k_sh):
            shared[j] = outs[p]
            p += 1
        if info.as_while:
            cond = boolv(outs[p][()])
            if not isinstance(cond, bool):
                raise Unsupported("symbolic scan termination")
            if cond:
                done = step + 1
                break
    if done != n:
        mit_bufs = [b[: done - min(t)] for b, t in zip(mit_bufs, taps)]
        sit_bufs = [b[: done + 1] for b in sit_bufs]
    nit_out = []
    for r, ov in zip(nit, node.outputs[k_mit + k_sit : k_mit + k_sit + k_nit]):
        if r:
            a = np.empty((len(r),) + r[0].shape, dtype=object)
            for k, e in enumerate(r):
                a[k] = e if e.ndim else e[()]
        else:
            a = np.empty((0,) * ov.type.ndim, dtype=object)
        nit_out.append(a)
    return mit_bufs + sit_bufs + nit_out + shared


def _store(buf, k, v):
    if k >= buf.shape[0]:
        k = k % buf.shape[0]
    buf[k] = v if v.ndim else v[()]


def _install_raise():
    from aesara.raise_op import CheckAndRaise

    @handles(CheckAndRaise)
    def h_raise(it, node, op, x):
        for c in x[1:]:
            c = boolv(c[()])
            if isinstance(c, bool):
                if not c:
                    raise Undefined(str(op.msg))
            else:
                it.ctx.raises.append((str(op.msg), c))
        return x[0]


_install_raise()


@handles(RandomVariable)
def h_rv(it, node, op, x):
    fam = NAMES.get(op.name)
    if fam is None:
        raise Unsupported(f"random variable {op.name}")
    token, size, params = x[0], x[1], x[3:]
    size = ints(size) if size is not None and size.size else ()
    shape = batch_shape(fam, size, params)
    nd = NDIM_PARAMS.get(fam, [0] * len(params))
    try:
        ps = [
            np.broadcast_to(p, shape + p.shape[p.ndim - d:]) for p, d in zip(params, nd)
        ]
    except ValueError as e:
        raise Undefined(f"{op.name}: size {size} incompatible with parameters ({e})")
    key = (token, fam, shape, tuple(tuple(core.vkey(v) for v in p.ravel()) for p in ps))
    hit = it.drawcache.get(key)
    if hit is not None:
        return [hit[0], hit[1]]
    base = f"{noise_kind(fam)}[{token_name(token)}"
    # a second, different draw from the same state is correlated with the first
    # (unless only the state is to matter, as for copies of one variable)
    clash = [d for d in it.draws if d.token == token]
    if clash and not getattr(it.noise, "by_state", False):
        base += f"#{len(clash)}"
    names = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        names[i] = base + ("," + ",".join(map(str, i)) if i else "") + "]"
    eps = it.noise(fam, token, ps, shape, names)
    out = np.empty(eps.shape, dtype=object)
    for i in np.ndindex(*shape):
        if fam in NDIM_SUPP:
            raise Unsupported(f"multivariate draw {fam}")
        out[i] = apply_family(fam, [_bool2v(p[i]) for p in ps], eps[i], FakeOps)
    it.draws.append(Draw(fam, token, ps, shape, eps, out, names))
    nt = ("adv", token, fam, shape)
    it.drawcache[key] = (nt, out)
    return [nt, out]


# identity-like ops met in OpFromGraph / update plumbing
def _install_misc():
    import aesara.compile.ops as cops

    for nm in ("UpdatePlaceholder", "Rebroadcast", "OutputGuard"):
        c = getattr(cops, nm, None)
        if c is not None:
            HANDLERS[c] = h_view
    import aesara.compile.builders as cb

    for nm in ("UpdatePlaceholder",):
        c = getattr(cb, nm, None)
        if c is not None:
            HANDLERS[c] = h_view


_install_misc()
