"""Symbolic reals for the graph executor.

A value is  c * prod(atom_i ** e_i) * n   with c an exact rational, the atoms
registered z3 terms that are known to be non-zero (declared-positive inputs,
random draws, Cholesky diagonals, denominators ...) and n a z3 polynomial term.
Denominators are therefore always in factored form, so an equality claim can be
handed to the solver with every denominator cleared:  c*prod*n == 0  iff n == 0.

Elements of symbolic arrays are: int, bool, Fraction, float (only +-inf / nan),
V (symbolic real) or z3.BoolRef.
"""
import math
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The encoding does not cover this construct (the check has no answer)."""


class Undefined(Exception):
    """The real code raises / yields NaN on the concrete part of the input."""


_SIZE_CAP = 4000


def _dag_size(t, cap=_SIZE_CAP):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > cap:
            return cap + 1
        todo.extend(x.children())
    return len(seen)


def q(v):
    """z3 numeral for a rational."""
    v = Fraction(v)
    return z3.Q(v.numerator, v.denominator)


class Atom:
    __slots__ = ("term", "pos", "square", "kind", "arg", "idx")

    def __init__(self, term, pos, idx, kind="", arg=None, square=None):
        self.term = term
        self.pos = pos  # True: > 0; None: only != 0 is assumed
        self.square = square  # V such that atom**2 == square
        self.kind = kind  # 'var', 'exp', 'sqrt', 'den', 'chol'
        self.arg = arg
        self.idx = idx


class Ctx:
    """Registry of symbols, definitions and assumptions of one symbolic run."""

    def __init__(self):
        self.atoms = []
        self.by_id = {}  # ast id -> atom idx
        self.assume = []  # z3 bools: documented input assumptions
        self.defs = []  # z3 bools: definitions of introduced symbols
        self.undefined = []  # (desc, z3 bool that must be false): definedness
        self.vars = {}  # name -> z3 var (primary inputs and noise)
        self.kinds = {}  # name -> 'real' | 'pos' | ...
        self.cache = {}
        self.keep = []  # keeps z3 asts alive so ids stay unique
        self.uf = {}  # (fn, key) -> (V arg, V value)
        self.n_fresh = 0
        self.chols = []  # (matrix, factor) pairs met by the executor
        self.need_pd = []  # matrices the code requires to be positive definite
        self.raises = []  # (message, condition) of run-time assertions
        self.ops_seen = set()
        self.int_valued = set()  # names of integer-valued symbols
        self.hints = []  # refuted comparisons made while identifying draws
        self.opaque_max = False  # maxima become unconstrained symbols
        self.fork = None  # path explorer (see paths.py)

    # -- symbols --
    def real(self, name, lo=None, hi=None):
        if name in self.vars:
            return V(self, Fraction(1), (), self.vars[name])
        x = z3.Real(name)
        self.vars[name] = x
        self.kinds[name] = "real"
        if lo is not None:
            self.assume.append(x >= q(lo))
        if hi is not None:
            self.assume.append(x <= q(hi))
        return V(self, Fraction(1), (), x)

    def pos(self, name):
        if name not in self.vars:
            x = z3.Real(name)
            self.vars[name] = x
            self.kinds[name] = "pos"
            self.assume.append(x > 0)
            self._atom(x, True, "var")
        return V(self, Fraction(1), ((self.by_id[self.vars[name].get_id()], 1),), None)

    def fresh(self, base, pos=False, kind="fresh"):
        self.n_fresh += 1
        name = f"{base}!{self.n_fresh}"
        x = z3.Real(name)
        self.keep.append(x)
        if pos:
            a = self._atom(x, True, kind)
            self.defs.append(x > 0)
            return V(self, Fraction(1), ((a.idx, 1),), None)
        return V(self, Fraction(1), (), x)

    def _atom(self, term, pos, kind, arg=None, square=None):
        i = self.by_id.get(term.get_id())
        if i is not None:
            return self.atoms[i]
        a = Atom(term, pos, len(self.atoms), kind, arg, square)
        self.atoms.append(a)
        self.by_id[term.get_id()] = a.idx
        self.keep.append(term)
        return a

    def canon(self, n):
        """Canonical (expanded) form of a small polynomial term."""
        k = ("canon", n.get_id())
        r = self.cache.get(k)
        if r is None:
            if _dag_size(n, 400) <= 400:
                r = z3.simplify(n, som=True, som_blowup=200, sort_sums=True)
            else:
                r = n
            self.keep.extend((n, r))
            self.cache[k] = r
        return r

    def positive(self, n):
        """Is the polynomial term n provably > 0 under the assumptions?"""
        k = ("pos", n.get_id())
        r = self.cache.get(k)
        if r is None:
            from .solve import quick_unsat

            r = quick_unsat(self, n <= 0, 3000)
            self.cache[k] = r
            self.keep.append(n)
        return r


def _emul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, k in b:
        s = d.get(i, 0) + k
        if s:
            d[i] = s
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def as_bool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def is_int_valued(v):
    from .solve import tvars

    if v.c.denominator != 1:
        return False
    for i, k in v.e:
        if k < 0 or not tvars(v.x.atoms[i].term) <= v.x.int_valued:
            return False
    if v.n is None:
        return True
    if not tvars(v.n) <= v.x.int_valued:
        return False
    todo = [v.n]
    while todo:
        t = todo.pop()
        if z3.is_rational_value(t):
            if t.as_fraction().denominator != 1:
                return False
        elif z3.is_app_of(t, z3.Z3_OP_DIV):
            return False
        elif not z3.is_bool(t):
            todo.extend(t.children())
    return True


class V:
    __slots__ = ("x", "c", "e", "n")
    __array_priority__ = 1000

    def __init__(self, ctx, c, e, n):
        self.x = ctx
        self.c = c
        self.e = e if c else ()
        self.n = n if c else None

    # -- construction helpers --
    @staticmethod
    def const(ctx, c):
        return V(ctx, Fraction(c), (), None)

    def lift(self, o):
        if isinstance(o, V):
            return o
        if isinstance(o, (bool, int, Fraction)):
            return V(self.x, Fraction(o), (), None)
        if isinstance(o, z3.BoolRef):
            return V(self.x, Fraction(1), (), z3.If(o, z3.RealVal(1), z3.RealVal(0)))
        return NotImplemented

    def is_const(self):
        return not self.e and self.n is None

    def norm(self):
        """Recognise numerators that are registered atoms; reduce squares."""
        v = self
        if v.n is not None:
            i = v.x.by_id.get(v.n.get_id())
            if i is not None:
                v = V(v.x, v.c, _emul(v.e, ((i, 1),)), None)
        for i, k in v.e:
            a = v.x.atoms[i]
            if a.square is not None and (k >= 2 or k <= -2):
                h = int(k / 2)
                rest = _emul(v.e, ((i, -2 * h),))
                return (V(v.x, v.c, rest, v.n) * (a.square ** h)).norm()
        return v

    def __repr__(self):
        return f"V({self.z3()})"

    def z3(self):
        """As a plain z3 term (with divisions)."""
        num = [] if self.n is None else [self.n]
        den = []
        for i, k in self.e:
            (num if k > 0 else den).extend([self.x.atoms[i].term] * abs(k))
        r = q(self.c)
        for t in num:
            r = r * t
        if den:
            d = den[0]
            for t in den[1:]:
                d = d * t
            r = r / d
        return r

    # -- arithmetic --
    def __mul__(self, o):
        if isinstance(o, float):
            return _special_mul(self, o)
        o = self.lift(o)
        if o is NotImplemented:
            return o
        if not self.c or not o.c:
            return V(self.x, Fraction(0), (), None)
        if self.n is None:
            n = o.n
        elif o.n is None:
            n = self.n
        else:
            n = self.n * o.n
        return V(self.x, self.c * o.c, _emul(self.e, o.e), n).norm()

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, float):
            return o
        o = self.lift(o)
        if o is NotImplemented:
            return o
        if not self.c:
            return o
        if not o.c:
            return self
        sn = None if self.n is None else self.n.get_id()
        on = None if o.n is None else o.n.get_id()
        if self.e == o.e and sn == on:
            return V(self.x, self.c + o.c, self.e, self.n)
        if self.e == o.e:
            m = self.e
            ra = rb = ()
        else:
            da, db = dict(self.e), dict(o.e)
            m = {}
            for i in set(da) | set(db):
                k = min(da.get(i, 0), db.get(i, 0))
                if k:
                    m[i] = k
            neg = tuple((i, -k) for i, k in m.items())
            ra, rb = _emul(self.e, neg), _emul(o.e, neg)
            m = tuple(sorted(m.items()))

        def term(c, e, n):
            f = [] if n is None else [n]
            for i, k in e:
                f.extend([self.x.atoms[i].term] * k)
            if not f:
                return q(c)
            t = f[0]
            for g in f[1:]:
                t = t * g
            if c != 1:
                t = q(c) * t
            return t

        n = term(self.c, ra, self.n) + term(o.c, rb, o.n)
        if _dag_size(n, 60) <= 60:
            s = z3.simplify(n, som=True, som_blowup=50)
            self.x.keep.append(s)
            if z3.is_rational_value(s):
                return V(self.x, s.as_fraction(), m, None)
            n = s
        self.x.keep.append(n)
        return V(self.x, Fraction(1), m, n).norm()

    __radd__ = __add__

    def __neg__(self):
        return V(self.x, -self.c, self.e, self.n)

    def __sub__(self, o):
        if isinstance(o, float):
            return -o
        o = self.lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def inv(self):
        if not self.c:
            raise Undefined("division by zero")
        if self.n is None:
            return V(self.x, 1 / self.c, tuple((i, -k) for i, k in self.e), None)
        n = self.x.canon(self.n)
        neg = z3.simplify(-n, som=True) if _dag_size(n, 100) <= 100 else None
        c = self.c
        if neg is not None and neg.get_id() in self.x.by_id:
            n, c = neg, -c
        i = self.x.by_id.get(n.get_id())
        if i is None:
            a = self.x._atom(n, None, "den")
            if self.x.positive(n):
                a.pos = True
            self.x.undefined.append(("division", n == 0))
            i = a.idx
        e = tuple((j, -k) for j, k in self.e)
        return V(self.x, 1 / c, _emul(e, ((i, -1),)), None)

    def __truediv__(self, o):
        if isinstance(o, float):
            if math.isinf(o):
                return Fraction(0)
            return o
        o = self.lift(o)
        if o is NotImplemented:
            return o
        return (self * o.inv()).norm()

    def __rtruediv__(self, o):
        if isinstance(o, float):
            return _special_mul(self.inv(), o)
        return self.inv() * o

    def __pow__(self, k):
        if isinstance(k, V) and k.is_const():
            k = k.c
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, int):
            if k == 0:
                return V.const(self.x, 1)
            b = self if k > 0 else self.inv()
            r = b
            for _ in range(abs(k) - 1):
                r = r * b
            return r
        if isinstance(k, Fraction) and k.denominator == 2:
            return vsqrt(self) ** int(k * 2)
        return vexp(vlog(self) * k)

    def __rpow__(self, b):
        return vexp(self * vlog(b, self.x))

    # -- comparisons (z3 Booleans) --
    def _cmp(self, o, op):
        d = self - o
        if isinstance(d, float):
            return op(0, -d) if not math.isnan(d) else False
        if not isinstance(d, V):
            return op(d, 0)
        if d.is_const():
            return op(d.c, 0)
        t = d.n if d.n is not None else q(1)
        for i, k in d.e:
            if k % 2 and not self.x.atoms[i].pos:
                t = t * self.x.atoms[i].term
        if d.c < 0:
            t = -t
        return op(t, 0)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def eq(self, o):
        return self._cmp(o, lambda a, b: a == b)

    __hash__ = object.__hash__

    def __eq__(self, o):  # pragma: no cover - guard against accidental use
        raise Unsupported("V.__eq__: use .eq")

    def __bool__(self):
        if self.is_const():
            return bool(self.c)
        raise Unsupported("truth value of a symbolic real")


def _special_mul(v, o):
    if math.isnan(o):
        return o
    s = sign(v)
    if s is None:
        raise Unsupported("infinity times a value of unknown sign")
    if s == 0:
        return math.nan
    return o * s


def sign(v):
    if not isinstance(v, V):
        return (v > 0) - (v < 0)
    if v.is_const():
        return (v.c > 0) - (v.c < 0)
    s = 1 if v.c > 0 else -1
    for i, k in v.e:
        a = v.x.atoms[i]
        if k % 2 and not a.pos:
            return None
    if v.n is not None:
        if v.x.positive(v.n):
            pass
        elif v.x.positive(-v.n):
            s = -s
        else:
            return None
    return s


def is_sym(v):
    return isinstance(v, (V, z3.BoolRef))


def num(v):
    """Normalise a Python/numpy number to the element domain."""
    if isinstance(v, (V, z3.BoolRef, bool, int, Fraction)):
        return v
    import numpy as np

    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isinf(v) or math.isnan(v):
            return v
        return Fraction(v)
    raise Unsupported(f"element {type(v)}")


def asnum(v):
    """bool -> 0/1 for arithmetic."""
    if isinstance(v, bool):
        return int(v)
    return v


def boolv(v):
    """Element -> bool or z3 Bool."""
    if isinstance(v, (bool, z3.BoolRef)):
        return v
    if isinstance(v, V):
        if v.is_const():
            return bool(v.c)
        return z3.Not(v.eq(0))
    return bool(v)


def b_and(a, b):
    a, b = boolv(a), boolv(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return z3.And(a, b)


def b_or(a, b):
    a, b = boolv(a), boolv(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return z3.Or(a, b)


def b_not(a):
    a = boolv(a)
    return (not a) if isinstance(a, bool) else z3.Not(a)


class Deferred:
    """A choice with a non-finite branch; only another choice may discard it."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def _no(self, *a):
        raise Unsupported("ite with a non-finite branch")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __abs__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __float__ = _no


def ite(c, a, b):
    c = boolv(c)
    if not isinstance(c, bool) and _CURRENT[0] is not None and _CURRENT[0].fork:
        c = _CURRENT[0].fork.decide(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, (float, Deferred)) or isinstance(b, (float, Deferred)):
        from .solve import quick_unsat

        ctx = _CURRENT[0]
        if quick_unsat(ctx, z3.Not(c)):
            return a
        if quick_unsat(ctx, c):
            return b
        if type(a) is float and type(b) is float and (a == b or (a != a and b != b)):
            return a
        return Deferred(c, a, b)
    if not isinstance(a, V) and not isinstance(b, V):
        if not isinstance(a, z3.BoolRef) and not isinstance(b, z3.BoolRef) and a == b:
            return a
        ctx = _CURRENT[0]
        a = V.const(ctx, 0).lift(a)
    if not isinstance(a, V):
        a = b.lift(a)
    b = a.lift(b)
    if a.c == b.c and a.e == b.e and (
        (a.n is None and b.n is None)
        or (a.n is not None and b.n is not None and a.n.get_id() == b.n.get_id())
    ):
        return a
    da, db = dict(a.e), dict(b.e)
    m = {}
    # a zero branch imposes no denominator
    if not a.c:
        m = db
    elif not b.c:
        m = da
    else:
        for i in set(da) | set(db):
            k = min(da.get(i, 0), db.get(i, 0))
            if k:
                m[i] = k

    def poly(v):
        if not v.c:
            return q(0)
        w = V(v.x, v.c, _emul(v.e, tuple((i, -k) for i, k in m.items())), v.n)
        t = q(w.c)
        for i, k in w.e:
            for _ in range(k):
                t = t * v.x.atoms[i].term
        return t if w.n is None else t * w.n

    n = z3.If(c, poly(a), poly(b))
    a.x.keep.append(n)
    return V(a.x, Fraction(1), tuple(sorted(m.items())), n)


_CURRENT = [None]


def use(ctx):
    _CURRENT[0] = ctx
    return ctx


# ---------------------------------------------------------------- functions
def _isqrt(f):
    f = Fraction(f)
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def lift(v, ctx=None):
    if isinstance(v, V):
        return v
    if isinstance(v, Deferred):
        v._no()
    ctx = ctx or _CURRENT[0]
    return V.const(ctx, 0).lift(v)


def vsqrt(v):
    if isinstance(v, float):
        return v if v > 0 else math.nan
    if not isinstance(v, V):
        v = Fraction(v)
        if v < 0:
            return math.nan
        r = _isqrt(v)
        if r is not None:
            return r
        v = lift(v)
    if v.is_const() and v.c < 0:
        return math.nan
    ctx = v.x
    out_e, rest_e = [], []
    for i, k in v.e:
        a = ctx.atoms[i]
        if a.pos:
            h = k // 2
            if h:
                out_e.append((i, h))
            if k % 2:
                rest_e.append((i, 1))
        else:
            rest_e.append((i, k))
    c = v.c
    rc = _isqrt(c) if c > 0 else None
    if rc is None:
        oc, cc = Fraction(1), c
    else:
        oc, cc = rc, Fraction(1)
    out = V(ctx, oc, tuple(out_e), None)
    n = v.n if v.n is None else ctx.canon(v.n)
    rest = V(ctx, cc, tuple(rest_e), n).norm()
    if rest.is_const() and rest.c == 1:
        return out
    key = ("sqrt", rest.c, rest.e, None if rest.n is None else rest.n.get_id())
    s = ctx.cache.get(key)
    if s is None:
        s = ctx.fresh("sqrt", pos=True, kind="sqrt")
        a = ctx.atoms[s.e[0][0]]
        a.square = rest
        # definition with denominators cleared: s^2 * den == num
        lhs, rhs = a.term * a.term, q(rest.c)
        if rest.n is not None:
            rhs = rhs * rest.n
        for i, k in rest.e:
            for _ in range(abs(k)):
                if k > 0:
                    rhs = rhs * ctx.atoms[i].term
                else:
                    lhs = lhs * ctx.atoms[i].term
        ctx.defs.append(lhs == rhs)
        ctx.undefined.append(("sqrt of a negative number", rest < 0))
        ctx.cache[key] = s
    return out * s


def _monomials(v):
    """v as a list of (coefficient, key, V-without-coefficient)."""
    ctx = v.x
    # terms that became denominators count as what they are: keys do not
    # depend on the divisions made so far
    up = [(i, k) for i, k in v.e if k > 0 and ctx.atoms[i].kind == "den"]
    if up:
        n = v.n
        for i, k in up:
            for _ in range(k):
                n = ctx.atoms[i].term if n is None else n * ctx.atoms[i].term
        v = V(ctx, v.c, tuple(x for x in v.e if x not in up), n)
    if v.n is None:
        return [(v.c, (v.e, None), V(ctx, Fraction(1), v.e, None))]
    n = ctx.canon(v.n)
    terms = list(n.children()) if z3.is_add(n) else [n]
    out = []
    for t in terms:
        c = v.c
        fac = []

        def flat(u):
            nonlocal c
            if z3.is_rational_value(u):
                c *= u.as_fraction()
            elif z3.is_mul(u):
                for w in u.children():
                    flat(w)
            elif z3.is_app_of(u, z3.Z3_OP_UMINUS):
                c = -c
                flat(u.arg(0))
            else:
                fac.append(u)

        flat(t)
        e = v.e
        rest = []
        for f in fac:
            i = ctx.by_id.get(f.get_id())
            if i is None or ctx.atoms[i].kind == "den":
                rest.append(f)
            else:
                e = _emul(e, ((i, 1),))
        if not rest:
            m = V(ctx, Fraction(1), e, None)
            key = (e, None)
        else:
            rest.sort(key=lambda u: u.get_id())
            r = rest[0]
            for u in rest[1:]:
                r = r * u
            r = z3.simplify(r, som=True)
            ctx.keep.append(r)
            m = V(ctx, Fraction(1), e, r)
            key = (e, r.get_id())
        out.append((c, key, m))
    return out


def vexp(v, ctx=None):
    if isinstance(v, float):
        return Fraction(0) if v < 0 else v
    if not isinstance(v, V):
        if v == 0:
            return Fraction(1)
        v = lift(v, ctx)
    ctx = v.x
    if v.is_const() and v.c == 0:
        return Fraction(1)
    if v.n is not None and z3.is_app_of(v.n, z3.Z3_OP_ITE) and not v.e:
        cnd, a, b = v.n.children()
        return ite(cnd, vexp(V(ctx, v.c, (), a).norm()), vexp(V(ctx, v.c, (), b).norm()))
    out = V.const(ctx, 1)
    for c, key, m in _monomials(v):
        if key == ((), None):
            key = ((), "const", c)
            if c < 0:
                key, c = ((), "const", -c), Fraction(-1)
            else:
                c = Fraction(1)
            m = V.const(ctx, key[2])
        # exp of a logarithm symbol
        inv = ctx.cache.get(("explog",) + key)
        if inv is not None and c.denominator == 1:
            out = out * (inv ** int(c))
            continue
        d = c.denominator
        k = ("exp", d) + key
        a = ctx.cache.get(k)
        if a is None:
            a = ctx.fresh("exp", pos=True, kind="exp")
            at = ctx.atoms[a.e[0][0]]
            at.arg = m * Fraction(1, d)
            ctx.cache[k] = a
        out = out * (a ** c.numerator)
    return out


def _log_key(ctx, kind, key, mk):
    k = ("log", kind, key)
    r = ctx.cache.get(k)
    if r is None:
        arg = mk()
        r = ctx.fresh("log", kind="log")
        ctx.cache[k] = r
        ctx.uf.setdefault("log", []).append((arg, r))
        ctx.cache[("explog", (), ctx.canon(r.n).get_id())] = arg
    return r


def _monomial(ctx, t):
    """(coefficient, {atom id: power}, {other term id: (term, power)}) of a product."""
    c, e, o = Fraction(1), {}, {}
    todo = [(t, 1)]
    while todo:
        t, k = todo.pop()
        if z3.is_rational_value(t):
            c *= t.as_fraction() ** k
        elif t.get_id() in ctx.by_id:
            i = ctx.by_id[t.get_id()]
            e[i] = e.get(i, 0) + k
        elif z3.is_app_of(t, z3.Z3_OP_MUL):
            todo.extend((x, k) for x in t.children())
        elif z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(t.arg(1)) or (
            z3.is_app_of(t, z3.Z3_OP_POWER)
            and z3.is_rational_value(t.arg(1))
            and t.arg(1).as_fraction().denominator == 1
            and t.arg(1).as_fraction() > 0
        ):
            todo.append((t.arg(0), k * int(t.arg(1).as_fraction())))
        else:
            a = o.get(t.get_id())
            o[t.get_id()] = (t, k + (a[1] if a else 0))
    return c, e, o


def _factored(ctx, n):
    """n with the common positive content of its terms pulled out, or None."""
    terms = n.children() if z3.is_app_of(n, z3.Z3_OP_ADD) else [n]
    if len(terms) > 40:
        return None
    ms = [_monomial(ctx, t) for t in terms]
    if any(c == 0 for c, _, _ in ms):
        return None
    g = abs(ms[0][0])
    for c, _, _ in ms[1:]:
        g = Fraction(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator),
                     g.denominator * c.denominator)
    if len(ms) > 1 and ms[0][0] < 0 and all(c < 0 for c, _, _ in ms):
        return None
    common = dict(ms[0][1])
    for _, e, _ in ms[1:]:
        common = {i: min(k, e[i]) for i, k in common.items() if i in e}
    common = {i: k for i, k in common.items() if ctx.atoms[i].pos}
    if g == 1 and not common:
        return None
    if len(ms) == 1 and (ms[0][2] or ms[0][0] < 0):
        if ms[0][0] < 0:
            return None
    out = []
    for c, e, o in ms:
        t = q(c / g)
        for i, k in e.items():
            for _ in range(k - common.get(i, 0)):
                t = t * ctx.atoms[i].term
        for x, k in o.values():
            for _ in range(k):
                t = t * x
        out.append(t)
    r = out[0] if len(out) == 1 else z3.Sum(out)
    r = ctx.canon(z3.simplify(r, som=True))
    e = tuple(sorted(common.items()))
    if z3.is_rational_value(r):
        return V(ctx, g * r.as_fraction(), e, None)
    v = V(ctx, g, e, r).norm()
    return v


def vlog(v, ctx=None):
    if isinstance(v, float):
        return v if v > 0 else math.nan
    if not isinstance(v, V):
        if v == 1:
            return Fraction(0)
        if v == 0:
            return -math.inf
        if v < 0:
            return math.nan
        v = lift(v, ctx)
    ctx = v.x
    if v.is_const() and v.c == 0:
        return -math.inf
    out = V.const(ctx, 0)
    c = v.c
    n = None if v.n is None else ctx.canon(v.n)
    if n is not None and c < 0:
        n, c = ctx.canon(z3.simplify(-n, som=True)), -c
    if n is not None and z3.is_app_of(n, z3.Z3_OP_ITE):
        cnd, a, b = n.children()
        o = V(ctx, c, v.e, None)
        return ite(
            cnd,
            vlog(V(ctx, Fraction(1), (), a).norm() if not z3.is_rational_value(a) else a.as_fraction()),
            vlog(V(ctx, Fraction(1), (), b).norm() if not z3.is_rational_value(b) else b.as_fraction()),
        ) + vlog(o)
    if c <= 0:
        return math.nan
    for part, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(part):
            out = out + _log_key(ctx, "const", p, lambda p=p: V.const(ctx, p)) * (sgn * k)
    for i, k in v.e:
        a = ctx.atoms[i]
        if a.kind == "exp":
            out = out + a.arg * k
        elif a.kind == "sqrt":
            out = out + vlog(a.square) * Fraction(k, 2)
        else:
            # (the term may have had a logarithm before it became an atom)
            old = ctx.cache.get(("log", "poly", ctx.canon(a.term).get_id()))
            if old is None:
                old = _log_key(
                    ctx, "atom", i, lambda i=i: V(ctx, Fraction(1), ((i, 1),), None)
                )
            out = out + old * k
            if not a.pos:
                ctx.undefined.append(("log of a non-positive number", a.term <= 0))
    if n is not None:
        w = _factored(ctx, n)
        if w is None:
            w = V(ctx, Fraction(1), (), n).norm()
        if w.n is None or w.c != 1 or w.e:
            return out + vlog(w)
        out = out + _log_key(ctx, "poly", n.get_id(), lambda: w)
        ctx.undefined.append(("log of a non-positive number", n <= 0))
    return out


def _factor(m):
    if m == 1:
        return []
    out, p = [], 2
    while p * p <= m and p < 1000:
        k = 0
        while m % p == 0:
            m //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if m > 1:
        out.append((m, 1))
    return out


def vkey(v):
    """Structural key of an element (after canonicalising its numerator)."""
    if isinstance(v, V):
        if v.is_const():
            return ("c", v.c)
        n = None if v.n is None else v.x.canon(v.n)
        return ("v", v.c, v.e, None if n is None else n.get_id())
    if isinstance(v, z3.BoolRef):
        return ("b", v.get_id())
    if isinstance(v, float):
        return ("f", repr(v))
    return ("c", Fraction(v))


def vuf(fn, *args, pos=False):
    """Uninterpreted real function (congruence added by the query builder)."""
    ctx = next((a.x for a in args if isinstance(a, V)), _CURRENT[0])
    args = tuple(a if isinstance(a, float) else lift(a, ctx) for a in args)
    k = ("uf", fn) + tuple(vkey(a) for a in args)
    r = ctx.cache.get(k)
    if r is None:
        r = ctx.fresh(fn, pos=pos)
        ctx.cache[k] = r
        ctx.uf.setdefault(fn, []).append((args, r))
    return r


def vabs(v):
    if not isinstance(v, V):
        return abs(v)
    s = sign(v)
    if s is not None:
        return v if s >= 0 else -v
    return ite(v >= 0, v, -v)


def vmax(a, b):
    return _sel(a, b, True)


def _sel(a, b, mx):
    if isinstance(a, float) or isinstance(b, float):
        for u, w in ((a, b), (b, a)):
            if isinstance(u, float):
                if math.isnan(u):
                    return u
                return u if (u > 0) == mx else w
    if not isinstance(a, V) and not isinstance(b, V):
        return max(a, b) if mx else min(a, b)
    ctx = _CURRENT[0]
    if mx and ctx is not None and ctx.opaque_max:
        # over-approximation: the claims must hold whatever the maximum is
        k = ("max",) + tuple((v.c, v.e, v.n.get_id() if v.n is not None else None) for v in (lift(a), lift(b)))
        if k not in ctx.cache:
            ctx.cache[k] = ctx.fresh("max")
        return ctx.cache[k]
    c = (lift(a) >= b) if mx else (lift(a) <= b)
    return ite(c, a, b)


def vmin(a, b):
    return _sel(a, b, False)


def cmp(a, b, op):
    """op in lt le gt ge eq ne; concrete bool or z3 Bool."""
    if isinstance(a, (z3.BoolRef,)):
        a = lift(a)
    if isinstance(b, (z3.BoolRef,)):
        b = lift(b)
    if isinstance(a, V) or isinstance(b, V):
        if isinstance(a, float) or isinstance(b, float):
            fa = a if isinstance(a, float) else 0.0
            fb = b if isinstance(b, float) else 0.0
            a, b = fa, fb
        else:
            a = lift(a)
            if op == "eq":
                return a.eq(b)
            if op == "ne":
                return b_not(a.eq(b))
            return {"lt": a.__lt__, "le": a.__le__, "gt": a.__gt__, "ge": a.__ge__}[op](b)
    return {
        "lt": a < b,
        "le": a <= b,
        "gt": a > b,
        "ge": a >= b,
        "eq": a == b,
        "ne": a != b,
    }[op]
