"""Solver front end: every verdict of a check is produced here.

A goal is a z3 Bool G; it is discharged when  assumptions & defs & not G  is
unsatisfiable.  Constraints are restricted to the goal's cone of influence
(dropping constraints is sound for `unsat`); a `sat` answer is only taken with
the complete cone.  Back ends: z3's nlsat (non-linear real arithmetic), z3's
default solver and, as a cross-check / fall-back, cvc5.
"""
import time
from fractions import Fraction

import z3


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.by = {}

    def rec(self, verdict, dt, backend):
        self.queries += 1
        self.time += dt
        setattr(self, verdict, getattr(self, verdict) + 1)
        self.by[backend] = self.by.get(backend, 0) + 1


STATS = Stats()

_vars_cache = {}


def tvars(t):
    """Names of the uninterpreted constants of a term."""
    k = t.get_id()
    r = _vars_cache.get(k)
    if r is not None and r[0] is not None:
        return r[1]
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    _vars_cache[k] = (t, frozenset(out))
    return _vars_cache[k][1]


def cone(constraints, goal_vars):
    """Constraints transitively sharing a variable with the goal."""
    left = [(c, tvars(c)) for c in constraints]
    seen = set(goal_vars)
    out = []
    while True:
        rest = []
        hit = False
        for c, v in left:
            if v & seen or not v:
                out.append(c)
                seen |= v
                hit = True
            else:
                rest.append((c, v))
        left = rest
        if not hit:
            return out


def _purify(assertions):
    """nlsat cannot take `if-then-else` over reals well: leave that to z3."""
    return assertions


def _has_ite(ts):
    seen = set()
    todo = list(ts)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            return True
        todo.extend(x.children())
    return False


def check(assertions, timeout_ms=20000, want_model=False, order=("nlsat", "smt")):
    """-> ('unsat'|'sat'|'unknown', model|None)"""
    if "ite" not in order and _has_ite(assertions):
        order = tuple(o for o in order if o != "nlsat") + ("nlsat",)
    last = "unknown"
    for b in order:
        t0 = time.time()
        if b == "nlsat":
            s = z3.Tactic("qfnra-nlsat").solver()
        else:
            s = z3.Solver()
        s.set("timeout", int(timeout_ms))
        try:
            s.add(*assertions)
            r = s.check()
            v = "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
            m = s.model() if v == "sat" and want_model else None
        except z3.Z3Exception:
            v, m = "unknown", None
        STATS.rec(v, time.time() - t0, b)
        if v != "unknown":
            return v, m
        last = v
    return last, None


def quick_unsat(ctx, goal, timeout_ms=2000):
    """Is `goal` impossible under the context's assumptions?"""
    if isinstance(goal, bool):
        return not goal
    cs = cone(ctx.assume, tvars(goal))
    v, _ = check([goal] + cs, timeout_ms, order=("smt", "nlsat"))
    if v == "unsat":
        return True
    if v == "sat":
        ds = cone(ctx.assume + ctx.defs, tvars(goal))
        if len(ds) == len(cs):
            return False
    else:
        ds = cone(ctx.assume + ctx.defs, tvars(goal))
    v, _ = check([goal] + ds, timeout_ms, order=("smt", "nlsat"))
    return v == "unsat"


def atom_facts(ctx, names):
    """Sign facts of registered non-zero atoms occurring among `names`."""
    out = []
    for a in ctx.atoms:
        if a.kind in ("var",):
            continue
        if tvars(a.term) <= names:
            out.append(a.term > 0 if a.pos else a.term != 0)
    return out


class Verdict:
    __slots__ = ("status", "model", "constraints", "detail")

    def __init__(self, status, model=None, constraints=None, detail=""):
        self.status = status
        self.model = model
        self.constraints = constraints
        self.detail = detail


def prove(ctx, goal, extra=(), timeout_ms=30000):
    """Decide `assumptions |= goal`.  status: proved | refuted | unknown."""
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    neg = z3.Not(goal)
    extra = list(extra)
    # 1. as a plain identity (fast when the claim is a polynomial identity)
    v, _ = check([neg], min(timeout_ms, 8000))
    if v == "unsat":
        return Verdict("proved")
    base = list(ctx.assume) + extra
    gv = tvars(neg)
    cs = cone(base, gv)
    if cs:
        v, _ = check([neg] + cs, timeout_ms)
        if v == "unsat":
            return Verdict("proved")
    full = cone(base + ctx.defs, gv)
    names = set(gv)
    for c in full:
        names |= tvars(c)
    full = full + atom_facts(ctx, names)
    v, m = check([neg] + full, timeout_ms, want_model=True)
    if v == "unsat":
        return Verdict("proved")
    if v == "sat":
        return Verdict("refuted", m, full)
    return Verdict("unknown", None, full)


def nice_models(ctx, goal, constraints, k=4, timeout_ms=6000, gap=None):
    """A few counter-models with moderate, distinct values (for the replay)."""
    out = []
    names = set(tvars(goal))
    for c in constraints:
        names |= tvars(c)
    prim = [(n, x) for n, x in ctx.vars.items()]
    box = []
    for n, x in prim:
        if n not in names:
            continue
        if ctx.kinds.get(n) == "pos":
            box += [x >= z3.Q(1, 4), x <= 4]
        else:
            box += [x >= -3, x <= 3]
    neg = z3.Not(goal)
    sets = []
    if gap is not None:
        sets.append(box + [z3.Or(gap > z3.Q(1, 4), gap < z3.Q(-1, 4))])
    sets.append(box)
    sets.append([])
    seen = set()
    for extra in sets:
        v, m = check([neg] + constraints + extra, timeout_ms, want_model=True)
        if v == "sat":
            vals = model_values(ctx, m)
            key = tuple(sorted((a, str(b)) for a, b in vals.items()))
            if key not in seen:
                seen.add(key)
                out.append(vals)
        if len(out) >= k:
            break
    return out


def far_model(ctx, goal, constraints, a, b, timeout_ms=6000):
    """A counter-model where the two sides differ by more than rounding."""
    from .core import lift

    try:
        a, b = lift(a, ctx).z3(), lift(b, ctx).z3()
    except Exception:
        return None
    t = z3.Q(1, 1000)
    size = z3.If(a > 0, a, -a) + z3.If(b > 0, b, -b) + 1
    far = z3.Or(a - b > t * size, b - a > t * size)
    v, m = check([z3.Not(goal), far] + constraints, timeout_ms, want_model=True)
    return model_values(ctx, m) if v == "sat" else None


def to_fraction(v, prec=30):
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(prec).as_fraction()
    return None


def model_values(ctx, m):
    """Primary inputs -> Fraction (unconstrained ones keep no entry)."""
    out = {}
    for n, x in ctx.vars.items():
        v = m.eval(x)
        if z3.is_int_value(v) or z3.is_rational_value(v):
            out[n] = Fraction(str(v.as_fraction())) if z3.is_rational_value(v) else Fraction(v.as_long())
        elif z3.is_algebraic_value(v):
            out[n] = to_fraction(v)
    return out
