"""C14: model metadata is consistent and rejects ambiguous names."""
import itertools

import aesara
import aesara.tensor as at
import numpy as np
import z3
from aesara.tensor.random import RandomStream

from aev.names import Explorer, SymStr
from aev.report import Check, Violation

from aemcmc.utils import ModelInfo

check = Check(
    "C14",
    "model metadata",
    assumptions=[
        "different random variables have different value variables, observed variables have values",
        "names are compared, ordered, tested for emptiness, prefixes and suffixes, or stripped; other string operations are not encoded",
    ],
    bounds="models of up to six different tracked variables (thorough: seven) in every role, overlapping roles and different orders; every name is None or an arbitrary string",
    functions=["aemcmc.utils.ModelInfo.__post_init__"],
)


def structures():
    """(name, quick, f(T)) with T(k, ...) the variables; f gives the arguments
    (observed, rvs_to_values, deterministics)."""
    s = []

    def e(name, n, f, quick=True):
        s.append((name, n, f, quick))

    e("nothing", 0, lambda v: ((), {}, ()))
    e("one latent", 2, lambda v: ((), {v[0]: v[1]}, ()))
    e("one observed", 2, lambda v: ((v[0],), {v[0]: v[1]}, ()))
    e("only a deterministic", 1, lambda v: ((), {}, (v[0],)))
    e("latent, observed", 4, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, ()))
    e("observed first", 4, lambda v: ((v[0],), {v[0]: v[1], v[2]: v[3]}, ()))
    e("latent, observed, deterministic", 5, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, (v[4],)))
    e("two latents, deterministic", 5, lambda v: ((), {v[0]: v[1], v[2]: v[3]}, (v[4],)))
    e("two observed, other order", 4, lambda v: ((v[2], v[0]), {v[0]: v[1], v[2]: v[3]}, ()))
    e("two deterministics", 4, lambda v: ((v[0],), {v[0]: v[1]}, (v[2], v[3])))
    e("deterministic twice", 3, lambda v: ((v[0],), {v[0]: v[1]}, (v[2], v[2])))
    e("deterministic is the latent", 4, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, (v[0],)))
    e("deterministic is the observed", 4, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, (v[2],)))
    e("deterministic is a value", 4, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, (v[3],)))
    e("observed are a list", 4, lambda v: ([v[2]], {v[0]: v[1], v[2]: v[3]}, []))
    e("three latents", 6, lambda v: ((), {v[0]: v[1], v[2]: v[3], v[4]: v[5]}, ()))
    e("three, middle observed", 6, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3], v[4]: v[5]}, ()))
    e("three, outer observed", 6, lambda v: ((v[4], v[0]), {v[0]: v[1], v[2]: v[3], v[4]: v[5]}, ()))
    e("two and two deterministics", 6, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3]}, (v[4], v[5])))
    e("three and a deterministic", 7, lambda v: ((v[2],), {v[0]: v[1], v[2]: v[3], v[4]: v[5]}, (v[6],)), False)
    e("two and three deterministics", 7, lambda v: ((v[0],), {v[0]: v[1], v[2]: v[3]}, (v[4], v[5], v[6])), False)
    return s


# what a value, a deterministic or a tracked variable may be
KINDS = {
    "input": lambda rv, k: at.scalar(),
    "copy": lambda rv, k: rv.clone(),
    "expression": lambda rv, k: at.exp(at.scalar()) + k,
    "function of the variable": lambda rv, k: at.exp(rv),
    "shared": lambda rv, k: aesara.shared(float(k)),
    "constant": lambda rv, k: at.as_tensor(np.array(k + 0.5)),
    "random": lambda rv, k: RandomStream(k).normal(0.0, 1.0),
}
MIXES = [tuple(KINDS)[i:] + tuple(KINDS)[:i] for i in range(len(KINDS))]


def variables(n, mix=MIXES[0]):
    """Variables of the kinds models have; names are given later."""
    srng = RandomStream(0)
    out = []
    for k in range(n):
        if k % 2 == 0:
            out.append(srng.normal(float(k), 1.0))
        else:
            out.append(KINDS[mix[(k // 2) % len(mix)]](out[-1], k))
    return out


def tracked(args):
    obs, r2v, det = args
    return list(dict.fromkeys([*r2v, *r2v.values(), *obs, *det]))


def expect(args, info, same):
    """Structural claims about a created ModelInfo; the first that fails."""
    obs, r2v, det = args
    unobs = [r for r in r2v if not any(r is o for o in obs)]

    def seq(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))

    yield "observed_rvs", seq(tuple(info.observed_rvs), obs)
    yield "unobserved_rvs", seq(tuple(info.unobserved_rvs), unobs)
    yield "observed_values", seq(tuple(info.observed_values), [r2v[o] for o in obs])
    yield "unobserved_values", seq(tuple(info.unobserved_values), [r2v[u] for u in unobs])
    yield "rvs_to_values", seq(list(info.rvs_to_values), list(r2v)) and seq(list(info.rvs_to_values.values()), list(r2v.values()))
    yield "values_to_rvs", len(info.values_to_rvs) == len(r2v) and all(info.values_to_rvs.get(v) is r for r, v in r2v.items())
    yield "deterministic_vars", seq(tuple(info.deterministic_vars), det)
    allv = tracked(args)
    entries = list(info.names_to_vars.items())
    yield "names_to_vars covers the tracked variables", sorted(id(v) for _, v in entries) == sorted(id(v) for v in allv)
    yield "names_to_vars finds every variable under its name", all(same(k, v.name) for k, v in entries)


def build_info(args):
    try:
        return "created", ModelInfo(args[0], dict(args[1]), args[2], {})
    except ValueError as e:
        return "rejected", e


def replay(make, n, names, mix):
    """The same with plain strings; what fails, or None."""
    vs = variables(n, mix)
    for v, s in zip(vs, names):
        v.name = s
    args = make(vs)
    t = [v.name for v in tracked(args)]
    good = all(isinstance(x, str) and x != "" for x in t) and len(set(t)) == len(t)
    try:
        got, info = build_info(args)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    if (got == "created") != good:
        return f"metadata with names {t} is {got}"
    if got == "created":
        for lab, ok in expect(args, info, lambda a, b: a == b):
            if not ok:
                return f"{lab} is wrong for names {t}"


def one(sname, n, make, nones, mix=MIXES[0]):
    def build(res):
        ex = Explorer()
        vs = variables(n, mix)
        witness = set()

        def fail(label, model):
            names = [None if k in nones else ex.plain(str(k), model) for k in range(n)]
            msg = replay(make, n, names, mix)
            if msg is None:
                res.errors.append(f"{sname}: {label}: no concrete replay with {names}")
                return False
            raise Violation(f"{sname}: {msg} ({label})", {"claim": label, "names": names}, key=label)

        def path():
            for k, v in enumerate(vs):
                v.name = None if k in nones else SymStr(ex, k)
            args = make(vs)
            tr = tracked(args)
            zs = [None if v.name is None else ex.rank(v.name.key) for v in tr]
            good = z3.BoolVal(False) if any(z is None for z in zs) else z3.And(
                *[z != 0 for z in zs], z3.Distinct(*zs) if len(zs) > 1 else z3.BoolVal(True))
            res.claims += 1
            try:
                got, info = build_info(args)
            except Exception as e:
                ex.ask()
                return fail(f"raises {type(e).__name__}", ex.solver.model())
            m = ex.entails(good if got == "created" else z3.Not(good))
            if m is not None:
                return fail(f"{got} exactly when the names are {'unique' if got == 'created' else 'missing or ambiguous'}", m)
            res.proved += 1
            witness.add(got)
            if got == "created":

                def same(a, b):
                    a, b = SymStr.key_of(a), SymStr.key_of(b)
                    return a is not None and b is not None and ex.entails(ex.rank(a) == ex.rank(b)) is None

                for lab, ok in expect(args, info, same):
                    res.claims += 1
                    if not ok:
                        ex.ask()
                        return fail(lab, ex.solver.model())
                    res.proved += 1

        res.paths = ex.run(path)
        if ex.asked_length and not res.errors:
            ex.length = 3
            res.paths += ex.run(path)
        # both outcomes are reached where both are possible
        res.claims += 1
        want = {"rejected"} if nones else {"created", "rejected"} if n else {"created"}
        if witness != want and not res.errors:
            raise Violation(f"{sname}: the outcomes are {sorted(witness)}, not {sorted(want)}", {"claim": "outcomes"}, key="outcomes")
        res.proved += 1
        res.witness += len(witness)
        res.samples.append({"case": sname, "unnamed": list(nones), "values": list(mix[: n // 2]), "paths": res.paths})

    return build


for sname, n, make, quick in structures():
    check.add(sname, one(sname, n, make, ()), quick)
    for r in (1, 2):
        for nones in itertools.combinations(range(n), r):
            if r == 2 and n > 4:
                continue
            check.add(f"{sname}, no name for {'+'.join(map(str, nones))}", one(sname, n, make, nones), quick)
    # the same with other kinds of values
    for mix in MIXES[1:] if n > 1 else ():
        check.add(f"{sname}, values: {mix[0]} ...", one(sname, n, make, (), mix), quick)
        for k in range(1, n, 2):
            check.add(f"{sname}, values: {mix[0]} ..., no name for {k}", one(sname, n, make, (k,), mix), quick)
