"""Runs the cases of one property, decides their claims, replays refutations,
writes evidence and turns the outcome into the exit code."""
import hashlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import z3

from .boot import SEED, THOROUGH, TIER, VERIF
from . import core, solve
from .core import Ctx, Undefined, Unsupported, V
from .env import Case, Claim, NumEnv, SymEnv

EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TOL = 1e-6


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                f = dict(
                    p.split("=", 1) for p in line.split()[1:3] if "=" in p
                )
                out[(f.get("property"), f.get("id"))] = line.split(None, 3)[3]
    return out


class Violation(Exception):
    """Raised by custom cases: (message, replay data), already reproduced."""

    def __init__(self, msg, data=None, key=None):
        super().__init__(msg)
        self.data = data or {}
        self.key = key


def real(label, f, *a, **k):
    """Call the code under test; an exception on a valid input is a violation."""
    try:
        return f(*a, **k)
    except (Unsupported, z3.Z3Exception):
        raise
    except Exception as e:
        msg = str(e).strip().splitlines()
        raise Violation(
            f"{label} raises {type(e).__name__}: {msg[0] if msg else ''}",
            {"claim": label, "traceback": traceback.format_exc()[-1500:]},
            key=label,
        )


class CaseResult:
    def __init__(self, name):
        self.name = name
        self.claims = 0
        self.proved = 0
        self.by_norm = 0
        self.obligations = 0
        self.obligations_ok = 0
        self.obligations_assumed = 0
        self.witness = 0
        self.validated = 0
        self.violations = []  # (label, message, replay dict)
        self.known = []  # (finding id, label)
        self.errors = []
        self.labels = []
        self.functions = []
        self.bounds = ""
        self.queries = 0
        self.solver_s = 0.0
        self.solver = {}
        self.wall = 0.0
        self.ops = []
        self.paths = 1
        self.samples = []


def goal_of(c, ctx):
    if c.kind == "true":
        g = c.lhs
        return core.as_bool(core.boolv(g)), None
    a, b = c.lhs, c.rhs
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        from .interp import s_eq

        return core.as_bool(s_eq(core.boolv(a), core.boolv(b))), None
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, V) or isinstance(b, V):
            return z3.BoolVal(False), None
        ok = a == b or (a != a and b != b)
        return z3.BoolVal(bool(ok)), None
    d = core.lift(a, ctx) - core.lift(b, ctx)
    if isinstance(d, float):
        return z3.BoolVal(False), None
    g = d.eq(0)
    return core.as_bool(g), d


def num_bad(c):
    """Does the claim fail numerically (beyond rounding)?"""
    if getattr(c, "either", None) is not None:
        return num_bad(Claim(c.label, c.lhs, c.rhs, c.kind)) and num_bad(Claim(c.label, *c.either))
    if c.kind == "true":
        return not bool(c.lhs)
    a, b = float(c.lhs), float(c.rhs)
    if math.isnan(a) and math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a != b
    return not abs(a - b) <= TOL * (1 + abs(a) + abs(b))


def run_claims(case, res, timeout_ms, ctxs=None):
    """Decide all claims of a Case (on every feasible path if it forks)."""
    if not case.fork:
        return run_path(case, res, timeout_ms, None)
    from .paths import explore

    n0 = len(res.violations)

    def run(prefix):
        if len(res.violations) > n0 + 1:
            return list(prefix)  # enough evidence
        return run_path(case, res, timeout_ms, prefix)

    res.paths = explore(run)


def run_path(case, res, timeout_ms, prefix):
    ctx = Ctx()
    taken = []
    ctx.opaque_max = case.opaque_max
    if prefix is not None:
        from .paths import Forker

        ctx.fork = Forker(ctx, prefix)
        taken = ctx.fork.taken
    try:
        E = SymEnv(case, ctx)
        claims = list(case.spec(E))
    except Undefined as e:
        replay_undefined(case, res, str(e))
        return taken
    except Unsupported as e:
        # no verdict from the solver; a concrete failure is still a violation
        for k in range(4):
            try:
                bad = replay(case, {"seed": k}, None)
            except (Unsupported, NotImplementedError):
                break
            except Exception as ex:
                bad = ("defined", f"the compiled function raises {type(ex).__name__}: {ex}")
            if bad:
                res.violations.append(
                    (bad[0], bad[1] + f" [found at a generic point; encoding: {e}]",
                     {"case": case.name, "claim": bad[0], "detail": bad[1], "assignment": {"seed": k}})
                )
                return taken
        raise
    forker, ctx.fork = ctx.fork, None
    res.ops = sorted(set(res.ops) | ctx.ops_seen)
    res.labels += [c.label for c in claims]
    if not claims:
        res.errors.append(f"{case.name}: the specification produced no claim")
        return taken
    # non-vacuity: the assumptions are satisfiable, a false twin is refuted
    base = list(ctx.assume)
    if base:
        v, _ = solve.check(base, 10000, order=("smt", "nlsat"))
        if v != "sat":
            res.errors.append(f"{case.name}: assumptions not shown satisfiable ({v})")
            return taken
    res.witness += 1
    twin_done = False
    failed = []
    for c in claims:
        res.claims += 1
        g, d = goal_of(c, ctx)
        if c.hyp:
            g = z3.Implies(z3.And(*[core.as_bool(h) for h in c.hyp]), g)
        if z3.is_true(g):
            res.by_norm += 1
        v = solve.prove(ctx, g, timeout_ms=timeout_ms)
        if v.status != "proved" and getattr(c, "either", None) is not None:
            ga, _ = goal_of(Claim("alt", *c.either), ctx)
            if solve.prove(ctx, ga, timeout_ms=timeout_ms).status == "proved":
                res.proved += 1
                continue
        if v.status == "proved":
            res.proved += 1
            if not twin_done and d is not None:
                g2 = core.as_bool((d + 1).eq(0))
                v2 = solve.prove(ctx, g2, timeout_ms=min(timeout_ms, 15000))
                if v2.status == "refuted":
                    twin_done = True
                    res.witness += 1
            continue
        failed.append((c, g, d, v))
        if len(failed) >= 6:
            break
    # definedness side conditions
    for desc, bad in ctx.undefined[:200]:
        res.obligations += 1
        if solve.quick_unsat(ctx, bad, 1500):
            res.obligations_ok += 1
        else:
            res.obligations_assumed += 1
    res.samples.append(
        {
            "case": case.name,
            "claims": [c.label for c in claims][:6],
            "inputs": {n: [d.kind, list(d.shape)] for n, d in case.domain.items()},
        }
    )
    if len(res.samples) > 6:
        res.samples = res.samples[:6]
    for c, g, d, v in failed:
        if len(res.violations) >= 2:
            break  # enough evidence from this case
        handle_failure(case, res, ctx, c, g, d, v, timeout_ms)
    if not failed and not taken:
        validate(case, res)
    elif not failed and forker is not None:
        validate_path(case, res, ctx)
    return taken


def validate_path(case, res, ctx):
    """Encoding validation on one model of the path condition."""
    v, m = solve.check(list(ctx.assume), 5000, want_model=True, order=("smt", "nlsat"))
    if v != "sat":
        return
    try:
        bad = replay(case, solve.model_values(ctx, m), None)
    except (Unsupported, NotImplementedError) as e:
        res.errors.append(f"{case.name}: validation unsupported: {e}")
        return
    res.validated += 1
    if bad:
        res.violations.append(
            (
                bad[0],
                "the real compiled function violates a claim that holds for the "
                "graph it was compiled from: " + bad[1],
                {"case": case.name, "claim": bad[0], "detail": bad[1],
                 "assignment": {k: str(x) for k, x in solve.model_values(ctx, m).items()}},
            )
        )


def handle_failure(case, res, ctx, c, g, d, v, timeout_ms):
    known = getattr(c, "known", None)
    if known is not None:
        fid, alt = known
        if (res.prop, fid) in res.known_list:
            ga, _ = goal_of(Claim("alt", *alt), ctx)
            if solve.prove(ctx, ga, timeout_ms=timeout_ms).status == "proved":
                # the recorded wrong behaviour, confirmed on the real code
                for assign in candidates(ctx, g, d, v):
                    bad = replay(case, assign, c.label)
                    if bad:
                        res.known.append((fid, c.label))
                        return
                res.errors.append(f"{case.name}: {c.label}: known finding did not replay")
                return
    if v.status == "unknown":
        # the solver could not decide: only a concrete counterexample counts
        pass
    for assign in candidates(ctx, g, d, v, c):
        try:
            bad = replay(case, assign, c.label)
        except OverflowError:
            continue
        except (Unsupported, NotImplementedError) as e:
            res.errors.append(f"{case.name}: {c.label}: replay unsupported: {e}")
            return
        except Exception as e:
            if "scale" in assign:
                continue
            bad = (c.label, f"the compiled function raises {type(e).__name__}: {e}", None)
        if bad:
            res.violations.append(
                (
                    bad[0],
                    bad[1],
                    {
                        "case": case.name,
                        "claim": bad[0],
                        "detail": bad[1],
                        "assignment": {k: str(x) for k, x in assign.items()},
                        "solver": v.status,
                    },
                )
            )
            return
    res.errors.append(
        f"{case.name}: {c.label}: solver says {v.status}, no concrete replay"
    )


def candidates(ctx, g, d, v, c=None):
    seen = []
    if v.status == "refuted":
        gap = None
        if d is not None and d.n is not None:
            gap = d.n
        for m in solve.nice_models(ctx, g, v.constraints, gap=gap):
            seen.append(m)
            yield m
        yield solve.model_values(ctx, v.model)
        if ctx.assume:
            # a point on this path (the goal alone may not mention its conditions)
            x, m = solve.check([z3.Not(g), *ctx.assume], 5000, want_model=True, order=("smt", "nlsat"))
            if x == "sat":
                yield solve.model_values(ctx, m)
    if d is None:
        for hg, hv, hgap in ctx.hints:
            for m in solve.nice_models(ctx, hg, hv.constraints, gap=hgap):
                yield m
            yield solve.model_values(ctx, hv.model)
    # generic points (the deciding verdict above stays `refuted`/`unknown`)
    yield {}
    for m in seen[:1]:
        part = {k: x for k, x in m.items() if "[" not in k}
        yield part
    if v.status != "refuted" or c is None or c.kind == "true":
        return
    # the difference may only show at other orders of magnitude
    m = solve.far_model(ctx, g, v.constraints, c.lhs, c.rhs)
    if m is not None:
        yield m
    for e in (3, 6, 9, 12):
        for way in (0, -1, 1):
            for seed in range(3 if way == 0 else 1):
                yield {"scale": (e, way), "seed": seed}


def replay(case, assign, label):
    """Evaluate the spec on the real compiled function; first failing claim."""
    E = NumEnv(case, assign)
    worst = None
    for c in case.spec(E):
        if any(not bool(h) for h in c.hyp):
            continue
        if num_bad(c):
            kn = getattr(c, "known", None)
            if kn and c.label != label and not num_bad(Claim("alt", *kn[1])):
                continue  # recorded behaviour, not a witness for another claim
            rhs = "" if c.kind == "true" else f" {c.lhs!r} != {c.rhs!r}"
            if c.label == label:
                return (c.label, f"{c.label}:{rhs}")
            worst = worst or (c.label, f"{c.label}:{rhs}")
    return worst


def validate(case, res):
    """Encoding validation: the same claims on the real compiled function."""
    try:
        bad = replay(case, {}, None)
    except (Unsupported, NotImplementedError) as e:
        res.errors.append(f"{case.name}: validation unsupported: {e}")
        return
    res.validated += 1
    if bad:
        res.violations.append(
            (
                bad[0],
                "the real compiled function violates a claim that holds for the "
                "graph it was compiled from: " + bad[1],
                {"case": case.name, "claim": bad[0], "detail": bad[1], "assignment": {}},
            )
        )


def replay_undefined(case, res, msg):
    try:
        replay(case, {}, None)
    except Exception as e:
        res.violations.append(
            (
                "defined",
                f"the compiled function fails for every input of this shape: "
                f"{type(e).__name__}: {str(e).splitlines()[0] if str(e) else ''} (encoding: {msg})",
                {"case": case.name, "claim": "defined", "detail": msg, "assignment": {}},
            )
        )
        return
    res.errors.append(f"{case.name}: encoding undefined ({msg}) but the real code runs")


# ------------------------------------------------------------------ running
def _worker(prop, name, build, timeout_ms, q, known):
    res = CaseResult(name)
    res.prop = prop
    res.known_list = known
    t0 = time.time()
    try:
        r = build(res)
        cases = r if isinstance(r, (list, tuple)) else [r]
        for case in cases:
            if case is None:
                continue
            res.functions += [f for f in case.info.get("functions", []) if f not in res.functions]
            res.bounds = case.info.get("bounds", res.bounds)
            run_claims(case, res, timeout_ms)
    except Violation as e:
        res.violations.append((e.key or name, str(e), dict(e.data, case=name)))
    except (Unsupported, z3.Z3Exception) as e:
        res.errors.append(f"{name}: {type(e).__name__}: {e}")
        if os.environ.get("AEV_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        res.errors.append(f"{name}: {type(e).__name__}: {e}")
        if os.environ.get("AEV_DEBUG"):
            traceback.print_exc()
    res.queries = solve.STATS.queries
    res.solver_s = solve.STATS.time
    res.solver = {
        "unsat": solve.STATS.unsat,
        "sat": solve.STATS.sat,
        "unknown": solve.STATS.unknown,
        **solve.STATS.by,
    }
    res.wall = time.time() - t0
    q.put(res)


class Check:
    """A property's check: a list of (name, builder) pairs."""

    def __init__(self, prop, title, assumptions, bounds, functions):
        self.prop = prop
        self.title = title
        self.assumptions = assumptions
        self.bounds = bounds
        self.functions = functions
        self.items = []
        self.case_timeout = 250 if not THOROUGH else 1500
        self.solver_ms = 30000 if not THOROUGH else 120000

    def add(self, name, build, quick=True):
        if quick or THOROUGH:
            self.items.append((name, build))

    def case(self, name, quick=True):
        def d(f):
            self.add(name, f, quick)
            return f

        return d

    def run(self, only=None):
        t0 = time.time()
        known = load_known()
        items = [(n, b) for n, b in self.items if only is None or only in n]
        results = []
        procs = {}
        todo = list(items)
        ctx = mp.get_context("fork")
        maxp = int(os.environ.get("AEV_JOBS", "8"))
        while todo or procs:
            while todo and len(procs) < maxp:
                n, b = todo.pop(0)
                q = ctx.Queue()
                p = ctx.Process(
                    target=_worker, args=(self.prop, n, b, self.solver_ms, q, known)
                )
                p.start()
                procs[n] = (p, q, time.time())
            for n in list(procs):
                p, q, ts = procs[n]
                done = None
                try:
                    done = q.get(timeout=0.02)
                except Exception:
                    pass
                if done is not None:
                    results.append(done)
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    del procs[n]
                elif not p.is_alive():
                    try:
                        done = q.get(timeout=0.5)
                        results.append(done)
                    except Exception:
                        r = CaseResult(n)
                        r.errors.append(f"{n}: worker died (exit {p.exitcode})")
                        results.append(r)
                    del procs[n]
                elif time.time() - ts > self.case_timeout:
                    p.kill()
                    p.join()
                    r = CaseResult(n)
                    r.errors.append(f"{n}: timed out after {self.case_timeout}s")
                    results.append(r)
                    del procs[n]
        return self.finish(results, time.time() - t0)

    def finish(self, results, wall):
        results.sort(key=lambda r: r.name)
        viol = [(r.name, v) for r in results for v in r.violations]
        errs = [e for r in results for e in r.errors]
        known = {}
        for r in results:
            for fid, label in r.known:
                known.setdefault(fid, []).append(f"{r.name}/{label}")
        kl = load_known()
        for fid, where in sorted(known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {kl.get((self.prop, fid), fid)} [id={fid}; {len(where)} claim(s), e.g. {where[0]}]")
        os.makedirs(REPLAYS, exist_ok=True)
        for n, (label, msg, data) in viol:
            h = hashlib.sha256((n + label).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, f"{self.prop}-{h}.json")
            data = dict(data, property=self.prop, case=n, message=msg,
                        rerun=f"/opt/venv/bin/python checks/run.py {self.prop} --only '{n}'")
            with open(path, "w") as f:
                json.dump(data, f, indent=1, default=str)
            print(f"  case {n}: {msg}"[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
        for e in errs:
            print("ERROR", e[:600])
        obligations = sum(r.claims for r in results)
        discharged = sum(r.proved for r in results)
        fn = sorted({f for r in results for f in r.functions} | set(self.functions))
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": "other",
            "coverage": {
                "explanation": (
                    "Solver-based checking of the real code: the Aesara graphs that the "
                    "functions below build on this run are executed symbolically and every "
                    "claim is decided by an SMT solver for all real values of the declared "
                    "symbols within the stated shapes."
                ),
                "functions_encoded": fn,
                "bounds": self.bounds,
                "cases": len(results),
                "claims": obligations,
                "claims_discharged": discharged,
                "claims_closed_by_normalisation_then_solver": sum(r.by_norm for r in results),
                "claims_matching_known_findings": sum(len(r.known) for r in results),
                "definedness_obligations": sum(r.obligations for r in results),
                "definedness_discharged": sum(r.obligations_ok for r in results),
                "definedness_left_as_assumption": sum(r.obligations_assumed for r in results),
                "reachability_witnesses": sum(r.witness for r in results),
                "paths": sum(r.paths for r in results),
                "encoding_validation_runs": sum(r.validated for r in results),
                "solver_queries": sum(r.queries for r in results),
                "solver_seconds": round(sum(r.solver_s for r in results), 2),
                "solver_verdicts": _merge([r.solver for r in results]),
                "graph_ops_executed": sorted({o for r in results for o in r.ops}),
                "per_case": [
                    {
                        "case": r.name,
                        "claims": r.claims,
                        "discharged": r.proved,
                        "queries": r.queries,
                        "solver_s": round(r.solver_s, 2),
                        "wall_s": round(r.wall, 2),
                        **({"bounds": r.bounds} if r.bounds else {}),
                    }
                    for r in results
                ],
                "samples": [s for r in results for s in r.samples][:8],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{self.prop}: {len(results)} cases, {obligations} claims, {discharged} discharged, "
            f"{sum(r.queries for r in results)} queries, {sum(r.solver_s for r in results):.1f}s solver, "
            f"{wall:.1f}s wall, {len(viol)} violations, {len(errs)} errors"
        )
        if viol:
            return 1
        if errs or not results:
            return 2
        return 0


def _merge(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out
