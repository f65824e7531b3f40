#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the notes below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
GRAPH = "symbolic execution of the Aesara graphs the code builds, SMT (z3) over all real inputs and draws"
TECH = {
    "C01": GRAPH,
    "C02": GRAPH,
    "C03": GRAPH,
    "C04": GRAPH,
    "C05": GRAPH + ", finite Bernoulli outcomes enumerated with symbolic probabilities",
    "C06": GRAPH,
    "C08": GRAPH + ", over a set of models written against the public API",
    "C07": GRAPH + ", every state sequence and every path of the rescaling switch explored",
    "C09": GRAPH + ", the composed sweep against the model's joint density",
    "C10": GRAPH + ", NUTS's log-density, initial state and result map against the model's joint density and transforms",
    "C11": "symbolic execution of the compiled functions' generator states, SMT (z3) over all positions, consumptions and trip counts for histories of calls",
    "C12": GRAPH + ", the original model against the converted, rewritten and expanded graphs",
    "C13": GRAPH + ", the rewritten expression against the original as functions of the standard noise",
    "C14": "symbolic execution of the real constructor with names as solver variables, SMT (z3) deciding every comparison it makes and the resulting property on every feasible path",
    "C15": GRAPH + ", sampled replicates against the model; and symbolic execution of the compiled functions' generator states over all positions, consumptions and trip counts",
    "C16": "the real construction run with the iteration order of sets and the order of addresses and hashes as solver decisions, every feasible order explored up to a bound; " + GRAPH + ", one construction's updates against another's",
    "C17": GRAPH + ", the model after every operation against a copy made before, and the sampler constructed afterwards against the first one",
    "C18": GRAPH + " with the Polya-Gamma sampler's arguments recorded",
    "C22": GRAPH + ", the updates for shared or constant data against those for symbolic data",
    "C19": "the real constructor run with the kernel of every update as a solver choice, every feasible assignment explored; " + GRAPH,
}
NOTE_COMMON = (
    "Solver verdict for every real value of the inputs and every value of the random draws, for the stated "
    "small shapes; real arithmetic (rounding is outside, see C20); trusted: z3, the executor's op semantics "
    "(cross-checked on every run against the compiled functions) and the noise representation of numpy's samplers."
)
NOTE = {}
NA = {
    "C20": "Floating-point finiteness of Cholesky, solves, exponentials and the Polya-Gamma C sampler depends on LAPACK/NumPy/C code and IEEE rounding over unbounded magnitudes; an SMT floating-point encoding of those routines is out of reach, and the real-arithmetic encoding used elsewhere cannot speak about it.",
    "C21": "The kernel is third-party code (aehmc): a recursive doubling trajectory with data-dependent length, gradients of an arbitrary log-density and random direction/acceptance choices; invariance is a statement about an integral over that process, not an assertion an SMT solver can decide. C10 decides everything aemcmc hands to and takes from it.",
}
PENDING = "No check built yet."


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in TECH:
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"{PY} checks/run.py {i}",
                    "thorough_cmd": f"VERIF_TIER=thorough {PY} checks/run.py {i}",
                    "technique": TECH[i],
                    "level": "other",
                    "level_note": NOTE.get(i, "") + (" " if i in NOTE else "") + NOTE_COMMON,
                }
            )
        else:
            na.append({"property": i, "reason": NA.get(i, PENDING)})
    m = {
        "version": 1,
        "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '.'); import aev.boot, aev.report, aemcmc; print('ok')\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "Solver-based checking of the graphs aemcmc builds; see DESIGN.md. known_findings.txt lists recorded genuine defects.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
