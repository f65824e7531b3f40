#!/usr/bin/env python3
"""tools/plant.py SPEC.py ...: turn a spec into /verif/seeded/<id>/ and confirm it.

A spec defines ID, PROPERTY, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO.
The change is applied to /repo, the build, the stable tests and the demo are
run, and it is undone again.  --check also runs this property's check."""
import json
import os
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
export AESARA_FLAGS="cxx=,blas__ldflags=-lopenblas,compiledir=$(mktemp -d)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" 2>&1 | tail -5
rc=${PIPESTATUS[0]}
rm -rf "${AESARA_FLAGS##*compiledir=}"
exit $rc
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    specs = [a for a in sys.argv[1:] if not a.startswith("--")]
    notest = "--notest" in sys.argv
    for s in specs:
        m = runpy.run_path(s)
        d = os.path.join(V, "seeded", m["ID"])
        os.makedirs(d, exist_ok=True)
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is dirty"
        open(os.path.join(d, "demo.py"), "w").write(m["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        try:
            for f, old, new in m["EDITS"]:
                p = os.path.join("/repo", f)
                t = open(p).read()
                assert t.count(old) == 1, (m["ID"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            b = sh("bash /opt/vp/build.sh")
            r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
            if notest:
                tl = "tests skipped"
            else:
                t = sh("bash /opt/vp/test.sh /tmp/plant.json")
                tl = (t.stdout.strip().splitlines() or ["?"])[-1]
            c = sh(f"/opt/venv/bin/python checks/run.py {m['PROPERTY']}", cwd=V)
            cl = [x for x in c.stdout.splitlines() if "VIOLATION" in x or x.startswith(m["PROPERTY"] + ":") or x.startswith("ERROR")]
        finally:
            sh("git -C /repo checkout -- .")
        ok = b.returncode == 0 and r0.returncode == 0 and r1.returncode != 0 and ("43 passed, 0 failed" in tl or notest)
        print(f"{m['ID']}: {'OK' if ok else 'NOT VALID'} build={b.returncode} demo0={r0.returncode} demo1={r1.returncode} tests={tl} check={c.returncode} {cl[-1][:160] if cl else ''}")
        if r0.returncode or r1.returncode == 0:
            print("   demo0:", r0.stdout[-400:], "\n   demo1:", r1.stdout[-400:])
        for x in c.stdout.splitlines():
            if x.startswith("  case"):
                print("   ", x[:220])
                break


main()
