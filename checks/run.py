#!/usr/bin/env python3
"""checks/run.py <property id> [--only SUBSTR]: run one property's check."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import aev.boot  # noqa: E402,F401


def main():
    prop = sys.argv[1]
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as e:
        import traceback

        traceback.print_exc()
        print(f"ERROR cannot set up check {prop}: {e}")
        return 2
    return mod.check.run(only)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
