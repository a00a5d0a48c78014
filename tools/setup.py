#!/usr/bin/env python3
"""Primes the scratch space: compilers of the current tree and the harness binaries.
Everything here is rebuilt by the checks themselves whenever /repo differs."""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
from vlib import core, harness


class Stop(Exception):
    pass


def main():
    jobs = []
    def collect(c, js, parallel=None):
        jobs.extend(js)
        raise Stop
    for f in sorted(os.listdir(os.path.join(here, "checks"))):
        if not f.startswith("c") or not f.endswith(".py"):
            continue
        m = importlib.import_module("checks." + f[:-3])
        if getattr(m, "run_jobs", None) is harness.run_jobs:
            m.run_jobs = collect
            try:
                m.main(core.Check(f[:-3].upper()))
            except Stop:
                pass
        if hasattr(m, "prime"):
            try:
                m.prime()
            except Exception:
                traceback.print_exc()
    harness.build(core.Check("C00"), jobs)


main()
