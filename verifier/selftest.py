"""Self test of the engine: every function of the program can be analysed."""
import sys
import time

from .flow import Analysis
from .model import Program


def main():
    sys.setrecursionlimit(20000)
    t0 = time.time()
    p = Program()
    n = bad = 0
    for f in list(p.funcs.values()):
        if f.mod.name.startswith("opentelemetry.semconv"):
            continue
        try:
            Analysis(p, f, f.cls)
            n += 1
        except Exception as e:  # reported, not fatal: the checks decide
            bad += 1
            print("selftest: %s: %s" % (f.fqn, e))
    print("selftest: %d functions analysed, %d failures, %.1f s" % (n, bad, time.time() - t0))
    return 0
