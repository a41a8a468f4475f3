import os
import sys
import traceback


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    for a in argv:
        if a == "--thorough":
            tier = "thorough"
        elif a == "--selftest":
            from . import selftest
            return selftest.main()
        elif a == "--all":
            from . import rules
            ids += rules.available()
        else:
            ids.append(a)
    from . import core
    from .model import AnalysisError, Program
    sys.setrecursionlimit(20000)
    rc = 0
    prog = Program()
    for pid in ids:
        try:
            ctx, viol, kf, out = core.run_check(pid, prog, tier)
        except AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            rc = max(rc, 2)
            continue
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s internal error" % pid)
            rc = max(rc, 2)
            continue
        for l in out:
            print(l)
        print("%s %s: %d obligations, %d violated, %d known, %d functions" % (pid, "VIOLATED" if viol else "ok", len(ctx.obl), len(viol), len(kf), len(ctx.funcs)))
        if viol:
            rc = max(rc, 1)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
