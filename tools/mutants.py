"""Regression of the rules themselves: apply textual edits to an in-memory copy
of the sources and see which checks answer.

  python3 tools/mutants.py            every edit
  python3 tools/mutants.py T01 M03    only edits expected to break these

Edits live in tools/edits/*.py as  B(pid, file, old, new[, old, new ...])  for a
change that breaks a property and  Q(file, old, new, ...)  for one that keeps
the behaviour (every check must stay quiet).  Nothing here is part of a check.
"""
import glob
import io
import os
import sys
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from verifier import catalog, core, rules  # noqa
from verifier.model import AnalysisError, Program, REPO, source_files  # noqa

EDITS = []
SHORT = {k: getattr(catalog, k) for k in dir(catalog) if k.isupper() and isinstance(getattr(catalog, k), str)}


def B(pid, file, *pairs):
    EDITS.append((pid, file, pairs))


def Q(file, *pairs):
    EDITS.append((None, file, pairs))


def one(ix, only=None):
    pid, file, pairs = EDITS[ix]
    rel = dict(PATHS)[file] if file in dict(PATHS) else file
    src = open(os.path.join(REPO, rel)).read()
    for o, n in zip(pairs[::2], pairs[1::2]):
        if src.count(o) < 1:
            return ix, "STALE", "text not found: %r" % o[:60]
        src = src.replace(o, n, 1)
    try:
        prog = Program(overlay={rel: src})
    except AnalysisError as e:
        return ix, "ERROR", str(e)
    got, err = [], []
    ids = [pid] if pid else (only or [i for i in rules.available() if rel in TOUCH.get(i, (rel,))])
    for i in ids:
        c = core.Ctx(i, prog)
        try:
            rules.module(i).run(c)
        except AnalysisError as e:
            if not any(not o[2] for o in c.obl):
                err.append("%s %s" % (i, e))
                continue
        except Exception as e:
            err.append("%s internal %r" % (i, e))
            continue
        known = {k for (x, k, t) in core.load_known() if x == i}
        v = [o for o in c.obl if not o[2] and core.key(o) not in known]
        if v:
            got.append("%s: %s" % (i, "; ".join("%s[%s] %s" % (o[0], o[1][-60:], o[4][:60]) for o in v[:2])))
    if pid:
        return ix, ("caught" if got else "MISSED"), (got or err or [""])[0][:170]
    return ix, ("NOISY" if got or err else "quiet"), " | ".join(got + err)[:400]


PATHS = []
TOUCH = {}


def touched(i):
    """Files of the functions a rule analyses on the unchanged tree."""
    prog = Program()
    c = core.Ctx(i, prog)
    rules.module(i).run(c)
    out = set()
    for o in c.obl:
        w = str(o[3] or "")
        out.add(w.rsplit(":", 1)[0])
    for n in c.funcs:
        f = prog.funcs.get(n)
        if f is not None:
            out.add(f.mod.path if hasattr(f.mod, "path") else f.mod.rel)
    return i, {os.path.relpath(x, REPO) if x.startswith("/") else x for x in out}


def main(argv):
    for p, rel in source_files(REPO):
        PATHS.append((rel, rel))
    ns = dict(SHORT, B=B, Q=Q)
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "edits", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), dict(ns))
    want = [a for a in argv if not a.startswith("-")]
    sel = [i for i, e in enumerate(EDITS) if not want or e[0] in want or (e[0] is None and "-q" in argv)]
    if "-q" in argv and not want:
        sel = [i for i, e in enumerate(EDITS) if e[0] is None]
    bad = 0
    if not want and any(EDITS[i][0] is None for i in sel):
        with ProcessPoolExecutor(8) as ex:
            TOUCH.update(ex.map(touched, rules.available()))
    with ProcessPoolExecutor(8) as ex:
        for ix, st, msg in ex.map(one, sel, [want or None] * len(sel)):
            e = EDITS[ix]
            if st in ("caught", "quiet") and "-v" not in argv:
                continue
            bad += st not in ("caught", "quiet")
            print("%-7s %s %s:%s  %s" % (st, e[0] or "-", e[1].rsplit("/", 2)[-2] + "/" + os.path.basename(e[1]), repr(e[2][1][:60]), msg))
    print("%d edits, %d problems" % (len(sel), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
