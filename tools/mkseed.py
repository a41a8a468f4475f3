"""mkseed.py SPEC.py: each SPEC calls seed(id, property, needs, breaks, [(file, old, new)...], demo_source)."""
import json, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from verifier import catalog
SHORT = {k: getattr(catalog, k) for k in dir(catalog) if k.isupper() and isinstance(getattr(catalog, k), str)}


def seed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    out = b""
    try:
        byfile = {}
        for f, o, n in edits:
            byfile.setdefault(f, []).append((o, n))
        for f, es in byfile.items():
            s = open(os.path.join("/repo", f)).read()
            for o, n in es:
                if s.count(o) != 1:
                    print(id, "STALE/AMBIGUOUS", s.count(o), repr(o[:70]))
                    return
                s = s.replace(o, n)
            t = os.path.join(w, "x.py")
            open(t, "w").write(s)
            p = subprocess.run(["git", "-C", "/repo", "diff", "--no-index", "--no-color", "--src-prefix=a/", "--dst-prefix=b/", os.path.join("/repo", f), t], capture_output=True)
            ls = p.stdout.decode().split("\n")
            hd = ["diff --git a/%s b/%s" % (f, f), "--- a/%s" % f, "+++ b/%s" % f]
            i = next(i for i, l in enumerate(ls) if l.startswith("@@"))
            out += ("\n".join(hd + ls[i:])).encode()
        open(os.path.join(d, "patch.diff"), "wb").write(out)
        open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 120 /opt/venv-pb5/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", id)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        exec(compile(open(p).read(), p, "exec"), dict(SHORT, seed=seed))
