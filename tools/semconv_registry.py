"""Record the names, kinds and units of the semantic conventions (run once per
convention release, never by a check)."""
import ast, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from verifier.model import Program
from verifier.rules.s01 import KINDS, table, group, doc_of, REGISTRY
seen = {}
P = Program()
for m, cn, n, v, d, line, en in table(P):
    if n == "SCHEMA_URL":
        continue
    k, u = doc_of(d)
    f = P.funcs.get(m.name + ".create_" + n.lower())
    if f and not k:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                k = [a for a, b in KINDS.items() if x.func.attr in b][0]
                u = [a.value.value for a in x.keywords if a.arg == "unit"][0]
    row = ("=%d" % v if isinstance(v, int) else v, k or "", u or "")
    key = (group(m), cn, n)
    if seen.setdefault(key, row) != row:
        print("differs", key, row, seen[key])
with open(REGISTRY, "w", encoding="utf-8") as f:
    f.write("# semantic conventions 1.31.0: group, class, identifier, value, instrument, unit\n")
    for key, row in sorted(seen.items()):
        f.write("\t".join(key + row) + "\n")
print(len(seen))
