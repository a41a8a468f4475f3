"""Writes DESIGN.md: tools/design_intro.md, then one section per property from the
catalogue, the rule modules' notes, known_findings.txt and seeded/*/meta.json."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from verifier import rules
from verifier.catalog import PROPS
sys.setrecursionlimit(20000)
LIMITS = {}
exec(open(os.path.join(ROOT, "tools", "design_limits.py")).read())
findings = {}
for l in open(os.path.join(ROOT, "known_findings.txt")):
    m = re.match(r"(fixed|known): property=(\w+) (.*)", l.strip())
    if m:
        findings.setdefault(m[2], []).append((m[1], m[3]))
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
edits = {}
for f in glob.glob(os.path.join(ROOT, "tools", "edits", "*.py")):
    for m in re.finditer(r'^B\("(\w+)"', open(f).read(), re.M):
        edits[m[1]] = edits.get(m[1], 0) + 1
out = [open(os.path.join(ROOT, "tools", "design_intro.md")).read().rstrip(), "", "## 6. Properties, one by one", ""]
claimed = rules.available()
for p in PROPS:
    if p["na"]:
        continue
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    out += ["*Anchors.* " + ", ".join("`%s`" % re.sub(r"^.*?src/opentelemetry/", "", x) for x in p["anchors"]["files"]) + "; quantified over " + p["quantifier"]["text"] + ".", ""]
    n = getattr(rules.module(i), "NOTE", None) if i in claimed else None
    out += ["*Decided by* %s. %s" % (p["technique"], n or ""), ""]
    out += ["*Why tests cannot settle it.* " + p["why_tests_cant"], ""]
    if i in LIMITS:
        out += ["*Assumed / not decided.* " + LIMITS[i], ""]
    for kind, t in findings.get(i, ()):
        out += ["- %s: %s" % ({"fixed": "defect repaired", "known": "known finding (unrepaired)"}[kind], t)]
    for s, d in seeds.get(i, ()):
        out += ["- planted change `%s` (caught by %s): %s; manifests with %s" % (s, i, d["what_it_breaks"], d["needs"])]
    if edits.get(i):
        out += ["- %d further source edits that break it are replayed by `tools/mutants.py %s`; all are reported" % (edits[i], i)]
    out += [""]
out += ["## 7. Not applicable", ""]
for p in PROPS:
    if p["na"]:
        out += ["- **%s %s.** %s" % (p["id"], p["title"], p["na"])]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
