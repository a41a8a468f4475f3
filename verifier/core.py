"""Check context: obligations, violations, known findings, evidence."""
import json
import os
import re
import sys
import time

from . import model
from .flow import Analysis, Policy
from .model import AnalysisError, Program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Ctx:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obl = []  # (rule, construct, ok, where, msg)
        self.seen = {}
        self.funcs = set()
        self.sites = 0
        self.blocks = 0
        self.floors = []
        self.notes = []
        self.cache = {}
        self.paths = 0

    # -- obligations -----------------------------------------------------------
    def ob(self, rule, construct, ok, where="", msg=""):
        """One obligation: rule instance on a construct."""
        k = (rule, construct)
        ok = bool(ok)
        if k in self.seen:
            o = self.seen[k]
            if o[2] and not ok:
                o[2], o[3], o[4] = False, where, msg
            return ok
        o = [rule, construct, ok, where, msg]
        self.seen[k] = o
        self.obl.append(o)
        return ok

    def floor(self, rule, n):
        c = sum(1 for o in self.obl if o[0] == rule or o[0].startswith(rule + "."))
        self.floors.append((rule, n, c))
        if c < n:
            raise AnalysisError("rule %s matched %d construct(s), at least %d expected: the anchors it relies on have vanished" % (rule, c, n))

    # -- analyses ---------------------------------------------------------------
    def an(self, f, cls=None, **kw):
        fi = self.prog.func(f) if isinstance(f, str) else f
        if isinstance(cls, str):
            cls = self.prog.cls(cls)
        a = Analysis(self.prog, fi, cls or fi.cls, **kw)
        self.funcs.add(fi.fqn)
        self.funcs.update(x.replace("<raw>", "") for x in a.b.inlined)
        self.blocks += len(a.reach)
        self.sites += sum(1 for r in a.recs if r.instr.kind == "call")
        return a

    def method(self, cls, name):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        m = self.prog.find_method(c, name)
        if m is None:
            raise AnalysisError("method %s.%s not found (vanished anchor)" % (c.fqn, name))
        return m

    def am(self, cls, name, **kw):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        return self.an(self.method(c, name), c, **kw)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def key(o):
    return re.sub(r"\s+", "_", "%s:%s" % (o[0], o[1]))


def run_check(pid, prog, tier, quiet=False):
    from . import rules
    from .catalog import PROPS
    t0 = time.time()
    p = next(x for x in PROPS if x["id"] == pid)
    ctx = Ctx(pid, prog, tier)
    mod = rules.module(pid)
    try:
        mod.run(ctx)
    except AnalysisError:
        # what was decided before the anchor was missed still counts
        kn = [k for (i, k, t) in load_known() if i == pid]
        if not any(not o[2] and key(o) not in kn for o in ctx.obl):
            raise
    if not ctx.obl:
        raise AnalysisError("no obligations generated")
    known = {k: t for (i, k, t) in load_known() if i == pid}
    viol, kf = [], []
    for o in ctx.obl:
        if not o[2]:
            (kf if key(o) in known else viol).append(o)
    out = []
    for o in kf:
        out.append("KNOWN-FINDING: property=%s %s (%s) %s" % (pid, known[key(o)], o[3], key(o)))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": p["level"],
        "coverage": {
            "explanation": "Static analysis of /repo's current source (%d modules, digest %s). Rule: %s. %d obligations decided over %d functions (%d call sites, %d reachable blocks of their interprocedural flow graphs); %d hold, %d are known findings, %d violated." % (len(prog.modules), prog.digest(), p["technique"], len(ctx.obl), len(ctx.funcs), ctx.sites, ctx.blocks, sum(1 for o in ctx.obl if o[2]), len(kf), len(viol)),
            "obligations": len(ctx.obl),
            "discharged": sum(1 for o in ctx.obl if o[2]),
            "functions_analysed": len(ctx.funcs),
            "call_sites": ctx.sites,
            "flow_graph_blocks": ctx.blocks,
            "rules": {},
            "instance_floors": [{"rule": r, "floor": n, "instances": c} for r, n, c in ctx.floors],
            "functions": sorted(ctx.funcs)[:400],
            "instances": ["%s [%s] %s" % (o[0], o[1], "holds" if o[2] else "VIOLATED at " + o[3]) for o in ctx.obl][:1500],
        },
        "assumptions": ["Call resolution as modelled: names, self-methods over the class hierarchy, typed receivers; dynamically replaced methods are not seen.", "Code outside the repository honours its documentation (threading, collections, contextvars, grpc, requests, prometheus_client).", "Calls in a confirmed list (logging, dict/list/deque primitives, time, context attach/detach) do not raise."] + list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": [],
        "wall_s": 0.0,
    }
    for o in ctx.obl:
        r = ev["coverage"]["rules"].setdefault(o[0], {"instances": 0, "held": 0})
        r["instances"] += 1
        r["held"] += 1 if o[2] else 0
    for n, o in enumerate(viol):
        ev["violations"].append({"rule": o[0], "construct": o[1], "where": o[3], "message": o[4], "key": key(o)})
    ev["known_findings"] = [{"key": key(o), "where": o[3]} for o in kf]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if viol:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        rp = os.path.join(ROOT, "replay", "%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("%s: %s\nreproduce: cd %s && python3 -m verifier %s\n\n" % (pid, p["title"], ROOT, pid))
            for o in viol:
                f.write("%s\n  rule      %s\n  construct %s\n  at        %s\n  %s\n\n" % (key(o), o[0], o[1], o[3], o[4]))
        for o in viol:
            out.append("  %s: [%s] %s: %s" % (o[3], o[0], o[1], o[4]))
        out.append("VIOLATION property=%s replay=%s" % (pid, rp))
    ev["wall_s"] = round(time.time() - t0, 3)
    with open(os.path.join(ROOT, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return ctx, viol, kf, out
