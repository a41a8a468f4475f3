"""B01: exporter failures stop at the processor."""
from .bx import *

NOTE = "For every class of the SDK that calls export() on an exporter it was given: exception edges of those calls are followed through every method that outside code or a thread calls; they must reach a log call and never leave the method; the export is dominated by an attach of the suppression flag that is still attached, and followed by the detach on every path."
ANYE = "Exception*"


def run(c):
    ps = pipes(c)
    n = 0
    for p in ps:
        sites = 0
        stops = set()
        if "shutdown" in p.methods:
            sa = analysis(c, p, p.methods["shutdown"])
            stops = {r.instr.name for r in self_stores(sa) if not isconst(r.t["val"], False)}
            stops |= {l.args[1] for r in sa.calls(name="set") if r.t.get("recv") is not None for l in sa.leaves(r.t["recv"]) if l.op == "attr" and is_self(l.args[0])}
        for m in entries(c, p):
            a = analysis(c, p, m)
            ex = p.exports(a)
            if not ex:
                continue
            con = "%s.%s" % (p.fqn, m.name)
            blocks = {r.instr.block for r in ex}
            esc = [i for i, r in a.escaping("E") if i.block in blocks]
            c.ob("exporter-error-contained", con, not esc, ex[0].where, "an exception of the exporter leaves %s" % m.name)
            logs = [r for r in a.recs if r.instr.kind == "call" and r.instr.name in ("exception", "error", "warning", "critical", "log") and r.t.get("recv") is not None and "logger" in str(r.t["recv"]).lower()]
            att = [r for r in a.calls(fqn=ATTACH) if r.args and suppresses(a, r.args[0])]
            det = a.calls(fqn=DETACH)
            if m.name != "shutdown" and not m.name.startswith("__"):
                ends = [r for r in a.calls(name="shutdown") if r.t.get("recv") is not None and is_self(root(r.t["recv"]))]
                ends += [r for r in a.events("enter") if r.instr.name == "shutdown"]
                ends += [r for r in a.events("store_attr") if is_self(r.t["base"]) and r.instr.name in stops and not isconst(r.t["val"], False)]
                ends += [r for r in a.calls(name="set") if r.t.get("recv") is not None and any(l.op == "attr" and is_self(l.args[0]) and l.args[1] in stops for l in a.leaves(r.t["recv"]))]
                ends = [r for r in ends if any(a.can_reach(x.instr, r.instr) for x in ex)]
                c.ob("pipeline-goes-on", con, not ends, ends[0].where if ends else m.where, "an export may shut the pipeline down")
            for r in ex:
                sites += 1
                n += 1
                ee = exc_edges(r, ANYE)
                re = [i.block for i, x in a.escaping("E") if i.kind == "raise"]
                q = path_from(a, ee, [x for x in ex], re)
                c.ob("exporter-error-contained", con, q is None, r.where, "an exception of the exporter leaves %s: %s" % (m.name, witness(a, q)))
                c.ob("exporter-error-logged", con, bool(ee) and path_from(a, ee, logs, exits(a, True, False) + [r.instr.block], None) is None, r.where, "an exception of the exporter is not logged")
                c.ob("suppressed", con, bool(att) and a.dominated(r.instr, [x.instr for x in att]), r.where, "export runs without instrumentation being suppressed")
                bad = None
                for d in det:
                    bad = bad or a.path_avoiding(d.instr, [x.instr for x in att], [r.instr.block])
                    if d.instr.block is r.instr.block and d.instr.block.instrs.index(d.instr) < r.instr.block.instrs.index(r.instr):
                        bad = [r.instr.block]
                c.ob("suppressed", con, bad is None, r.where, "the suppression is taken back before export")
                q = path_from(a, r.instr.block.succs, det, a.exit_blocks() + [x.instr.block for x in att])
                c.ob("suppression-ends", con, bool(det) and q is None, r.where, "the suppression outlives the export: %s" % witness(a, q))
        c.ob("exports", p.fqn, sites > 0, p.k.mod.name, "the exporter is never called")
    # no background worker ends with an exception of the exporter: covered by
    # the thread targets among the entries
    for p in ps:
        for t in p.targets:
            c.ob("worker-analysed", "%s.%s" % (p.fqn, t), t in p.methods, p.fqn, "thread target not found")
    c.floor("exports", 5)
    c.floor("suppressed", 5)


def suppresses(a, t):
    """set_value(<suppression key>, True, ...)"""
    ls = a.leaves(t)
    ok = bool(ls)
    for l in ls:
        g = glob_call(l, SET_VALUE)
        args = call_args(l) if g else ()
        ok = ok and g and len(args) >= 2 and any(is_key(x) for x in a.leaves(args[0])) and all(isconst(x, True) for x in a.leaves(args[1]))
    return ok


def is_key(t):
    return t.op == "glob" and t.args[0].rpartition(".")[2] == "_SUPPRESS_INSTRUMENTATION_KEY" or t.op == "const" and "suppress_instrumentation" in str(t.args[0]) or t.op == "call" and "suppress" in str(t)
