"""Roles inside the metrics SDK."""
from .bx import *
from .b05 import may_succeed, state_of

MI = "opentelemetry.sdk.metrics._internal."
CONSUMER = MI + "measurement_consumer.SynchronousMeasurementConsumer"
STORAGE = MI + "metric_reader_storage.MetricReaderStorage"
MATCH = MI + "_view_instrument_match._ViewInstrumentMatch"
VIEW = MI + "view.View"
AGG = MI + "aggregation."
INST = MI + "instrument."
READER = MI + "export.MetricReader"
PERIODIC = MI + "export.PeriodicExportingMetricReader"
PROVIDER = MI + "MeterProvider"
METER = MI + "Meter"


def is_made(*fqns):
    """Objects constructed from one of the classes."""
    return lambda t: t.op == "obj" and t.args[1] in fqns or glob_call(t, *fqns)


def holder(a, pred):
    """Fields of self that come to hold (as their value or as an element)
    a value satisfying pred."""
    out = set()
    if a is None:
        return out
    objs = set()
    for r in a.recs:
        v = r.t.get("val")
        if r.instr.kind in ("content", "store_item") and v is not None and any(pred(l) for l in a.leaves(v)):
            for l in a.leaves(r.t["base"]):
                if l.op == "attr" and l.args[0].op == "self":
                    out.add(l.args[1])
                else:
                    objs.add(l)
        if r.instr.kind == "call" and r.instr.name in PUTS + ("add", "setdefault") and r.t.get("recv") is not None and any(pred(l) for x in r.args for l in a.leaves(x)):
            for l in a.leaves(r.t["recv"]):
                if l.op == "attr" and l.args[0].op == "self":
                    out.add(l.args[1])
                else:
                    objs.add(l)
    for r in self_stores(a):
        for l in a.leaves(r.t["val"]):
            if pred(l) or l in objs or any(x in objs for x in subterms(l)) or any(pred(v) for k_, v, i in a.contents.get(l, ()) for v in a.leaves(v)):
                out.add(r.instr.name)
    return out


def made(a, *fqns):
    """Records constructing one of the classes (call or inlined __init__)."""
    return [r for r in a.recs if r.instr.kind in ("call", "enter") and (r.instr.fqn in fqns or r.instr.fqn in tuple(f + ".__init__" for f in fqns))]


def argof(prog, r, fqn, name):
    """The argument a constructor call passes for parameter `name`."""
    k = prog.classes[fqn]
    m = prog.find_method(k, "__init__")
    ps = m.params()[0][1:] if m is not None else []
    if not ps and k.annots:
        ps = list(k.annots)
    if name in r.kw:
        return r.kw[name]
    if name in ps and ps.index(name) < len(r.args):
        return r.args[ps.index(name)]
    return None


def field_of_param(a, p):
    """Fields of self the parameter (or a value built from it) is stored in."""
    return {r.instr.name for r in self_stores(a) if any(is_param(p)(l) for l in a.leaves(r.t["val"]))}


def may_fail(a):
    """(blocks of returns whose value may be falsy, edge filter)."""
    out, no = [], set()
    for r in a.rets():
        if may_be_false(a, r.t["val"], r, no, set()):
            out.append(r.instr.block)
    return out, lambda e: (e.dst.id, e.src.id, str(e.label)) not in no


def may_be_false(a, t, r, no, seen):
    if t.op == "phi" and a.phis.get(t):
        if t in seen:
            return False
        seen.add(t)
        ok = False
        for (src, lab), (v, facts) in a.phis[t].items():
            if may_be_false(a, v, r, no, seen):
                ok = True
            elif v is not t and v not in seen or v.op != "phi":
                no.add((t.args[0], src, lab))
        return ok
    if t.op == "const":
        return not t.args[0]
    return a.decide(t, state_of(r)) is not True


def entry_path(a, targets, edges=None, avoid=()):
    return a.path_avoiding(a.b.entry, [x.instr if hasattr(x, "instr") else x for x in avoid], targets, skip_first=False, edges=edges)


ONCE = "opentelemetry.util._once.Once"


def only_once(c, k, m, effects, pol):
    """None when the effects of the method happen in one call of it at most,
    whatever calls overlap; else what is missing."""
    from .m03 import gap
    ini = c.an(c.method(k, "__init__"), k)
    onces = {r.instr.name for r in self_stores(ini) if any(is_made(ONCE)(l) for l in ini.leaves(r.t["val"]))}
    g = lambda t: is_call(name="do_once")(t) and callee_of(t).op == "attr" and is_field(onces)(callee_of(t).args[0])
    a = c.an(m, k, policy=pol)
    if any(r.dst is not None and g(r.dst) for r in a.recs):
        b = c.an(m, k, policy=pol, oracle=o_truth(g, False))
        bad = effects(b)
        if not bad:
            return None
        return "%s also happens in a call that is not the first" % bad[0].instr.name
    flags = {r.instr.name for r in self_stores(ini) if any(l.op == "const" and l.args[0] is False for l in ini.leaves(r.t["val"]))}
    why = "nothing makes a second call stop"
    for s in self_stores(a):
        f = s.instr.name
        if f not in flags or not all_are(a, s.t["val"], lambda l: l.op == "const" and l.args[0] is True):
            continue
        b = c.an(m, k, policy=pol, oracle=o_truth(is_field(f), True))
        if effects(b):
            continue
        rd = [r for r in a.recs if r.instr.kind == "attr" and r.instr.name == f and r.dst is not None and is_field(f)(r.dst)]
        ok = any(l in s.locks and not gap(a, r, s, l) and a.dominated(s.instr, [r.instr]) for r in rd for l in r.locks)
        e = effects(a)
        if ok and all(a.dominated(x.instr, [s.instr]) for x in e):
            return None
        why = "two overlapping calls may both find %s unset" % f
    return why


def parts(c, k, m):
    """The method and the generators of the class it delegates to."""
    out, todo = [], [m]
    while todo:
        f = todo.pop(0)
        if f in out:
            continue
        out.append(f)
        a = c.an(f, k)
        for r in a.calls():
            g = c.prog.find_method(k, r.instr.name) if r.instr.name and r.t.get("recv") is not None and r.t["recv"].op == "self" else None
            if g is not None and g.is_gen():
                todo.append(g)
    return out
