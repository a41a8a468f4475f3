"""K04: lifecycle hooks flush and shut down what was created."""
import ast
from .mx import *
from .k02 import kwof, call_args
from .k01 import none
from . import b05, m09
from .b05 import may_succeed, providers as fan_providers
from .bx import path_from, norm_edges, exc_edges, is_field
from ..flow import isconst

NOTE = "Sibling agreement over the providers: constant propagation of the exit-hook switch into the constructors, must-pass-through of the unregistration and of every delegation, provenance of the result returned, and evaluation of the time handed on as a function of the caller's budget (so that units and what is left agree)."

TP = "opentelemetry.sdk.trace.TracerProvider"
LP = "opentelemetry.sdk._logs._internal.LoggerProvider"
MP = "opentelemetry.sdk.metrics._internal.MeterProvider"
EP = "opentelemetry.sdk._events.EventLoggerProvider"
PER = "opentelemetry.sdk.metrics._internal.export.PeriodicExportingMetricReader"
SWITCH = "shutdown_on_exit"


def run(c):
    n = 0
    for k in sorted(c.prog.classes.values(), key=lambda k: k.fqn):
        m = k.methods.get("__init__")
        if m is None or not k.mod.name.startswith("opentelemetry.sdk"):
            continue
        ps = m.params()
        if SWITCH in list(ps[0]) + list(ps[2] or ()):
            n += 1
            hooks(c, k, m)
    c.ob("hook", "providers", n >= 3, "", "%d providers with an exit hook found" % n)
    for fqn, add in ((TP, "add_span_processor"), (LP, "add_log_record_processor"), (EP, None)):
        delegate(c, c.prog.cls(fqn), add)
    for base, add, events in b05.KINDS:
        for k in c.prog.subclasses(c.prog.cls(base)):
            m = c.prog.find_method(k, add)
            if m is None or not k.mod.name.startswith("opentelemetry.sdk"):
                continue
            F = b05.registration(c, k, m)
            if F is None:
                continue
            b05.event(c, k, F, c.method(k, "shutdown"))
            b05.flush(c, k, F, c.method(k, "force_flush"))
            multi_budget(c, k, F)
    fan_providers(c)
    meter(c)
    leaves(c)
    periodic(c)
    for r, x in (("hook", 10), ("delegated", 6), ("budget", 10)):
        c.floor(r, x)


# -- exit hooks -----------------------------------------------------------------------------------
def registers(a):
    return [r for r in a.recs if r.instr.kind == "call" and r.t.get("callee") is not None and r.t["callee"].op == "glob" and r.t["callee"].args[0] == "atexit.register"]


def unregisters(a):
    return [r for r in a.recs if r.instr.kind == "call" and r.t.get("callee") is not None and r.t["callee"].op == "glob" and r.t["callee"].args[0] == "atexit.unregister"]


def bound(t, name):
    return t.op == "attr" and is_self(t.args[0]) and t.args[1] == name or t.op in ("method", "bound") and name in [getattr(x, "name", x) for x in t.args]


def default_of(m, p):
    n = m.node.args
    ps = n.posonlyargs + n.args
    for x, d in zip(ps[len(ps) - len(n.defaults):], n.defaults):
        if x.arg == p:
            return d
    for x, d in zip(n.kwonlyargs, n.kw_defaults):
        if x.arg == p:
            return d
    return None


def hooks(c, k, m):
    d = default_of(m, SWITCH)
    c.ob("hook", k.fqn + " default", d is not None and getattr(d, "value", None) is True, m.where, "no exit hook is asked for by default")
    pol = Policy(mods=())
    a = c.an(m, k, policy=pol, params={SWITCH: lambda T: T.const(False)})
    rs = registers(a)
    c.ob("hook", k.fqn + " off", not rs, rs[0].where if rs else m.where, "an exit hook is registered although none was asked for")
    a = c.an(m, k, policy=pol, params={SWITCH: lambda T: T.const(True)})
    rs = registers(a)
    c.ob("hook", k.fqn + " on", bool(rs) and always(a, rs, exc=False) is None, m.where, "no exit hook is registered")
    fields = set()
    for r in rs:
        fn = r.args[0] if r.args else None
        good = fn is not None and all(bound(l, "shutdown") for l in a.leaves(fn)) and len(r.args) + len(r.kw) == 1
        c.ob("hook", k.fqn + " shuts down", good, r.where, "the exit hook does not shut the provider down: %s" % fn)
        again = a.path_avoiding(r.instr, [], [x.instr.block for x in rs])
        c.ob("hook", k.fqn + " once", again is None, r.where, "the hook is registered more than once")
        fields |= {x.instr.name for x in self_stores(a) if any(l is r.dst or l is fn for l in a.leaves(x.t["val"]))}
    # shutdown takes it back
    s = c.method(k, "shutdown")
    def o_on(a, t, st):
        x = t.args[0] if t.op in ("isnone", "istrue") else t
        if is_field(fields)(x) if fields else False:
            return t.op != "isnone"
        # the first shutdown
        x = t.args[0] if t.op == "istrue" else t
        if is_call(name="do_once")(x):
            return True
        if x.op == "attr" and is_self(x.args[0]) and x.args[1] in flags:
            return False
        return None
    flags = {x.instr.name for x in self_stores(a) if all(isconst(l, False) for l in a.leaves(x.t["val"]))}
    a = c.an(s, k, oracle=o_on)
    us = [r for r in unregisters(a) if len(r.args) == 1 and all(fields and is_field(fields)(l) or bound(l, "shutdown") for l in a.leaves(r.args[0]))]
    q = always(a, us, exc=False) if us else None
    c.ob("hook", k.fqn + " unregistered", bool(us) and q is None, s.where, "the provider stays registered after shutdown: %s" % witness(a, q))
    # also when it is reported that something failed
    for r in a.recs:
        if r.instr.kind == "raise":
            q = a.path_avoiding(a.b.entry, [x.instr for x in us], [r.instr.block], skip_first=False)
            if r.instr.block is not a.b.entry and not caught(a, r):
                c.ob("hook", k.fqn + " unregistered", q is None, r.where, "the provider stays registered when a failure is reported: %s" % witness(a, q))
    # the field is a hook until then
    used = lambda f: {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute)}
    meths = c.prog.cls(k.fqn).methods
    part = {n for n in used(meths["shutdown"]) if n in meths and n.startswith("_") and not any(n in used(g) for h, g in meths.items() if h != "shutdown")} if "shutdown" in meths else set()
    for n, f in sorted(c.prog.cls(k.fqn).methods.items()):
        if n in ("__init__", "shutdown") or n in part:
            continue
        b = c.an(f, k, policy=Policy(deny=("shutdown",)))
        bad = [r for r in unregisters(b)] + [r for r in registers(b)]
        c.ob("hook", "%s.%s" % (k.fqn, n), not bad, bad[0].where if bad else f.where, "the exit hook is changed elsewhere")


def caught(a, r):
    return not any(e.dst in a.b.exits.values() or not a.live_succs(e.dst) for e in r.instr.block.succs)


# -- delegation --------------------------------------------------------------------------------------
def target_fields(c, k, add):
    out = set()
    if add is not None:
        a = c.am(k, add)
        for r in a.calls(name=add):
            if r.t.get("recv") is not None:
                out |= {l.args[1] for l in a.leaves(r.t["recv"]) if l.op == "attr" and is_self(l.args[0])}
        return out
    m = c.method(k, "__init__")
    a = c.an(m, k)
    for r in self_stores(a):
        if any(l.op == "param" and l.args[0] == m.params()[0][1] for l in a.leaves(r.t["val"])):
            out.add(r.instr.name)
    return out


def delegate(c, k, add):
    F = target_fields(c, k, add)
    if not c.ob("delegated", k.fqn, bool(F), k.fqn, "what the provider hands telemetry to was not found"):
        return
    for n in ("shutdown", "force_flush"):
        m = c.method(k, n)
        a = c.an(m, k)
        con = "%s.%s" % (k.fqn, n)
        cs = [r for r in a.calls(name=n) if r.t.get("recv") is not None and all(is_field(F)(l) for l in a.leaves(r.t["recv"]))]
        q = always(a, cs, exc=False)
        c.ob("delegated", con, bool(cs) and q is None, m.where, "a path does not reach the processors: %s" % witness(a, q))
        if n == "shutdown":
            continue
        pt = m.params()[0][1]
        for r in cs:
            t = r.args[0] if r.args else r.kw.get("timeout_millis")
            c.ob("budget", con, t is not None and all_are(a, t, is_param(pt)), r.where, "the time given is not handed on: %s" % t)
        rets = a.rets()
        bad = [l for r in rets for l in a.leaves(r.t["val"]) if not any(l is x.dst for x in cs)]
        if bad and all(isconst(l, True) or isconst(l, False) for l in bad):
            # spelled out: True exactly when the delegate says so
            f = c.an(m, k, oracle=o_truth(is_call(name=n), False))
            start = [e for r in f.calls(name=n) for e in norm_edges(r)]
            g = c.an(m, k, oracle=o_truth(is_call(name=n), True))
            if path_from(f, start, [], *may_succeed(f)) is None and not any(isconst(l, False) for r in g.rets() for l in g.leaves(r.t["val"])):
                bad = []
        c.ob("result", con, bool(rets) and not bad, m.where, "the result reported is %s, not that of the processors" % (bad or ["none"])[0])


# -- time ----------------------------------------------------------------------------------------------
def ev(a, t, p, depth=0):
    """Value of a term when the time is 0 and the budget is 1000 ms (None: unknown)."""
    if depth > 12 or t is None:
        return None
    if t.op == "const":
        x = t.args[0]
        return x if isinstance(x, (int, float)) and not isinstance(x, bool) else None
    if is_param(p)(t):
        return 1000
    k = callee_of(t)
    if k is not None and k.op == "glob":
        n, ar = k.args[0], [ev(a, x, p, depth + 1) for x in call_args(t)]
        if n.startswith("time.") or n.endswith(".time_ns"):
            return 0
        if None in ar or not ar:
            return None
        f = {"builtins.max": max, "builtins.min": min}.get(n)
        if f and len(ar) > 1:
            return f(ar)
        f = {"builtins.int": int, "builtins.float": float, "builtins.round": round}.get(n)
        return f(ar[0]) if f else None
    if t.op == "bin":
        x, y = ev(a, t.args[1], p, depth + 1), ev(a, t.args[2], p, depth + 1)
        if x is None or y is None:
            return None
        try:
            return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "FloorDiv": lambda: x // y, "Pow": lambda: x ** y if y < 20 else None}.get(t.args[0], lambda: None)()
        except (ZeroDivisionError, OverflowError):
            return None
    if t.op == "phi":
        vs = {ev(a, l, p, depth + 1) for l in a.leaves(t) if l is not t}
        return vs.pop() if len(vs) == 1 else None
    return None


def is_clock(t):
    k = callee_of(t)
    return k is not None and k.op == "glob" and (k.args[0].startswith("time.") or k.args[0].endswith(".time_ns"))


def budget(c, con, a, r, t, p, left, scale=1):
    v = ev(a, t, p) if t is not None else None
    c.ob("budget", con, v is not None and abs(v - 1000.0 / scale) < 1e-6, r.where, "of a budget of 1000 ms %s is handed on" % ("%s" % t if v is None else v))
    if left:
        c.ob("budget", con + " left", t is not None and a.derives(t, is_clock), r.where, "each member gets the whole budget, not what is left of it: %s" % t)


def multi_budget(c, k, F):
    m = c.method(k, "force_flush")
    a = c.an(m, k)
    p = m.params()[0][1]
    for r, args, kw, sub in b05.deliveries(a, "force_flush", F):
        t = args[0] if args else kw.get("timeout_millis")
        budget(c, "%s.force_flush" % k.fqn, a, r, t, p, not sub)
    for r in a.calls(fqn="concurrent.futures.wait"):
        t = r.args[1] if len(r.args) > 1 else r.kw.get("timeout")
        budget(c, "%s.force_flush waits" % k.fqn, a, r, t, p, False, 1000)


# -- the meter provider and its readers ---------------------------------------------------------------
def meter(c):
    k = c.prog.cls(MP)
    RD = m09.readers(c, k)
    for n in ("force_flush", "shutdown"):
        m09.reach(c, k, n, RD)
        m = c.method(k, n)
        a = c.an(m, k)
        p = m.params()[0][1]
        cs = [r for r in a.calls(name=n) if r.t.get("recv") is not None and any(l.op == "elem" for l in a.leaves(r.t["recv"]))]
        c.ob("delegated", "%s.%s" % (MP, n), bool(cs), m.where, "no reader is reached")
        for r in cs:
            budget(c, "%s.%s" % (MP, n), a, r, r.args[0] if r.args else r.kw.get("timeout_millis"), p, True)
    m = c.method(k, "force_flush")
    mine = lambda t: is_call(name="force_flush")(t) and callee_of(t).op == "attr"
    f = c.an(m, k, oracle=oracle(o_truth(mine, False), lambda a, t, st: False if t.op == "isnone" and mine(t.args[0]) else None))
    start = [e for r in f.calls(name="force_flush") for e in norm_edges(r)]
    q = path_from(f, start, [], *may_succeed(f))
    c.ob("result", MP + ".force_flush", bool(start) and q is None, m.where, "success is reported although a reader did not succeed: %s" % witness(f, q))
    g = c.an(m, k, oracle=o_truth(mine, True))
    c.ob("result", MP + ".force_flush success", any(isconst(l, True) or mine(l) for r in g.rets() for l in g.leaves(r.t["val"])), m.where, "success is never reported")
    m09.once(c, k)


def periodic(c):
    k = c.prog.cls(PER)
    X = exporter_field(c, k)
    for n in ("force_flush", "shutdown"):
        m = c.method(k, n)
        a = c.an(m, k, oracle=o_truth(is_call(name="do_once"), True))
        p = m.params()[0][1]
        cs = [r for r in a.calls(name=n) if r.t.get("recv") is not None and all(is_field(X)(l) for l in a.leaves(r.t["recv"]))]
        q = always(a, cs, exc=False) if cs else None
        c.ob("delegated", "%s.%s" % (PER, n), bool(cs) and q is None, m.where, "the exporter is not reached: %s" % witness(a, q))
        for r in cs:
            budget(c, "%s.%s" % (PER, n), a, r, r.args[0] if r.args else r.kw.get("timeout_millis"), p, n == "shutdown")
    m = c.method(k, "force_flush")
    mine = lambda t: is_call(name="force_flush")(t) and callee_of(t).op == "attr" and is_field(X)(callee_of(t).args[0])
    f = c.an(m, k, oracle=o_truth(mine, False))
    start = [e for r in f.calls(name="force_flush") if r.dst is not None and mine(r.dst) for e in norm_edges(r)]
    bad = [l for r in f.rets() for l in f.leaves(r.t["val"]) if not mine(l) and not isconst(l, False)]
    c.ob("result", PER + ".force_flush", bool(start) and (not bad or path_from(f, start, [], *may_succeed(f)) is None), m.where, "success is reported although the exporter did not succeed")
    # collecting first
    a = c.an(m, k)
    col = [r for r in a.recs if r.instr.kind in ("call", "enter") and (r.instr.name == "collect" or str(r.instr.fqn).endswith(".collect"))]
    c.ob("delegated", PER + ".force_flush collects", bool(col) and always(a, col, exc=False) is None, m.where, "nothing is collected before the exporter is flushed")
    for r in col:
        t = r.args[0] if r.instr.kind == "call" and r.args else r.kw.get("timeout_millis") if r.kw else r.t.get("timeout_millis")
        if isinstance(t, Term):
            budget(c, PER + ".force_flush collects", a, r, t, m.params()[0][1], False)


def exporter_field(c, k):
    m = c.method(k, "__init__")
    a = c.an(m, k)
    ps = [p for p in m.params()[0][1:] if "exporter" in p]
    return {r.instr.name for r in self_stores(a) if any(is_param(p)(l) for p in ps for l in a.leaves(r.t["val"]))}


def leaves(c):
    """Processors that hold an exporter shut it down."""
    n = 0
    for base in ("opentelemetry.sdk.trace.SpanProcessor", "opentelemetry.sdk._logs._internal.LogRecordProcessor"):
        for k in sorted(c.prog.subclasses(c.prog.cls(base)), key=lambda k: k.fqn):
            if not k.mod.name.startswith("opentelemetry.sdk") or c.prog.find_method(k, "__init__") is None:
                continue
            X = exporter_field(c, k)
            if not X:
                continue
            n += 1
            m = c.method(k, "shutdown")
            a = c.an(m, k)
            cs = [r for r in a.calls(name="shutdown") if r.t.get("recv") is not None and all(is_field(X)(l) for l in a.leaves(r.t["recv"]))]
            q = always(a, cs, exc=False) if cs else None
            c.ob("delegated", k.fqn + ".shutdown", bool(cs) and q is None, m.where, "the exporter is not shut down: %s" % witness(a, q))
            m = c.method(k, "force_flush")
            p = m.params()[0][1]
            a = c.an(m, k, oracle=oracle(o_isnone(is_param(p), False), o_truth(is_param(p), True)))
            for r in a.calls(name="wait"):
                t = r.args[0] if r.args else r.kw.get("timeout")
                budget(c, k.fqn + ".force_flush", a, r, t, p, False, 1000)
                f = c.an(m, k, oracle=oracle(o_isnone(is_param(p), False), o_truth(is_call(name="wait"), False)))
                start = [e for x in f.calls(name="wait") for e in norm_edges(x)]
                bad = [l for x in f.rets() for l in f.leaves(x.t["val"]) if not is_call(name="wait")(l)]
                c.ob("result", k.fqn + ".force_flush", bool(start) and (path_from(f, start, [], *may_succeed(f)) is None or not [l for x in f.rets() if f.can_reach(f.calls(name="wait")[0].instr.block, x.instr.block) for l in f.leaves(x.t["val"]) if not is_call(name="wait")(l) and not isconst(l, False)]), m.where, "success is reported although the time ran out")
    c.ob("delegated", "processors", n >= 4, "", "%d processors with an exporter found" % n)
