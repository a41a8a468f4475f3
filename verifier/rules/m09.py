"""M09: a meter provider flushes and shuts down every reader."""
import ast

from .mx import *
from ..flow import State
from .m03 import gap

NOTE = "Coverage of the loops over readers with exceptional edges, reporting of what the handlers recorded, atomic test-and-set of the shutdown, constant propagation of the shutdown flag into get_meter, and the check-and-add of readers to the class-wide registry."

PROV = MI + "MeterProvider"
CONFIG = MI + "sdk_configuration.SdkConfiguration"
NOOP = "opentelemetry.metrics._internal.NoOpMeter"


def run(c):
    k = c.prog.cls(PROV)
    RD = readers(c, k)
    for n in ("force_flush", "shutdown"):
        reach(c, k, n, RD)
    once(c, k)
    noop(c, k)
    registry(c, k)
    c.floor("every-reader", 2)
    c.floor("reported", 2)
    c.floor("one-provider", 1)


def readers(c, k):
    """Predicate: the sequence of readers the provider was made with."""
    m = c.method(k, "__init__")
    a = c.an(m, k)
    fields, cfg = set(), set()
    for r in self_stores(a):
        for l in a.leaves(r.t["val"]):
            if is_param("metric_readers")(l) or ordered(a, l, is_param("metric_readers")):
                fields.add(r.instr.name)
            if is_made(CONFIG)(l):
                cfg.add(r.instr.name)
    def p(t):
        if t.op != "attr":
            return is_param("metric_readers")(t)
        return t.args[0].op == "self" and t.args[1] in fields or t.args[1] == "metric_readers" and (is_field(cfg)(t.args[0]) or is_made(CONFIG)(t.args[0]))
    return p


def o_time(timeout):
    """The time allowed is not used up."""
    def f(a, t, st):
        if t.op != "lt":
            return None
        x, y = (mentions(s, is_param(timeout)) for s in t.args[:2])
        if y and not x:
            return True
        if x and not y:
            return False
        return None
    return f


def errors_of(a, blocks):
    """Containers the handlers in the blocks add to, and the values they store
    in variables."""
    out = []
    for r in a.recs:
        if r.instr.block not in blocks:
            continue
        if r.instr.kind in ("store_item", "content") or r.instr.kind == "call" and r.instr.name in PUTS + ("add", "setdefault", "insert", "update"):
            b = r.t.get("base") if r.instr.kind != "call" else r.t.get("recv")
            if b is not None:
                out.append((r, set(a.leaves(b))))
    return out


def reach(c, k, n, RD):
    m = c.method(k, n)
    con = m.fqn
    P = Policy(mods=(k.mod.name,))
    tm = next((x for x in [q for q in m.params()[0][1:]] if "timeout" in x), None)
    ini = c.an(c.method(k, "__init__"), k)
    unset = {r.instr.name for r in self_stores(ini) if all_are(ini, r.t["val"], lambda l: l.op == "const" and l.args[0] is False)}
    # the first call, with time left
    orc = oracle(o_truth(is_call(name="do_once"), True), o_truth(is_field(unset), False), *([o_time(tm)] if tm else []))
    a = c.an(m, k, policy=P, oracle=orc)
    el = lambda t: t.op == "elem" and ordered(a, t.args[0], RD)
    evs = [r for r in a.calls(name=n) if r.t.get("recv") is not None and all_are(a, r.t["recv"], el)]
    every_member(c, "every-reader", con, a, RD, evs, m, exc=True)
    for r in evs:
        ee = exc_edges(r, "Exception*")
        lps = [lp for lp in a.events("loop") if r.instr.block in loop_body(a, lp)]
        esc = [i for i, x in a.escaping("E") if i is r.instr]
        c.ob("every-reader", con, bool(ee) and not esc, r.where, "a reader that fails keeps the others from being reached")
        # after a failure: something is recorded that makes the method raise
        handler = reach_blocks(a, ee, [lp.instr for lp in lps])
        ok, why = False, "nothing is recorded about the failure"
        for s, base in errors_of(a, handler):
            q = path_from(a, ee, [s], [lp.instr.block for lp in lps] + exits(a, True, False))
            if q is not None:
                why = "a failure may go unrecorded: %s" % witness(a, q)
                continue
            full = lambda t: t in shows
            shows = {show(x) for x in base}
            some = lambda t: show(t) in shows
            b = c.an(m, k, policy=P, oracle=oracle(o_truth(some, True), o_len(some), orc))
            heads = [x.instr for x in b.events("loop") if any(RD(y) for y in b.sources(x.t["iter"]))]
            aft = [e for x in b.events("loop") if x.instr in heads for e in x.instr.block.succs if e.label != "next"]
            q = path_from(b, aft, [], exits(b, True, False))
            ok = q is None and bool(aft)
            why = "a recorded failure is not reported: %s" % witness(b, q)
            if ok:
                break
        if not ok:
            v = variable(c, a, m, k, P, orc, r, ee, RD)
            ok = v is None
        c.ob("reported", con, ok, r.where, why)
    if n == "force_flush":
        answered(c, k, m, P, orc, evs, con)


def answered(c, k, m, P, orc, evs, con):
    """One reader that says it was not flushed in time makes the answer false,
    whatever the readers after it say."""
    a = c.an(m, k, policy=P, oracle=orc)
    for r in a.rets():
        c.ob("reported", con + " answer", not all(l.op == "const" and l.args[0] is True for l in a.leaves(r.t["val"])), r.where, "the answer is true even if a reader was not flushed")
        v = r.t["val"]
        if v.op != "phi" or not evs:
            continue
        ok, why = True, ""
        for first in (True, False):
            this = lambda t: t.op == "phi" and t.args == v.args
            b = c.an(m, k, policy=P, oracle=oracle(o_truth(is_call(name=m.name), False) if first else o_truth(this, False), orc))
            hit = [x for x in b.calls(name=m.name) if any(x.where == e.where for e in evs)]
            norm = reach_blocks(b, [e for x in hit for e in norm_edges(x)], [lp.instr for lp in b.events("loop")])
            own = next((t for t in b.phis if this(t)), None)
            if own is None or not hit:
                continue
            vals = settled(b, own, {x.id for x in norm}, set())
            got = {b.decide(t, st) for t, st in vals}
            if got - {False}:
                ok, why = False, "a reader that was not flushed is not reported" if first else "a later reader's answer hides that an earlier one was not flushed"
        c.ob("reported", con + " answer", ok, r.where, why)


def settled(b, phi, norm, seen):
    """What the variable may hold after a call that returned: operands that come
    from the blocks in norm."""
    out = []
    for (bid, lab), (t, facts) in b.phis.get(phi, {}).items():
        if bid not in norm:
            continue
        if t.op == "phi" and t is not phi and t in b.phis and t not in seen and any(x in norm for x, y in b.phis[t]):
            out += settled(b, t, norm, seen | {t})
        else:
            out.append((t, State({}, {}, facts, ())))
    return out


def o_len(pred):
    def f(a, t, st):
        ln = lambda x: is_call(fqn="builtins.len")(x) and call_args(x) and pred(call_args(x)[0])
        if ln(t):
            return True
        if t.op == "lt" and t.args[0].op == "const" and t.args[0].args[0] == 0 and ln(t.args[1]):
            return True
        if t.op == "eq" and any(ln(x) for x in t.args[:2]) and any(x.op == "const" and x.args[0] == 0 for x in t.args[:2]):
            return False
        return None
    return f


def show(t):
    from ..flow import show as s
    return s(t)


def reach_blocks(a, edges, stops):
    seen, todo = set(), [e.dst for e in edges if a.edge_out.get(e)]
    stop = {i.block for i in stops}
    while todo:
        b = todo.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        todo += [e.dst for e in b.succs if a.edge_out.get(e)]
    return seen


def variable(c, a, m, k, P, orc, r, ee, RD):
    """A variable the failure is kept in: the value coming back to the loop
    header from the handler differs, and makes the method raise."""
    for lp in a.events("loop"):
        if r.instr.block not in loop_body(a, lp):
            continue
        back = reach_blocks(a, ee, [lp.instr])
        for ph, ins in a.phis.items():
            if ph.op != "phi" or ph.args[0] != lp.instr.block.id:
                continue
            vals = [v for (src, lab), (v, f) in ins.items() if src in {b.id for b in back}]
            if not vals or not all(x.op == "exc" or x.op == "const" and x.args[0] is True or x.op == "obj" for v in vals for x in a.leaves(v) if x is not ph):
                continue
            sh = show(ph)
            is_it = lambda t: show(t) == sh
            b = c.an(m, k, policy=P, oracle=oracle(o_isnone(is_it, False), o_truth(is_it, True), orc))
            aft = [e for x in b.events("loop") if x.instr.block.id == lp.instr.block.id for e in x.instr.block.succs if e.label != "next"]
            q = path_from(b, aft, [], exits(b, True, False))
            if aft and q is None:
                return None
    return "no variable keeps it"


def once(c, k):
    m = c.method(k, "shutdown")
    eff = lambda a: [r for r in a.calls(name="shutdown") if r.t.get("recv") is not None and any(l.op == "elem" for l in a.leaves(r.t["recv"]))]
    why = only_once(c, k, m, eff, Policy(mods=(k.mod.name,)))
    c.ob("once", m.fqn, why is None, m.where, "readers may be shut down more than once: %s" % why)


def noop(c, k):
    ini = c.an(c.method(k, "__init__"), k)
    init = {r.instr.name for r in self_stores(ini) if all_are(ini, r.t["val"], lambda l: l.op == "const" and l.args[0] is False)}
    m = c.method(k, "shutdown")
    P = Policy(mods=(k.mod.name, ONCE.rsplit(".", 1)[0]))
    # the first shutdown: no flag is set, the Once was not used
    a = c.an(m, k, policy=P, oracle=o_truth(lambda t: t.op == "attr" and (t.args[1] in init and t.args[0].op == "self" or t.args[1] == "_done"), False))
    set_ = set()
    for n in {r.instr.name for r in self_stores(a)}:
        rs = [r for r in self_stores(a) if r.instr.name == n and all_are(a, r.t["val"], lambda l: l.op == "const" and l.args[0] is True)]
        ev = [r for r in a.calls(name="shutdown") if r.t.get("recv") is not None and any(l.op == "elem" for l in a.leaves(r.t["recv"]))]
        if rs and a.path_avoiding(a.b.entry, [x.instr for x in rs], exits(a, True, False) + [x.instr.block for x in ev]) is None:
            set_.add(n)
    g = c.method(k, "get_meter")
    good = []
    for n in sorted(set_):
        if n not in init:
            continue
        b = c.an(g, k, policy=P, oracle=o_truth(is_field(n), True))
        if b.rets() and all(all_are(b, r.t["val"], noops) for r in b.rets()) and not [1 for i, x in b.escaping("E") if i.kind == "raise"]:
            good.append(n)
    c.ob("no-op-after", g.fqn, bool(good), g.where, "a provider that was shut down still hands out working meters")
    for r in c.an(g, k, policy=P).recs:
        if r.instr.kind == "store_attr" and r.instr.name in good:
            c.ob("no-op-after", g.fqn, False, r.where, "get_meter changes the shutdown flag")
    for f in k.methods.values():
        if f.name in ("__init__",) or f.is_static:
            continue
        a = c.an(f, k)
        for r in self_stores(a):
            if r.instr.name in good:
                ok = all_are(a, r.t["val"], lambda l: l.op == "const" and l.args[0] is True)
                c.ob("no-op-after", "%s sets %s" % (f.fqn, r.instr.name), ok, r.where, "the shutdown is undone")


def noops(l):
    return is_made(NOOP)(l)


def registry(c, k):
    m = c.method(k, "__init__")
    P = Policy(mods=(k.mod.name,))
    a = c.an(m, k, policy=P)
    con = m.fqn
    cls_level = set(k.class_attrs) if hasattr(k, "class_attrs") else {t.id for n in k.node.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
    own = {r.instr.name for f in k.methods.values() if not f.is_static for r in self_stores(c.an(f, k))}
    common = lambda t: t.op == "attr" and t.args[0].op in ("self", "glob") and t.args[1] in cls_level - own or t.op == "glob" or t.op == "attr" and t.args[0].op == "attr" and t.args[0].args[1] == "__class__" and t.args[1] in cls_level - own
    RD = readers(c, k)
    el = lambda t: t.op == "elem" and ordered(a, t.args[0], RD)
    adds = [r for r in a.calls(name="add") if r.args and all_are(a, r.args[0], el) and r.t.get("recv") is not None and all_are(a, r.t["recv"], common)]
    adds += [r for r in a.calls(name="add") if r.args and all_are(a, r.args[0], el) and r.t.get("recv") is None and (r.instr.fqn or "").split(".")[-2:-1] and r.instr.fqn.split(".")[-2] in cls_level - own]
    adds += [r for r in a.events("store_item") if all_are(a, r.t["key"], el) and all_are(a, r.t["base"], common)]
    every_member(c, "one-provider", con, a, RD, adds, m, order=False)
    def member(t):
        return t.op == "in" and any(el(l) for l in a.leaves(t.args[0])) and all_are(a, t.args[1], common)
    tests = [r for r in a.recs if r.dst is not None and (member(r.dst) or r.dst.op == "not" and member(r.dst.args[0]))]
    for r in adds:
        ok = any(any(l in r.locks and common(l) and not gap(a, t, r, l) for l in t.locks) and a.dominated(r.instr, [t.instr]) for t in tests)
        c.ob("one-provider", con, ok, r.where, "two providers created at the same time may both take a reader: the test and the registration are not one step under a lock all providers share")
    b = c.an(m, k, policy=P, oracle=lambda an, t, st: True if t.op == "in" and any(x.op == "elem" for x in an.leaves(t.args[0])) and all_are(an, t.args[1], common) else None)
    loops = [lp for lp in b.events("loop") if any(RD(s) for s in b.sources(lp.t["iter"]))]
    late = [r for r in b.calls(name=("_set_collect_callback", "add")) if any(r.instr.block in loop_body(b, lp) for lp in loops)]
    late = [r for r in late if r.instr.name == "_set_collect_callback"]
    for lp in loops:
        d = [e for e in lp.instr.block.succs if e.label == "next"]
        q = path_from(b, d, [], [lp.instr.block] + exits(b, True, False))
        if any(r.instr.block in loop_body(a, lp) for r in adds for lp in a.events("loop") if lp.instr.block.id == loops[0].instr.block.id):
            c.ob("one-provider", con, q is None or not same_loop(a, lp, adds), lp.where, "a reader another provider has is taken: %s" % witness(b, q))
    for r in late:
        c.ob("one-provider", con, False, r.where, "a reader another provider has is given this provider's collect callback")
    st = [r for r in a.calls(name="_set_collect_callback") if r.t.get("recv") is not None and all_are(a, r.t["recv"], el)]
    every_member(c, "attached", con, a, RD, st, m, order=False)
    # nothing takes a reader out of the registry again
    names = {l.args[1] for r in adds for x in ([r.t["recv"]] if r.t.get("recv") is not None else [r.t["base"]] if r.t.get("base") is not None else []) for l in a.leaves(x) if l.op == "attr"}
    for f in k.methods.values():
        if f.is_static:
            continue
        fa = c.an(f, k)
        for r in fa.calls(name=("discard", "remove", "pop", "clear", "difference_update")):
            if r.t.get("recv") is not None and any(l.op == "attr" and l.args[1] in names for l in fa.leaves(r.t["recv"])):
                c.ob("one-provider", f.fqn, False, r.where, "a reader is forgotten and can be taken by another provider")


def same_loop(a, lp, adds):
    return any(x.instr.block.id == lp.instr.block.id and any(r.instr.block in loop_body(a, x) for r in adds) for x in a.events("loop"))
