"""T01: an ended span never changes."""
from .c02 import mutations
from .c03 import obj_field
from .lib import *

NOTE = "For every method of the span class: with the end time assumed set, no store to or mutation of the span's state is reachable; otherwise each change is made inside the lock region in which the end time was read and tested. end() stores one end time under the lock and notifies the processors exactly once, afterwards."


def end_attr(c, k):
    """The attribute in which end() keeps the end time."""
    a = c.am(k, "end")
    names = []
    for r in a.events("store_attr"):
        if is_self(r.t["base"]) and r.instr.name not in names:
            names.append(r.instr.name)
    cand = [n for n in names if n == "_end_time"]
    if not cand:
        # the one returned by the end_time property
        p = c.am(k, "end_time")
        ret = {l.args[1] for r in p.rets() for l in p.leaves(r.t["val"]) if l.op == "attr" and l.args[0].op == "self"}
        cand = [n for n in names if n in ret]
    return cand[0] if cand else None


def start_attr(c, k):
    a = c.am(k, "start_time")
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            if l.op == "attr" and l.args[0].op == "self":
                return l.args[1]
    return "_start_time"


def span_methods(c, k):
    seen = {}
    for x in c.prog.mro(k):
        for n, m in x.methods.items():
            if n in seen or n in ("__init__", "__new__", "__init_subclass__"):
                continue
            if n.startswith("_") and not n.startswith("__"):
                continue
            seen[n] = m
    return seen


def of_self(a, t):
    return any(is_self(root(unwrap(l))) for l in a.leaves(t))


def unwrap(t):
    """root through accessor calls that hand out the same object"""
    while True:
        t2 = root(t)
        cal = callee_of(t2)
        if cal is not None and cal.op == "attr" and cal.args[1] in ("setdefault", "get", "values", "items", "keys"):
            t = cal.args[0]
            continue
        return t2


def run(c):
    prog = c.prog
    k = prog.cls(SPAN)
    end = end_attr(c, k)
    c.ob("end-time-kept", SPAN + ".end", end is not None, c.method(k, "end").where, "end() does not keep an end time")
    if end is None:
        return
    start = start_attr(c, k)
    ended = oracle(o_isnone(self_attr(end), False), o_isnone(self_attr(start), False), o_truth(self_attr(end), True))
    live = oracle(o_isnone(self_attr(end), True), o_isnone(self_attr(start), False))
    locks = lock_fields(c, k)
    for kk in [k] + [x for x in prog.subclasses(k) if x is not k]:
        for n, m in sorted(span_methods(c, kk).items()):
            con = "%s.%s" % (kk.fqn, n)
            if kk is not k and prog.find_method(k, n) is m:
                continue
            a = c.an(m, kk, oracle=ended)
            bad = [(r, t) for r, t in mutations(a) if of_self(a, t)]
            c.ob("unchanged-after-end", con, not bad, bad[0][0].where if bad else m.where, "%s changes the span although it has ended" % n)
            ne = [r for r in a.calls(name="on_end")]
            c.ob("no-notification-after-end", con, not ne, ne[0].where if ne else m.where, "%s notifies the processors again although the span has ended" % n)
            b = c.an(m, kk, oracle=live)
            for r, t in mutations(b):
                if not of_self(b, t):
                    continue
                if r.instr.kind == "store_attr" and r.instr.name == start and n == "start":
                    continue
                held = [l for l in r.locks if l.op == "attr" and l.args[1] in locks]
                ok = bool(held)
                c.ob("changed-under-lock", con, ok, r.where, "%s changes the span without holding its lock" % n)
                if ok:
                    p = unchecked(b, r, held[0], end)
                    c.ob("checked-in-region", con, p is None, r.where, "the end time is not tested in the lock region of the change: %s" % witness(b, p))
    # recording state
    for val, orc, what in ((False, ended, "ended"), (True, live, "live")):
        m = c.method(k, "is_recording")
        a = c.an(m, k, oracle=orc)
        ok = bool(a.rets())
        for r in a.rets():
            d = a.decide(r.t["val"], state_of(r)) if r.t["val"] is not None else None
            ok = ok and d is val
        c.ob("is-recording", "%s.is_recording %s" % (SPAN, what), ok, m.where, "is_recording does not report %s for a span that %s" % (val, "has ended" if val is False else "has not ended"))
    # end()
    m = c.method(k, "end")
    a = c.an(m, k, oracle=live)
    con = SPAN + ".end"
    stores = [r for r in a.events("store_attr") if r.instr.name == end and is_self(r.t["base"])]
    c.ob("end-time-stored", con, bool(stores) and always(a, stores, exc=False) is None, m.where, "a span may end without an end time")
    pp = [p for p in m.params()[0][1:]]
    for r in stores:
        again = [x for x in stores if a.path_avoiding(r.instr, [], [x.instr.block], skip_first=True) and x is not r]
        c.ob("one-end-time", con, not again, r.where, "the end time is stored more than once")
        none = [l for l in a.leaves(r.t["val"]) if isconst(l, None)]
        c.ob("end-time-present", con, not none, r.where, "None may be stored as the end time")
    g = c.an(m, k, oracle=oracle(o_isnone(self_attr(end), True), o_isnone(self_attr(start), False), o_isnone(is_param(pp[0]), False)))
    for r in g.events("store_attr"):
        if r.instr.name == end:
            c.ob("given-end-time", con, all(is_param(pp[0])(l) for l in g.leaves(r.t["val"])), r.where, "an end time passed by the caller (possibly 0) is not the one recorded")
    on = [r for r in a.calls(name="on_end")]
    c.ob("processors-notified", con, bool(on) and always(a, on, exc=False) is None, m.where, "a span may end without its processors being notified")
    for r in on:
        c.ob("notified-after-end-time", con, a.dominated(r.instr, [s.instr for s in stores]), r.where, "the processors are notified before the end time is in place")
        c.ob("notified-once", con, not any(a.can_reach(r.instr, x.instr) for x in on), r.where, "the processors may be notified twice")
        c.ob("notified-outside-lock", con, not [l for l in r.locks if l.op == "attr" and l.args[1] in locks], r.where, "processors run while the span's lock is held")
        v = arg(r, 0, "span")
        for l in a.leaves(v) if v is not None else ():
            et = None
            if l.op == "obj":
                et = obj_field(prog, l, "end_time")
                c.ob("view-has-end-time", con, et is not None and set(a.leaves(et)) <= {x for s in stores for x in a.leaves(s.t["val"])}, r.where, "the view handed to the processors lacks the end time")
    # a raised precondition is the only other way out
    c.floor("unchanged-after-end", 20)
    c.floor("changed-under-lock", 4)


def state_of(r):
    from ..flow import State
    return State(r.env if hasattr(r, "env") else {}, r.heap if hasattr(r, "heap") else {}, dict(r.facts), {})


def lock_fields(c, k):
    """Attributes holding a threading lock of the class."""
    out = set()
    for x in c.prog.mro(k):
        if "__init__" in x.methods:
            a = c.an(x.methods["__init__"], k)
            for r in a.events("store_attr"):
                if is_self(r.t["base"]):
                    for l in a.leaves(r.t["val"]):
                        cal = callee_of(l)
                        if cal is not None and cal.op == "glob" and cal.args[0] in ("threading.Lock", "threading.RLock"):
                            out.add(r.instr.name)
    return out


def unchecked(a, r, lock, attr):
    """Path from the acquisition of the lock to the change that neither reads
    nor tests the attribute."""
    acq = [x for x in a.events("acquire") if x.t["lock"] is lock and a.can_reach(x.instr, r.instr)]
    br = [x for x in a.events("branch") if x.t["cond"] is not None and mentions(x.t["cond"], is_attr(attr)) and any(l is lock for l in x.locks)]
    rd = [x for x in a.events("attr", name=attr) if any(l is lock for l in x.locks)]
    for x in acq:
        for ev in (br, rd):
            p = a.path_avoiding(x.instr, [e.instr for e in ev], [r.instr.block])
            if p is not None and not same_block_after(ev, r):
                # only when the lock stays held on the way
                return p
    return None


def same_block_after(ev, r):
    return any(e.instr.block is r.instr.block and r.instr.block.instrs.index(e.instr) < r.instr.block.instrs.index(r.instr) for e in ev)
