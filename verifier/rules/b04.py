"""B04: fork handling of the background pipelines."""
from .b03 import request_field
from .bx import *

NOTE = "For every class with a background thread: the constructor registers a fork hook on every path that starts the thread; the hook reaches the object through a weak reference and calls nothing when it is gone; the handler it calls replaces every synchronisation object the class owns (set comparison with the constructor), forgets the parent's queue and flush request, then starts a new thread on the same worker function."
SYNC = ("Lock", "RLock", "Condition", "Event", "Semaphore", "BoundedSemaphore", "Barrier")
REG = "os.register_at_fork"
WEAK = ("weakref.WeakMethod", "weakref.ref")


def run(c):
    ps = [p for p in pipes(c) if p.thread is not None]
    for p in ps:
        hs = hook(c, p)
        for h in hs:
            if h in p.methods:
                handler(c, p, p.methods[h])
    c.floor("hook-registered", 3)
    c.floor("worker-restarted", 3)
    c.floor("sync-replaced", 4)


def o_hasattr(a, t, st):
    if callee_of(t) is not None and glob_call(t, "builtins.hasattr") and call_args(t)[0].op == "glob" and call_args(t)[0].args[0] == "os":
        return True
    return None


def weak_call(t):
    """A call of a weak reference."""
    k = callee_of(t)
    return k is not None and glob_call(k, *WEAK)


def hook(c, p):
    w = p.k.mod.name
    con = p.fqn
    pol = Policy(mods=(p.k.mod.name,), runs=(REG,))
    a = c.an(p.ini.fi, p.k, policy=pol, oracle=oracle(o_hasattr))
    regs = [r for r in a.calls(fqn=REG)]
    starts = [r for r in a.calls(name="start") if r.t.get("recv") is not None and any(glob_call(l, "threading.Thread") for l in a.leaves(r.t["recv"]))]
    c.ob("hook-registered", con, bool(regs), w, "no fork hook is registered")
    for r in starts:
        if regs:
            q = a.path_avoiding(r.instr, [x.instr for x in regs], a.exit_blocks(exc=False)) if not any(a.dominated(r.instr, [x.instr]) for x in regs) else None
            c.ob("hook-registered", con, q is None, r.where, "the worker runs but the fork hook is not registered: %s" % witness(a, q))
    out = set()
    for r in regs:
        x = r.kw.get("after_in_child")
        c.ob("hook-in-child", con, x is not None, r.where, "the hook does not run in the child")
        if x is None:
            continue
        for l in a.leaves(x):
            if l.op == "attr" and l.args[0].op == "self":
                out.add(l.args[1])
            c.ob("hook-weak", con, l.op in ("func",) and not strong(a, r), r.where, "the hook keeps the object alive: %s" % l)
    inner = lambda an: [x for x in an.recs if any(an.dominated(x.instr, [g.instr]) for g in an.calls(fqn=REG)) and x.instr.frame.fi.fqn.find("<locals>") >= 0]
    weak = set()
    for x in inner(a):
        for t in [x.t.get("callee"), x.t.get("recv")] + [x.dst]:
            if t is not None:
                for l in a.leaves(t):
                    if weak_call(l):
                        weak.add(l)
    isw = lambda t: t in weak or weak_call(t)
    if not out:
        c.ob("hook-alive", con, bool(weak), w, "the hook calls nothing through a weak reference")
    if weak:
        dead = c.an(p.ini.fi, p.k, policy=pol, oracle=oracle(o_hasattr, o_isnone(isw, True)))
        bad = [x for x in inner(dead) if x.instr.kind in ("call", "enter") and not (x.dst is not None and isw(x.dst)) or x.instr.kind == "attr" and any(isw(l) for l in dead.leaves(x.t["base"]))]
        c.ob("hook-when-gone", con, not bad, bad[0].where if bad else w, "the hook still does something (%s) once the object is gone" % (bad[0].instr.name if bad else ""))
        live = c.an(p.ini.fi, p.k, policy=pol, oracle=oracle(o_hasattr, o_isnone(isw, False), o_truth(isw, True)))
        hit = []
        for x in inner(live):
            if x.instr.kind not in ("call", "enter"):
                continue
            for t, how in ((x.t.get("callee"), 0), (x.t.get("recv"), 1)):
                if t is None:
                    continue
                for l in live.leaves(t):
                    m = None
                    if how == 0 and isw(l):
                        m = weak_target(live, callee_of(l))
                    elif how == 1 and isw(l):
                        m = x.instr.name
                    elif how == 0 and l.op == "attr" and isw(l.args[0]):
                        m = l.args[1]
                    if m:
                        hit.append(x)
                        out.add(m)
        for g in live.calls(fqn=REG):
            q = live.path_avoiding(g.instr, [x.instr for x in hit], live.exit_blocks(exc=False)) if hit else [g.instr.block]
            c.ob("hook-alive", con, q is None, g.where, "the hook does not re-initialise a living object: %s" % witness(live, q if hit else None))
    c.ob("hook-handler", con, bool(out) and out <= set(p.methods), w, "the hook calls no method of the object")
    return out


def weak_target(a, w):
    """Method name held by WeakMethod(self.m)."""
    if w is None or not call_args(w):
        return None
    for l in a.leaves(call_args(w)[0]):
        if l.op == "attr" and l.args[0].op == "self":
            return l.args[1]
    return None


def strong(a, reg):
    """A function nested in the constructor touches the object directly."""
    for x in a.recs:
        if "<locals>" not in x.instr.frame.fi.fqn or not a.dominated(x.instr, [reg.instr]):
            continue
        for t in [x.t.get(k) for k in ("base", "recv", "callee", "src", "val", "iter")] + list(x.args or ()) + list((x.kw or {}).values()):
            if isinstance(t, Term) and root(t).op == "self":
                return True
    return False


def handler(c, p, m):
    con = "%s.%s" % (p.fqn, m.name)
    a = analysis(c, p, m)
    sts = list(self_stores(a))
    starts = [r for r in a.calls(name="start") if r.t.get("recv") is not None and any(glob_call(l, "threading.Thread") for l in a.leaves(r.t["recv"]))]
    mk = [r for r in a.calls(fqn="threading.Thread")]
    ok = bool(starts) and always(a, starts, exc=False) is None
    c.ob("worker-restarted", con, ok, m.where, "no new worker thread is started in the child")
    for r in mk:
        t = arg(r, 1, "target")
        c.ob("worker-restarted", con, t is not None and all(l.op == "attr" and l.args[0].op == "self" and l.args[1] in p.targets for l in a.leaves(t)), r.where, "the new thread does not run the worker")
    th = [r for r in sts if r.instr.name == p.thread]
    c.ob("worker-kept", con, bool(th) and always(a, th, exc=False) is None, m.where, "the new thread is not kept, shutdown would wait for the parent's")
    for n, kind in sorted(p.sync.items()):
        s = [r for r in sts if r.instr.name == n]
        new = bool(s) and always(a, s, exc=False) is None and all(glob_call(l, *("threading." + k for k in SYNC)) and glob_call(l, "threading." + kind) for r in s for l in a.leaves(r.t["val"]))
        c.ob("sync-replaced", "%s %s" % (con, n), new, s[0].where if s else m.where, "%s may be held by a thread that does not exist in the child; it is not replaced by a new %s" % (n, kind))
        for r in s:
            for l in a.leaves(r.t["val"]):
                if glob_call(l, "threading.Condition"):
                    for x in call_args(l):
                        c.ob("sync-replaced", "%s %s" % (con, n), all(glob_call(y, "threading.Lock", "threading.RLock") for y in a.leaves(x)), r.where, "the new condition uses an old lock")
        for r in starts:
            c.ob("sync-before-start", "%s %s" % (con, n), bool(s) and a.dominated(r.instr, [x.instr for x in s]), r.where, "the new worker may see the parent's %s" % n)
        if kind == "Event":
            stays_shut(c, p, m, con, n)
    if p.queue is not None:
        cl = on_queue(a, p, ("clear",)) + [r for r in sts if r.instr.name == p.queue]
        c.ob("queue-emptied", con, bool(cl) and always(a, cl, exc=False) is None, m.where, "items queued by the parent would be exported again")
        for r in starts:
            c.ob("queue-emptied", con, bool(cl) and a.dominated(r.instr, [x.instr for x in cl]), r.where, "the new worker may export the parent's items")
        F = request_field(c, p)
        if F is not None:
            rs = [r for r in sts if r.instr.name == F]
            for r in starts:
                c.ob("request-forgotten", con, bool(rs) and a.dominated(r.instr, [x.instr for x in rs]) and all(isconst(r2.t["val"], None) or fresh(a, r2.t["val"]) for r2 in rs), r.where, "the flush request of the parent, whose event may be held, is served in the child")
    for n in sorted({r.instr.name for r in self_stores(p.ini) if any(glob_call(l, "os.getpid") for l in p.ini.leaves(r.t["val"]))}):
        s = [r for r in sts if r.instr.name == n]
        c.ob("pid-updated", con, bool(s) and always(a, s, exc=False) is None and all(all_are(a, r.t["val"], lambda l: glob_call(l, "os.getpid")) for r in s), m.where, "%s stays the parent's, the next recording re-initialises again and loses items" % n)


def stays_shut(c, p, m, con, n):
    sd = p.methods.get("shutdown")
    if sd is None:
        return
    b = analysis(c, p, sd)
    sets = [r for r in b.calls(name="set") if r.t.get("recv") is not None and any(is_field(n)(l) for l in b.leaves(r.t["recv"]))]
    if not sets or not p.done:
        return
    d = is_field(p.done)
    on = analysis(c, p, m, oracle=oracle(o_truth(d, True), o_isnone(d, False)))
    s = [r for r in on.calls(name="set")]
    old = lambda t: is_call(name="is_set")(t)
    on2 = analysis(c, p, m, oracle=oracle(o_truth(lambda t: d(t) or old(t), True)))
    s2 = [r for r in on2.calls(name="set")]
    c.ob("stays-shut-down", con, bool(s) and always(on, s, exc=False) is None or bool(s2) and always(on2, s2, exc=False) is None, m.where, "a reader that was shut down runs again in the child")
