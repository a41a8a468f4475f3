"""M06: the periodic reader keeps exporting and flushes on shutdown."""
from .mx import *
from .l01 import own_locks, held
from .lib import logger_calls

NOTE = "Exception-escape analysis of the worker, its behaviour under a stop signal that is given and not given, must-pass-through and order on shutdown, lockset at the export call."

EXP = MI + "export."


def run(c):
    p = Pipe(c, c.prog.cls(PERIODIC))
    k = p.k
    inits(c, p)
    for t in p.targets:
        worker(c, p, k, p.methods[t])
    c.ob("worker", k.fqn, bool(p.targets), k.mod.name, "no worker is started")
    shutdown(c, p, k)
    exports(c, p, k)
    flush(c, p, k)
    collect(c, k)
    c.floor("worker", 2)
    c.floor("shutdown", 1)
    c.floor("export", 2)


def pol(k, *deny):
    return Policy(mods=(k.mod.name,), deny=deny)


COLLECT = READER + ".collect"


def events_of(c, p):
    """Fields the worker is told to stop through: events and flags shutdown sets."""
    m = p.methods["shutdown"]
    a = c.an(m, p.k, policy=pol(p.k))
    ev = {l.args[1] for r in a.calls(name="set") if r.t.get("recv") is not None for l in a.leaves(r.t["recv"]) if l.op == "attr" and l.args[0].op == "self"}
    fl = {r.instr.name for r in self_stores(a) if all_are(a, r.t["val"], lambda l: isconst(l, True))}
    return ev, fl


def inits(c, p):
    """With a finite interval the worker is started; the interval is the user's."""
    m = p.methods["__init__"]
    con = m.fqn
    par = is_param("export_interval_millis")
    inf = lambda t: t.op == "glob" and t.args[0] == "math.inf" or glob_call(t, "builtins.float")
    a = c.an(m, p.k, params={"export_interval_millis": lambda T: T.const(5)}, oracle=lambda an, t, st: True if t.op == "lt" and t.args[0].op == "const" and inf(t.args[1]) else False if t.op in ("eq", "lt") and (inf(t.args[0]) or inf(t.args[1])) else True if glob_call(t, "math.isfinite") else False if glob_call(t, "math.isinf") else None, policy=pol(p.k, READER + ".__init__"))
    st = [r for r in a.calls(name="start") if r.t.get("recv") is not None and all_are(a, r.t["recv"], lambda l: is_field(p.thread)(l) or glob_call(l, "threading.Thread"))]
    c.ob("worker", con, bool(st) and always(a, st, exc=False) is None, m.where, "with a positive finite interval the worker may not be started")
    iv = interval_fields(c, p)
    c.ob("worker", con, bool(iv), m.where, "the interval is not kept")
    # the worker finds everything it reads
    stores = {}
    for r in self_stores(a):
        stores.setdefault(r.instr.name, []).append(r)
    w = p.targets and c.an(p.methods[p.targets[0]], p.k, policy=pol(p.k))
    if w:
        need = {r.instr.name for r in w.recs if r.instr.kind == "attr" and r.t["base"].op == "self"} & set(stores)
        for n in sorted(need - {p.thread}):
            late = [s for s in st if not a.dominated(s.instr, [x.instr for x in stores[n]])]
            c.ob("worker", "%s before %s" % (con, n), not late, m.where, "the worker may be started before %s is set" % n)
    r = c.an(m, p.k, params={"export_interval_millis": lambda T: T.const(-1)}, policy=pol(p.k, READER + ".__init__"))
    c.ob("worker", con, not r.rets(), m.where, "a non-positive interval is accepted")


def interval_fields(c, p):
    a = c.an(p.methods["__init__"], p.k, policy=pol(p.k, READER + ".__init__"))
    return field_of_param(a, "export_interval_millis")


def timeout_fields(c, p):
    a = c.an(p.methods["__init__"], p.k, policy=pol(p.k, READER + ".__init__"))
    return field_of_param(a, "export_timeout_millis")


def worker(c, p, k, m):
    con = m.fqn
    ev, fl = events_of(c, p)
    iv, to = interval_fields(c, p), timeout_fields(c, p)
    wait = lambda t: is_call(name=("wait", "is_set"))(t) and callee_of(t).op == "attr" and is_field(ev)(callee_of(t).args[0])
    told = lambda t: wait(t) or is_field(fl)(t) if fl else wait(t)
    P = pol(k, COLLECT)
    # not told to stop
    a = c.an(m, k, policy=P, oracle=o_truth(told, False))
    cs = a.calls(name="collect")
    ws = [r for r in a.calls(name="wait") if r.dst is not None and wait(r.dst)]
    esc = [i for i, x in a.escaping("E")]
    c.ob("worker", con, bool(cs) and not a.rets(), m.where, "the worker ends without being told to")
    c.ob("worker", con, not esc, m.where, "a failed collection or export ends the worker")
    c.ob("worker", con, bool(ws), m.where, "the worker does not wait for its interval")
    for r in ws:
        t = arg(r, 0, "timeout")
        ok = t is not None and all(seconds(a, l, iv) for l in a.leaves(t))
        c.ob("interval", con, ok, r.where, "the worker waits for %s, not for the interval" % (t,))
        q = a.path_avoiding(r.instr, [x.instr for x in cs], [x.instr.block for x in ws])
        c.ob("worker", con, q is None, r.where, "an interval may pass without a collection: %s" % witness(a, q))
    for r in cs:
        q = a.path_avoiding(r.instr, [x.instr for x in ws], [x.instr.block for x in cs])
        c.ob("interval", con, q is None, r.where, "two collections follow each other without an interval")
        t = arg(r, 0, "timeout_millis")
        c.ob("interval", con, t is not None and all_are(a, t, is_field(to)), r.where, "a collection gets %s as its limit" % (t,))
        lg = logger_calls(a)
        q = path_from(a, exc_edges(r), lg, [x.instr.block for x in ws] + exits(a, True, False))
        c.ob("worker-logs", con, bool(exc_edges(r, "E", "Exception*", "Exception")) or bool(exc_edges(r)), r.where, "a collection cannot fail?")
        c.ob("worker-logs", con, q is None, r.where, "a failed collection is not logged: %s" % witness(a, q))
    # told to stop
    a = c.an(m, k, policy=P, oracle=o_truth(told, True))
    cs = a.calls(name="collect")
    c.ob("last-export", con, bool(cs) and always(a, cs, exc=False) is None, m.where, "a worker that is told to stop ends without a last collection")
    c.ob("last-export", con, bool(a.rets()), m.where, "a worker that is told to stop does not end")
    c.ob("last-export", con, not [i for i, x in a.escaping("E")], m.where, "a failing last collection ends the worker with an exception")
    c.ob("last-export", con, not any(a.can_reach(x.instr, y.instr) for x in cs for y in cs), m.where, "a worker that is told to stop collects more than once")


def seconds(a, t, iv):
    """The interval in milliseconds, as seconds."""
    f = is_field(iv)
    if t.op == "bin" and len(t.args) == 3:
        o, x, y = t.args
        if o == "Div" and y.op == "const" and y.args[0] == 1000:
            return all_are(a, x, f)
        if o == "Mult":
            for x, y in ((x, y), (y, x)):
                if y.op == "const" and y.args[0] == 0.001:
                    return all_are(a, x, f)
    return False


def shutdown(c, p, k):
    m = p.methods["shutdown"]
    con = m.fqn
    P = pol(k)
    closes = lambda b: [r for r in b.calls(name="shutdown") if r.t.get("recv") is not None and any(p.is_exporter(l) for l in b.leaves(r.t["recv"]))]
    why = only_once(c, k, m, closes, P)
    c.ob("shutdown", con, why is None, m.where, "shutdown may take effect twice: %s" % why)
    first = lambda t: is_call(name="do_once")(t)
    ev, fl = events_of(c, p)
    a = c.an(m, k, policy=P, oracle=oracle(o_truth(first, True), o_truth(is_field(fl), False), o_truth(is_field(p.thread), True), o_isnone(is_field(p.thread), False)))
    cl = closes(a)
    sets = [r for r in a.calls(name="set") if r.t.get("recv") is not None and all_are(a, r.t["recv"], is_field(ev))]
    joins = [r for r in a.calls(name="join") if r.t.get("recv") is not None and all_are(a, r.t["recv"], is_field(p.thread))]
    c.ob("shutdown", con, bool(cl) and always(a, cl, exc=False) is None, m.where, "the exporter may not be shut down")
    c.ob("shutdown", con, bool(sets) and always(a, sets, exc=False) is None, m.where, "the worker may not be told to stop")
    c.ob("shutdown", con, bool(joins) and always(a, joins, exc=False) is None, m.where, "the worker's last export may not be waited for")
    for r in cl:
        c.ob("shutdown", con, bool(joins) and a.dominated(r.instr, [x.instr for x in joins]), r.where, "the exporter is shut down before the worker's last export")
        c.ob("shutdown", con, not any(a.can_reach(r.instr, x.instr) for x in cl), r.where, "the exporter may be shut down twice")
    for r in joins:
        c.ob("shutdown", con, bool(sets) and a.dominated(r.instr, [x.instr for x in sets]), r.where, "the worker is waited for before it is told to stop")
        c.ob("shutdown", con, not r.locks, r.where, "the worker is waited for with a lock held that it may need")
        t = arg(r, 0, "timeout")
        c.ob("shutdown", con, t is None or all_are(a, t, lambda l: l.op == "const" and l.args[0] is None) or deadline(a, t), r.where, "the worker is waited for only %s" % (t,))
    # nothing takes the signal back
    for mm in p.methods.values():
        if mm.name in ("__init__",) or mm.cls is None or mm.cls.mod is not k.mod:
            continue
        b = c.an(mm, k, policy=P)
        bad = [r for r in b.calls(name="clear") if r.t.get("recv") is not None and any(is_field(ev)(l) for l in b.leaves(r.t["recv"]))]
        c.ob("signal-stays", mm.fqn, not bad, bad[0].where if bad else mm.where, "the stop signal is taken back")


def deadline(a, t):
    """The time left until a point the timeout was added to."""
    return any(any(is_param("timeout_millis")(y) for y in subterms(l)) for l in a.leaves(t))


def exports(c, p, k):
    """One export at a time, each under the lock."""
    own = own_locks(c, k)
    n = 0
    locks = set()
    for m in entries(c, p):
        a = analysis(c, p, m)
        for r in p.exports(a):
            n += 1
            hs = held(r, own)
            locks.update(hs and {frozenset(l.args[1] for l in hs)} or {frozenset()})
            c.ob("export", m.fqn, bool(hs), r.where, "exports of one reader may overlap")
            v = arg(r, 0, "metrics_data")
            c.ob("export", m.fqn, v is not None and not any(x.op == "const" for x in a.leaves(v)), r.where, "what is exported is %s" % (v,))
        for r in self_stores(a):
            if r.instr.name in own and m.name != "__init__":
                fork = any(glob_call(l, "threading.Thread") for s in self_stores(a) for l in a.leaves(s.t["val"]))
                c.ob("export", m.fqn, fork, r.where, "the lock is replaced while exports may hold it")
    common = frozenset.intersection(*locks) if locks else frozenset()
    c.ob("export", k.fqn, n > 0 and bool(common), k.mod.name, "exports are not under one lock")
    m = c.method(k, "_receive_metrics")
    par = m.params()[0][1]
    a = c.an(m, k, policy=pol(k), oracle=oracle(o_isnone(is_param(par), False), o_truth(is_param(par), True)))
    ex = p.exports(a)
    c.ob("export", m.fqn, bool(ex) and always(a, ex, exc=False) is None and not any(a.can_reach(x.instr, y.instr) for x in ex for y in ex), m.where, "what is collected may not be exported exactly once")
    for r in ex:
        v = arg(r, 0, "metrics_data")
        c.ob("export", m.fqn, v is not None and all_are(a, v, is_param(par)), r.where, "something else than what was collected is exported")


def flush(c, p, k):
    m = c.method(k, "force_flush")
    a = c.an(m, k, policy=pol(k, COLLECT))
    cs = a.calls(name="collect")
    fs = [r for r in a.calls(name="force_flush") if r.t.get("recv") is not None and any(p.is_exporter(l) for l in a.leaves(r.t["recv"]))]
    c.ob("flush", m.fqn, bool(cs) and always(a, cs, exc=False) is None, m.where, "a flush may not collect")
    c.ob("flush", m.fqn, bool(fs) and always(a, fs, exc=False) is None, m.where, "a flush may not reach the exporter")
    for r in fs:
        c.ob("flush", m.fqn, bool(cs) and a.dominated(r.instr, [x.instr for x in cs]), r.where, "the exporter is flushed before the collection")
    m = c.method(c.prog.cls(READER), "force_flush")
    a = c.an(m, c.prog.cls(READER), policy=pol(k, COLLECT))
    cs = a.calls(name="collect")
    c.ob("flush", m.fqn, bool(cs) and always(a, cs, exc=False) is None, m.where, "a flush may not collect")


def collect(c, k):
    """A collection asks the registered callback and passes on what it gives."""
    r0 = c.prog.cls(READER)
    m = c.method(r0, "collect")
    s = c.am(r0, "_set_collect_callback")
    f = {r.instr.name for r in self_stores(s) if all_are(s, r.t["val"], lambda l: l.op == "param")}
    got = lambda t: t.op == "call" and t.args[1].op == "attr" and t.args[1].args[1] in f and t.args[1].args[0].op == "self"
    a = c.an(m, k, policy=pol(k, READER + "._receive_metrics", PERIODIC + "._receive_metrics"), oracle=oracle(o_isnone(is_field(f), False), o_truth(is_field(f), True), o_isnone(got, False), o_truth(got, True)))
    cs = [r for r in a.events("call") if r.dst is not None and got(r.dst)]
    ok = bool(cs) and always(a, cs, exc=False) is None and all(r.args and r.args[0].op == "self" for r in cs)
    c.ob("collect", m.fqn, ok, m.where, "a collection does not ask for this reader's metrics")
    rs = a.calls(name="_receive_metrics")
    ok = bool(rs) and always(a, rs, exc=False) is None and not any(a.can_reach(x.instr, y.instr) for x in rs for y in rs)
    c.ob("collect", m.fqn, ok and all(arg(r, 0, "metrics_data") is not None and all_are(a, arg(r, 0, "metrics_data"), got) for r in rs), m.where, "what was collected is not passed on exactly once")
    c.ob("collect", m.fqn, bool(f), m.where, "no callback is registered")
