"""B03: drain on shutdown, flush hand-off."""
from .b02 import limit_field
from .bx import *

NOTE = "Path rules on the interprocedural graphs of the worker, shutdown and force_flush: from every test that finds the processor stopped, the worker cannot end without the queue having been found empty and without having taken the last flush request; each flush request taken is answered on every path, after the queue was exported or found empty; shutdown raises the flag, notifies, joins without a timeout, then shuts the exporter down."


def run(c):
    ps = batch(c)
    for p in ps:
        done, sa, dst = done_field(c, p)
        F = request_field(c, p)
        c.ob("flush-request", p.fqn, F is not None, p.fqn, "no flush request is handed to the worker")
        shutdown(c, p, done, sa, dst)
        keeps(c, p)
        for t in p.targets:
            worker(c, p, p.methods[t], done, F)
        if F is not None:
            flush(c, p, done, F)
    simple(c)
    c.floor("drained", 2)
    c.floor("join-before-close", 2)
    c.floor("flush-answered", 4)
    c.floor("request-under-lock", 2)


def request_field(c, p):
    a = analysis(c, p, p.methods["force_flush"])
    for r in self_stores(a):
        if any(l.op == "obj" for l in a.leaves(r.t["val"])):
            return r.instr.name
    return None


def simple(c):
    for p in pipes(c):
        if p.queue is not None:
            continue
        a = analysis(c, p, p.methods["shutdown"])
        ev = closes(a, p)
        if p.thread is None:
            c.ob("exporter-closed", p.fqn, bool(ev) and always(a, ev, exc=False) is None, p.fqn, "shutdown does not shut the exporter down")


def closes(a, p):
    return [r for r in a.calls(name="shutdown") if r.t.get("recv") is not None and any(p.is_exporter(l) for l in a.leaves(r.t["recv"]))]


def shutdown(c, p, done, a, flags):
    con = p.fqn + ".shutdown"
    w = p.methods["shutdown"].where
    close = closes(a, p)
    joins = [r for r in a.calls(name="join") if r.t.get("recv") is not None and any(is_field(p.thread)(l) for l in a.leaves(r.t["recv"]))]
    nots = [r for r in a.calls(name=("notify", "notify_all")) if r.t.get("recv") is not None and any(is_field(p.cond)(l) for l in a.leaves(r.t["recv"]))]
    c.ob("exporter-closed", con, bool(close) and always(a, close, exc=False) is None, w, "shutdown may end without shutting the exporter down")
    c.ob("exporter-closed", con, not any(a.can_reach(x.instr, y.instr) for x in close for y in close), w, "the exporter is shut down more than once")
    for r in close:
        c.ob("join-before-close", con, bool(joins) and a.dominated(r.instr, [x.instr for x in joins]), r.where, "the exporter is shut down before the worker has ended")
    for r in joins:
        c.ob("join-before-close", con, not [x for x in r.args if not isconst(x, None)] and not [x for x in r.kw.values() if not isconst(x, None)], r.where, "the wait for the worker is limited, its last batches may come after the exporter was shut down")
        c.ob("worker-woken", con, bool(nots) and a.dominated(r.instr, [x.instr for x in nots]), r.where, "the worker is not woken before it is waited for")
        c.ob("lock-free-join", con, not r.locks, r.where, "the worker is waited for with the lock held that it needs")
    for r in nots:
        c.ob("worker-woken", con, bool(flags) and a.dominated(r.instr, [x.instr for x in flags]), r.where, "the worker is woken before the flag is raised")
    for r in self_stores(a):
        if r.instr.name in done:
            c.ob("flag-stays", con, isconst(r.t["val"], True), r.where, "the stop flag is taken back")


def keeps(c, p):
    """Nothing throws queued items away."""
    for m in entries(c, p):
        n = m.name
        a = analysis(c, p, m)
        if any(glob_call(l, "threading.Thread") for r in self_stores(a) for l in a.leaves(r.t["val"])):
            continue  # the fork handler starts from an empty queue (B04)
        bad = [r for r in on_queue(a, p, ("clear", "remove")) + [r for r in self_stores(a) if r.instr.name == p.queue]]
        c.ob("queue-kept", "%s.%s" % (p.fqn, n), not bad, bad[0].where if bad else m.where, "queued items are thrown away")


def empties(a, p):
    return [e for b in a.events("branch") for e in truth_edge(a, b, is_field(p.queue), False)]


def worker(c, p, m, done, F):
    con = "%s.%s" % (p.fqn, m.name)
    v = vol(p, done, F)
    a = analysis(c, p, m, volatile=v)
    d = is_field(done)
    stop = [e for b in a.events("branch") for e in truth_edge(a, b, d, True) if a.edge_out.get(e)]
    emp = set(empties(a, p))
    rets = a.exit_blocks(exc=False)
    c.ob("stops", con, bool(stop) and bool(rets), m.where, "the worker never tests the stop flag or never ends")
    for e in stop:
        q = path_from(a, [e], [], rets, lambda x: x not in emp)
        c.ob("drained", con, q is None, m.where, "the worker may end with items in the queue: %s" % witness(a, q))
        if F is not None:
            reads = [r for r in a.events("attr", name=F) if is_self(r.t["base"]) and r.locks]
            q = path_from(a, [e], reads, rets)
            c.ob("last-request-taken", con, q is None, m.where, "a flush waiting when the worker stops is never answered: %s" % witness(a, q))
    # the worker ends only because it was told to
    q = a.path_avoiding(a.b.entry, [], rets, skip_first=False, edges=lambda x: x not in set(stop))
    c.ob("ends-only-when-stopped", con, q is None, m.where, "the worker may end although nothing stopped it: %s" % witness(a, q))
    waits = [r for r in a.calls(name=("wait", "wait_for")) if r.t.get("recv") is not None and any(is_field(p.cond)(l) for l in a.leaves(r.t["recv"]))]
    c.ob("waits", con, bool(waits), m.where, "the worker does not wait for work")
    dread = [r for r in a.events("attr") if r.instr.name in done and is_self(r.t["base"]) and r.locks]
    for r in waits:
        c.ob("no-lost-wakeup", con, bool(r.locks) and bool(dread), r.where, "the stop flag is not tested with the lock held before waiting")
        acq = [x for x in a.events("acquire") if any(is_field(p.cond)(l) for l in a.leaves(x.t["lock"]))]
        for x in acq:
            q = a.path_avoiding(x.instr, [y.instr for y in dread] + [y.instr for y in acq if y is not x], [r.instr.block])
            c.ob("no-lost-wakeup", con, q is None, r.where, "the worker may wait without having tested the stop flag since it took the lock")
        b = analysis(c, p, m, volatile=v, oracle=oracle(o_truth(d, True), o_isnone(d, False)))
        c.ob("no-lost-wakeup", con, r.instr.uid not in {x.instr.uid for x in b.calls(name=("wait", "wait_for"))}, r.where, "the worker waits although it was told to stop")
        # an endless wait is only allowed when everything that adds work notifies
        c.ob("wait-limited", con, bool(r.args) or bool(r.kw), r.where, "the worker waits without a limit although not every item wakes it")
    if F is not None:
        requests(c, p, m, con, v, F, done)


def requests(c, p, m, con, v, F, done):
    a0 = analysis(c, p, m, volatile=v)
    vers = sorted({r.dst.args[2] for r in a0.events("attr", name=F) if is_self(r.t["base"]) and r.dst is not None and r.dst.op == "attr" and len(r.dst.args) > 2})
    c.ob("request-under-lock", con, bool(vers) and all(r.locks for r in a0.events("attr", name=F) if is_self(r.t["base"])), m.where, "the flush request is taken without the lock")
    for uid in vers:
        mine = lambda t, uid=uid: t.op == "attr" and t.args[0].op == "self" and t.args[1] == F and len(t.args) > 2 and t.args[2] == uid
        a = analysis(c, p, m, volatile=v, oracle=oracle(o_isnone(mine, False), o_truth(mine, True)))
        reads = [r for r in a.events("attr", name=F) if r.dst is not None and mine(r.dst)]
        renew = [b for b in a.reach for i in b.instrs if i.uid == uid]
        sets = [r for r in a.calls(name="set") if r.t.get("recv") is not None and any(mine(x) for l in a.leaves(r.t["recv"]) for y in subterms(l) for x in (a.leaves(y) if y.op == "phi" else [y]))]
        ev = list(sets)
        bases = {y for r in sets for l in a.leaves(r.t["recv"]) for y in subterms(l)} | {y for r in sets for y in subterms(r.t["recv"])}
        for b in a.events("branch"):
            t = b.t["cond"]
            while t.op == "not":
                t = t.args[0]
            y = t.args[0] if t.op == "isnone" else t
            if y in bases and y.op in ("phi", "attr") and any(mine(x) for x in a.leaves(y)) and any(a.dominated(s.instr, [b.instr]) for s in sets):
                if any(e.dst is s.instr.block or reaches_directly(a, e, s) for e in b.instr.block.succs for s in sets):
                    ev.append(b)
        # the variable that holds the request is not None on the paths followed
        none = set()
        for b in a.events("branch"):
            t, pol = b.t["cond"], True
            while t.op == "not":
                t, pol = t.args[0], not pol
            y, isn = (t.args[0], True) if t.op == "isnone" else (t, False)
            if y.op == "phi" and any(mine(x) for x in a.leaves(y)):
                none |= {e for e in b.instr.block.succs if e.label in ("T", "F") and ((e.label == "T") == pol) == isn}
        emp = set(empties(a, p))
        rets = a.exit_blocks(exc=False)
        noexc = lambda e: e not in none and (not (isinstance(e.label, tuple) and e.label[0] == "exc") or e.src.instrs and e.src.instrs[-1].name == "export")
        held = set()
        todo = [r.instr.block for r in reads]
        while todo:
            b = todo.pop()
            if b not in held:
                held.add(b)
                todo += [e.dst for e in b.succs if a.edge_out.get(e) and noexc(e)]
        ex = [r for r in p.exports(a) if r.instr.block in held]
        for r in reads:
            cc = "%s request taken at #%d" % (con, vers.index(uid))
            q = a.path_avoiding(r.instr, [x.instr for x in ev], rets + renew, edges=noexc)
            c.ob("flush-answered", cc, bool(sets) and q is None, r.where, "a flush request is taken but its caller is not released: %s" % witness(a, q))
            q = a.path_avoiding(r.instr, [x.instr for x in ex], [x.instr.block for x in sets], edges=lambda e: e not in emp and noexc(e)) if sets else None
            c.ob("flush-served-first", cc, q is None, r.where, "a flush is answered before anything was exported: %s" % witness(a, q))
        # all items queued at the time of the request are exported
        st = [r for r in a0.events("store_attr") if any(is_field(F)(x) for x in a0.leaves(r.t["base"])) and is_len_of_queue(a0, r.t["val"], p)]
        num = {r.instr.name for r in st}
        lens = {r.t["val"] for r in a.events("store_attr") if r.instr.name in num and any(is_field(F)(x) for x in a.leaves(r.t["base"]))}
        enough = set()
        for b in a.events("branch"):
            t, pol = b.t["cond"], True
            while t.op == "not":
                t, pol = t.args[0], not pol
            val = None
            if t.op == "lt" and isconst(t.args[0], 0) and counts_down(a, t.args[1], num, lens):
                val = False
            elif t.op == "lt" and isconst(t.args[1], 1) and counts_down(a, t.args[0], num, lens):
                val = True
            if val is not None:
                enough |= {e for e in b.instr.block.succs if e.label in ("T", "F") and ((e.label == "T") == pol) == val}
        for r in ex:
            q = path_from(a, norm_edges(r), [], [x.instr.block for x in sets], lambda e: e not in emp and e not in enough and noexc(e))
            c.ob("flush-complete", con, q is None, r.where, "a flush is answered with items left that were queued before it: %s" % witness(a, q))
        # the worker does not go to sleep with a request in its hands
        waits = [r for r in a.calls(name=("wait", "wait_for")) if r.locks]
        for r in reads:
            q = a.path_avoiding(r.instr, [x.instr for x in ev], [w.instr.block for w in waits], edges=noexc) if waits else None
            c.ob("no-sleep-with-request", con, q is None, r.where, "the worker waits while holding an unanswered request")


def reaches_directly(a, e, s):
    b = e.dst
    for _ in range(6):
        if b is s.instr.block:
            return True
        nx = [x.dst for x in b.succs if a.edge_out.get(x) and not isinstance(x.label, tuple)]
        if len(nx) != 1:
            return False
        b = nx[0]
    return False


def is_len_of_queue(a, t, p):
    return all(glob_call(l, "builtins.len") and any(is_field(p.queue)(x) for x in a.leaves(call_args(l)[0])) for l in a.leaves(t))


def counts_down(a, t, num, lens):
    src = list(a.sources(t))
    if not any(x in lens or x.op == "attr" and x.args[1] in num for x in src):
        return False
    # what is subtracted is a count of exported items, nothing is added
    for x in src:
        if x.op == "bin" and x.args[0] not in ("Sub", "Add", "Mult", "Div"):
            return False
    ls = linear(t) if t.op != "phi" else {}
    for k_, v_ in ls.items():
        if k_ is None and v_ != 0:
            return False
    return True


def flush(c, p, done, F):
    m = p.methods["force_flush"]
    con = p.fqn + ".force_flush"
    v = {F: "lock"}
    v.update({d: "always" for d in done})
    d = is_field(done)
    a = analysis(c, p, m, volatile=v)
    st = [r for r in self_stores(a) if r.instr.name == F]
    waits = [r for r in a.calls(name="wait") if r.t.get("recv") is not None and r.t["recv"].op == "attr"]
    c.ob("flush-waits", con, bool(waits), m.where, "the caller does not wait for its request")
    dr = [r for r in a.events("attr") if r.instr.name in done and is_self(r.t["base"]) and r.locks]
    for r in st:
        c.ob("request-under-lock", con, bool(r.locks), r.where, "the flush request is left without the lock")
        c.ob("request-only-while-running", con, bool(dr) and a.dominated(r.instr, [x.instr for x in dr]), r.where, "the stop flag is not tested with the lock held: the worker may already have taken its last request")
    on = analysis(c, p, m, volatile=v, oracle=oracle(o_truth(d, False)))
    nots = [r for r in on.calls(name=("notify", "notify_all")) if r.t.get("recv") is not None and any(is_field(p.cond)(l) for l in on.leaves(r.t["recv"]))]
    for r in on.calls(name="wait"):
        c.ob("flush-wakes-worker", con, bool(nots) and on.dominated(r.instr, [x.instr for x in nots]), r.where, "the worker is not woken")
    for r in waits:
        c.ob("flush-waits", con, not r.locks, r.where, "the caller waits with the lock held")
        ls = [l for y in a.leaves(r.t["recv"]) for l in a.leaves(y.args[0] if y.op == "attr" else y)]
        c.ob("waits-for-own-request", con, bool(ls) and all(l.op == "obj" or is_field(F)(l) for l in ls if not isconst(l, None)), r.where, "the caller waits for %s" % r.t["recv"])
        tv = r.args[0] if r.args else r.kw.get("timeout")
        c.ob("flush-limited", con, tv is not None and a.derives(tv, is_param(m.params()[0][1])), r.where, "the wait is not limited by the timeout given")
    w = [r.dst for r in on.calls(name="wait")]
    for r in on.rets():
        ls = on.leaves(r.t["val"])
        c.ob("flush-result", con, bool(ls) and all(l in w or decided_by(on, r, l, w) for l in ls if not (isconst(l, True) and none_request(on, r, F))), r.where, "the result is %s, not whether the request was answered" % r.t["val"])
    off = analysis(c, p, m, volatile=v, oracle=oracle(o_truth(d, True), o_isnone(d, False)))
    late = [r for r in off.calls(name="wait")]
    c.ob("flush-after-shutdown", con, not late, late[0].where if late else m.where, "a flush waits although the processor is shut down")
    busy = analysis(c, p, m, volatile=v, oracle=oracle(o_truth(d, False), o_isnone(is_field(F), False), o_truth(is_field(F), True)))
    lost = [r for r in self_stores(busy) if r.instr.name == F]
    c.ob("request-not-overwritten", con, not lost, lost[0].where if lost else m.where, "a request another caller waits for is replaced")


def decided_by(a, r, l, w):
    if l.op != "const":
        return False
    for f, val in r.facts.items():
        if f in w and val == l.args[0]:
            return True
    return False


def none_request(a, r, F):
    return any(f.op == "isnone" and val for f, val in r.facts.items())
