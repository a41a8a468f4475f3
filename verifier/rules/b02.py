"""B02: bounded queue and batches, non-blocking recording."""
from .bx import *

NOTE = "The queue's construction must carry the queue size argument; each removal from the queue that feeds an export must be bounded by the batch size (a counter compared with it, or a loop over it); the recording path contains no wait, join, sleep, export or flush, and nothing blocking happens while the lock it takes is held."
BLOCKING = {"wait", "wait_for", "join", "sleep", "export", "force_flush", "shutdown", "result", "communicate", "acquire"}


def run(c):
    ps = batch(c)
    for p in ps:
        queue_bound(c, p)
        batch_bound(c, p)
        recording(c, p)
    c.ob("batching-processors", "opentelemetry.sdk", len(ps) >= 2, "", "only %d batching processors found" % len(ps))
    c.floor("queue-bound", 2)
    c.floor("batch-bound", 2)
    c.floor("never-waits", 2)


def size_ok(a, t, name, others):
    ls = a.leaves(t)
    return bool(ls) and any(is_param(name)(x) for l in ls for x in [l]) and not any(any(is_param(o)(x) for x in subterms(l)) for o in others for l in ls) and all(is_param(name)(l) or default_of(l, name) for l in ls)


def default_of(l, name):
    return not any(x.op == "param" for x in subterms(l)) and l.op != "const" or l.op == "const" and isinstance(l.args[0], int)


def queue_bound(c, p):
    for n, m in sorted(p.methods.items()):
        a = analysis(c, p, m)
        for r in self_stores(a):
            if r.instr.name != p.queue or r.instr.frame.fi is not m and n != "__init__":
                continue
            for l in a.leaves(r.t["val"]):
                con = "%s.%s" % (p.fqn, n)
                ml = None
                if glob_call(l, QMAKE):
                    args = call_args(l)
                    kw = dict(l.args[3]) if l.op == "call" else {}
                    ml = args[1] if len(args) > 1 else kw.get("maxlen")
                if ml is None:
                    c.ob("queue-bound", con, False, r.where, "the queue is not bounded: %s" % l)
                elif n == "__init__":
                    c.ob("queue-bound", con, size_ok(a, ml, "max_queue_size", ("max_export_batch_size",)), r.where, "the queue is bounded by %s, not by the queue size" % ml)
                else:
                    c.ob("queue-bound", con, all(x.op == "attr" and "max_queue_size" in x.args[1] or x.op == "attr" and x.args[1] == "maxlen" for x in a.leaves(ml)), r.where, "the queue is bounded by %s" % ml)
    # the size and batch limits kept are the arguments
    a = p.ini
    for r in self_stores(a):
        for nm, oth in (("max_queue_size", "max_export_batch_size"), ("max_export_batch_size", "max_queue_size")):
            if r.instr.name.lstrip("_") == nm:
                c.ob("limits-kept", "%s %s" % (p.fqn, nm), size_ok(a, r.t["val"], nm, (oth,)), r.where, "%s is not the argument but %s" % (nm, r.t["val"]))


def limit_field(c, p):
    """Self fields that hold the batch size."""
    return {r.instr.name for r in self_stores(p.ini) if any(is_param("max_export_batch_size")(l) for l in p.ini.leaves(r.t["val"]))}


def batch_bound(c, p):
    lim = is_field(limit_field(c, p))
    sites = 0
    for m in entries(c, p):
        a = analysis(c, p, m, volatile=vol(p))
        takes = on_queue(a, p, TAKES)
        ex = p.exports(a)
        if not ex:
            continue
        con = "%s.%s" % (p.fqn, m.name)
        if not takes:
            c.ob("batch-bound", con, False, ex[0].where, "the exporter is called with something other than a taken batch")
        for t in takes:
            sites += 1
            cnt, why = bounded(a, t, lim)
            c.ob("batch-bound", con, why is None, t.where, why or "")
            # what is taken is handed over
            put = [r for r in a.recs if r.instr.kind == "store_item" and any(l is t.dst for l in a.leaves(r.t["val"])) or r.instr.kind in ("call",) and r.instr.name == "append" and any(l is t.dst for x in r.args for l in a.leaves(x)) or r.instr.kind in ("comp_add", "content") and r.t.get("val") is not None and any(l is t.dst for l in a.leaves(r.t["val"]))]
            c.ob("taken-handed-over", con, bool(put), t.where, "an item taken from the queue is not kept for the export")
        for r in ex:
            v = r.args[0] if r.args else None
            for l in a.leaves(v) if v is not None else ():
                if l.op == "slice":
                    lo, up, stp = l.args[1], l.args[2], l.args[3]
                    cnts = [bounded(a, t, lim)[0] for t in takes]
                    c.ob("batch-exact", con, (isconst(lo, None) or lo.op == "const" and not lo.args[0]) and stp.op == "const" and any(x is not None and up is x for x in cnts), r.where, "the exporter receives %s, not exactly what was taken" % l)
                elif l.op == "new":
                    c.ob("batch-exact", con, bool(a.contents.get(l)), r.where, "the exporter receives an empty batch")
                else:
                    c.ob("batch-exact", con, glob_call(l, "builtins.list", "builtins.tuple"), r.where, "the exporter receives %s" % l)
        c.ob("exported-items", con, True)
    c.ob("batch-sites", p.fqn, sites > 0, p.fqn, "no item is ever taken from the queue")


def bounded(a, rec, lim):
    """(counter term, None) when at most `lim` items are taken per batch."""
    lps = sorted((lp for lp in inner_loops(a, rec)), key=lambda x: len(x[1]))
    for head, body, lp in lps[:1]:
        if lp is not None:
            it = lp.t["iter"]
            for l in a.leaves(it):
                if glob_call(l, "builtins.range"):
                    n = call_args(l)[-1] if len(call_args(l)) < 3 else call_args(l)[1]
                    for x in a.leaves(n):
                        if lim(x) or glob_call(x, "builtins.min") and any(lim(y) for y in call_args(x)):
                            return n, None
            return None, "the loop that takes items is not bounded by the batch size"
        facts = rec.facts
        for f, val in facts.items():
            g, v = f, val
            while g.op == "not":
                g, v = g.args[0], not v
            if g.op == "lt" and v and lim(g.args[1]) and counts(a, g.args[0], head, body):
                return g.args[0], None
            if g.op == "eq" and not v and any(lim(x) for x in g.args):
                x = [y for y in g.args if not lim(y)]
                if x and counts(a, x[0], head, body):
                    return x[0], None
        return None, "an item is taken without the number of taken items being compared with the batch size"
    return None, "items are taken outside a bounded loop"


def counts(a, t, head, body):
    """t counts the iterations of the loop from 0, or the collected items."""
    k = callee_of(t)
    if k is not None and k.op == "glob" and k.args[0] == "builtins.len":
        return all(l.op == "new" for l in a.leaves(call_args(t)[0]))
    if t.op != "phi" or t not in a.phis:
        return False
    ids = {b.id for b in body}
    seen0 = back = False
    for (src, *_), (term, facts) in ((k if isinstance(k, tuple) else (k,), v) for k, v in a.phis[t].items()):
        sb = src.src if hasattr(src, "src") else src
        inside = getattr(sb, "id", sb) in ids
        for l in ([term] if inside else a.leaves(term)):
            if not inside:
                if not (l.op == "const" and l.args[0] == 0):
                    return False
                seen0 = True
            else:
                back = True
                for y in expand(a, l, t):
                    if not lin_is(y, const=1, terms=[(1, lambda x: x is t)]):
                        return False
    return seen0 and back


def expand(a, t, stop, seen=None):
    seen = set() if seen is None else seen
    if t is stop or t.op != "phi" or t not in a.phis:
        return [t]
    if t in seen:
        return []
    seen.add(t)
    out = []
    for term, facts in a.phis[t].values():
        out += expand(a, term, stop, seen)
    return out


def inner_loops(a, rec):
    """Loops (for and while) whose body contains the record: (header block,
    body blocks, for-loop record or None), innermost first."""
    out = []
    b = rec.instr.block
    fl = {lp.instr.block: lp for lp in a.events("loop")}
    for h, body in natural_loops(a):
        if b in body:
            out.append((h, body, fl.get(h)))
    return out


def natural_loops(a):
    entry = a.b.entry
    # dominators on the reachable graph
    order, seen, todo = [], set(), [(entry, 0)]
    import sys
    succ = {}
    for b in a.reach:
        succ[b] = [e.dst for e in b.succs if a.edge_out.get(e)]
    pred = {b: [] for b in a.reach}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    from .bx import post
    po = post(entry, succ)
    num = {b: i for i, b in enumerate(po)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in reversed(po):
            if b is entry:
                continue
            new = None
            for q in pred.get(b, ()):
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        x, y = q, new
                        while x is not y:
                            while num[x] < num[y]:
                                x = idom[x]
                            while num[y] < num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    def dom(x, y):
        while True:
            if x is y:
                return True
            if idom.get(y) in (None, y):
                return False
            y = idom[y]
    heads = {}
    for b in po:
        for s in succ.get(b, ()):
            if s in num and dom(s, b):
                body = heads.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x in body:
                        continue
                    body.add(x)
                    stack.extend(pred.get(x, ()))
    return list(heads.items())


def recording(c, p):
    done, sa, _ = done_field(c, p)
    c.ob("shutdown-flag", p.fqn, bool(done), p.fqn, "shutdown does not raise the flag the recording path tests")
    c.ob("shutdown-flag", p.fqn, always(sa, [r for r in self_stores(sa) if r.instr.name in done], exc=False) is None, p.fqn, "shutdown may end without raising the flag")
    n = 0
    for m in entries(c, p):
        a = analysis(c, p, m)
        puts = on_queue(a, p, PUTS)
        if not puts or m.name in p.targets:
            continue
        con = "%s.%s" % (p.fqn, m.name)
        n += 1
        for r in a.recs:
            if r.instr.kind != "call" or r.instr.name not in BLOCKING:
                continue
            if r.instr.frame.fi is not None and r.instr.frame.fi.name == "do_once":
                continue
            c.ob("never-waits", con, False, r.where, "recording may wait in %s" % r.instr.name)
        c.ob("never-waits", con, True)
        d = is_field(done)
        b = analysis(c, p, m, oracle=oracle(o_truth(d, True), o_isnone(d, False)))
        late = [r for r in on_queue(b, p, PUTS) if r.instr.block in b.reach]
        c.ob("nothing-queued-after-shutdown", con, not late, late[0].where if late else m.where, "an item is queued although the processor is shut down")
        # every item is queued while running
        e = analysis(c, p, m, oracle=oracle(o_truth(d, False), o_truth(lambda t: t.op == "attr" and t.args[1] == "sampled", True)))
        ev = on_queue(e, p, PUTS)
        c.ob("queued", con, always(e, ev, exc=False) is None, m.where, "an item is not queued although the processor is running")
        ps = m.params()[0]
        for r in ev:
            c.ob("queued", con, r.instr.name in ("append", "appendleft") and all(is_param(ps[1])(l) for l in e.leaves(r.args[0])), r.where, "what is queued is %s" % (r.args,))
    c.ob("recording-path", p.fqn, n > 0, p.fqn, "nothing is ever queued")
    # the lock of the recording path is only held for bookkeeping
    for n_, m in sorted(p.methods.items()):
        a = analysis(c, p, m)
        for r in a.recs:
            if r.instr.kind == "call" and r.instr.name in BLOCKING and r.locks and r.instr.frame.fi is m:
                own = r.t.get("recv") is not None and any(is_field(p.cond)(l) for l in a.leaves(r.t["recv"])) and r.instr.name in ("wait", "wait_for")
                c.ob("lock-held-briefly", "%s.%s" % (p.fqn, n_), own, r.where, "%s is called with the lock held that recording takes" % r.instr.name)
    for m in entries(c, p):
        a = analysis(c, p, m)
        for r in p.exports(a):
            c.ob("lock-held-briefly", "%s.%s" % (p.fqn, m.name), not r.locks, r.where, "the exporter is called with the lock held that recording takes")
