"""B05: fan-out to the registered processors."""
from .bx import *
from .c02 import mutations

NOTE = "For each class that keeps registered processors: every event method visits exactly the member field in its order, no iteration skips a member or leaves the loop, the arguments are handed on, and concurrent variants wait for each result; flush cannot return True on a path where a member failed, was skipped or is not done. Registration stores a new sequence ending in the new member, read and stored in one lock region, and nothing else changes it."
KINDS = (("opentelemetry.sdk.trace.SpanProcessor", "add_span_processor", ("on_start", "on_end", "shutdown")), ("opentelemetry.sdk._logs._internal.LogRecordProcessor", "add_log_record_processor", ("emit", "shutdown")))
WAIT = "concurrent.futures.wait"


def run(c):
    n = 0
    for base, add, events in KINDS:
        for k in c.prog.subclasses(c.prog.cls(base)):
            m = c.prog.find_method(k, add)
            if m is None or not k.mod.name.startswith("opentelemetry.sdk"):
                continue
            n += 1
            F = registration(c, k, m)
            if F is None:
                continue
            for e in events:
                event(c, k, F, c.method(k, e))
            flush(c, k, F, c.method(k, "force_flush"))
    c.ob("fan-outs", "opentelemetry.sdk", n >= 4, "", "%d classes with registered processors found" % n)
    providers(c)
    c.floor("reaches", 10)
    c.floor("copy-on-write", 4)


def registration(c, k, m):
    con = "%s.%s" % (k.fqn, m.name)
    a = c.an(m, k)
    p = m.params()[0][1]
    st = [r for r in self_stores(a) if a.derives(r.t["val"], is_param(p))]
    if not c.ob("registered", con, len({r.instr.name for r in st}) == 1, m.where, "the processor is not stored"):
        # one registered in place
        return None
    F = st[0].instr.name
    c.ob("registered", con, always(a, st, exc=False) is None, m.where, "a path registers nothing")
    old = is_field(F)
    for r in st:
        ok = all(appended(a, l, old, is_param(p)) for l in a.leaves(r.t["val"]))
        c.ob("copy-on-write", con, ok, r.where, "what is stored is not a new sequence of the registered processors followed by the new one: %s" % r.t["val"])
        rd = [x for x in a.events("attr", name=F) if is_self(x.t["base"])]
        c.ob("registered-atomically", con, bool(r.locks) and bool(rd) and all(x.locks and set(x.locks) & set(r.locks) for x in rd), r.where, "the processors are read and stored without one lock held")
        lk = [x for x in a.events("acquire")]
        for x in lk:
            q = a.path_avoiding(x.instr, [y.instr for y in rd], [r.instr.block]) if r.instr.block is not x.instr.block else None
            c.ob("registered-atomically", con, q is None, r.where, "the processors are read before the lock is taken")
    ini = c.am(k, "__init__")
    s0 = [r for r in self_stores(ini) if r.instr.name == F]
    c.ob("starts-empty", k.fqn, bool(s0) and all(empty_seq(ini, l) for r in s0 for l in ini.leaves(r.t["val"])), m.where, "the processors do not start as an empty sequence")
    for kk in c.prog.mro(k):
        for n, f in sorted(kk.methods.items()):
            if n == "__init__" or c.prog.find_method(k, n) is not f:
                continue
            b = c.an(f, k)
            bad = [x for x, t in mutations(b) if any(mentions(l, old) and root(l).op == "self" for l in b.leaves(t)) and x.instr.kind != "store_attr"]
            bad += [x for x in self_stores(b) if x.instr.name == F and f is not m]
            c.ob("never-changed-in-place", "%s.%s" % (k.fqn, n), not bad, bad[0].where if bad else f.where, "the sequence other threads iterate over is changed")
    return F


def empty_seq(a, l):
    if isconst(l, None) or l.op == "const" and l.args[0] == ():
        return l.op == "const" and l.args[0] == ()
    if l.op in ("tup", "new", "obj"):
        return not a.contents.get(l) and not [x for x in l.args if isinstance(x, tuple) and x] and not (l.op == "tup" and l.args)
    return callee_of(l) is not None and glob_call(l, "builtins.tuple", "builtins.list") and not call_args(l)


def elems(a, t):
    """Elements of a display, or None."""
    if t.op == "tup":
        return [x for x in t.args if isinstance(x, Term)] + [y for x in t.args if isinstance(x, tuple) for y in x]
    if t.op == "const" and isinstance(t.args[0], tuple):
        return []
    put = [r for r in a.recs if r.instr.kind == "call" and r.instr.name in ("append", "extend", "insert") and r.t.get("recv") is t]
    for r in a.events("new"):
        if r.dst is t and "layout" in r.t and not put:
            return [a.T.mk("star", x) if k_ == "s" else x for k_, x in r.t["layout"]]
    if t.op == "call" and glob_call(t, "builtins.list") and len(call_args(t)) == 1 and put:
        return [a.T.mk("star", call_args(t)[0])] + [r.args[0] for r in put] if all(r.instr.name == "append" for r in put) else None
    if t.op in ("new", "obj"):
        return [v for k_, v, i in a.contents.get(t, ())]
    if callee_of(t) is not None and glob_call(t, "builtins.tuple", "builtins.list") and len(call_args(t)) == 1:
        return elems(a, call_args(t)[0])
    return None


def appended(a, t, old, new):
    grown = any(r.instr.kind == "call" and r.instr.name in ("append", "extend", "insert") and r.t.get("recv") is t for r in a.recs)
    if not grown and callee_of(t) is not None and glob_call(t, "builtins.tuple", "builtins.list") and len(call_args(t)) == 1:
        return all(appended(a, l, old, new) for l in a.leaves(call_args(t)[0]))
    if t.op == "bin" and t.args[0] == "Add":
        x, y = t.args[1], t.args[2]
        e = elems(a, y)
        return same(a, x, old) and e is not None and len(e) == 1 and new(e[0])
    e = elems(a, t)
    if e is None or len(e) != 2:
        return False
    first = e[0].args[0] if e[0].op in ("star", "elem") else e[0]
    return e[0].op in ("star", "elem") and same(a, first, old) and new(e[1])


def same(a, t, old):
    ls = a.leaves(t)
    return bool(ls) and all(old(l) or callee_of(l) is not None and glob_call(l, "builtins.tuple", "builtins.list") and call_args(l) and same(a, call_args(l)[0], old) for l in ls)


def deliveries(a, name, F):
    """Calls of the method on a member, direct or handed to an executor."""
    out = []
    mem = lambda t: any(l.op == "elem" and mentions(l, is_field(F)) or mentions(l, is_field(F)) for l in a.leaves(t))
    for r in a.recs:
        if r.instr.kind != "call":
            continue
        if r.instr.name == name and r.t.get("recv") is not None and mem(r.t["recv"]):
            out.append((r, r.args, r.kw, False))
        elif r.instr.name == name and r.t.get("callee") is not None and r.t["callee"].op == "attr" and mem(r.t["callee"].args[0]):
            out.append((r, r.args, r.kw, False))
        elif r.instr.name in ("submit",) and r.args:
            for l in a.leaves(r.args[0]):
                if l.op == "attr" and l.args[1] == name and mem(l.args[0]):
                    out.append((r, r.args[1:], r.kw, True))
                    break
    return out


def event(c, k, F, m):
    con = "%s.%s" % (k.fqn, m.name)
    a = c.an(m, k)
    ds = deliveries(a, m.name, F)
    every_member(c, "reaches", con, a, is_field(F), [d[0] for d in ds], m)
    own = [p for p in m.params()[0][1:]] + list(m.params()[2] or ())
    for r, args, kw, sub in ds:
        for p in own:
            ok = any(all_are(a, x, is_param(p)) for x in list(args) + list(kw.values()))
            if ok and p in kw:
                ok = all_are(a, kw[p], is_param(p))
            c.ob("arguments-handed-on", "%s %s" % (con, p), ok or sub and starred(r), r.where, "%s is not handed to the processor" % p)
        for i, p in enumerate(own):
            if i < len(args):
                c.ob("arguments-handed-on", "%s %s" % (con, p), all_are(a, args[i], is_param(p)) or starred(r), r.where, "%s is handed on as %s" % (p, args[i]))
    reads = [x for x in a.events("attr", name=F) if is_self(x.t["base"])]
    for r in reads:
        inl = any(r.instr.block in loop_body(a, lp) for lp in [x.instr for x in a.events("loop")])
        c.ob("one-snapshot", con, not inl, r.where, "the processors are read again while they are being visited")
    if any(d[3] for d in ds):
        awaited(c, a, con, m, ds)


def starred(r):
    return r.t.get("sa") is not None or r.t.get("sk") is not None


def awaited(c, a, con, m, ds):
    subs = {d[0].dst for d in ds}
    isr = lambda t: t in subs
    res = [r for r in a.calls(name=("result", "exception")) if r.t.get("recv") is not None and a.derives(r.t["recv"], isr)]
    w = [r for r in a.calls(fqn=WAIT) if r.args and a.derives(r.args[0], isr)]
    ok = False
    if w:
        ok = always(a, w, exc=False) is None
    if res and not ok:
        lps = [lp for lp in a.events("loop") if a.derives(lp.t["iter"], isr) and any(x.instr.block in loop_body(a, lp.instr) for x in res)]
        ok = bool(lps) and always(a, lps, exc=False) is None and not any(loop_skips(a, lp.instr, [x for x in res]) for lp in lps)
        for lp in lps:
            c.ob("awaited", con, not any(x.op in ("slice", "item") for l in a.leaves(lp.t["iter"]) for x in subterms(l)), lp.where, "only some processors are waited for: %s" % lp.t["iter"])
    c.ob("awaited", con, ok, m.where, "the notification returns before every processor has been notified")
    collected(c, a, con, m, ds)


def collected(c, a, con, m, ds):
    """Every future goes into the collection that is waited for."""
    subs = {d[0].dst for d in ds}
    put = [r for r in a.calls(name=("append", "add")) if r.args and any(l in subs for l in a.leaves(r.args[0]))]
    for lp in a.events("loop"):
        b = loop_body(a, lp.instr)
        if not any(d[0].instr.block in b for d in ds):
            continue
        if put:
            q = loop_skips(a, lp.instr, put)
            c.ob("awaited", con, q is None, lp.where, "a processor is not waited for: %s" % witness(a, q))


def flush(c, k, F, m):
    con = "%s.force_flush" % k.fqn
    a = c.an(m, k)
    ds = deliveries(a, "force_flush", F)
    lps = [lp for lp in a.events("loop") if a.derives(lp.t["iter"], is_field(F)) and any(d[0].instr.block in loop_body(a, lp.instr) for d in ds)]
    if not c.ob("flush-reaches", con, bool(ds) and bool(lps), m.where, "no loop over the processors flushes them"):
        return
    pt = m.params()[0][1]
    conc = any(d[3] for d in ds)
    for r, args, kw, sub in ds:
        t = args[0] if args else next(iter(kw.values()), None)
        c.ob("flush-timeout", con, t is not None and a.derives(t, is_param(pt)), r.where, "the processor is not given the time that is left")
    for lp in lps:
        c.ob("flush-order", con, conc or ordered(a, lp.t["iter"], is_field(F)), lp.where, "the processors are not flushed in their order")
    good = is_call(name="result" if conc else "force_flush")
    # success only when every member succeeded
    f = c.an(m, k, oracle=oracle(o_truth(good, False)))
    start = [e for r in f.recs if r.dst is not None and good(r.dst) for e in norm_edges(r)] if conc else [e for d in deliveries(f, "force_flush", F) for e in norm_edges(d[0])]
    q = path_from(f, start, [], *may_succeed(f))
    c.ob("flush-failure-reported", con, bool(start) and q is None, m.where, "True may be returned although a processor failed: %s" % witness(f, q))
    for lp in [x for x in f.events("loop") if f.derives(x.t["iter"], is_field(F))]:
        nxt = [e for e in lp.instr.block.succs if e.label == "next"]
        q = path_from(f, nxt, [d[0] for d in deliveries(f, "force_flush", F)], *may_succeed(f))
        c.ob("flush-none-skipped", con, q is None, lp.where, "True may be returned without flushing a processor: %s" % witness(f, q))
    if not conc:
        for r in [d[0] for d in ds]:
            used = [b for b in a.events("branch") if mentions(b.t["cond"], lambda t: t is r.dst)]
            used += [x for x in a.events("op") if x.dst is not None and x.dst.op == "bin" and x.dst.args[0] in ("BitAnd", "Mult") and mentions(x.dst, lambda t: t is r.dst)]
            used += [x for x in a.calls(name="append") if r.dst in x.args]
            q = path_from(a, norm_edges(r), used, [lp.instr.block for lp in lps])
            c.ob("flush-failure-reported", con, q is None, r.where, "the result of a processor is overwritten by that of the next one: %s" % witness(a, q))
    g = c.an(m, k, oracle=oracle(o_truth(good, True), o_isnone(good, False)))
    c.ob("flush-success", con, any(isconst(l, True) or good(l) for r in g.rets() for l in g.leaves(r.t["val"])) or any(glob_call(l, "builtins.all") for r in g.rets() for l in g.leaves(r.t["val"])), m.where, "success is never reported")
    if not conc:
        tm = lambda t: callee_of(t) is not None and callee_of(t).op == "glob" and callee_of(t).args[0].startswith("time.")
        brs = [b for b in a.events("branch") if mentions_deep(a, b.t["cond"], is_param(pt)) and mentions_deep(a, b.t["cond"], tm) and not mentions(b.t["cond"], good)]
        for d in ds:
            inl = [b for b in brs if any(b.instr.block in loop_body(a, lp.instr) for lp in lps)]
            c.ob("flush-deadline", con, bool(inl) and a.dominated(d[0].instr, [b.instr for b in inl]), d[0].where, "the time left is not tested before flushing the next processor")
            for b in inl:
                # the edge that does not flush does not succeed either
                for e in b.instr.block.succs:
                    if e.label in ("T", "F"):
                        q = path_from(a, [e], [d[0]], *may_succeed(a))
                        c.ob("flush-deadline", con, q is None, b.where, "True may be returned although the time ran out: %s" % witness(a, q))
    else:
        collected(c, a, con, m, ds)
        ws = a.calls(fqn=WAIT)
        c.ob("flush-awaited", con, bool(ws) or bool([r for r in a.calls(name="result")]), m.where, "the flushes are not waited for")
        for r in ws:
            tv = r.args[1] if len(r.args) > 1 else r.kw.get("timeout")
            c.ob("flush-deadline", con, tv is not None and a.derives(tv, is_param(pt)), r.where, "the wait is not limited by the time given")
            isw = lambda t: callee_of(t) is not None and glob_call(t, WAIT)
            nd = lambda t: (t.op == "item" and isw(t.args[0]) and t.args[1].op == "const" and t.args[1].args[0] == 1) or t.op == "attr" and isw(t.args[0]) and t.args[1] == "not_done"
            h = c.an(m, k, oracle=oracle(o_truth(nd, True), o_len(nd)))
            ws2 = h.calls(fqn=WAIT)
            q = path_from(h, [e for x in ws2 for e in norm_edges(x)], [], *may_succeed(h))
            c.ob("flush-deadline", con, q is None, r.where, "True may be returned although a processor has not finished: %s" % witness(h, q))
        # every finished one is asked for its result
        for lp in a.events("loop"):
            if any(x.instr.block in loop_body(a, lp.instr) for x in a.calls(name="result")):
                q = path_from(a, [e for e in lp.instr.block.succs if e.label == "next"], [x for x in a.calls(name="result")], *may_succeed(a))
                c.ob("flush-none-skipped", con, q is None, lp.where, "the result of a flush is ignored: %s" % witness(a, q))
        rl = [x for x in a.recs if x.instr.kind == "loop" and any(y.instr.block in loop_body(a, x.instr) for y in a.calls(name="result"))]
        q = a.path_avoiding(a.b.entry, [x.instr for x in rl] + [x.instr for x in a.calls(name="result")], may_succeed(a)[0], skip_first=False, edges=may_succeed(a)[1])
        c.ob("flush-none-skipped", con, bool(rl or a.calls(name="result")) and q is None, m.where, "True may be returned without looking at any result")


def o_len(pred):
    """Lengths of values that satisfy pred are positive."""
    def f(a, t, st):
        v = cond_means(t, pred)
        return v if v is not None and t.op in ("lt", "eq") else None
    return f


def mentions_deep(a, t, pred):
    return a.derives(t, pred) or mentions(t, pred)


def may_succeed(a):
    """(blocks of the returns that may report success, edge filter): on the
    paths that satisfy the filter the value returned is one that may be true."""
    out, no = [], set()
    for r in a.rets():
        if may_be_true(a, r.t["val"], r, no, set()):
            out.append(r.instr.block)
    return out, lambda e: (e.dst.id, e.src.id, str(e.label)) not in no


def may_be_true(a, t, r, no, seen):
    if t.op == "phi" and a.phis.get(t):
        if t in seen:
            return False
        seen.add(t)
        ok = False
        for (src, lab), (v, facts) in a.phis[t].items():
            if may_be_true(a, v, r, no, seen):
                ok = True
            elif v is not t and v not in seen or v.op != "phi":
                no.add((t.args[0], src, lab))
        return ok
    if isconst(t, False) or isconst(t, None):
        return False
    return t.op == "const" or a.decide(t, state_of(r)) is not False


def state_of(r):
    from .t01 import state_of as s
    return s(r)


def providers(c):
    for cls, add, get in (("opentelemetry.sdk.trace.TracerProvider", "add_span_processor", "get_tracer"), ("opentelemetry.sdk._logs._internal.LoggerProvider", "add_log_record_processor", "get_logger")):
        k = c.prog.cls(cls)
        m = c.method(k, add)
        a = c.an(m, k)
        p = m.params()[0][1]
        calls = [r for r in a.calls(name=add) if r.args and all_are(a, r.args[0], is_param(p)) or any(all_are(a, x, is_param(p)) for x in r.kw.values()) and r.instr.name == add]
        c.ob("provider-registers", "%s.%s" % (cls, add), bool(calls) and always(a, calls, exc=False) is None, m.where, "the processor is not registered")
        fields = {l.args[1] for r in calls if r.t.get("recv") is not None for l in a.leaves(r.t["recv"]) if l.op == "attr" and l.args[0].op == "self"}
        b = c.am(k, get)
        made = [r for r in b.recs if r.instr.kind in ("call", "enter") and r.instr.fqn in ("opentelemetry.sdk.trace.Tracer", "opentelemetry.sdk._logs._internal.Logger", "opentelemetry.sdk.trace.Tracer.__init__", "opentelemetry.sdk._logs._internal.Logger.__init__")]
        st = [r for r in b.events("store_attr") if any(is_field(fields)(l) for l in b.leaves(r.t["val"]))] if fields else []
        ok = bool(fields) and (bool(st) or any(any(is_field(fields)(l) for x in list(r.args) + list(r.kw.values()) for l in b.leaves(x)) for r in made))
        c.ob("provider-hands-over", "%s.%s" % (cls, get), ok, b.fi.where, "what is handed out does not notify the registered processors")
    # a started span is announced
    k = c.prog.cls(SPAN)
    m = c.method(k, "start")
    from .t01 import start_attr
    s = start_attr(c, k)
    a = c.an(m, k, oracle=oracle(o_isnone(self_attr(s), True)))
    on = [r for r in a.calls(name="on_start")]
    c.ob("start-announced", SPAN + ".start", bool(on) and always(a, on, exc=False) is None, m.where, "a span may start without its processors being notified")
    for r in on:
        c.ob("start-announced", SPAN + ".start", bool(r.args) and is_self(r.args[0]) and any(all_are(a, x, is_param("parent_context")) for x in list(r.args[1:]) + list(r.kw.values())), r.where, "the processors are not told about this span and its parent context")
    g = c.prog.cls("opentelemetry.sdk._logs._internal.Logger")
    m = c.method(g, "emit")
    a = c.an(m, g)
    em = [r for r in a.calls(name="emit") if r.t.get("recv") is not None]
    c.ob("record-announced", g.fqn + ".emit", bool(em) and always(a, em, exc=False) is None, m.where, "a record may be emitted without its processors being notified")
