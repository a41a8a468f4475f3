"""T02: span scopes."""
from .lib import *
from .t07 import SC, final_values

NOTE = "The scope generators and Span.__exit__ are analysed under each assumption on their options and on the span (recording or not); the body is an exit point that may raise any exception, and every path from it is judged."
USE = "opentelemetry.trace.use_span"
DENY = ("start_span", "is_recording", "record_exception", "set_status", "end")
SPANKEY = "opentelemetry.trace.propagation._SPAN_KEY"


def no_exc(e):
    """Do not follow exceptions raised by other calls."""
    if not isinstance(e.label, tuple) or e.label[0] != "exc":
        return True
    return not e.src.instrs or e.src.instrs[-1].kind in ("raise", "yield")


def body_edges(a, y, kind):
    for e in y.instr.block.succs:
        if not a.edge_out.get(e):
            continue
        if kind == "ret":
            if not isinstance(e.label, tuple) or e.label[0] != "exc":
                yield e
        elif isinstance(e.label, tuple) and e.label[0] == "exc" and e.label[1] == kind:
            yield e


def kindly(kind, follow):
    """A pending exception of one kind leaves a finally block as that kind."""
    def f(e):
        if not follow(e):
            return False
        if kind in (ANY, ANYB) and isinstance(e.label, tuple) and e.label[0] == "exc" and not e.src.instrs:
            return (e.label[1] == ANYB) == (kind == ANYB)
        return True
    return f


def after(a, y, kind, ev, targets, follow=no_exc):
    """Path from leaving the body that way to a target avoiding the events."""
    ev = [e.instr for e in ev]
    for e in body_edges(a, y, kind):
        if any(x.block is e.dst for x in ev):
            continue
        p = a.path_avoiding(e.dst, ev, targets, skip_first=False, edges=kindly(kind, follow))
        if p:
            return p
    return None


def reach_after(a, y, kind, ev, follow=no_exc):
    seen, todo = set(), [e.dst for e in body_edges(a, y, kind)]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo.extend(e.dst for e in b.succs if a.edge_out.get(e) and kindly(kind, follow)(e))
    return [r for r in ev if r.instr.block in seen]


def scope(c, f, cls, con, spanpred):
    """spanpred(a) -> predicate on terms: the span of the scope."""
    P = {"record": "record_exception", "status": "set_status_on_exception", "end": "end_on_exit"}
    names = f.params()[0] + f.params()[2]
    for v in P.values():
        if v not in names:
            c.ob("option-present", "%s %s" % (con, v), False, f.where, "option %s is gone" % v)
            return

    def an(**kw):
        rules = []
        for n, v in kw.items():
            if n in P:
                rules.append(o_truth(is_param(P[n]), v))
            elif n == "recording":
                rules.append(o_truth(is_call(name="is_recording"), v))
        rules.append(o_isinst(lambda t: True, True, lambda k: k.op == "glob" and k.args[0].endswith("trace.span.Span")))
        return c.an(f, cls, oracle=oracle(*rules), policy=Policy(mods=(f.mod.name, "opentelemetry.trace"), allow=(USE,), deny=DENY))

    a = an()
    sp = spanpred(a)
    isspan = lambda a, t: t is not None and bool(a.leaves(t)) and all(spanpred(a)(l) for l in a.leaves(t))
    ys = list(a.events("yield"))
    c.ob("one-body", con, len(ys) == 1, f.where, "the scope does not run its body exactly once")
    if len(ys) != 1:
        return
    y = ys[0]
    c.ob("yields-span", con, isspan(a, y.t["val"]), y.where, "the scope hands out something other than its span")
    at = [r for r in a.calls(fqn=ATTACH)]
    good = []
    for r in at:
        v = arg(r, 0, "context")
        for l in a.leaves(v):
            if is_call(fqn=SET_VALUE)(l) and len(call_args(l)) >= 2 and call_args(l)[0].op == "glob" and call_args(l)[0].args[0] == SPANKEY and isspan(a, call_args(l)[1]):
                good.append(r)
            if is_call(name="set_span_in_context")(l) and call_args(l) and isspan(a, call_args(l)[0]):
                good.append(r)
            if l.op == "const" and False:
                pass
    c.ob("span-made-current", con, bool(good) and a.dominated(y.instr, [r.instr for r in good]), y.where, "the body runs without the span being current")
    tok = {r.dst for r in good}
    det = [r for r in a.calls(fqn=DETACH) if arg(r, 0, "token") in tok]
    for kind in ("ret", ANY, ANYB):
        p = after(a, y, kind, det, a.exit_blocks(), follow=lambda e: True)
        c.ob("context-restored", "%s body %s" % (con, kind), p is None, y.where, "the previous context is not restored on %s" % witness(a, p))
    # ending
    e1 = an(end=True)
    y1 = next(iter(e1.events("yield")))
    ends = [r for r in e1.calls(name="end") if isspan(e1, r.t.get("recv"))]
    for kind in ("ret", ANY, ANYB):
        p = after(e1, y1, kind, ends, e1.exit_blocks(), follow=lambda e: True)
        c.ob("ended", "%s body %s" % (con, kind), p is None, y1.where, "the span is not ended on %s" % witness(e1, p))
    for r in ends:
        c.ob("ended-once", con, not any(e1.can_reach(r.instr, x.instr) for x in ends), r.where, "the span may be ended twice")
        late = [x for x in list(e1.calls(name=("record_exception", "set_status"))) if e1.can_reach(r.instr, x.instr)]
        c.ob("ended-last", con, not late, r.where, "the span is ended before its exception is recorded")
        early = e1.can_reach(r.instr, y1.instr)
        c.ob("ended-after-body", con, not early, r.where, "the span is ended before the body ran")
    e0 = an(end=False)
    bad = [r for r in e0.calls(name="end") if isspan(e0, r.t.get("recv"))]
    c.ob("not-ended", con, not bad, bad[0].where if bad else f.where, "the span is ended although end_on_exit is off")
    # recording and status
    for opt, meth in (("record", "record_exception"), ("status", "set_status")):
        on = an(**{opt: True, "recording": True})
        yy = next(iter(on.events("yield")))
        ev = [r for r in on.calls(name=meth) if isspan(on, r.t.get("recv"))]
        exitE = [b for k_, b in on.b.exits.items() if k_ == ("exc", "E") or k_ == "ret"]
        p = after(on, yy, ANY, ev, exitE)
        c.ob(meth + "-when-asked", con, p is None, yy.where, "an exception of the body passes without %s" % meth)
        for r in ev:
            if meth == "record_exception":
                v = arg(r, 0, "exception")
                c.ob("this-exception", con, v is not None and all(l.op == "exc" for l in on.leaves(v)), r.where, "the exception recorded is not the one raised by the body")
            else:
                v = arg(r, 0, "status")
                c.ob("error-status", con, v is not None and on.derives(v, lambda t: t.op == "glob" and t.args[0] == SC + ".ERROR"), r.where, "the status set is not an error")
            c.ob(meth + "-only-on-exception", con, not reach_after(on, yy, "ret", [r]), r.where, "%s also runs when the body succeeded" % meth)
        for other in (True, False):
            o2 = "status" if opt == "record" else "record"
            on2 = an(**{opt: True, o2: other, "recording": True})
            y2 = next(iter(on2.events("yield")))
            ev2 = [r for r in on2.calls(name=meth) if isspan(on2, r.t.get("recv"))]
            p = after(on2, y2, ANY, ev2, [b for k_, b in on2.b.exits.items() if k_ == ("exc", "E") or k_ == "ret"])
            c.ob(meth + "-independent", "%s other=%s" % (con, other), p is None, y2.where, "%s depends on the other option" % meth)
        off = an(**{opt: False})
        bad = [r for r in off.calls(name=meth)]
        c.ob(meth + "-not-when-off", con, not bad, bad[0].where if bad else f.where, "%s is called although the option is off" % meth)
        nr = an(recording=False)
        bad = [r for r in nr.calls(name=meth)]
        c.ob(meth + "-recording-only", con, not bad, bad[0].where if bad else f.where, "%s is called on a span that is not recording" % meth)
    # the exception reaches the caller
    for kind in (ANY, ANYB):
        rb = a.b.exits.get("ret")
        p = after(a, y, kind, [], [rb] if rb is not None else [])
        # the path must not be one of the normal continuation merged by finally
        c.ob("exception-propagates", "%s body %s" % (con, kind), not swallowed(a, y, kind), y.where, "an exception of the body may be swallowed")
    for r in a.events("raise"):
        if r.instr.name == "reraise":
            continue
        v = r.t.get("val")
        c.ob("exception-unchanged", con, v is not None and all(l.op == "exc" for l in a.leaves(v)), r.where, "another exception replaces the one raised by the body")


def swallowed(a, y, kind):
    """A normal return is reachable from the exceptional exit of the body.  The
    lowering copies finally blocks per continuation kind, so plain reachability
    over non-call-exception edges decides it."""
    rb = a.b.exits.get("ret")
    if rb is None or rb not in a.reach:
        return False
    return after(a, y, kind, [], [rb]) is not None


def run(c):
    prog = c.prog
    f = prog.func(USE)
    sp = f.params()[0][0]
    scope(c, f, None, USE, lambda a: is_param(sp))
    # SDK tracer
    k = prog.cls("opentelemetry.sdk.trace.Tracer")
    m = c.method(k, "start_as_current_span")
    con = k.fqn + ".start_as_current_span"
    scope(c, m, k, con, lambda a: is_call(name="start_span"))
    a = c.an(m, k, policy=Policy(mods=(m.mod.name, "opentelemetry.trace"), allow=(USE,), deny=DENY))
    ss = [r for r in a.calls(name="start_span")]
    c.ob("starts-one-span", con, len(ss) == 1 and always(a, ss, exc=False) is None, m.where, "does not start exactly one span")
    g = prog.find_method(k, "start_span")
    for r in ss:
        for i, p in enumerate([x for x in g.params()[0] if x != "self"]):
            if p in m.params()[0]:
                v = arg(r, i, p)
                c.ob("start-argument", "%s(%s)" % (con, p), v is not None and all(is_param(p)(l) for l in a.leaves(v)), r.where, "the caller's %s does not reach start_span" % p)
    exit_(c)
    enter(c)
    c.floor("context-restored", 6)
    c.floor("ended", 6)


def exit_(c):
    prog = c.prog
    k = prog.cls(SPAN)
    m = c.method(k, "__exit__")
    ps = m.params()[0]
    con = SPAN + ".__exit__"
    ia = c.am(k, "__init__")
    gate = {}
    for r in ia.events("store_attr"):
        for p in ("record_exception", "set_status_on_exception"):
            if all(is_param(p)(l) for l in ia.leaves(r.t["val"])) and is_self(r.t["base"]):
                gate[p] = r.instr.name
    ev_ = is_param(ps[2])
    et_ = is_param(ps[1])
    raised = [o_isnone(ev_, False), o_isnone(et_, False)]
    nopol = default_policy(m, deny=("is_recording", "record_exception", "set_status", "end", "add_event"))
    rec = is_call(name="is_recording")
    a = c.an(m, k, policy=nopol)
    ends = [r for r in a.calls(name="end")]
    p = always(a, ends)
    c.ob("exit-ends", con, bool(ends) and p is None, m.where, "leaving the span does not end it on %s" % witness(a, p))
    for r in ends:
        late = [x for x in a.calls(name=("record_exception", "set_status")) if a.can_reach(r.instr, x.instr)]
        c.ob("exit-ends-last", con, not late, r.where, "the span is ended before its exception is recorded")
        c.ob("exit-ends-once", con, not any(a.can_reach(r.instr, x.instr) for x in ends), r.where, "the span may be ended twice")
    for r in a.rets():
        ok = all(l.op == "const" and not l.args[0] for l in a.leaves(r.t["val"])) if r.t["val"] is not None else True
        cal = [callee_of(l) for l in a.leaves(r.t["val"])] if r.t["val"] is not None else []
        c.ob("exit-does-not-swallow", con, ok, r.where, "the exception of the body may be swallowed")
    for r in a.events("raise"):
        c.ob("exit-raises-nothing", con, r.instr.name == "reraise", r.where, "another exception replaces the one raised by the body")
    for p_, meth in (("record_exception", "record_exception"), ("set_status_on_exception", "set_status")):
        g = gate.get(p_)
        c.ob("option-kept", "%s %s" % (SPAN, p_), g is not None, ia.fi.where, "the option %s is not kept" % p_)
        if g is None:
            continue
        on = c.an(m, k, policy=nopol, oracle=oracle(*raised, o_truth(self_attr(g), True), o_truth(rec, True)))
        ev = [r for r in on.calls(name=meth)]
        q = missing(on, ev)
        c.ob("exit-" + meth, con, bool(ev) and q is None, m.where, "an exception leaves the span without %s" % meth)
        for r in ev:
            if meth == "record_exception":
                c.ob("exit-this-exception", con, all(ev_(l) for l in on.leaves(arg(r, 0, "exception"))), r.where, "the exception recorded is not the one raised")
            else:
                c.ob("exit-error-status", con, on.derives(arg(r, 0, "status"), lambda t: t.op == "glob" and t.args[0] == SC + ".ERROR"), r.where, "the status set is not an error")
        for what, orc in (("option off", oracle(*raised, o_truth(self_attr(g), False))), ("not recording", oracle(*raised, o_truth(rec, False))), ("no exception", oracle(o_isnone(ev_, True), o_isnone(et_, True)))):
            off = c.an(m, k, policy=nopol, oracle=orc)
            bad = [r for r in off.calls(name=meth)]
            c.ob("exit-%s-not" % meth, "%s %s" % (con, what), not bad, bad[0].where if bad else m.where, "%s is called (%s)" % (meth, what))
    # options travel from start_span to the span
    tk = prog.cls("opentelemetry.sdk.trace.Tracer")
    ta = c.am(tk, "start_span")
    n = 0
    for r in ta.recs:
        if r.dst is not None and r.dst.op == "obj" and r.instr.kind in ("call", "new") and prog.classes.get(r.dst.args[1]) is not None and k in prog.mro(prog.classes[r.dst.args[1]]):
            n += 1
            from .c03 import obj_field
            for p_ in ("record_exception", "set_status_on_exception"):
                v = obj_field(prog, r.dst, p_)
                c.ob("option-forwarded", p_, v is not None and all(is_param(p_)(l) for l in ta.leaves(v)), r.where, "the option %s does not reach the span" % p_)
    c.ob("option-forwarded", "span construction", n > 0, ta.fi.where, "start_span constructs no span")


def missing(a, ev):
    """Normal path from entry avoiding ev, ignoring exceptions of calls."""
    if any(e.instr.block is a.b.entry for e in ev):
        return None
    return a.path_avoiding(a.b.entry, [e.instr for e in ev], a.exit_blocks(exc=False), skip_first=False, edges=no_exc)


def enter(c):
    prog = c.prog
    base = prog.cls("opentelemetry.trace.span.Span")
    for k in [base] + [x for x in prog.subclasses(base) if x is not base]:
        m = prog.find_method(k, "__enter__")
        if m is None or m.cls is None or not m.cls.fqn.startswith("opentelemetry.trace") and not m.cls.fqn.startswith("opentelemetry.sdk"):
            continue
        a = c.an(m, k)
        c.ob("enter-returns-span", k.fqn, bool(a.rets()) and all(is_self(l) for r in a.rets() for l in a.leaves(r.t["val"])), m.where, "entering the span does not hand out the span")
        x = prog.find_method(k, "__exit__")
        if x is None or x.cls is None or not x.cls.fqn.startswith("opentelemetry.trace"):
            continue
        a = c.an(x, k, policy=Policy(deny=("end",)))
        ev = [r for r in a.calls(name="end") if is_self(r.t["recv"])]
        c.ob("exit-ends-span", k.fqn, bool(ev) and always(a, ev, exc=False) is None, x.where, "leaving the span does not end it")
