"""E05: retries only for transient failures, truthful results."""
from .xp import *

NOTE = "For every exporter that sends (found by its calls): the results reachable from each send, per HTTP status class and per gRPC status code (conditional constant propagation of the code over the exceptional CFG), must be success only for accepted data, the next send for transient codes (through a sleep of the loop's own delay or the one the receiver asked for) and failure at once for permanent ones; every cycle through a send passes the test that ends the bounded delay sequence; the public method hands that result on and no path reports success without a send."
ACCEPT = (200, 202)
GOOD = (200, 201, 202, 204)
AGAIN = (408, 500, 501, 502, 503, 504, 599)
NEVER = (400, 401, 403, 404, 405, 409, 410, 413, 415, 422, 431)
TRANSIENT = ("CANCELLED", "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "ABORTED", "OUT_OF_RANGE", "UNAVAILABLE", "DATA_LOSS")
PERMANENT = ("UNKNOWN", "INVALID_ARGUMENT", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "FAILED_PRECONDITION", "UNIMPLEMENTED", "INTERNAL", "UNAUTHENTICATED")


def run(c):
    xs = exporters(c)
    c.ob("exporters", "opentelemetry.exporter", len(xs) >= 9, "", "%d sending exporters found" % len(xs))
    for x in xs:
        if x.grpc:
            grpc(c, x)
        else:
            http(c, x)
        bounded(c, x)
        forward(c, x)
    backoff(c)
    c.floor("accepted", 9)
    c.floor("permanent", 6)
    c.floor("bounded", 9)


def con_of(x):
    return "%s.%s" % (x.k.fqn, x.host.name)


def results(c, rule, con, al, want, what, where):
    got = {(result_of(v)) for r, v in al.returns()}
    bad = next((r for r, v in al.returns() if result_of(v) != want), None)
    c.ob(rule, con, got <= {want}, bad.where if bad is not None else where, "%s can return %s" % (what, ", ".join(sorted(got - {want}))))
    return got


def http(c, x):
    con = con_of(x)
    for code in GOOD + AGAIN + NEVER:
        sub, orc = with_code(code)
        a = c.an(x.host, x.k, subst=sub, oracle=orc)
        ss = sends(a)
        if not ss:
            c.ob("accepted", con, False, x.host.where, "nothing is sent")
            return
        for s in ss:
            al = Along(a, norm_edges(s), ss)
            what = "a response with status %d" % code
            if code in GOOD:
                if not x.retries and code not in ACCEPT:
                    continue
                got = results(c, "accepted", con, al, "SUCCESS", what, s.where)
                c.ob("accepted", con, not al.hit and got == {"SUCCESS"}, s.where, what + " is sent again or not reported as success")
            elif code in AGAIN and x.retries:
                results(c, "transient", con, al, "FAILURE", what, s.where)
                c.ob("transient", con, bool(al.hit), s.where, what + " is not retried")
                waits(c, x, a, s, ss, norm_edges(s), what)
            else:
                got = results(c, "permanent", con, al, "FAILURE", what, s.where)
                c.ob("permanent", con, not al.hit, s.where, what + " is retried")
                c.ob("permanent", con, bool(got) or bool(al.hit), s.where, what + " is not reported")
    a = c.an(x.host, x.k)
    ss = sends(a)
    for s in ss:
        results(c, "not-accepted", con, Along(a, exc_edges(s), ss), "FAILURE", "a request that fails", s.where)
    unsent(c, x, a, ss)


def unsent(c, x, a, ss):
    es = [e for e in a.b.entry.succs]
    if a.b.entry in {s.instr.block for s in ss}:
        return
    al = Along(a, es, ss)
    results(c, "unsent", con_of(x), al, "FAILURE", "an export that sent nothing", x.host.where)


def waits(c, x, a, s, ss, edges, what):
    con = con_of(x)
    zs = [r for r in a.recs if r.instr.kind == "call" and (r.instr.fqn == "time.sleep" or r.instr.name in ("sleep", "wait")) and r.args]
    al = Along(a, edges, ss)
    zs = [z for z in zs if z.instr.block in al.blocks]
    q = Along(a, edges, ss + zs)
    c.ob("waits", con, not ({b for b in q.hit} & {y.instr.block for y in ss}), s.where, what + " is retried without waiting")
    for z in zs:
        for v in al.values(z.args[0]):
            ok = v.op != "const" and (mentions(v, lambda t: t.op in ("elem", "phi")) or mentions(v, lambda t: t.op == "attr" and t.args[1] == "retry_delay"))
            c.ob("waits", con, ok, z.where, "the wait before the next attempt does not grow: %s" % v)


def grpc(c, x):
    con = con_of(x)
    a = c.an(x.host, x.k)
    ss = sends(a)
    for s in ss:
        al = Along(a, norm_edges(s), ss)
        if x.stream:
            # the answers have to be read
            al0 = al
            ls = [l for l in loops_over(a, lambda t: t is s.dst)]
            c.ob("accepted", con, bool(ls), s.where, "the answers of the receiver are not read")
            done = {e for l in ls for e in l.instr.block.succs if e.label == "done"}
            al = Along(a, norm_edges(s), ss, drop=lambda e: e in done)
            results(c, "accepted", con, al, "FAILURE", "an export whose answers were not read", s.where)
            al = Along(a, done, ss)
            got = results(c, "accepted", con, al, "SUCCESS", "an accepted export", s.where)
            for l in ls:
                results(c, "permanent", con, Along(a, exc_edges(l), ss), "FAILURE", "a failing answer", l.where)
            al = al0
        else:
            got = results(c, "accepted", con, al, "SUCCESS", "an accepted export", s.where)
        c.ob("accepted", con, not al.hit and got == {"SUCCESS"}, s.where, "an accepted export is sent again or not reported as success")
    b = c.an(x.host, x.k, oracle=o_status("INTERNAL"))
    unsent(c, x, b, sends(b))
    if not x.retries:
        for s in ss:
            al = Along(a, exc_edges(s), ss)
            results(c, "permanent", con, al, "FAILURE", "a failing call", s.where)
            c.ob("permanent", con, not al.hit, s.where, "a failing call is repeated")
        return
    for code in TRANSIENT + PERMANENT:
        a = c.an(x.host, x.k, oracle=o_status(code))
        ss = sends(a)
        for s in ss:
            es = exc_edges(s)
            al = Along(a, es, ss)
            what = "status %s" % code
            got = results(c, "transient" if code in TRANSIENT else "permanent", con, al, "FAILURE", what, s.where)
            if code in TRANSIENT:
                c.ob("transient", con, bool(al.hit), s.where, what + " is not retried")
                waits(c, x, a, s, ss, es, what)
            else:
                c.ob("permanent", con, not al.hit, s.where, what + " is retried")
                c.ob("permanent", con, bool(got), s.where, what + " is not reported as a failure")


# -- the retry loop ends ------------------------------------------------------
def bounded(c, x):
    con = con_of(x)
    a = c.an(x.host, x.k)
    ss = sends(a)
    cut = set()
    for l in a.events("loop"):
        why = finite(c, x, a, l)
        if why:
            cut.update(e for e in l.instr.block.succs if e.label == "next")
    for r in a.events("branch"):
        if counts(a, r.t["cond"]):
            cut.update(r.instr.block.succs)
    for s in ss:
        al = Along(a, s.instr.block.succs, ss, drop=lambda e: e in cut)
        c.ob("bounded", con, not al.hit, s.where, "the data can be sent again and again without passing a test that ends the attempts")


def counts(a, t, depth=0):
    """A comparison of a growing counter with a fixed bound."""
    if t.op == "not":
        return counts(a, t.args[0])
    if t.op not in ("lt", "eq") or len(t.args) != 2:
        return False
    for p, q in (t.args, t.args[::-1]):
        if q.op in ("const", "attr", "glob") and grows(a, p):
            return True
    return False


def grows(a, t):
    if t.op == "bin" and t.args[0] in ("Add", "Mult") and all(isinstance(y, Term) for y in t.args[1:]):
        return any(grows(a, y) for y in t.args[1:])
    if t.op != "phi":
        return False
    vs = [v for v, f in a.phis.get(t, {}).values() if v is not t]
    steps = [v for v in vs if mentions(v, lambda y: y is t)]
    return bool(steps) and all(step(v, t) for v in steps)


def step(v, phi):
    if v.op == "bin" and v.args[0] in ("Add", "Mult", "LShift", "Pow"):
        k = [y for y in v.args[1:] if y is not phi]
        return len(k) == 1 and k[0].op == "const" and isinstance(k[0].args[0], (int, float)) and k[0].args[0] > (1 if v.args[0] == "Mult" else 0)
    if glob_call(v, "builtins.min"):
        return any(step(y, phi) for y in call_args(v))
    return False


def finite(c, x, a, l):
    its = a.leaves(l.t["iter"])
    return bool(its) and all(finite_iter(c, x, a, l, t) for t in its)


def finite_iter(c, x, a, l, t):
    if t.op in ("tup", "new") or t.op == "const":
        return True
    if glob_call(t, "builtins.range", "itertools.islice", "itertools.takewhile"):
        return True
    if glob_call(t, "builtins.enumerate", "builtins.zip", "builtins.reversed", "builtins.list", "builtins.tuple") and call_args(t):
        return any(finite_iter(c, x, a, l, y) for y in call_args(t))
    k = callee_of(t)
    f = c.prog.funcs.get(k.args[0]) if k is not None and k.op == "glob" else None
    if f is None or not f.is_gen():
        return mentions(t, lambda y: y.op == "param")
    names = f.params()[0]
    kw = dict(t.args[3]) if t.op == "call" and len(t.args) > 3 else {}
    xs = call_args(t)
    cap = kw.get(names[0]) if names and names[0] in kw else (xs[0] if xs else None)
    if cap is None or isconst(cap, 0) or isconst(cap, None):
        return False
    if not capped(c, f):
        return False
    # the last value of the sequence must end the attempts
    el = lambda y: y.op in ("elem", "item") and mentions(y, lambda z: z is t)

    def orc(a_, y, st):
        el_ = lambda z: z.op in ("elem", "item") and mentions(z, lambda w: callee_of(w) is not None and callee_of(w).op == "glob" and callee_of(w).args[0] == k.args[0])
        same = lambda z: repr(z) == repr(cap)
        if y.op == "eq" and any(el_(z) for z in y.args) and any(same(z) for z in y.args):
            return True
        if y.op == "lt" and any(el_(z) for z in y.args) and any(same(z) for z in y.args):
            return False
        return None
    b = c.an(x.host, x.k, oracle=orc)
    ss = sends(b)
    for m in b.events("loop"):
        if m.where == l.where:
            al = Along(b, [e for e in m.instr.block.succs if e.label == "next"], ss)
            if al.hit:
                return False
    return True


def capped(c, f):
    p = f.params()[0][0]
    a = c.an(f, oracle=oracle(o_truth(is_param(p), True)))
    ys = a.events("yield")
    return bool(ys) and all(glob_call(l, "builtins.min") and any(is_param(p)(z) for z in call_args(l)) or is_param(p)(l) for r in ys for l in a.leaves(r.t["val"]))


def backoff(c):
    f = next((f for n, f in c.prog.funcs.items() if n.startswith("opentelemetry.exporter.otlp.proto.common") and f.is_gen() and f.params()[0][:1] == ["max_value"]), None)
    if f is None:
        return
    p = f.params()[0][0]
    a = c.an(f)
    ys = a.events("yield")
    c.ob("growing", f.fqn, bool(ys), f.where, "no delays")
    for r in ys:
        for l in alternatives(a, r.t["val"]):
            ok = is_param(p)(l) or mentions(l, lambda t: t.op == "bin" and t.args[0] == "Pow" and growing(a, t.args[2]) and t.args[1].op == "const" and t.args[1].args[0] > 1 or t.op == "bin" and t.args[0] in ("LShift",) and growing(a, t.args[2]) or grows(a, t))
            c.ob("growing", f.fqn, ok, r.where, "the delays do not grow: %s" % l)
    c.ob("growing", f.fqn, capped(c, f), f.where, "a delay can exceed the maximum")


def alternatives(a, t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op != "phi" or grows(a, t) or t not in a.phis:
        return {t}
    return {y for v, f in a.phis[t].values() for y in alternatives(a, v, seen)}


def growing(a, t):
    return grows(a, t) or t.op in ("elem", "item") and mentions(t, lambda y: glob_call(y, "itertools.count", "builtins.range"))


# -- the caller gets that result ----------------------------------------------
def forward(c, x):
    f = x.methods["export"]
    if f is x.host:
        return
    con = "%s.export" % x.k.fqn
    a = c.an(f, x.k, policy=Policy(mods=(x.k.mod.name,), deny=(x.host.fqn,)))
    hs = [r for r in a.recs if r.instr.kind == "call" and r.instr.a.get("fi") is x.host]
    if not c.ob("forwarded", con, bool(hs), f.where, "the export does not reach %s" % x.host.name):
        return
    loops = [l for l in a.events("loop") if any(in_loop(a, h, l) for h in hs)]
    done = {e for l in loops for e in l.instr.block.succs if e.label == "done"}
    hosts = {h.dst for h in hs}
    al = Along(a, a.b.entry.succs, hs, drop=lambda e: e in done) if a.b.entry not in {h.instr.block for h in hs} else None
    if al is not None:
        results(c, "forwarded", con, al, "FAILURE", "an export that sent nothing", f.where)
    for h in hs:
        for r, v in Along(a, norm_edges(h), ()).returns():
            ok = v in hosts or is_result(v) or any(mentions(v, lambda y: y is z) for z in hosts)
            c.ob("forwarded", con, ok, r.where, "the result of the export is replaced by %s" % v)

    # a failure in one call is not forgotten, whatever the later ones say
    for h in hs:
        bad = failing_edges(a, h)
        vs = Along(a, bad, ()).returns()
        for r, v in vs:
            c.ob("forwarded", con, v in hosts or result_of(v) == "FAILURE", r.where, "a failed part of the export can be reported as %s" % result_of(v))
        if not vs:
            # not tested here: the result itself must be what is returned
            for r, v in Along(a, norm_edges(h), ()).returns():
                c.ob("forwarded", con, v is h.dst and not any(in_loop(a, h, l) for l in loops) or v is not h.dst and not is_result(v) and mentions(v, lambda y: y is h.dst), r.where, "the result of the export is replaced by %s" % v)


def failing_edges(a, h):
    """Edges on which the result of the call is known to be a failure."""
    out = []
    for r in a.events("branch"):
        t, pol = r.t["cond"], True
        while t.op == "not":
            t, pol = t.args[0], not pol
        if t.op == "eq" and any(y is h.dst for y in t.args):
            o = next((y for y in t.args if is_result(y)), None)
            if o is None:
                continue
            val = (result_of(o) == "FAILURE") == pol
            out += [e for e in r.instr.block.succs if e.label == ("T" if val else "F")]
        elif t.op == "in" and is_result(t.args[0], ("FAILURE",)) and any(v is h.dst for k, v, i in a.contents.get(t.args[1], ())):
            out += [e for e in r.instr.block.succs if e.label == ("T" if pol else "F")]
    return out
