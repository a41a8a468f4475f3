"""E06: a closed exporter sends nothing."""
from .xp import *
from .c02 import mutations

NOTE = "For every exporter: the field(s) shutdown raises are its closed flag. Conditional constant propagation with the flag set shows that export reaches no send (or store), returns failure and warns, and that shutdown only warns; with the flag clear shutdown sets it and closes the session or channel. Every path to a send passes a test of the flag since entry, since any wait between attempts and since taking the export lock. Where exports run under a lock, shutdown closes only after trying to take it with the caller's timeout and releases it only when it got it."


def run(c):
    n = 0
    for x in exporters(c):
        n += 1
        network(c, x)
    c.ob("exporters", "opentelemetry.exporter", n >= 9, "", "%d sending exporters found" % n)
    m = 0
    for b in BASES:
        for k in c.prog.subclasses(c.prog.cls(b)):
            if k.mod.name.startswith("opentelemetry.sdk") and k.fqn not in BASES and "InMemory" in k.name:
                m += 1
                memory(c, k)
    c.ob("exporters", "opentelemetry.sdk", m >= 2, "", "%d in-memory exporters found" % m)
    c.floor("refused", 11)
    c.floor("repeated", 9)
    c.floor("tested", 9)


def flags_of(c, k, methods):
    a = c.an(methods["shutdown"], k)
    return {r.instr.name for r in self_stores(a) if isconst(r.t["val"], True)}


def flag(c, k, methods):
    """The closed flag, with the life of its value checked."""
    con = "%s.shutdown" % k.fqn
    f = methods["shutdown"]
    F = flags_of(c, k, methods)
    if not c.ob("closes", con, bool(F), f.where, "shutting down leaves no mark"):
        return None
    a = c.an(f, k, oracle=oracle(o_truth(is_field(F), False)))
    st = [r for r in self_stores(a) if r.instr.name in F and isconst(r.t["val"], True)]
    q = always(a, st, exc=False)
    c.ob("closes", con, q is None, f.where, "a path does not mark the exporter as closed: %s" % (q and a.path_str(q)))
    i = c.am(k, "__init__")
    s0 = [r for r in self_stores(i) if r.instr.name in F]
    c.ob("starts-open", k.fqn, always(i, s0, exc=False) is None and all(isconst(l, False) for r in s0 for l in i.leaves(r.t["val"])), i.fi.where, "the exporter does not start open")
    own = {f.fqn} | {r.instr.a["fi"].fqn for r in a.recs if r.instr.kind == "enter" and r.instr.a.get("fi") is not None}
    for n, m in sorted(methods.items()):
        if n == "__init__" or m.is_static:
            continue
        b = c.an(m, k)
        bad = [r for r in self_stores(b) if r.instr.name in F and not (m.fqn in own and isconst(r.t["val"], True)) and r.instr.frame.fi is m]
        c.ob("stays-closed", "%s.%s" % (k.fqn, n), not bad, bad[0].where if bad else m.where, "the closed mark is changed")
    return F


def warns(a):
    return [r for r in logger_calls(a) if r.instr.name in ("warning", "warn", "error", "log")]


def foreign(a):
    """Calls of something the exporter holds, other than locks."""
    out = []
    for r in a.recs:
        if r.instr.kind != "call" or r.instr.a.get("fi") is not None or r.t.get("recv") is None:
            continue
        if r in logger_calls(a):
            continue
        if any(root(l).op == "self" and l.op != "self" for l in a.leaves(r.t["recv"])):
            out.append(r)
    return out


def closed(c, k, F, m):
    return c.an(m, k, oracle=oracle(o_truth(is_field(F), True)))


def refused(c, k, F, m, warn):
    con = "%s.export" % k.fqn
    a = closed(c, k, F, m)
    bad = foreign(a)
    c.ob("refused", con, not bad, bad[0].where if bad else m.where, "a closed exporter still uses %s" % (bad and bad[0].instr.name))
    mu = [r for r, t in mutations(a) if any(root(l).op == "self" for l in a.leaves(t)) and not r.instr.kind == "store_attr"]
    c.ob("refused", con, not mu, mu[0].where if mu else m.where, "a closed exporter still stores data")
    # a part of the data at least is offered: loops run once or more
    ls = a.events("loop")
    done = {e for l in ls for e in l.instr.block.succs if e.label == "done"}
    vs = Along(a, a.b.entry.succs, (), drop=lambda e: e in done).returns()
    vs += Along(a, [e for l in ls for e in l.instr.block.succs if e.label == "next"], ()).returns()
    if not a.b.entry.succs or not ls:
        vs += [(r, l) for r in a.rets() for l in a.leaves(r.t["val"])]
    got = {result_of(v) for r, v in vs}
    c.ob("refused", con, got == {"FAILURE"}, m.where, "a closed exporter returns %s" % ", ".join(sorted(got)))
    if warn:
        q = Along(a, a.b.entry.succs, warns(a), drop=lambda e: e in done).returns()
        c.ob("refused", con, not q and bool(warns(a)), m.where, "an export is refused without a warning")


def network(c, x):
    k = x.k
    F = flag(c, k, x.methods)
    if F is None:
        return
    m, f = x.methods["export"], x.methods["shutdown"]
    refused(c, k, F, m, True)
    # a second shutdown
    con = "%s.shutdown" % k.fqn
    a = closed(c, k, F, f)
    bad = foreign(a) + [r for r in a.recs if r.instr.kind == "acquire"]
    c.ob("repeated", con, not bad, bad[0].where if bad else f.where, "a repeated shutdown does more than warn")
    c.ob("repeated", con, bool(warns(a)) and always(a, warns(a)) is None, f.where, "a repeated shutdown does not warn")
    # the first one
    a = c.an(f, k, oracle=oracle(o_truth(is_field(F), False)))
    cl = [r for r in foreign(a) if r.instr.name == "close"]
    if not x.stream:
        c.ob("closes", con, bool(cl) and always(a, cl, exc=False) is None, f.where, "the connection is not closed")
    # every send follows a test of the flag
    a = c.an(m, k, volatile={n: "always" for n in F})
    ss = sends(a)
    ok = flag_edge(a, F, False)
    sb = {s.instr.block for s in ss}
    al = Along(a, a.b.entry.succs, ss, drop=lambda e: e in ok)
    con = "%s.export" % k.fqn
    if a.b.entry in {e.src for e in ok}:
        al = Along(a, [e for e in a.b.entry.succs if e not in ok], ss, drop=lambda e: e in ok)
    c.ob("tested", con, not al.hit, m.where, "data is sent without testing whether the exporter is closed")
    for z in a.recs:
        if z.instr.kind == "call" and (z.instr.fqn == "time.sleep" or z.instr.name in ("sleep", "wait")):
            al = Along(a, norm_edges(z), ss, drop=lambda e: e in ok)
            c.ob("tested", con, not al.hit, z.where, "data is sent again after waiting without testing whether the exporter was closed meanwhile")
    locks = {r.t["lock"].args[1] for r in c.an(f, k).recs if r.instr.kind == "acquire" and r.t["lock"].op == "attr"}
    taken = [r for r in a.recs if r.instr.kind == "acquire" and r.t["lock"].op == "attr" and r.t["lock"].args[1] in locks]
    for r in taken:
        al = Along(a, r.instr.block.succs, ss, drop=lambda e: e in ok)
        hit = al.hit or r.instr.block in sb
        c.ob("tested", con, not hit, r.where, "shutdown may have closed the connection while this export waited for the lock, and it is used without another test")
    held = any(s.locks for s in ss)
    if held:
        c.ob("waits-for-export", k.fqn, bool(taken), f.where, "shutdown does not wait for a running export")
        ordered_close(c, k, F, f, cl)


def ordered_close(c, k, F, f, cl):
    con = "%s.shutdown" % k.fqn
    a = c.an(f, k, oracle=oracle(o_truth(is_field(F), False)))
    # stand-in of a subclass that fixes the timeout: judge the method itself
    acq = [r for r in a.recs if r.instr.kind == "acquire"]
    cl = [r for r in foreign(a) if r.instr.name == "close"]
    for r in cl:
        c.ob("waits-for-export", con, a.dominated(r.instr, [x.instr for x in acq]), r.where, "the channel is closed without waiting for a running export")
    for r in acq:
        t = arg(r, 1, "timeout")
        c.ob("waits-for-export", con, r.instr.a.get("how") != "with" and t is not None, r.where, "shutdown can wait for a running export for ever")
        if t is not None:
            c.ob("waits-for-export", con, seconds(t, a), r.where, "the wait for a running export is not the timeout given in milliseconds: %s" % t)
        b = c.an(f, k, oracle=oracle(o_truth(is_field(F), False), o_truth(lambda y: y.op == "acq", False)))
        rel = [y for y in b.recs if y.instr.kind == "release"]
        c.ob("lock-of-export", con, not rel, rel[0].where if rel else r.where, "the lock of an export still running is released")
        b = c.an(f, k, oracle=oracle(o_truth(is_field(F), False), o_truth(lambda y: y.op == "acq", True)))
        rel = [y for y in b.recs if y.instr.kind == "release"]
        ac = [y for y in b.recs if y.instr.kind == "acquire"]
        q = next((p for y in ac for p in [path_from(b, y.instr.block.succs, rel, b.exit_blocks())] if p), None)
        c.ob("lock-of-export", con, bool(rel) and q is None, r.where, "the export lock stays taken after shutdown")


def seconds(t, a):
    if t.op == "const":
        return isinstance(t.args[0], (int, float)) and t.args[0] == 30
    d = lambda y, v: y.op == "const" and isinstance(y.args[0], (int, float)) and y.args[0] == v
    if t.op == "bin" and t.args[0] == "Div":
        return t.args[1].op == "param" and "millis" in t.args[1].args[0] and d(t.args[2], 1000)
    if t.op == "bin" and t.args[0] == "Mult":
        xs = t.args[1:]
        return any(y.op == "param" for y in xs) and any(d(y, 0.001) for y in xs)
    return False


def memory(c, k):
    methods = {}
    for kk in reversed(c.prog.mro(k)):
        if kk.mod.name.startswith("opentelemetry"):
            methods.update(kk.methods)
    F = flag(c, k, methods)
    if F is None:
        return
    refused(c, k, F, methods["export"], False)
    a = c.an(methods["export"], k, oracle=oracle(o_truth(is_field(F), False)))
    mu = [r for r, t in mutations(a) if any(root(l).op == "self" for l in a.leaves(t))]
    c.ob("kept", "%s.export" % k.fqn, bool(mu) and always(a, mu, exc=False) is None, methods["export"].where, "an open in-memory exporter does not keep the data")
