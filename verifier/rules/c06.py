"""C06: composite propagator and global helpers."""
from .c04 import TMP
from .lib import *

NOTE = "Every iteration of the member loop calls the member; the loop-carried context is the only context handed on; the loop runs over the member list itself, in order, without break; the global helpers delegate with every argument."
K = "opentelemetry.propagators.composite.CompositePropagator"


def run(c):
    prog = c.prog
    k = prog.cls(K)
    init = c.method(k, "__init__")
    ia = c.an(init, k)
    pp = init.params()[0][1]
    fields = {r.instr.name for r in ia.events("store_attr") if is_self(r.t["base"]) and any(is_param(pp)(x) for x in ia.sources(r.t["val"]))}
    c.ob("members-kept", K, bool(fields) and all(ordered(ia, r.t["val"], is_param(pp)) for r in ia.events("store_attr") if r.instr.name in fields), init.where, "the members are not kept as given")
    member = lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] in fields
    for sub in [x for x in prog.subclasses(k)]:
        for mn in ("inject", "extract", "fields"):
            if prog.find_method(sub, mn) is not prog.find_method(k, mn):
                c.ob("subclass-inherits", "%s.%s" % (sub.fqn, mn), False, sub.fqn, "overrides the composite behaviour")
    for mn in ("inject", "extract"):
        m = c.method(k, mn)
        a = c.an(m, k)
        con = "%s.%s" % (K, mn)
        ps = m.params()[0]
        carrier, ctxp, acc = ps[1], ps[2], ps[3]
        calls = [r for r in a.calls(name=mn) if r.t.get("recv") is not None and a.derives(r.t["recv"], member)]
        every_member(c, "member-loop", con, a, member, calls, m)
        for r in calls:
            c.ob("carrier-forwarded", con, is_p(a, arg(r, 0, "carrier"), carrier), r.where, "the member does not receive the caller's carrier")
            c.ob("accessor-forwarded", con, is_p(a, arg(r, 2, acc), acc), r.where, "the member does not receive the caller's %s" % acc)
            cv = arg(r, 1, "context")
            ls = a.leaves(cv) if cv is not None else []
            if mn == "inject":
                c.ob("context-forwarded", con, bool(ls) and all(is_param(ctxp)(l) for l in ls), r.where, "the member does not receive the caller's context")
            else:
                res = [x.dst for x in calls]
                ok = bool(ls) and any(is_param(ctxp)(l) for l in ls) and any(l in res for l in ls) and all(is_param(ctxp)(l) or l in res for l in ls)
                # the previous result is always handed on: after a member ran, the loop variable is its result
                ok = ok and threaded(a, cv, calls)
                c.ob("context-threaded", con, ok, r.where, "a member does not receive the context the previous one produced (%s)" % cv)
        if mn == "extract":
            for r in a.rets():
                v = r.t["val"]
                res = [x.dst for x in calls]
                ls = a.leaves(v)
                c.ob("last-context-returned", con, any(l in res for l in ls) and threaded(a, v, calls), r.where, "the result is not the context the last member produced (%s)" % v)
    f = c.method(k, "fields")
    a = c.an(f, k)
    rd = [r for r in a.recs if r.dst is not None and r.dst.op == "attr" and r.dst.args[1] == "fields" and a.derives(r.dst.args[0], member)]
    rd += [r for r in a.calls(name="fields") if r.t.get("recv") is not None and a.derives(r.t["recv"], member)]
    every_member(c, "fields-loop", K + ".fields", a, member, rd, f)
    ok = bool(a.rets())
    for r in a.rets():
        ok = ok and any(x.op == "attr" and x.args[1] == "fields" and a.derives(x.args[0], member) for x in a.sources(r.t["val"]))
    c.ob("fields-union", K + ".fields", ok, f.where, "the declared fields are not collected from the members")
    # nothing is filtered: inner loops over the fields of a member keep every field
    for lp in a.events("loop"):
        if any(x.op == "attr" and x.args[1] == "fields" for x in a.leaves(lp.t["iter"])):
            ev = [r for r in a.calls(name=("add", "append", "update", "union"))] + list(a.events("comp_add"))
            if [r for r in ev if r.instr.block in loop_body(a, lp)]:
                c.ob("fields-kept", K + ".fields", loop_skips(a, lp, ev) is None, lp.where, "some declared fields of a member are skipped")
    from .c02 import mutations
    shrink = [r for r, recv in mutations(a) if r.instr.name in ("discard", "remove", "pop", "clear", "intersection_update", "difference_update")]
    c.ob("fields-complete", K + ".fields", not shrink, shrink[0].where if shrink else f.where, "declared fields of members are removed")
    delegate(c)
    c.floor("member-loop", 2)


def is_p(a, t, name):
    return t is not None and bool(a.leaves(t)) and all(is_param(name)(l) for l in a.leaves(t))


def threaded(a, t, calls):
    """t is the result of the member that ran last, or the value before the
    first: each back edge of the member loop carries exactly the call's result."""
    if t in {x.dst for x in calls}:
        return True
    found = False
    for lp in a.events("loop"):
        if any(r.instr.block in loop_body(a, lp) for r in calls):
            for ph, back in loop_phis(a, t, lp):
                found = True
                for l in back:
                    if l not in [x.dst for x in calls]:
                        return False
    return found


def delegate(c):
    prog = c.prog
    mod = "opentelemetry.propagate"
    get = prog.func(mod + ".get_global_textmap")
    st = prog.func(mod + ".set_global_textmap")
    sa = c.an(st)
    p = st.params()[0][0]
    ev = [r for r in sa.recs if r.instr.kind in ("store_glob", "store_global") and any(is_param(p)(x) for x in sa.leaves(r.t["val"]))]
    c.ob("global-set", st.fqn, bool(ev) and always(sa, ev, exc=False) is None, st.where, "the propagator given is not made the global one")
    names = {r.instr.name for r in ev}
    ga = c.an(get)
    ok = bool(ga.rets())
    for r in ga.rets():
        for l in ga.leaves(r.t["val"]):
            ok = ok and l.op == "glob" and l.args[0].rpartition(".")[2] in {n.rpartition(".")[2] for n in names}
    c.ob("global-get", get.fqn, ok, get.where, "the accessor does not return the configured propagator")
    gl = {n.rpartition(".")[2] for n in names}
    for fn in ("extract", "inject"):
        f = prog.func(mod + "." + fn)
        a = c.an(f)
        con = f.fqn
        ps = f.params()[0]
        calls = [r for r in a.calls(name=fn) if r.t.get("recv") is not None and any(l.op == "glob" and l.args[0].rpartition(".")[2] in gl or is_call(name="get_global_textmap")(l) for l in a.leaves(r.t["recv"]))]
        c.ob("delegates", con, bool(calls) and always(a, calls, exc=False) is None, f.where, "does not delegate to the configured propagator")
        for r in calls:
            for i, n in enumerate(ps):
                c.ob("argument-forwarded", "%s(%s)" % (con, n), is_p(a, arg(r, i, n), n), r.where, "the caller's %s is not handed on" % n)
        if fn == "extract":
            for r in a.rets():
                c.ob("result-returned", con, all(l in [x.dst for x in calls] or is_call(name="extract")(l) for l in a.leaves(r.t["val"])), r.where, "the extracted context is not returned")
