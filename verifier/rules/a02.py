"""A02: proxies created early behave like the real thing later."""
from .mx import *
from .m03 import gap

NOTE = "Argument forwarding of every operation of every proxy, against the interface it stands in for, under assumptions on whether the real object exists yet; the fields a proxy is created with are traced to the call that makes the real object; check and registration against the switch's store and loop, under one lock."

T = "opentelemetry.trace."
M = "opentelemetry.metrics._internal."
I = M + "instrument."
L = "opentelemetry._logs._internal."
E = "opentelemetry._events."

# global, accessor, provider interface, operation, interface of the result
KINDS = (
    (T + "_TRACER_PROVIDER", T, "tracer", "TracerProvider", "Tracer"),
    (M + "_METER_PROVIDER", M, "meter", "MeterProvider", "Meter"),
    (L + "_LOGGER_PROVIDER", L, "logger", "LoggerProvider", "Logger"),
    (E + "_EVENT_LOGGER_PROVIDER", E, "event_logger", "EventLoggerProvider", "EventLogger"),
)
SAME = {"instrumenting_module_name": "name", "instrumenting_library_version": "version"}


def run(c):
    for g, mod, x, prov, res in KINDS:
        k = proxy_class(c, mod, prov)
        if x == "meter":
            meters(c, k)
        else:
            provider(c, "made-early", g, mod, x, k, prov)
            product(c, g, mod, x, k, prov, res)
    c.floor("operation", 4)
    c.floor("instrument", 7)
    c.floor("real-instrument", 7)


def global_of(c, mod, x):
    """The global the setter stores the provider in."""
    f = c.prog.func(mod + "set_%s_provider" % x)
    a = c.an(f, None, policy=Policy(mods=(mod[:-1], "opentelemetry.util._once")))
    gs = {r.instr.fqn for r in a.events("store_glob") if any(is_param(f.params()[0][0])(l) for l in a.leaves(r.t["val"]))}
    return sorted(gs)


def proxy_class(c, mod, prov):
    """The class of the provider handed out before one is set."""
    x = {"TracerProvider": "tracer", "MeterProvider": "meter", "LoggerProvider": "logger", "EventLoggerProvider": "event_logger"}[prov]
    f = c.prog.func(mod + "get_%s_provider" % x)
    gs = global_of(c, mod, x)
    G = lambda t: t.op == "glob" and t.args[0] in gs
    a = c.an(f, None, oracle=oracle(o_truth(G, False), o_isnone(G, True), o_env(False)))
    out = []
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            k = class_of(c, l)
            if k is not None and k not in out:
                out.append(k)
    return out[0] if len(out) == 1 else None


def class_of(c, l):
    if l.op == "obj":
        return c.prog.classes.get(l.args[1])
    ca = callee_of(l)
    if ca is not None and ca.op == "glob" and ca.args[0] in c.prog.classes:
        return c.prog.classes[ca.args[0]]
    if l.op == "glob":
        import ast
        d = c.prog.display_expr(l.args[0])
        if d is not None and isinstance(d[1], ast.Call):
            r = c.prog.resolve_expr(d[0], d[1].func)
            return c.prog.classes.get(r if isinstance(r, str) else getattr(r, "fqn", None))
    return None


def canon(n):
    return SAME.get(n, n)


def bound(c, a, l, iface, op):
    """The arguments of the call term, by the parameter names of the
    operation of the interface; None when they do not fit."""
    m = c.prog.find_method(iface, op)
    ps, va, ko, kw = m.params()
    ps = ps[1:]
    out = {}
    pos, kws = (l.args[2], l.args[3]) if l.op in ("call", "obj") else (call_args(l), ())
    if l.op == "obj":
        pos, kws = l.args[2], l.args[3]
    for i, v in enumerate(pos):
        if v.op == "star":
            out["*"] = v.args[0]
        elif i < len(ps):
            out[canon(ps[i])] = v
        else:
            return None
    for n, v in kws:
        if n in (None, "**"):
            out["**"] = v
        elif n in ps or n in ko:
            out[canon(n)] = v
        else:
            return None
    return out


def passes(c, a, l, iface, op, want):
    """What of `want` (parameter name -> predicate) the call term does not
    pass on; None when it passes on all."""
    got = bound(c, a, l, iface, op)
    if got is None:
        return "an argument the operation does not take"
    for n, p in want.items():
        if n not in got or not all_are(a, got[n], p):
            return n
    extra = sorted(set(got) - set(want))
    return "an argument it was not given, %s" % extra[0] if extra else None


def given(m):
    """The parameters of an operation, as predicates on its terms."""
    ps, va, ko, kw = m.params()
    out = {canon(n): is_param(n) for n in ps[1:] + ko}
    if va:
        out["*"] = is_param(va)
    if kw:
        out["**"] = is_param(kw)
    return out


def made_with(c, a, l, k, want):
    """As passes(), for an object of class k constructed by the term."""
    return passes(c, a, l, k, "__init__", {n: p for n, p in want.items()})


def given_fields(c, k):
    """parameter of __init__ -> fields that hold it (and nothing else)."""
    m = c.prog.find_method(k, "__init__")
    a = c.an(m, k)
    out = {}
    for n in m.params()[0][1:] + m.params()[2]:
        fs = {r.instr.name for r in self_stores(a) if all_are(a, r.t["val"], is_param(n))}
        fs -= {r.instr.name for r in self_stores(a) if not all_are(a, r.t["val"], is_param(n))}
        for b in c.prog.mro(k):
            for o in b.methods.values():
                if o.name != "__init__":
                    fs -= {r.instr.name for r in self_stores(c.an(o, k))}
        out[canon(n)] = fs
    return out


def provider(c, rule, g, mod, x, k, prov):
    """get_* of the proxy provider forwards to the global provider once it
    is set and else makes a proxy, both with everything it is given."""
    con = "%s proxy provider" % x
    f = c.prog.func(mod + "get_%s_provider" % x)
    iface = c.prog.cls(mod + prov)
    if not c.ob(rule, con, k is not None and iface in c.prog.mro(k), f.where, "what the accessor hands out before a provider is set is not one object of a class that implements %s" % prov):
        return None
    gs = global_of(c, mod, x)
    G = lambda t: t.op == "glob" and t.args[0] in gs
    op = "get_" + x
    m = c.method(k, op)
    same_params(c, rule, con, m, c.prog.find_method(iface, op))
    P = Policy(mods=(k.mod.name,), construct=None)
    a = c.an(m, k, policy=P, oracle=oracle(o_truth(G, True), o_isnone(G, False)))
    for l in results(a):
        ca = callee_of(l)
        ok = ca is not None and ca.op == "attr" and ca.args[1] == op and all_are(a, ca.args[0], G)
        c.ob(rule, con, ok, m.where, "once the provider is set, %s does not come from it: %s" % (op, l))
        if ok:
            w = passes(c, a, l, iface, op, given(m))
            c.ob(rule, con, w is None, m.where, "the real provider's %s is not given %s" % (op, w))
    a = c.an(m, k, policy=P, oracle=oracle(o_truth(G, False), o_isnone(G, True)))
    ls = results(a)
    pk = {class_of(c, l) for l in ls}
    if not c.ob(rule, con, len(pk) == 1 and None not in pk, m.where, "before the provider is set, %s does not make a proxy: %s" % (op, ", ".join(map(str, ls)))):
        return None
    pk = pk.pop()
    for l in ls:
        w = made_with(c, a, l, pk, given(m))
        c.ob(rule, con, w is None, m.where, "the proxy is not created with %s" % w)
    return pk


def results(a):
    return [l for r in a.rets() for l in a.leaves(r.t["val"])]


def same_params(c, rule, con, m, im):
    """The operation can be called as the interface's can."""
    ps, va, ko, kw = m.params()
    ips, _, iko, _ = im.params()
    ok = (va is not None or ps[1:] == ips[1:] or [canon(p) for p in ps[1:len(ips)]] == [canon(p) for p in ips[1:]]) and (kw is not None or set(iko) <= set(ko) | set(ps))
    c.ob(rule, con, ok, m.where, "%s cannot be called as the interface says" % m.name)


def operations(c, iface):
    """The operations of the interface."""
    out = []
    for b in c.prog.mro(iface):
        for n, m in b.methods.items():
            if n not in out and not n.startswith("_") and not m.is_prop() and not any(d in ("staticmethod", "classmethod") for d in decos(m)):
                out.append(n)
    return out


def decos(m):
    import ast
    return [ast.unparse(d) for d in m.node.decorator_list]


def product(c, g, mod, x, k, prov, res):
    """The tracer, logger or event logger made early."""
    if k is None:
        return
    iface, piface = c.prog.cls(mod + res), c.prog.cls(mod + prov)
    gs = global_of(c, mod, x)
    G = lambda t: t.op == "glob" and t.args[0] in gs
    get = "get_" + x
    a = c.an(c.method(k, get), k, oracle=oracle(o_truth(G, False), o_isnone(G, True)))
    pk = {class_of(c, l) for l in results(a)}
    if len(pk) != 1 or None in pk:
        return
    pk = pk.pop()
    con = pk.name
    c.ob("operation", con, iface in c.prog.mro(pk), pk.mod.name, "it does not implement %s" % res)
    gf = given_fields(c, pk)
    for n in given(c.method(k, get)):
        c.ob("keeps", con, bool(gf.get(n)), c.prog.find_method(pk, "__init__").where, "the proxy does not keep the %s it is created with" % n)
    want = {n: is_field(gf.get(n, ())) for n in given(c.method(k, get))}
    ini = c.an(c.prog.find_method(pk, "__init__"), pk)
    for op in operations(c, iface):
        m = c.prog.find_method(pk, op)
        oc = "%s.%s" % (con, op)
        if not c.ob("operation", oc, m is not None and m.cls is not iface, pk.mod.name, "the operation is not forwarded"):
            continue
        same_params(c, "operation", oc, m, c.prog.find_method(iface, op))

        def real(a, l):
            """what is wrong with the receiver as a real object, or None"""
            ca = callee_of(l)
            if ca is None or ca.op != "attr" or ca.args[1] != get or not all_are(a, ca.args[0], G):
                return "it is not got from the global provider: %s" % l
            w = passes(c, a, l, piface, get, want)
            return None if w is None else "it is got without the proxy's own %s" % w

        P = Policy(mods=(pk.mod.name,))
        # the fields a real object is kept in
        free = c.an(m, pk, policy=P)
        R = {r.instr.name for r in self_stores(free) if any(callee_of(l) is not None and callee_of(l).op == "attr" and callee_of(l).args[1] == get for l in free.leaves(r.t["val"]))}
        rf = is_field(R)
        for n in R:
            for r in self_stores(ini):
                if r.instr.name == n:
                    c.ob("operation", oc, all_are(ini, r.t["val"], lambda t: isconst(t, None)), r.where, "the proxy starts with a real object")
        got = is_call(name=get)
        unset, isset = oracle(o_truth(G, False), o_isnone(G, True)), oracle(o_truth(G, True), o_isnone(G, False), o_truth(got, True), o_isnone(got, False))
        cases = (
            ("once the provider is set", oracle(o_truth(rf, False), o_isnone(rf, True), isset)),
            ("when the real object is known", oracle(o_truth(rf, True), o_isnone(rf, False))),
            ("before the provider is set", oracle(o_truth(rf, False), o_isnone(rf, True), unset)),
        )
        for when, o in cases:
            a = c.an(m, pk, policy=P, oracle=o)
            ev = [r for r in a.calls(name=op) if r.dst is not None]
            sup = always(a, ev, exc=False)
            c.ob("operation", oc, bool(ev) and not sup, m.where, "%s, a call of the proxy does not reach another object" % when)
            for r in ev:
                w = passes(c, a, r.dst, iface, op, given(m)) if r.dst.op in ("call",) else None
                c.ob("operation", oc, w is None, r.where, "%s, the call is forwarded without %s" % (when, w))
                for l in a.leaves(r.t["recv"]):
                    if when.startswith("once"):
                        w = real(a, l)
                        c.ob("real-object", oc, w is None, r.where, "the real object is wrong: %s" % w)
                    elif when.startswith("when"):
                        c.ob("real-object", oc, rf(l) or real(a, l) is None, r.where, "the call does not go to the real object: %s" % l)
                    else:
                        c.ob("real-object", oc, l.op == "self" or not rf(l), r.where, "the call goes to nothing")
            if when.startswith("before"):
                for r in self_stores(a):
                    if r.instr.name in R:
                        c.ob("real-object", oc, all_are(a, r.t["val"], lambda t: isconst(t, None)), r.where, "a stand-in is remembered as the real object")
            else:
                for r in self_stores(a):
                    if r.instr.name in R:
                        c.ob("real-object", oc, all(rf(l) or real(a, l) is None for l in a.leaves(r.t["val"])), r.where, "something other than the real object is remembered")
            # what the caller gets
            res_ = {r.dst for r in ev}
            if m.is_gen():
                ys = a.events("yield")
                ent = lambda t: t.op == "entered" and t.args[0] in res_
                c.ob("result", oc, bool(ys) and all(all_are(a, y.t["val"], ent) for y in ys), m.where, "the span of the real operation is not handed to the caller")
                c.ob("result", oc, not always(a, ys, exc=False), m.where, "a path does not hand out the span")
                w_ = [r for r in a.events("with_enter") if all_are(a, r.t["mgr"], lambda t: t in res_)]
                for y in ys:
                    c.ob("result", oc, any(a.dominated(y.instr, [e.instr]) for e in w_), y.where, "the real operation is not entered around the caller's block")
            elif op != "emit":
                c.ob("result", oc, all(l in res_ for l in results(a)), m.where, "the result of the real operation is not handed to the caller")


# -- meters and instruments ------------------------------------------------------------------
def switch(c, con, a, tests, adds, b, stores, reads):
    """Registration (test, then addition, in analysis a) and the switch
    (store, then the list read, in b) exclude each other: none is missed."""
    ok = False
    for x in adds:
        ok = any(l in x.locks and not gap(a, t, x, l) and a.dominated(x.instr, [t.instr]) and any(same_lock(l, s.locks) for s in stores) for t in tests for l in t.locks)
        c.ob("switch", con, ok, x.where, "between the test whether the real one exists and the registration, the switch may happen, and miss this one")
    for lp in reads:
        ok = any(b.dominated(lp.instr, [s.instr]) or any(l in lp.locks and not gap(b, lp, s, l) for l in s.locks) for s in stores)
        c.ob("switch", con, ok, lp.where, "what is registered between the reading of the list and the store of the real one is missed")


def same_lock(l, locks):
    return any(str(l) == str(x) for x in locks)


def tests_of(a, pred):
    return [r for r in a.recs if r.instr.kind == "attr" and r.dst is not None and pred(r.dst)] + [r for r in a.events("branch") if any(pred(x) for x in subterms(r.t["cond"]))]


def meters(c, k):
    x, prov = "meter", "MeterProvider"
    f = c.prog.func(M + "get_meter_provider")
    iface, meter = c.prog.cls(M + prov), c.prog.cls(M + "Meter")
    con = "meter proxy provider"
    if not c.ob("made-early", con, k is not None and iface in c.prog.mro(k), f.where, "what the accessor hands out before a provider is set is not one object of a class that implements %s" % prov):
        return
    m = c.method(k, "get_meter")
    same_params(c, "made-early", con, m, c.prog.find_method(iface, "get_meter"))
    P = Policy(mods=(k.mod.name,))
    # the switch: the method the setter calls with the real provider
    sw = notified(c, k)
    if not c.ob("switch", con, len(sw) == 1, c.prog.func(M + "set_meter_provider").where, "setting the provider does not tell the proxy provider"):
        return
    sw = sw.pop()
    ps = sw.params()[0][1]
    b = c.an(sw, k, policy=P)
    RP = {r.instr.name for r in self_stores(b) if all_are(b, r.t["val"], is_param(ps))}
    gs = global_of(c, M, x)
    G = lambda t: t.op == "glob" and t.args[0] in gs
    R = lambda t: is_field(RP)(t) or G(t)
    if not c.ob("switch", con, bool(RP), sw.where, "the real provider is not remembered"):
        return
    st = [r for r in self_stores(b) if r.instr.name in RP]
    c.ob("switch", con, not always(b, st, exc=False), sw.where, "a path does not remember the real provider")
    a = c.an(m, k, policy=P, oracle=oracle(o_truth(R, False), o_isnone(R, True)))
    pk = {class_of(c, l) for l in results(a)}
    if not c.ob("made-early", con, len(pk) == 1 and None not in pk and meter in c.prog.mro(list(pk)[0]), m.where, "before the provider is set, get_meter does not make a proxy meter"):
        return
    pk = pk.pop()
    for l in results(a):
        w = made_with(c, a, l, pk, given(m))
        c.ob("made-early", con, w is None, m.where, "the proxy meter is not created with %s" % w)
    b = c.an(sw, k, policy=Policy(mods=(k.mod.name,), fn=lambda fi, s: False if fi.cls in c.prog.mro(pk) else None))
    st = [r for r in self_stores(b) if r.instr.name in RP]
    tell = [r for r in b.calls() if r.instr.name and c.prog.find_method(pk, r.instr.name) is not None and r.t.get("recv") is not None and any(l.op == "elem" for l in b.leaves(r.t["recv"])) and any(all_are(b, x, lambda l: is_param(ps)(l) or is_field(RP)(l)) for x in list(r.args) + list(r.kw.values()))]
    kept(c, con, a, m, set(results(a)), is_field(RP), b, sw, st, tell)
    # once set, from the real provider; attributes given or not
    for n in (True, False):
        a = c.an(m, k, policy=P, oracle=oracle(o_truth(R, True), o_isnone(R, False), o_isnone(is_param("attributes"), n), o_truth(is_param("attributes"), not n)))
        real(c, "made-early", con, a, results(a), m.where, iface, "get_meter", R, {p: q for p, q in given(m).items() if p != "attributes" or not n}, n)
    # the proxy meter
    con = pk.name
    sm = next((c.prog.find_method(pk, r.instr.name) for r in tell), None)
    if not c.ob("switch", con, sm is not None, sw.where, "the proxy meters are not told of the real provider"):
        return
    gf = given_fields(c, pk)
    for n in given(m):
        c.ob("keeps", con, bool(gf.get(n)), c.prog.find_method(pk, "__init__").where, "the proxy meter does not keep the %s it is created with" % n)
    mp = sm.params()[0][1]
    from_real = lambda t: callee_of(t) is not None and callee_of(t).op == "attr" and callee_of(t).args[1] == "get_meter"
    RM = set()
    for n in (True, False):
        at = is_field(gf.get("attributes", ()))
        b2 = c.an(sm, pk, policy=P, oracle=oracle(o_isnone(at, n), o_truth(at, not n)))
        st2 = [r for r in self_stores(b2) if any(from_real(l) for l in b2.leaves(r.t["val"]))]
        RM |= {r.instr.name for r in st2}
        c.ob("switch", con, bool(st2) and not always(b2, st2, exc=False), sm.where, "the real meter is not remembered")
        for r in st2:
            real(c, "real-object", con, b2, list(b2.leaves(r.t["val"])), r.where, iface, "get_meter", is_param(mp), {p: is_field(gf.get(p, ())) for p in given(m) if p != "attributes" or not n}, n)
    b2 = c.an(sm, pk, policy=P)
    st2 = [r for r in self_stores(b2) if r.instr.name in RM]
    instruments(c, pk, meter, RM, sm, b2, st2, from_real)


def notified(c, k):
    """Methods of the proxy provider the setter calls with the provider."""
    f = c.prog.func(M + "set_meter_provider")
    p = f.params()[0][0]
    a = c.an(f, None, policy=Policy(mods=(M[:-1], "opentelemetry.util._once"), fn=lambda fi, s: False if fi.cls is k else None))
    out = set()
    for r in a.calls():
        rc = r.t.get("recv")
        if rc is not None and all_are(a, rc, lambda l: l.op == "glob" and class_of(c, l) is k) and any(all_are(a, x, is_param(p)) for x in list(r.args) + list(r.kw.values())):
            # always, and after (or with) the store of the global
            g = [s for s in a.events("store_glob") if any(is_param(p)(l) for l in a.leaves(s.t["val"]))]
            ok = bool(g) and all(a.path_avoiding(s.instr, [r.instr], a.exit_blocks(exc=False)) is None for s in g)
            c.ob("switch", "meter proxy provider", ok, r.where, "the proxy provider is not told whenever a provider is set")
            m = c.prog.find_method(k, r.instr.name)
            if m is not None:
                out.add(m)
    return out


def real(c, rule, con, a, ls, where, iface, op, R, want, none):
    """The terms are op of the real object, given all that is wanted."""
    c.ob(rule, con, bool(ls), where, "no real object is made")
    for l in ls:
        ca = callee_of(l)
        ok = ca is not None and ca.op == "attr" and ca.args[1] == op and all_are(a, ca.args[0], R)
        c.ob(rule, con, ok, where, "%s is not called on the real object: %s" % (op, l))
        if ok:
            got = bound(c, a, l, iface, op) or {}
            w = next((n for n, p in want.items() if n not in got or not all_are(a, got[n], p)), None)
            c.ob(rule, con, w is None, where, "%s of the real object is not given %s" % (op, w))
            w = [n for n in got if n not in want and not (n == "attributes" and none)]
            c.ob(rule, con, not w, where, "%s is given %s, which the caller did not give" % (op, w))


def kept(c, con, a, m, objs, tests, b, sw, st, events):
    """What the method (a) makes is added to a list the switch (b) loops
    over completely; test and addition exclude the switch."""
    adds = [r for r in a.calls() if r.instr.name in PUTS + ("add",) and r.t.get("recv") is not None and any(l in objs for x in r.args for l in a.leaves(x))]
    if not c.ob("kept", con, bool(adds) and not always(a, adds, exc=False), m.where, "what is made early is not remembered, so it never gets its real object"):
        return
    c.ob("kept", con, not any(x is not y and a.dominated(x.instr, [y.instr]) for x in adds for y in adds) and not any(set(adds) & in_body(a, lp) for lp in a.events("loop")), adds[0].where, "what is made early is remembered more than once, so the real object is made more than once")
    lists = {l.args[1] for r in adds for l in a.leaves(r.t["recv"]) if l.op == "attr" and is_self(l.args[0])}
    mem = is_field(lists)
    if not every_member(c, "told", con, b, mem, events, sw, order=False, exc=True):
        return
    loops = [lp for lp in b.events("loop") if b.derives(lp.t["iter"], mem) and set(events) & in_body(b, lp)]
    for lp in loops:
        ev = [r for r in events if r in in_body(b, lp)]
        c.ob("told", con, not any(x is not y and b.dominated(x.instr, [y.instr]) for x in ev for y in ev), lp.where, "the real object is made more than once")
    switch(c, con, a, tests_of(a, tests), adds, b, st, [r for r in b.recs if r.instr.kind == "attr" and r.dst is not None and mem(r.dst)])


def in_body(a, lp):
    bs = loop_body(a, lp)
    return {r for r in a.recs if r.instr.block in bs}


def instruments(c, pk, meter, RM, sm, b, st, from_real):
    P = Policy(mods=(pk.mod.name,))
    mod = c.prog.cls(I + "Counter").mod
    PI = Policy(mods=(mod.name,))
    rm = is_field(RM)
    for op in operations(c, meter):
        kind = c.prog.cls(I + "".join(w.title() for w in op[len("create_"):].split("_")))
        m = c.prog.find_method(pk, op)
        con = pk.name + "." + op
        if not c.ob("instrument", con, m is not None and m.cls is not meter, pk.mod.name, "the proxy meter does not make this instrument"):
            continue
        same_params(c, "instrument", con, m, c.prog.find_method(meter, op))
        a = c.an(m, pk, policy=P, oracle=oracle(o_truth(rm, True), o_isnone(rm, False)))
        real(c, "instrument", con, a, results(a), m.where, meter, op, rm, given(m), False)
        a = c.an(m, pk, policy=P, oracle=oracle(o_truth(rm, False), o_isnone(rm, True)))
        ik = {class_of(c, l) for l in results(a)}
        if not c.ob("instrument", con, len(ik) == 1 and None not in ik and kind in c.prog.mro(list(ik)[0]), m.where, "before the real meter exists, no proxy %s is made" % kind.name):
            continue
        ik = ik.pop()
        for l in results(a):
            w = made_with(c, a, l, ik, given(m))
            c.ob("instrument", con, w is None, m.where, "the proxy instrument is not created with %s" % w)
        sp = None
        ev = []
        for r in b.calls():
            x = c.prog.find_method(ik, r.instr.name) if r.instr.name else None
            if x is not None and r.t.get("recv") is not None and any(l.op == "elem" for l in b.leaves(r.t["recv"])):
                if any(all(from_real(l) or rm(l) for l in b.leaves(y)) for y in list(r.args) + list(r.kw.values())):
                    sp = x
                    ev.append(r)
        if not c.ob("told", con, sp is not None, sm.where, "the proxy instruments are not given the real meter"):
            continue
        kept(c, con, a, m, set(results(a)), rm, b, sm, st, ev)
        instrument(c, ik, kind, meter, op, m, sp, PI)


def instrument(c, ik, kind, meter, op, m, sp, P):
    con = ik.name
    gf = given_fields(c, ik)
    for n in given(m):
        c.ob("keeps", con, bool(gf.get(n)), c.prog.find_method(ik, "__init__").where, "the proxy instrument does not keep the %s it is created with" % n)
    mp = sp.params()[0][1]
    b = c.an(sp, ik, policy=P)
    st = [r for r in self_stores(b) if not all_are(b, r.t["val"], lambda t: isconst(t, None))]
    RI = {r.instr.name for r in st}
    c.ob("real-instrument", con, bool(st) and not always(b, st, exc=False), sp.where, "the proxy instrument does not remember a real one")
    for r in st:
        real(c, "real-instrument", con, b, list(b.leaves(r.t["val"])), r.where, meter, op, is_param(mp), {n: is_field(gf.get(n, ())) for n in given(m)}, False)
    made_ = [r for r in b.calls() if r.instr.name and r.instr.name.startswith("create_") and r.t.get("recv") is not None and all_are(b, r.t["recv"], is_param(mp))]
    c.ob("real-instrument", con, not any(x is not y and b.dominated(x.instr, [y.instr]) for x in made_ for y in made_), sp.where, "the real instrument is made more than once")
    ri = is_field(RI)
    for o in operations(c, kind):
        f = c.prog.find_method(ik, o)
        oc = con + "." + o
        if not c.ob("operation", oc, f is not None and f.cls is not kind, ik.mod.name, "the operation is not forwarded"):
            continue
        same_params(c, "operation", oc, f, c.prog.find_method(kind, o))
        a = c.an(f, ik, policy=P, oracle=oracle(o_truth(ri, True), o_isnone(ri, False)))
        ev = [r for r in a.calls(name=o) if r.dst is not None and all_are(a, r.t["recv"], ri)]
        c.ob("operation", oc, bool(ev) and not always(a, ev, exc=False), f.where, "the real instrument is not called")
        for r in ev:
            w = passes(c, a, r.dst, kind, o, given(f)) if r.dst.op == "call" else "its arguments"
            c.ob("operation", oc, w is None, r.where, "the call is forwarded without %s" % w)
        c.ob("operation", oc, not any(x is not y and a.dominated(x.instr, [y.instr]) for x in ev for y in ev), f.where, "the call is forwarded twice")
        a = c.an(f, ik, policy=P, oracle=oracle(o_truth(ri, False), o_isnone(ri, True)))
        c.ob("operation", oc, not [r for r in a.calls(name=o) if all_are(a, r.t["recv"], ri)] and not reached_raise(a), f.where, "before the real instrument exists the call fails")
        for p in writers(c, ik, RI):
            c.ob("real-instrument", con, p is sp or p.name == "__init__" or p.name.startswith("_"), p.where, "an operation changes the real instrument")


def reached_raise(a):
    return [r for r in a.recs if r.instr.kind == "raise" and reachable(a, r.instr)]


def writers(c, k, fields):
    out = []
    for b in c.prog.mro(k):
        for m in b.methods.values():
            if any(r.instr.name in fields for r in self_stores(c.an(m, k))):
                out.append(m)
    return out
