"""M07: one bad callback does not spoil a collection."""
from .mx import *
from .m01 import isof
from .lib import logger_calls

NOTE = "Exception-escape analysis of the callback loop (the call and the iteration over what it returns), coverage of the loops over callbacks, instruments and observations, provenance of the storage observations go to."


def run(c):
    base = c.prog.cls(INST + "_Asynchronous")
    F = registered(c, base)
    barrier(c, base, F)
    collection(c)
    registry(c)
    c.floor("contained", 1)
    c.floor("own-reader", 1)


def registered(c, k):
    """Every callback the instrument is created with is kept, generators through
    a function that resumes the generator of its own."""
    m = c.method(k, "__init__")
    con = m.fqn
    el = lambda t: t.op == "elem" and is_param("callbacks")(t.args[0])
    out = set()
    for gen in (False, True):
        a = c.an(m, k, oracle=oracle(o_isinst(el, gen), o_isnone(is_param("callbacks"), False)), policy=Policy(mods=(k.mod.name,)))
        F = {r.instr.name for r in self_stores(a) if any(l.op == "new" for l in a.leaves(r.t["val"]))} if not out else out
        puts = []
        for r in a.calls(name=("append", "add")):
            b = [l for l in a.leaves(r.t["recv"])] if r.t.get("recv") is not None else []
            if any(is_field(F)(l) or any(l in a.leaves(s.t["val"]) for s in self_stores(a)) for l in b):
                puts.append(r)
        every_member(c, "registered", "%s %s" % (con, "generators" if gen else "functions"), a, is_param("callbacks"), puts, m)
        if not gen:
            out = {r.instr.name for r in self_stores(a) for p in puts for l in a.leaves(p.t["recv"]) if l in a.leaves(r.t["val"]) or is_field(r.instr.name)(l)}
            for r in puts:
                c.ob("registered", con, bool(r.args) and all_are(a, r.args[0], el), r.where, "what is kept is not the callback")
    c.ob("registered", con, bool(out), m.where, "no field keeps the callbacks")
    captured(c, m)
    return out


def captured(c, m):
    """A function made in the loop does not see the loop variable change."""
    import ast
    for lp in ast.walk(m.node):
        if not isinstance(lp, ast.For):
            continue
        names = {n.id for n in ast.walk(lp.target) if isinstance(n, ast.Name)}
        for f in ast.walk(lp):
            if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
                continue
            ar = f.args
            own = {x.arg for x in ar.args + ar.kwonlyargs + ar.posonlyargs}
            body = f.body if isinstance(f.body, list) else [f.body]
            free = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - own
            late = free & names
            c.ob("registered", "%s %s" % (m.fqn, getattr(f, "name", "lambda")), not late, "%s:%d" % (m.file, f.lineno), "the function resumes whichever callback was registered last (it reads %s when called)" % ", ".join(sorted(late)))


def barrier(c, k, F):
    m = c.method(k, "callback")
    P = Policy(mods=(k.mod.name,))
    P.iter_raises = True
    cb = lambda t: t.op == "elem" and is_field(F)(t.args[0]) or t.op == "param"
    n = 0
    ps = parts(c, k, m)
    for f in ps:
        a = c.an(f, k, policy=P)
        con = f.fqn
        hits = [r for r in a.calls() if r.dst is not None and callee_of(r.dst) is not None and any(cb(l) for l in a.leaves(callee_of(r.dst)))]
        deleg = [r for r in a.calls() if r.t.get("recv") is not None and r.t["recv"].op == "self" and any(c.prog.find_method(k, r.instr.name) is g for g in ps) and any(cb(l) for x in r.args for l in a.leaves(x))]
        if f is m:
            every_member(c, "every-callback", con, a, is_field(F), hits + deleg, f)
        for r in hits:
            n += 1
            res = lambda t: t is r.dst
            lps = [lp for lp in a.events("loop") if any(res(l) for l in a.leaves(lp.t["iter"])) or any(res(s) for s in a.sources(lp.t["iter"]))]
            risky = [r] + lps
            blocks = {x.instr.block for x in risky}
            esc = [i for i, x in a.escaping("E") if i.block in blocks]
            c.ob("contained", con, not esc, r.where, "a failing callback ends the collection")
            lg = logger_calls(a)
            for x in risky:
                q = path_from(a, exc_edges(x, "Exception*"), lg, exits(a, True, False) + [lp.instr.block for lp in a.events("loop") if lp not in lps])
                c.ob("logged", con, bool(exc_edges(x, "Exception*")) and q is None, x.where, "a failing callback is not logged: %s" % witness(a, q))
            outer = [lp for lp in a.events("loop") if lp not in lps and r.instr.block in loop_body(a, lp)]
            for x in risky:
                q = path_from(a, exc_edges(x, "Exception*"), outer, exits(a, True, False)) if outer else None
                c.ob("contained", con, q is None, x.where, "a failing callback keeps later ones from being called: %s" % witness(a, q))
            ys = [y for y in a.events("yield")]
            c.ob("observations", con, bool(lps) and bool(ys), r.where, "what the callback returns is not passed on")
            for lp in lps:
                it = lambda t: t is r.dst or is_call(fqn="builtins.iter")(t) and bool(call_args(t)) and call_args(t)[0] is r.dst
                c.ob("observations", con, all_are(a, lp.t["iter"], it), lp.where, "observations already produced are lost when the callback fails later on, or not all are taken: %s" % lp.t["iter"])
                inn = [y for y in ys if y.instr.block in loop_body(a, lp)]
                c.ob("observations", con, bool(inn) and loop_skips(a, lp.instr, inn) is None and not [e for e in loop_breaks(a, lp) if not isinstance(e.label, tuple)], lp.where, "an observation may be lost")
                for y in inn:
                    el = lambda t: t.op == "elem" and t.args[0] is r.dst
                    made_of = lambda t: is_made(MI + "measurement.Measurement")(t)
                    c.ob("observations", con, all_are(a, y.t["val"], made_of), y.where, "what is passed on is no measurement")
        if f is m and not hits:
            c.ob("contained", con, bool(deleg), f.where, "no callback is called")
    c.ob("contained", k.fqn, n > 0, k.mod.name, "no callback is called")


def collection(c):
    k = c.prog.cls(CONSUMER)
    m = c.method(k, "collect")
    rd = m.params()[0][1]
    i = c.am(k, "__init__")
    ST = {r.instr.name for r in self_stores(i) for l in i.leaves(r.t["val"]) if any(v is not None and any(is_made(STORAGE)(x) for x in i.leaves(v)) for kk, v, ii in i.contents.get(l, ()))}
    INS = lists(c, k)
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
    own = lambda t: t.op == "item" and is_field(ST)(t.args[0]) and is_param(rd)(t.args[1])
    con = m.fqn
    cbs = a.calls(name="callback")
    every_member(c, "every-instrument", con, a, is_field(INS), cbs, m)
    for r in cbs:
        c.ob("every-instrument", con, r.t.get("recv") is not None and all_are(a, r.t["recv"], lambda l: l.op == "elem"), r.where, "another instrument's callbacks are called")
    ev = a.calls(name="consume_measurement")
    lps = [lp for lp in a.events("loop") if any(any(s is r.dst for r in cbs) for s in a.sources(lp.t["iter"]))]
    c.ob("observed", con, bool(lps), m.where, "the observations are not consumed")
    for lp in lps:
        inn = [r for r in ev if r.instr.block in loop_body(a, lp)]
        c.ob("observed", con, bool(inn) and loop_skips(a, lp.instr, inn) is None and not [e for e in loop_breaks(a, lp) if not isinstance(e.label, tuple)], lp.where, "an observation may be lost")
        c.ob("observed", con, ordered(a, lp.t["iter"], lambda t: any(t is x.dst for x in cbs), perm=True), lp.where, "not every observation is consumed: %s" % lp.t["iter"])
        for r in inn:
            c.ob("observed", con, bool(r.args) and all_are(a, r.args[0], lambda l: l.op == "elem" and any(l.args[0] is x.dst for x in cbs)), r.where, "what is consumed is not the observation")
    for r in cbs:
        q = a.path_avoiding(r.instr, [lp.instr for lp in lps], [x.instr.block for x in cbs] + a.exit_blocks(exc=False))
        c.ob("observed", con, q is None, r.where, "the observations of an instrument may not be consumed: %s" % witness(a, q))
    for r in ev:
        ok = r.t.get("recv") is not None and all_are(a, r.t["recv"], own)
        c.ob("own-reader", con, ok, r.where, "the observation also reaches another reader's streams")
    cl = [r for r in a.calls(name="collect") if r.t.get("recv") is not None and all_are(a, r.t["recv"], own)]
    c.ob("synchronous", con, bool(cl) and always(a, cl, exc=False) is None, m.where, "what was recorded may not be collected")
    for r in a.rets():
        c.ob("synchronous", con, all_are(a, r.t["val"], lambda l: any(l is x.dst for x in cl)), r.where, "what is returned is not what was collected")


def lists(c, k):
    m = c.method(k, "register_asynchronous_instrument")
    a = c.an(m, k)
    p = m.params()[0][1]
    out = set()
    for r in a.calls(name=("append", "add")):
        if r.args and all_are(a, r.args[0], is_param(p)):
            out |= {l.args[1] for l in a.leaves(r.t["recv"]) if l.op == "attr" and l.args[0].op == "self"}
    for r in a.recs:
        if r.instr.kind == "store_item" and all_are(a, r.t["base"], lambda l: l.op == "attr" and l.args[0].op == "self") and (all_are(a, r.t["val"], is_param(p)) or all_are(a, r.t["key"], is_param(p))):
            out |= {l.args[1] for l in a.leaves(r.t["base"])}
    for r in self_stores(a):
        if mentions(r.t["val"], is_param(p)):
            out.add(r.instr.name)
    return out


def registry(c):
    k = c.prog.cls(CONSUMER)
    m = c.method(k, "register_asynchronous_instrument")
    a = c.an(m, k)
    p = m.params()[0][1]
    puts = [r for r in a.calls(name=("append", "add")) if r.args and all_are(a, r.args[0], is_param(p))] + [r for r in a.recs if r.instr.kind == "store_item" and any(is_param(p)(l) for l in a.leaves(r.t["val"]))] + [r for r in self_stores(a) if mentions(r.t["val"], is_param(p))]
    c.ob("registered", m.fqn, bool(puts) and always(a, puts, exc=False) is None, m.where, "an instrument may not be registered for collection")
