"""Z01: shims keep the bridged API's guarantees."""
import ast
from .mx import *
from .k02 import kwof, call_args, members
from .k04 import ev
from .bx import path_from, norm_edges, is_field
from ..flow import isconst

NOTE = "Argument provenance through every bridge method under assumed presence of each argument (parent given or not, active span ignored or not, times given or not), coverage of the references, must-pass-through of context restoration on normal and exceptional paths, and evaluation of the time conversions."

OT = "opentelemetry.shim.opentracing_shim"
OC = "opentelemetry.shim.opencensus"
POL = Policy(mods=(OT, OC))


def run(c):
    span_shim(c)
    start(c)
    start_active(c)
    scopes(c)
    carriers(c)
    census_context(c)
    census_span(c)
    census_tracer(c)
    for r, n in (("span", 9), ("start", 12), ("scope", 6), ("carrier", 4), ("census", 20)):
        c.floor(r, n)


def argn(r, pos, *names):
    for n in names:
        if n in r.kw:
            return r.kw[n]
    return r.args[pos] if pos is not None and pos < len(r.args) else None


def ls(a, t):
    return a.leaves(t) if t is not None else []


def every(a, t, pred):
    x = ls(a, t)
    return bool(x) and all(pred(l) for l in x)


def on(name, pred):
    """Method call `name` on something that satisfies pred."""
    return lambda t: is_call(name=name)(t) and callee_of(t).op == "attr" and pred(callee_of(t).args[0])


def first(t):
    ar = call_args(t) if t.op in ("call", "pure") else t.args[2] if t.op == "obj" else ()
    return ar[0] if ar else next(iter(kwof(t).values()), None) if t.op in ("call", "obj") else None


def makes(t, *names):
    """Object of (or call of) a class of that name."""
    n = t.args[1] if t.op == "obj" else callee_of(t).args[0] if callee_of(t) is not None and callee_of(t).op == "glob" else ""
    return isinstance(n, str) and n.rpartition(".")[2] in names


def given(*ps):
    return [o_isnone(is_param(p), False) for p in ps] + [o_truth(is_param(p), True) for p in ps]


def absent(*ps):
    return {p: (lambda T: T.const(None)) for p in ps}


# -- opentracing: spans ---------------------------------------------------------------------------
def wrapped(c, k, param):
    return field_of_param(c.am(k, "__init__"), param)


def span_shim(c):
    k = c.prog.cls(OT + ".SpanShim")
    F = wrapped(c, k, "span")
    S = is_field(F)

    def must(m, name, checks, **kw):
        f = c.method(k, m)
        a = c.an(f, k, policy=POL, **kw)
        con = "%s.%s" % (k.fqn, m)
        cs = [r for r in a.calls(name=name) if r.t.get("recv") is not None and every(a, r.t["recv"], S)]
        q = always(a, cs, exc=False) if cs else None
        c.ob("span", con, bool(cs) and q is None, f.where, "the span wrapped is not reached: %s" % witness(a, q))
        for r in cs:
            for what, pos, names, pred in checks:
                t = argn(r, pos, *names)
                c.ob("span", "%s %s" % (con, what), every(a, t, lambda l: pred(a, l)), r.where, "%s is %s" % (what, t))
        return a
    par = lambda n: lambda a, l: is_param(n)(l)
    must("set_operation_name", "update_name", [("name", 0, ("name",), par("operation_name"))])
    must("set_tag", "set_attribute", [("key", 0, ("key",), par("key")), ("value", 1, ("value",), par("value"))])
    for p, m, name, pos, kwn in (("finish_time", "finish", "end", 0, "end_time"), ("timestamp", "log_kv", "add_event", 2, "timestamp")):
        must(m, name, [("time", pos, (kwn,), lambda a, l, p=p: ev(a, l, p) == 10 ** 12)], oracle=oracle(*given(p)[:1]))
        f = c.method(k, m)
        a = c.an(f, k, policy=POL, params=absent(p))
        for r in a.calls(name=name):
            t = argn(r, pos, kwn)
            c.ob("span", "%s.%s no time" % (k.fqn, m), t is None or every(a, t, lambda l: isconst(l, None)), r.where, "without a time given %s is used" % t)
    kv = is_param("key_values")
    for there in (True, False):
        o = lambda a, t, st: there if t.op == "in" and isconst(t.args[0], "event") and kv(t.args[1]) else None
        good = (lambda a, l: l.op == "item" and kv(l.args[0]) and isconst(l.args[1], "event") or on("get", kv)(l) and isconst(call_args(l)[0], "event")) if there else (lambda a, l: isconst(l, "log") or on("get", kv)(l) and len(call_args(l)) > 1 and isconst(call_args(l)[1], "log"))
        must("log_kv", "add_event", [("name %s" % ("given" if there else "default"), 0, ("name",), good), ("attributes", 1, ("attributes",), par("key_values"))], oracle=oracle(o, o_isnone(kv, False)))
    # baggage
    f = c.method(k, "set_baggage_item")
    a = c.an(f, k, policy=POL)
    st = [(r, l) for r in a.events("store_attr") for l in a.leaves(r.t["val"]) if is_call(name="set_baggage")(l)]
    q = always(a, [r for r, l in st], exc=False) if st else None
    c.ob("span", "baggage set", bool(st) and q is None, f.where, "a baggage item is not kept: %s" % witness(a, q))
    place = set()
    for r, l in st:
        ar, kw = list(call_args(l)), kwof(l)
        ctx = kw.get("context", ar[2] if len(ar) > 2 else None)
        key, val = kw.get("name", ar[0] if ar else None), kw.get("value", ar[1] if len(ar) > 1 else None)
        place.add((str(r.t["base"]), r.instr.name))
        c.ob("span", "baggage set", key is not None and is_param("key")(key) and val is not None and is_param("value")(val), r.where, "another item is set: %s" % l)
        c.ob("span", "baggage kept", ctx is not None and all(x.op == "attr" and x.args[1] == r.instr.name and x.args[0] is r.t["base"] for x in a.leaves(ctx)), r.where, "the items set before are lost: %s" % ctx)
    f = c.method(k, "get_baggage_item")
    a = c.an(f, k, policy=POL)
    bad = []
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            ar, kw = (list(call_args(l)), kwof(l)) if is_call(name="get_baggage")(l) else ([], {})
            ctx = kw.get("context", ar[1] if len(ar) > 1 else None)
            if not (ar and is_param("key")(ar[0]) and ctx is not None and ctx.op == "attr" and (str(ctx.args[0]), ctx.args[1]) in place):
                bad.append(l)
    c.ob("span", "baggage read", bool(a.rets()) and not bad, f.where, "what is read back is %s" % (bad or ["nothing"])[0])
    k2 = c.prog.cls(OT + ".SpanContextShim")
    G = wrapped(c, k2, "otel_context")
    for kk, FF in ((k, F), (k2, G)):
        f = c.method(kk, "unwrap")
        a = c.an(f, kk)
        c.ob("span", kk.fqn + ".unwrap", bool(FF) and all(is_field(FF)(l) for r in a.rets() for l in a.leaves(r.t["val"])), f.where, "what is wrapped is not handed out")


# -- opentracing: starting spans --------------------------------------------------------------------
def unwrapped(pred):
    return on("unwrap", pred)


def carried(a, t, pred):
    """The span context (or span) pred stands for, as a span."""
    if pred(t):
        return True
    return makes(t, "NonRecordingSpan") and first(t) is not None and every(a, first(t), pred)


def parent_of(a, r):
    """Leaves of the span set as current in the context handed to start_span, or None."""
    t = argn(r, 1, "context")
    out = []
    for l in ls(a, t):
        if not is_call(name="set_span_in_context")(l):
            return None
        out += a.leaves(first(l)) if first(l) is not None else []
    return out or None


def start(c):
    k = c.prog.cls(OT + ".TracerShim")
    TF = wrapped(c, k, "tracer")
    f = c.method(k, "start_span")
    ref = lambda t: t.op == "elem" and is_param("references")(t.args[0])
    rctx = unwrapped(lambda t: t.op == "attr" and t.args[1] == "referenced_context" and ref(t.args[0]))

    def o_invalid(a, t, st):
        if t.op in ("eq", "is") and any(x.op == "glob" and x.args[0].endswith("INVALID_SPAN_CONTEXT") for x in t.args) and any(rctx(x) for x in t.args):
            return False
        return None

    def links(a, t):
        """Leaves that are contained in the list of links."""
        return [m for l in ls(a, t) for m, i in members(a, l)]

    def is_link(l):
        return makes(l, "Link") and first(l) is not None and rctx(first(l))

    def has(a, t, st):
        # a list with links in it is not empty
        x = t.args[0] if t.op in ("istrue",) else t
        return True if x.op == "new" and x.args[1] == "list" else None

    def empty(a, t, st):
        # without references there are no links
        return False if t.op == "new" and not a.contents.get(t) else None

    def world(con, params, orc):
        a = c.an(f, k, policy=POL, params=params, oracle=oracle(*orc))
        cs = [r for r in a.calls(name="start_span") if r.t.get("recv") is not None and every(a, r.t["recv"], is_field(TF))]
        q = always(a, cs, exc=False) if cs else None
        c.ob("start", con, bool(cs) and q is None, f.where, "no span is started: %s" % witness(a, q))
        return a, cs
    is_ctx = lambda v: lambda a, t, st: v if t.op == "isinst" and t.args[1].op == "glob" and t.args[1].args[0].endswith(".SpanContext") else None
    child = unwrapped(is_param("child_of"))
    false = {"ignore_active_span": lambda T: T.const(False)}
    true = {"ignore_active_span": lambda T: T.const(True)}
    for v in (True, False):
        for ign in (false, true):
            a, cs = world("parent given", dict(absent("references", "start_time"), **ign), given("child_of") + [is_ctx(v), o_isnone(child, False), o_truth(child, True)])
            for r in cs:
                p = parent_of(a, r)
                c.ob("start", "parent given", p is not None and all((makes(l, "NonRecordingSpan") and child(first(l))) if v else child(l) for l in p), r.where, "the parent is %s" % (p or ["not set"])[0])
    cur = lambda t: is_call(name="get_current_span")(t) or mentions(t, lambda x: x.op == "attr" and x.args[1] in ("active_span", "active") and (is_self(x.args[0]) or x.args[0].op == "attr" and is_self(x.args[0].args[0])))
    a, cs = world("active parent", dict(absent("child_of", "references", "start_time"), **false), [o_truth(cur, True), o_isnone(cur, False), is_ctx(False)])
    for r in cs:
        p = parent_of(a, r)
        c.ob("start", "active parent", p is not None and all(cur(l) for l in p), r.where, "the active span is not the parent: %s" % (p or ["not set"])[0])
    a, cs = world("active parent, references", dict(absent("child_of", "start_time"), **false), [o_truth(cur, True), o_isnone(cur, False), is_ctx(False), o_invalid, has] + given("references"))
    for r in cs:
        p = parent_of(a, r)
        c.ob("start", "active parent, references", p is not None and all(cur(l) for l in p), r.where, "the active span is not the parent: %s" % (p or ["not set"])[0])
    a, cs = world("active ignored", dict(absent("child_of", "references", "start_time"), **true), [empty])
    for r in cs:
        p = parent_of(a, r)
        c.ob("start", "active ignored", p is not None and all(isconst(l, None) or l.op == "glob" and l.args[0].endswith(".INVALID_SPAN") for l in p), r.where, "the span that should be a root has the parent %s" % (p or ["the active one"])[0])
    a, cs = world("reference parent", dict(absent("child_of", "start_time"), **true), given("references") + [o_invalid, has])
    adds = [r for r in a.recs if r.instr.kind == "call" and r.instr.name == "append" and r.args and is_link(r.args[0])]
    for r in cs:
        p = parent_of(a, r)

        def is_first(l):
            if not makes(l, "NonRecordingSpan"):
                return False
            x = first(l)
            if x is not None and x.op == "attr" and x.args[1] == "context" and x.args[0].op == "item" and isconst(x.args[0].args[1], 0):
                return any(is_link(m) for m in links(a, x.args[0].args[0]))
            if x is not None and x.op == "attr" and x.args[1] == "context" and is_call(name="next")(x.args[0]):
                return True
            return x is not None and x.op == "item" and isconst(x.args[1], 0)
        c.ob("start", "reference parent", p is not None and any(is_first(l) for l in p) and all(is_first(l) for l in p), r.where, "the parent is %s, not the first reference" % (p or ["not set"])[0])
    for v in (False, True):
        a, cs = world("links", dict(absent("start_time"), **false), given("references") + given("child_of") + [o_invalid])
        for r in cs:
            t = argn(r, 4, "links")
            m = links(a, t)
            c.ob("start", "links", bool(m) and all(is_link(x) or x.op == "elem" and any(is_link(y) for y in links(a, x.args[0])) for x in m), r.where, "the links are %s" % (m or [t])[0])
        loops = [lp for lp in a.events("loop") if a.derives(lp.t["iter"], is_param("references"))]
        adds = [r for r in a.recs if r.instr.kind == "call" and r.instr.name in ("append", "add") and r.args and any(is_link(x) for x in a.leaves(r.args[0]))]
        for lp in loops:
            inl = [r for r in adds if r.instr.block in loop_body(a, lp)]
            if inl:
                q = loop_skips(a, lp, inl)
                c.ob("start", "links", q is None, lp.where, "a reference gets no link: %s" % witness(a, q))
                c.ob("start", "links", not loop_breaks(a, lp), lp.where, "the loop over the references may end early")
    a, cs = world("values", dict(absent("references"), **false), given("child_of") + given("start_time")[:1])
    for r in cs:
        for what, pos, n, p in (("name", 0, "name", "operation_name"), ("tags", 3, "attributes", "tags")):
            t = argn(r, pos, n)
            c.ob("start", what, every(a, t, is_param(p)), r.where, "%s is %s" % (what, t))
        t = argn(r, 5, "start_time")
        c.ob("start", "time", every(a, t, lambda l: ev(a, l, "start_time") == 10 ** 12), r.where, "the start time is %s" % t)
        for x in a.rets():
            for l in a.leaves(x.t["val"]):
                s = c.prog.cls(OT + ".SpanShim")
                w = dict(zip(("tracer", "context", "span"), (l.args[2] if l.op == "obj" else ())), **(kwof(l) if l.op == "obj" else {}))
                ok = makes(l, "SpanShim") and w.get("span") is r.dst and is_self(w.get("tracer")) and makes(w.get("context"), "SpanContextShim") and on("get_span_context", lambda t: t is r.dst)(first(w["context"]))
                c.ob("start", "result", ok, x.where, "what is returned does not wrap the span started: %s" % l)
    a, cs = world("no time", dict(absent("references", "start_time"), **false), given("child_of"))
    for r in cs:
        t = argn(r, 5, "start_time")
        c.ob("start", "no time", t is None or every(a, t, lambda l: isconst(l, None)), r.where, "without a start time %s is used" % t)
    g = c.prog.func(OT + ".create_tracer")
    a = c.an(g, None)
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            c.ob("start", "create_tracer", makes(l, "TracerShim") and first(l) is not None and on("get_tracer", is_param(g.params()[0][0]))(first(l)), r.where, "the tracer is %s" % l)


def start_active(c):
    k = c.prog.cls(OT + ".TracerShim")
    f = c.method(k, "start_active_span")
    pol = Policy(deny=("start_span", "activate"))
    names = ("operation_name", "child_of", "references", "tags", "start_time", "ignore_active_span")

    def world(con, params, orc):
        a = c.an(f, k, policy=pol, params=params, oracle=oracle(*orc))
        cs = [r for r in a.calls(name="start_span") if r.t.get("recv") is not None and is_self(r.t["recv"])]
        q = always(a, cs, exc=False) if cs else None
        c.ob("start", con, bool(cs) and q is None, f.where, "no span is started: %s" % witness(a, q))
        return a, cs
    for ign in (True, False):
        a, cs = world("active, parent given", {"ignore_active_span": lambda T: T.const(ign)}, given("child_of"))
        for r in cs:
            for i, n in enumerate(names):
                t = argn(r, i, n)
                good = (lambda l: isconst(l, ign)) if n == "ignore_active_span" else is_param(n)
                c.ob("start", "active %s" % n, every(a, t, good), r.where, "%s is handed on as %s" % (n, t))
            act = [x for x in a.calls(name="activate")]
            q = path_from(a, norm_edges(r), act, exits(a, True, False))
            c.ob("start", "activated", bool(act) and q is None, r.where, "the span is not activated: %s" % witness(a, q))
            for x in act:
                c.ob("start", "activated", argn(x, 0, "span") is r.dst and every(a, argn(x, 1, "finish_on_close"), is_param("finish_on_close")), x.where, "another span (or end) is activated: %s" % (x.args,))
                c.ob("start", "activated", all(l is x.dst for y in a.rets() for l in a.leaves(y.t["val"])), x.where, "the scope is not returned")
    a, cs = world("active, ignored", dict(absent("child_of"), ignore_active_span=lambda T: T.const(True)), [])
    for r in cs:
        t = argn(r, 1, "child_of")
        c.ob("start", "active ignored here", t is None or every(a, t, lambda l: isconst(l, None)), r.where, "the active span is the parent although it is to be ignored: %s" % t)
    a, cs = world("active, default", dict(absent("child_of"), ignore_active_span=lambda T: T.const(False)), [])
    for r in cs:
        t = argn(r, 1, "child_of")
        c.ob("start", "active default", t is None or every(a, t, lambda l: isconst(l, None) or a.derives(l, is_call(name="get_current_span")) or mentions(l, is_call(name="get_current_span"))), r.where, "the parent is %s" % t)


# -- opentracing: scopes -------------------------------------------------------------------------------
def scopes(c):
    k = c.prog.cls(OT + ".ScopeShim")
    f = c.method(k, "__init__")
    a = c.am(k, "__init__")
    att = [r for r in a.calls(name="attach")]
    TOK = {r.instr.name for r in self_stores(a) if any(l is x.dst for x in att for l in a.leaves(r.t["val"]))}
    CM = field_of_param(a, "span_cm")
    keys = []
    for r in att:
        v = r.args[0] if r.args else None
        ok = v is not None and is_call(name="set_value")(v) and len(call_args(v)) >= 2 and is_self(call_args(v)[1])
        keys.append(call_args(v)[0] if ok else None)
        c.ob("scope", "entered", ok, r.where, "the scope is not the one made current: %s" % v)
    c.ob("scope", "entered", bool(att) and bool(TOK) and always(a, att, exc=False) is None, f.where, "the scope is not made current (or cannot be taken back)")
    for n in ("close", "__exit__"):
        m = c.method(k, n)
        ps = m.params()[0][1:]
        for cm in (True, False):
            b = c.an(m, k, policy=POL, oracle=oracle(o_isnone(is_field(CM), not cm), o_truth(is_field(CM), cm)))
            det = [r for r in b.calls(name="detach") if r.args and all(is_field(TOK)(l) for l in b.leaves(r.args[0]))]
            q = always(b, det, exc=False) if det else None
            c.ob("scope", n, bool(det) and q is None, m.where, "the scope stays current after it is closed: %s" % witness(b, q))
            if cm:
                ends = [r for r in b.calls(name="__exit__") if r.t.get("recv") is not None and all(is_field(CM)(l) for l in b.leaves(r.t["recv"]))]
                for r in ends:
                    want = [is_param(p) for p in ps] if n == "__exit__" else [lambda l: isconst(l, None)] * 3
                    c.ob("scope", n + " reports", len(r.args) == 3 and all(every(b, x, w) for x, w in zip(r.args, want)), r.where, "the exception is handed on as %s" % (r.args,))
            else:
                ends = [r for r in b.calls(name="end") if r.t.get("recv") is not None and mentions(r.t["recv"], is_call(name="unwrap"))] + [r for r in b.calls(name="finish")]
            q = always(b, ends, exc=False) if ends else None
            c.ob("scope", n + (" restores" if cm else " ends"), bool(ends) and q is None, m.where, "the span activated before is not restored or the span not ended: %s" % witness(b, q))
    # activation
    k = c.prog.cls(OT + ".ScopeManagerShim")
    f = c.method(k, "activate")
    a = c.an(f, k, policy=Policy(mods=(OT,), deny=("__init__",)))
    W = wrapped(c, c.prog.cls(OT + ".SpanShim"), "span")
    held = lambda l: unwrapped(is_param("span"))(l) or l.op == "attr" and l.args[1] in W and is_param("span")(l.args[0])
    us = [r for r in a.calls(name="use_span")]
    c.ob("scope", "activate", bool(us), f.where, "the span is not made current")
    for r in us:
        c.ob("scope", "activate", every(a, argn(r, 0, "span"), held), r.where, "another span is made current: %s" % argn(r, 0, "span"))
        c.ob("scope", "activate ends", every(a, argn(r, 1, "end_on_exit"), is_param("finish_on_close")), r.where, "whether the span ends with the scope is %s" % argn(r, 1, "end_on_exit"))
        en = [x for x in a.calls(name=("__enter__",)) if x.t.get("recv") is r.dst]
        q = always(a, en, exc=False) if en else None
        c.ob("scope", "activate enters", bool(en) and q is None, r.where, "the span is not entered: %s" % witness(a, q))
        for x in a.rets():
            for l in a.leaves(x.t["val"]):
                w = dict(zip(("manager", "span", "span_cm"), l.args[2]), **kwof(l)) if l.op == "obj" else {}
                s = w.get("span")
                inner = s.args[2][2] if s is not None and s.op == "obj" and len(s.args[2]) > 2 else kwof(s).get("span") if s is not None and s.op == "obj" else None
                ok = makes(l, "ScopeShim") and w.get("span_cm") is r.dst and s is not None and (is_param("span")(s) or any(inner is y.dst for y in en) or inner is not None and held(inner))
                c.ob("scope", "activate result", ok, x.where, "the scope returned is not that of the span: %s" % l)
    # the active scope
    f = c.prog.find_method(k, "active")
    inv = lambda v: lambda a, t, st: v if t.op in ("eq", "is") and any(x.op == "glob" and x.args[0].endswith("INVALID_SPAN_CONTEXT") for x in t.args) or False else None
    valid = lambda v: lambda a, t, st: v if t.op == "attr" and t.args[1] == "is_valid" or t.op == "istrue" and t.args[0].op == "attr" and t.args[0].args[1] == "is_valid" else None
    pol = Policy(mods=(OT,), deny=("__init__",))
    a = c.an(f, k, policy=pol, oracle=oracle(inv(True), valid(False)))
    c.ob("scope", "no active span", bool(a.rets()) and all(isconst(l, None) for r in a.rets() for l in a.leaves(r.t["val"])), f.where, "a scope is active although no span is")
    shim = is_call(name="get_value")
    cur = is_call(name="get_current_span")

    def wraps(l):
        w = dict(zip(("manager", "span", "span_cm"), l.args[2]), **kwof(l)) if l.op == "obj" else {}
        s = w.get("span")
        sp = (s.args[2][2] if len(s.args[2]) > 2 else kwof(s).get("span")) if s is not None and s.op == "obj" else None
        return makes(l, "ScopeShim") and sp is not None and cur(sp)
    # a span that was not made current through the bridge
    o_other = lambda same: lambda a, t, st: same if t.op in ("eq", "is") and any(mentions(x, cur) for x in t.args) and any(mentions(x, shim) for x in t.args) else None
    a = c.an(f, k, policy=pol, oracle=oracle(inv(False), valid(True), o_isnone(shim, True), o_truth(shim, False)))
    bad = [l for r in a.rets() for l in a.leaves(r.t["val"]) if not wraps(l)]
    c.ob("scope", "active outside", bool(a.rets()) and not bad, f.where, "for a span made current outside the bridge the active scope is %s" % (bad or ["none"])[0])
    a = c.an(f, k, policy=pol, oracle=oracle(inv(False), valid(True), o_isnone(shim, False), o_truth(shim, True), o_other(False)))
    bad = [l for r in a.rets() for l in a.leaves(r.t["val"]) if not wraps(l)]
    c.ob("scope", "active inside", bool(a.rets()) and not bad, f.where, "for a span made current outside the bridge within a scope the active scope is %s" % (bad or ["none"])[0])
    a = c.an(f, k, policy=pol, oracle=oracle(inv(False), valid(True), o_isnone(shim, False), o_truth(shim, True), o_other(True)))
    got = [l for r in a.rets() for l in a.leaves(r.t["val"])]
    c.ob("scope", "active scope", bool(got) and all(shim(l) and call_args(l) and any(x is not None and str(call_args(l)[0]) == str(x) for x in keys) for l in got), f.where, "the active scope is %s" % (got or ["none"])[0])


# -- opentracing: carriers ---------------------------------------------------------------------------------
def carriers(c):
    k = c.prog.cls(OT + ".TracerShim")
    am = c.am(k, "__init__")
    fm = {r.instr.name: [str(x.args[0]).rpartition(".")[2] for l in am.leaves(r.t["val"]) for x in subterms(l) if x.op in ("glob",) and ".Format." in str(x.args[0])] for r in self_stores(am)}
    S = {n for n, v in fm.items() if v}
    c.ob("carrier", "formats", any({"TEXT_MAP", "HTTP_HEADERS"} <= set(v) for v in fm.values()) and not any("BINARY" in v for v in fm.values()), am.fi.where, "the supported formats are %s" % fm)
    sup = lambda v: lambda a, t, st: v if t.op == "in" and is_param("format")(t.args[0]) else None
    glob = is_call(name="get_global_textmap")
    for n in ("inject", "extract"):
        f = c.method(k, n)
        a = c.an(f, k, oracle=sup(False))
        c.ob("carrier", n + " unsupported", not a.rets() and not exits(a, True, False), f.where, "an unsupported format is accepted")
        tests = [t for r in c.an(f, k).events("branch") for t in subterms(r.t["cond"]) if t.op == "in" and is_param("format")(t.args[0])]
        c.ob("carrier", n + " unsupported", bool(tests) and all(is_field(S)(t.args[1]) or t.args[1].op in ("tup", "new", "const") for t in tests), f.where, "the format is not compared with the supported ones")
    f = c.method(k, "inject")
    is_ctx = lambda v: lambda a, t, st: v if t.op == "isinst" and t.args[1].op == "glob" and t.args[1].args[0].endswith(".SpanContext") else None
    src = unwrapped(is_param("span_context"))
    for v in (True, False):
        a = c.an(f, k, oracle=oracle(sup(True), is_ctx(v), *given("span_context")))
        cs = [r for r in a.calls(name="inject") if r.t.get("recv") is not None and every(a, r.t["recv"], glob)]
        q = always(a, cs, exc=False) if cs else None
        c.ob("carrier", "inject", bool(cs) and q is None, f.where, "nothing is injected by the global propagator: %s" % witness(a, q))
        for r in cs:
            c.ob("carrier", "inject into", every(a, argn(r, 0, "carrier"), is_param("carrier")), r.where, "another carrier is filled")
            p = parent_of(a, r)
            c.ob("carrier", "inject what", p is not None and all((makes(l, "NonRecordingSpan") and src(first(l))) if v else src(l) for l in p), r.where, "what is injected is %s" % (p or ["the active span"])[0])
    f = c.method(k, "extract")
    a = c.an(f, k, oracle=sup(True))
    ex = on("extract", glob)
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            ok = makes(l, "SpanContextShim") and first(l) is not None
            for x in (a.leaves(first(l)) if ok else ()):
                if x.op == "glob" and x.args[0].endswith("INVALID_SPAN_CONTEXT"):
                    continue
                s = callee_of(x).args[0] if on("get_span_context", lambda t: True)(x) else None
                e = first(s) if s is not None and is_call(name="get_current_span")(s) else None
                ok = ok and e is not None and ex(e) and is_param("carrier")(first(e))
            c.ob("carrier", "extract", ok, r.where, "what is extracted is %s" % l)
    c.ob("carrier", "extract", bool(a.rets()), f.where, "nothing is extracted")


# -- opencensus ------------------------------------------------------------------------------------------
def census_context(c):
    f = c.prog.func(OC + "._shim_tracer.set_oc_span_in_context")
    sp, cp = f.params()[0][:2]
    X = is_param(sp)
    at = lambda n: lambda t: t.op == "attr" and t.args[1] == n and X(t.args[0])
    a = c.an(f, None, oracle=o_isnone(at("span_id"), True))
    c.ob("census", "no parent", bool(a.rets()) and all(is_param(cp)(l) for r in a.rets() for l in a.leaves(r.t["val"])), f.where, "without a parent the context given is not kept")
    en = lambda t: is_call(name="get_enabled")(t) and mentions(t, at("trace_options"))
    ts = lambda v: lambda a, t, st: v if t.op == "isinst" and at("tracestate")(t.args[0]) else None
    for on_, st_ in ((True, True), (False, False)):
        a = c.an(f, None, oracle=oracle(o_isnone(at("span_id"), False), o_truth(en, on_), ts(st_)))
        con = "parent %s" % ("sampled with state" if on_ else "not sampled without state")
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                ok = is_call(name="set_span_in_context")(l)
                ctx = (kwof(l).get("context") or (call_args(l)[1] if len(call_args(l)) > 1 else None)) if ok else None
                c.ob("census", con + " context", ctx is not None and is_param(cp)(ctx), r.where, "what the context given holds is lost")
                s = first(l) if ok else None
                sc = first(s) if s is not None and makes(s, "NonRecordingSpan") else None
                w = dict(zip(("trace_id", "span_id", "is_remote", "trace_flags", "trace_state"), sc.args[2] if sc.op == "obj" else call_args(sc)), **kwof(sc)) if sc is not None and makes(sc, "SpanContext") else {}
                for n in ("trace_id", "span_id"):
                    v = w.get(n)
                    c.ob("census", "%s %s" % (con, n), v is not None and is_call(fqn="builtins.int")(v) and at(n)(call_args(v)[0]) and len(call_args(v)) > 1 and isconst(call_args(v)[1], 16), r.where, "%s is %s" % (n, v))
                v = w.get("is_remote")
                c.ob("census", con + " remote", v is not None and at("from_header")(v), r.where, "is_remote is %s" % v)
                v = w.get("trace_flags")
                fl = a.leaves(v) if v is not None else []
                if on_:
                    ok = bool(fl) and all(sampled(c, a, x) for x in fl)
                else:
                    ok = all(isconst(x, None) or x.op == "glob" and "DEFAULT" in x.args[0] or makes(x, "TraceFlags") and not mentions(x, lambda y: y.op == "glob" and y.args[0].endswith("SAMPLED")) for x in fl)
                c.ob("census", con + " flags", ok, r.where, "the flags are %s" % v)
                v = w.get("trace_state")
                tl = a.leaves(v) if v is not None else []
                if st_:
                    ok = bool(tl) and all(makes(x, "TraceState") and mentions(x, at("tracestate")) for x in tl)
                else:
                    ok = all(isconst(x, None) or makes(x, "TraceState", "get_default") and not mentions(x, at("tracestate")) for x in tl)
                c.ob("census", con + " state", ok, r.where, "the trace state is %s" % v)
    # times
    f = c.prog.func(OC + "._shim_span._opencensus_time_to_nanos")
    a = c.an(f, None)
    p = f.params()[0][0]
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            parse = [t for t in subterms(l) if is_call(name="strptime")(t) or is_call(name="fromisoformat")(t)]
            ok = bool(parse) and all(is_param(p)(x) or mentions(x, is_param(p)) for t in parse for x in (first(t),))
            fmt = all(is_call(name="fromisoformat")(t) or any(isconst(x, "%Y-%m-%dT%H:%M:%S.%fZ") or isconst(x, "%Y-%m-%dT%H:%M:%S.%f%z") for x in call_args(t)) for t in parse)
            c.ob("census", "time", ok and fmt, r.where, "the time is read as %s" % l)
            utc = lambda x: x.op in ("glob", "attr") and str(x.args[0] if x.op == "glob" else x).rpartition(".")[2] in ("utc", "UTC")
            zone = mentions(l, utc) or any(isconst(x, "%Y-%m-%dT%H:%M:%S.%f%z") for t in parse for x in call_args(t)) or mentions(l, is_call(name="timegm"))
            c.ob("census", "time zone", zone, r.where, "a time in UTC is taken for local time: %s" % l)
            # seconds to nanoseconds: evaluate with the instant standing for 1000
            stamp = [t for t in subterms(l) if is_call(name=("timestamp", "timegm"))(t)]
            if stamp:
                v = ev_at(a, l, stamp[0])
                c.ob("census", "time unit", v is not None and abs(v - 10 ** 12) < 1, r.where, "the time is scaled to %s" % v)


def ev_at(a, t, at):
    def num(t):
        if t is at:
            return 1000
        if t.op == "const" and isinstance(t.args[0], (int, float)):
            return t.args[0]
        if callee_of(t) is not None and callee_of(t).op == "glob" and callee_of(t).args[0] in ("builtins.round", "builtins.int") and call_args(t):
            return num(call_args(t)[0])
        if t.op == "bin":
            x, y = num(t.args[1]), num(t.args[2])
            if x is None or y is None:
                return None
            return {"Mult": lambda: x * y, "Div": lambda: x / y if y else None, "FloorDiv": lambda: x // y if y else None, "Add": lambda: x + y, "Pow": lambda: x ** y if abs(y) < 20 else None}.get(t.args[0], lambda: None)()
        return None
    return num(t)


def sampled(c, a, x):
    if x.op == "glob":
        mod, _, n = x.args[0].rpartition(".")
        m = c.prog.modules.get(mod)
        es = m.globals.get(n) if m is not None else None
        if es and len(es) == 1:
            t = a.expr_term(m, es[0])
            return t is not None and mentions(t, lambda y: y.op == "glob" and y.args[0].endswith("TraceFlags.SAMPLED") or isconst(y, 1))
        return x.args[0].endswith("TraceFlags.SAMPLED")
    return mentions(x, lambda y: y.op == "glob" and y.args[0].endswith("TraceFlags.SAMPLED") or isconst(y, 1))


def census_span(c):
    k = c.prog.cls(OC + "._shim_span.ShimSpan")
    S = is_field(wrapped(c, k, "otel_span"))
    TR = is_field(wrapped(c, k, "shim_tracer"))

    def must(m, name, checks, **kw):
        f = c.method(k, m)
        a = c.an(f, k, **kw)
        cs = [r for r in a.calls(name=name) if r.t.get("recv") is not None and every(a, r.t["recv"], S)]
        q = always(a, cs, exc=False) if cs else None
        c.ob("census", m, bool(cs) and q is None, f.where, "the span is not reached: %s" % witness(a, q))
        for r in cs:
            for what, pos, names, pred in checks:
                t = argn(r, pos, *names)
                c.ob("census", "%s %s" % (m, what), every(a, t, lambda l: pred(a, l)), r.where, "%s is %s" % (what, t))
        return a, cs
    must("add_attribute", "set_attribute", [("key", 0, ("key",), lambda a, l: is_param("attribute_key")(l)), ("value", 1, ("value",), lambda a, l: is_param("attribute_value")(l))])
    f = c.method(k, "add_annotation")
    va = f.params()[3]
    must("add_annotation", "add_event", [("description", 0, ("name",), lambda a, l: is_param("description")(l)), ("attributes", 1, ("attributes",), lambda a, l: mentions(l, is_param(va)) or l.op in ("kwargs", "new") or va in str(l))])
    ok = lambda t: t.op == "attr" and t.args[1] == "is_ok" and is_param("status")(t.args[0])
    for v in (True, False):
        must("set_status", "set_status", [("code", 0, ("status",), lambda a, l: l.op == "glob" and l.args[0].endswith("StatusCode." + ("OK" if v else "ERROR"))), ("description", 1, ("description",), lambda a, l: l.op == "attr" and l.args[1] == "description" and is_param("status")(l.args[0]))], oracle=o_truth(ok, v))
    must("finish", "end", [])
    # message events
    f = c.method(k, "add_message_event")
    p = f.params()[0][1]
    at = lambda n: lambda t: t.op == "attr" and t.args[1] == n and is_param(p)(t.args[0])
    for there, size in ((True, True), (True, False), (False, False)):
        a, cs = must("add_message_event", "add_event", [("name", 0, ("name",), lambda a, l: mentions(l, at("id"))), ("time", 2, ("timestamp",), lambda a, l: is_call(name="_opencensus_time_to_nanos")(l) and at("timestamp")(first(l)) or mentions(l, at("timestamp")))], oracle=oracle(*[x for n in ("uncompressed_size_bytes", "compressed_size_bytes") for x in (o_isnone(at(n), not there), o_truth(at(n), size))]))
        for r in cs:
            t = argn(r, 1, "attributes")
            cont = {kk.args[0]: v for l in ls(a, t) for kk, v, i in a.contents.get(l, ()) if kk is not None and kk.op == "const"}
            for l in ls(a, t):
                for kk, v, i in a.contents.get(l, ()):
                    if kk is not None and kk.op == "glob":
                        m, _, n = kk.args[0].rpartition(".")
                        es = c.prog.modules[m].globals.get(n) if m in c.prog.modules else None
                        if es:
                            x = a.expr_term(c.prog.modules[m], es[0])
                            if x is not None and x.op == "const":
                                cont[x.args[0]] = v
            c.ob("census", "message type", "message.event.type" in cont and mentions(cont["message.event.type"], at("type")), r.where, "the event does not carry its type: %s" % sorted(cont))
            for n, s in (("uncompressed", "uncompressed_size_bytes"), ("compressed", "compressed_size_bytes")):
                v = cont.get("message.event.size." + n)
                c.ob("census", "message %s size %s" % (n, "given" if there else "absent"), v is not None and at(s)(v) if there else v is None, r.where, "the %s size is %s" % (n, v))
    tab = c.prog.modules[k.mod.name].globals
    for n, es in tab.items():
        for e in es:
            if isinstance(e, ast.Dict) and len(e.keys) == 3:
                d = {getattr(x, "value", None): getattr(y, "value", None) for x, y in zip(e.keys, e.values)}
                if "SENT" in d.values():
                    c.ob("census", "message types", d == {0: "TYPE_UNSPECIFIED", 1: "SENT", 2: "RECEIVED"}, k.mod.path, "the message types are %s" % d)
    # leaving
    f = c.method(k, "__exit__")
    a = c.an(f, k)
    ex = [r for r in a.calls(name="__exit__") if r.t.get("recv") is not None and every(a, r.t["recv"], S)]
    ps = f.params()[0][1:]
    c.ob("census", "exit", bool(ex) and always(a, ex, exc=False) is None, f.where, "the span is not left")
    for r in ex:
        c.ob("census", "exit reports", len(r.args) == 3 and all(every(a, x, is_param(p)) for x, p in zip(r.args, ps)), r.where, "the exception is handed on as %s" % (r.args,))
    detached(c, a, f, "exit", ex)
    f = c.method(k, "__enter__")
    a = c.an(f, k)
    c.ob("census", "enter", bool(a.rets()) and all(is_self(l) for r in a.rets() for l in a.leaves(r.t["val"])), f.where, "the shim span is not what the with statement yields")
    f = c.method(k, "span")
    a = c.an(f, k)
    cs = [r for r in a.calls(name=("start_span", "span")) if r.t.get("recv") is not None and every(a, r.t["recv"], TR)]
    c.ob("census", "child", bool(cs) and all(every(a, argn(r, 0, "name"), is_param("name")) for r in cs) and all(any(l is r.dst for r in cs) for x in a.rets() for l in a.leaves(x.t["val"])), f.where, "a child is not started by the shim's tracer")


def detached(c, a, f, con, after):
    """After the span was left, on every path (also exceptional), the context is restored."""
    det = [r for r in a.calls(name="detach")]
    for r in after:
        q = path_from(a, [e for e in r.instr.block.succs], det, exits(a))
        c.ob("census", con + " detaches", bool(det) and q is None, r.where, "the span stays current: %s" % witness(a, q))
    for r in det:
        c.ob("census", con + " detaches", bool(r.args) and every(a, r.args[0], lambda l: l.op == "attr" and l.args[1] == "_self_token"), r.where, "another token is given back: %s" % (r.args,))
    ec = [r for r in a.calls(name="set_current_span")]
    now = is_call(name=("current_span", "get_shim_span_in_context", "get_value"))
    # asking which span is current is not what fails
    asks = [r for r in a.recs if r.instr.kind == "call" and r.dst is not None and now(r.dst) and path_from(a, norm_edges(r), ec, exits(a)) is None]
    q = path_from(a, [e for r in det for e in norm_edges(r)], ec + asks, exits(a))

    def again(l):
        rs = [r for r in a.recs if r.dst is l]
        return now(l) and bool(rs) and all(a.path_avoiding(a.b.entry, [x.instr for x in det], [r.instr.block], skip_first=False) is None for r in rs)
    c.ob("census", con + " current", bool(ec) and q is None and all(r.args and every(a, r.args[0], again) for r in ec), f.where, "the OpenCensus current span is not the one that is current again: %s" % (witness(a, q) or [str(r.args) for r in ec]))


def census_tracer(c):
    k = c.prog.cls(OC + "._shim_tracer.ShimTracer")
    f = c.method(k, "start_span")
    TF, CF = wrapped(c, k, "otel_tracer"), wrapped(c, k, "oc_span_context")
    cur = is_call(name="get_current_span")
    for active in (True, False):
        o = lambda a, t, st: (not active) if t.op in ("is", "eq") and any(cur(x) for x in t.args) and any(x.op == "glob" and x.args[0].endswith("INVALID_SPAN") for x in t.args) else None
        a = c.an(f, k, policy=Policy(mods=(k.mod.name,), deny=("set_oc_span_in_context", "__init__")), oracle=o)
        cs = [r for r in a.calls(name="start_span") if r.t.get("recv") is not None and every(a, r.t["recv"], is_field(TF))]
        q = always(a, cs, exc=False) if cs else None
        con = "start with %s" % ("an active span" if active else "the parent given to the tracer")
        c.ob("census", con, bool(cs) and q is None, f.where, "no span is started: %s" % witness(a, q))
        for r in cs:
            c.ob("census", con + " name", every(a, argn(r, 0, "name"), is_param("name")), r.where, "the name is %s" % argn(r, 0, "name"))
            t = argn(r, 1, "context")
            if active:
                good = lambda l: is_call(name="get_current")(l) or isconst(l, None)
                okay = t is None or every(a, t, good)
            else:
                good = lambda l: is_call(name="set_oc_span_in_context")(l) and call_args(l) and is_field(CF)(call_args(l)[0])
                okay = every(a, t, good)
            c.ob("census", con + " parent", okay, r.where, "the parent is taken from %s" % t)
            att = [x for x in a.calls(name="attach")]
            q = path_from(a, norm_edges(r), att, exits(a, True, False))
            c.ob("census", con + " current", bool(att) and q is None, r.where, "the span is not made current: %s" % witness(a, q))
            for x in att:
                v = x.args[0] if x.args else None
                inner = [t for t in subterms(v) if is_call(name="set_span_in_context")(t)] if v is not None else []
                sh = [t for t in subterms(v) if is_call(name=("set_shim_span_in_context", "set_value"))(t) and any(makes(x, "ShimSpan") and kwof(x).get("otel_span") is r.dst for x in call_args(t))] if v is not None else []
                c.ob("census", con + " current", any(first(t) is r.dst for t in inner) and bool(sh), x.where, "what is made current is %s" % v)
                st = [y for y in a.events("store_attr") if any(l is x.dst for l in a.leaves(y.t["val"])) and y.instr.name == "_self_token"]
                c.ob("census", con + " token", bool(st), x.where, "the token of the context is not kept")
                for y in a.rets():
                    for l in a.leaves(y.t["val"]):
                        c.ob("census", con + " result", makes(l, "ShimSpan") and kwof(l).get("otel_span") is r.dst and any(z.t["base"] is l for z in st), y.where, "the span returned is %s" % l)
    f = c.method(k, "end_span")
    a = c.an(f, k, oracle=oracle(o_truth(is_call(name=("current_span", "get_shim_span_in_context", "get_value")), True)))
    fin = [r for r in a.calls(name="finish")]
    q = always(a, fin, exc=False) if fin else None
    c.ob("census", "end", bool(fin) and q is None, f.where, "the current span is not ended: %s" % witness(a, q))
    detached(c, a, f, "end", fin)
    f = c.method(k, "current_span")
    a = c.an(f, k, policy=POL)
    c.ob("census", "current", bool(a.rets()) and all(is_call(name=("get_value", "get_shim_span_in_context"))(l) for r in a.rets() for l in a.leaves(r.t["val"])), f.where, "the current span is not that of the context")
    f = c.prog.func(OC + "._patch.install_shim")
    parent_of_tracers(c, f)
    a = c.an(f, None)
    gt = [r for r in a.calls(name="get_tracer")]
    c.ob("census", "install", bool(gt) and all(every(a, argn(r, 2, "tracer_provider"), is_param("tracer_provider")) for r in gt), f.where, "the provider given is not used")
    st = [r for r in a.events("store_attr") if r.instr.name == "tracer"]
    c.ob("census", "install", bool(st) and always(a, st, exc=False) is None, f.where, "the OpenCensus tracer is not replaced")


def parent_of_tracers(c, f):
    """The shim tracer handed out for an OpenCensus tracer has its span context."""
    nested = [x for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.Lambda))]
    names = {x.name: x for x in nested if isinstance(x, ast.FunctionDef)}

    def arg(call, pos, name):
        return next((k.value for k in call.keywords if k.arg == name), call.args[pos] if pos < len(call.args) else None)

    def owner(node):
        inside = [x for x in nested if any(y is node for y in ast.walk(x))]
        return min(inside, key=lambda x: len(list(ast.walk(x)))) if inside else None

    def right(e, depth=0):
        """None when unknown."""
        if e is None or depth > 4:
            return None
        if isinstance(e, ast.Attribute):
            return e.attr == "span_context"
        o = owner(e)
        if isinstance(e, ast.Name) and o is not None:
            ps = [x.arg for x in o.args.posonlyargs + o.args.args + o.args.kwonlyargs]
            if e.id in ps:
                n = next((n for n, x in names.items() if x is o), None)
                calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n]
                rs = [right(arg(x, ps.index(e.id), e.id), depth + 1) for x in calls]
                return False if False in rs else None if None in rs or not rs else True
            vs = [x.value for x in ast.walk(o) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            return right(vs[0], depth + 1) if len(vs) == 1 else None
        return False if isinstance(e, (ast.Call, ast.Constant)) else None
    made_ = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) == "ShimTracer"]
    for x in made_:
        r = right(arg(x, 1, "oc_span_context"))
        c.ob("census", "install parent", r is not False, "%s:%d" % (f.mod.path, x.lineno), "the parent given to the OpenCensus tracer is not the one used")
