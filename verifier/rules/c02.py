"""C02: copy-on-write and immutability."""
from .lib import *

NOTE = "May-alias effect analysis: the receiver of every mutating operation in the value modules is traced back to its allocation; mutation of anything reachable from a parameter, from an immutable value object outside its construction, or from a context lookup is a violation."
MUT = {"update", "pop", "popitem", "clear", "setdefault", "append", "appendleft", "extend", "add", "remove", "insert", "discard", "move_to_end", "sort", "reverse", "__setitem__", "__delitem__", "popleft", "__setattr__", "__delattr__", "__ior__"}
CTX = "opentelemetry.context.context.Context"
MODS = ["opentelemetry.context", "opentelemetry.baggage", "opentelemetry.trace.propagation", "opentelemetry.propagate", "opentelemetry.propagators.b3", "opentelemetry.propagators.jaeger", "opentelemetry.propagators.composite"]
VALUE_CLASSES = ["opentelemetry.trace.span.TraceState", "opentelemetry.trace.span.SpanContext", "opentelemetry.sdk.resources.Resource"]
LOOKUPS = (GET_VALUE, GET_CURRENT, "opentelemetry.baggage.get_all", "opentelemetry.baggage.get_baggage")


def mutations(a):
    """(record, receiver term) of every in-place change of an object."""
    for r in a.recs:
        k = r.instr.kind
        if k in ("store_item", "del_item"):
            yield r, r.t["base"]
        elif k in ("store_attr", "del_attr"):
            yield r, r.t["base"]
        elif k == "call" and r.instr.fqn in ("builtins.setattr", "builtins.delattr", "builtins.object.__setattr__") and r.args:
            yield r, r.args[0]
        elif k == "call" and r.instr.name in MUT and r.t.get("recv") is not None:
            c = r.t["callee"]
            if c is not None and c.op == "glob" and c.args[0] in a.prog.classes:
                continue
            recv = r.t["recv"]
            if recv.op == "glob" and recv.args[0].startswith("builtins.") and r.args:
                recv = r.args[0]  # dict.update(x, ...)
            elif recv.op == "glob" and recv.args[0] in a.prog.classes and r.args:
                recv = r.args[0]
            elif callee_of(recv) is not None and is_call(fqn="builtins.super")(recv):
                recv = a.T.mk("self")
            # calls of our own copy-on-write methods (TraceState.add/update)
            fi = r.instr.a.get("fi")
            if fi is not None and fi.cls is not None and fi.cls.fqn in VALUE_CLASSES:
                continue
            yield r, recv
        elif k == "op" and r.instr.name.startswith("aug") and r.args and r.instr.name in ("augBitOr", "augAdd"):
            if r.instr.name == "augBitOr":
                yield r, r.args[0]


def bad_root(a, t, value_self):
    """Why the object t may be shared, or None when it is our own."""
    for l in a.leaves(t):
        rt = l
        # walk to the base of the access path, stopping at fresh copies
        seen = 0
        while True:
            seen += 1
            c = callee_of(rt)
            if rt.op in ("attr", "item", "elem", "slice") and seen < 20:
                rt = rt.args[0]
                continue
            if c is not None and c.op == "attr" and c.args[1] in ("keys", "values", "items", "get", "setdefault"):
                rt = c.args[0]
                continue
            break
        if rt.op == "phi":
            w = bad_root(a, rt, value_self) if rt is not t else None
            if w:
                return w
            continue
        if rt.op == "param":
            return "parameter %s" % rt.args[0]
        if rt.op == "self" and value_self:
            return "the object itself"
        c = callee_of(rt)
        if c is not None and c.op == "glob" and (c.args[0] in LOOKUPS or (c.args[0] in a.prog.funcs and l is rt)):
            return "the value returned by %s" % c.args[0]
        if rt.op == "glob" and rt is not l or (rt.op == "glob" and rt.args[0].rpartition(".")[0] in a.prog.modules):
            return "module state %s" % rt.args[0]
    return None


def run(c):
    prog = c.prog
    funcs = [f for f in program_funcs(prog, MODS)]
    for k in VALUE_CLASSES:
        funcs += list(prog.cls(k).methods.values())
    # the function that merges detector results and the detectors themselves
    funcs += [f for f in program_funcs(prog, "opentelemetry.sdk.resources") if f not in funcs]
    n = 0
    for f in funcs:
        if f.name in ("__init__", "__new__"):
            isvalue = False
        else:
            isvalue = f.cls is not None and any(k.fqn in VALUE_CLASSES or k.fqn == CTX for k in prog.mro(f.cls))
        a = c.an(f)
        bad = None
        for r, recv in mutations(a):
            # only code of the value modules is judged here
            why = bad_root(a, recv, isvalue)
            if why and f.name in ("__init__", "__new__") and recv.op == "self":
                why = None
            if why and why.startswith("parameter") and f.name in ("inject",) and "carrier" in why:
                continue
            if why and r.instr.frame.fi is not f and r.instr.frame.fi.cls is not None and r.instr.frame.fi.name in ("__init__", "__new__") and recv.op in ("obj", "self"):
                why = None
            if why:
                bad = (r, why)
                break
        n += 1
        c.ob("no-in-place-change", f.fqn, bad is None, bad[0].where if bad else f.where, "%s changed in place (%s)" % (bad[1] if bad else "", bad[0].instr.name if bad else ""))
    c.floor("no-in-place-change", 40)
    results(c)
    guards(c)


def obj_of(a, t, fqn):
    return t.op == "obj" and t.args[1] == fqn


def results(c):
    prog = c.prog
    # set_value: a new Context built from a copy of the given one plus the value
    a = c.an(SET_VALUE)
    pos = a.fi.params()[0]
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            isnew = (l.op == "obj" and l.args[1] == CTX) or (callee_of(l) is not None and callee_of(l).op == "glob" and callee_of(l).args[0] == CTX)
            c.ob("set-value-new", SET_VALUE, isnew, r.where, "set_value does not return a new Context but %s" % l)
            src = a.sources(l)
            for p in pos[:2]:
                c.ob("set-value-content", "%s.%s" % (SET_VALUE, p), any(is_param(p)(x) for x in src), r.where, "the context returned does not contain %s" % p)
            c.ob("set-value-content", "%s.base" % SET_VALUE, any(is_param(pos[2])(x) for x in src), r.where, "the context returned is not built on the one given")
    # baggage operations
    for fn in ("set_baggage", "remove_baggage", "clear"):
        f = prog.func("opentelemetry.baggage." + fn)
        a = c.an(f)
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                ok = is_call(fqn=SET_VALUE)(l)
                c.ob("baggage-new-context", f.fqn, ok, r.where, "returns %s rather than an updated context" % l)
                if not ok:
                    continue
                ar = call_args(l)
                val = ar[1] if len(ar) > 1 else dict(x for x in l.args[3] if isinstance(x, tuple)).get("value")
                if val is None:
                    continue
                c.ob("baggage-fresh", f.fqn, fresh(a, val), r.where, "the baggage stored in the new context is not a private copy: %s" % val)
                src = a.sources(val)
                if fn == "set_baggage":
                    for p in f.params()[0][:2]:
                        c.ob("baggage-content", "%s.%s" % (f.fqn, p), any(is_param(p)(x) for x in src), r.where, "the new baggage does not contain %s" % p)
                if fn != "clear":
                    c.ob("baggage-content", "%s.base" % f.fqn, any(is_call(fqn=GET_VALUE)(x) for x in src), r.where, "the new baggage is not built on the old one")
        if fn == "remove_baggage":
            name = f.params()[0][0]
            rm = [r for r in a.recs if (r.instr.kind == "call" and r.instr.name in ("pop", "discard") and r.args and is_param(name)(r.args[0])) or (r.instr.kind == "del_item" and is_param(name)(r.t["key"])) or (r.instr.kind == "branch" and any(is_param(name)(x) for x in subterms(r.t["cond"])))]
            c.ob("baggage-remove", f.fqn, bool(rm), f.where, "the named entry is not removed")
        if fn == "clear":
            for r in a.rets():
                for l in a.leaves(r.t["val"]):
                    if is_call(fqn=SET_VALUE)(l) and len(call_args(l)) > 1:
                        v = call_args(l)[1]
                        c.ob("baggage-clear", f.fqn, v.op == "new" and not a.contents.get(v) or v.op == "obj" and not v.args[2], r.where, "clear keeps entries")
    f = prog.func("opentelemetry.baggage.get_all")
    a = c.an(f)
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            c.ob("baggage-view", f.fqn, fresh(a, l), r.where, "get_all hands out the live baggage %s" % l)
    # TraceState: every updating method returns self (unchanged) or a new object; the raw dict never leaves
    ts = prog.cls("opentelemetry.trace.span.TraceState")
    for mn in ("add", "update", "delete"):
        a = c.am(ts, mn)
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                ok = l.op == "self" or (l.op == "obj" and l.args[1] == ts.fqn) or (callee_of(l) is not None and callee_of(l).op in ("glob", "cls") and (callee_of(l).op == "cls" or callee_of(l).args[0] == ts.fqn)) or (callee_of(l) is not None and "__class__" in str(callee_of(l)) or "type(" in str(l))
                c.ob("tracestate-new", "%s.%s" % (ts.fqn, mn), ok, r.where, "returns %s" % l)
        news = [l for r in a.rets() for l in a.leaves(r.t["val"]) if l.op == "obj"]
        c.ob("tracestate-updates", "%s.%s" % (ts.fqn, mn), bool(news) and all(any(x.op == "attr" and x.args[0].op == "self" for x in a.sources(l)) for l in news), a.fi.where, "%s never builds an updated trace state from the existing entries" % mn)
        if mn != "delete":
            ps = a.fi.params()[0][1:3]
            c.ob("tracestate-content", "%s.%s" % (ts.fqn, mn), all(all(any(is_param(p)(x) for x in a.sources(l)) for p in ps) for l in news), a.fi.where, "the new trace state lacks the given key or value")
    for mn, m in ts.methods.items():
        a = c.an(m, ts)
        for r in a.rets():
            if r.t["val"] is None:
                continue
            for l in a.leaves(r.t["val"]):
                c.ob("tracestate-private", "%s.%s" % (ts.fqn, mn), not (l.op == "attr" and l.args[0].op == "self"), r.where, "hands out its own entry dictionary")
    a = c.am(ts, "__init__")
    for r in a.events("store_attr"):
        if r.t["base"].op == "self":
            c.ob("tracestate-copies", "%s.%s" % (ts.fqn, r.instr.name), fresh(a, r.t["val"]), r.where, "keeps the caller's entries object by reference")
    # Resource.merge
    rs = prog.cls("opentelemetry.sdk.resources.Resource")
    a = c.am(rs, "merge")
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            c.ob("resource-new", rs.fqn + ".merge", l.op in ("self", "obj") or is_param(a.fi.params()[0][1])(l), r.where, "returns %s" % l)
    a = c.am(rs, "__init__")
    for r in a.events("store_attr"):
        v = r.t["val"]
        if r.t["base"].op == "self" and any(is_param("attributes")(x) for x in a.sources(v)):
            ok = all(l.op == "obj" and l.args[1] == "opentelemetry.attributes.BoundedAttributes" for l in a.leaves(v))
            c.ob("resource-immutable", rs.fqn, ok, r.where, "resource attributes are not kept in an immutable copy")
            for l in a.leaves(v):
                if l.op == "obj":
                    kw = dict(x for x in l.args[3] if isinstance(x, tuple) and x[0] != "**")
                    im = kw.get("immutable") or (l.args[2][2] if len(l.args[2]) > 2 else None)
                    d = prog.find_method(prog.cls(l.args[1]), "__init__").defaults().get("immutable")
                    ok = isconst(im, True) if im is not None else (d is not None and getattr(d, "value", None) is True)
                    c.ob("resource-immutable", rs.fqn + ".flag", ok, r.where, "resource attributes are mutable")


def no_change(a):
    for r, recv in mutations(a):
        if any(root(l).op == "self" for l in a.leaves(recv)):
            return r
    return None


def guards(c):
    prog = c.prog
    ctx = prog.cls(CTX)
    a = c.am(ctx, "__setitem__")
    m = no_change(a)
    ex = a.exit_blocks(exc=False)
    c.ob("context-rejects-assignment", CTX, not ex and m is None, a.fi.where, "assigning into a context can succeed")
    sc = prog.cls("opentelemetry.trace.span.SpanContext")
    for mn in ("__setattr__", "__delattr__"):
        a = c.am(sc, mn)
        m = no_change(a)
        up = [r for r in a.events("call") if r.instr.name in ("__setattr__", "__delattr__", "setattr", "delattr")]
        m = m or (up[0] if up else None)
        c.ob("spancontext-rejects", "%s.%s" % (sc.fqn, mn), m is None, m.where if m else a.fi.where, "changes the span context")
    ext = prog.bases_ext(sc)
    c.ob("spancontext-tuple", sc.fqn, any("uple" in b for b in ext), sc.fqn, "span contexts are no longer immutable tuples")
    c.ob("spancontext-no-setters", sc.fqn, not sc.setters and "__setitem__" not in sc.methods, sc.fqn, "span contexts have setters")
    ts = prog.cls("opentelemetry.trace.span.TraceState")
    c.ob("tracestate-readonly", ts.fqn, not ({"__setitem__", "__delitem__", "pop", "clear", "setdefault"} & set(ts.methods)) and not any("MutableMapping" in b or b in ("dict", "builtins.dict") for b in prog.bases_ext(ts)), ts.fqn, "trace states can be assigned into")
    ba = prog.cls("opentelemetry.attributes.BoundedAttributes")
    flag = None
    i = c.am(ba, "__init__")
    for r in i.events("store_attr"):
        if r.t["base"].op == "self" and any(is_param("immutable")(x) for x in i.sources(r.t["val"])):
            flag = r.instr.name
            c.ob("immutable-flag", ba.fqn, is_param("immutable")(r.t["val"]) or is_call(fqn="builtins.bool")(r.t["val"]), r.where, "the immutable flag is altered")
    c.ob("immutable-flag-kept", ba.fqn, flag is not None, i.fi.where, "the immutable flag is not kept")
    if flag is None:
        return
    for mn in ("__setitem__", "__delitem__"):
        a = c.am(ba, mn, oracle=oracle(o_truth(self_attr(flag), True), o_isnone(self_attr(flag), False)))
        m = no_change(a)
        c.ob("immutable-rejects", "%s.%s" % (ba.fqn, mn), m is None and not a.exit_blocks(exc=False), m.where if m else a.fi.where, "an immutable attribute collection can be changed")
    for mn in ("update", "pop", "popitem", "clear", "setdefault", "__ior__"):
        m = ba.methods.get(mn)
        if m is not None:
            a = c.am(ba, mn, oracle=oracle(o_truth(self_attr(flag), True), o_isnone(self_attr(flag), False)))
            x = no_change(a)
            c.ob("immutable-rejects", "%s.%s" % (ba.fqn, mn), x is None, x.where if x else m.where, "an immutable attribute collection can be changed")
    for mn, m in ba.methods.items():
        a = c.an(m, ba)
        for r in a.rets():
            if r.t["val"] is None:
                continue
            for l in a.leaves(r.t["val"]):
                c.ob("attributes-private", "%s.%s" % (ba.fqn, mn), not (l.op == "attr" and l.args[0].op == "self" and "dict" in l.args[1]), r.where, "hands out its own dictionary")
