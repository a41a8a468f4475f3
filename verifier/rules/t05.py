"""T05: limits."""
from .c03 import obj_field
from .lib import *

NOTE = "Every event, link and attribute collection that can be stored on a span or log record is traced to its construction, whose limit arguments must be the limits of its kind; BoundedAttributes and BoundedList are evaluated under each fill state; SpanLimits and LogLimits under each presence assumption."
BA = "opentelemetry.attributes.BoundedAttributes"
BL = "opentelemetry.sdk.util.BoundedList"
EV = "opentelemetry.sdk.trace.Event"
LK = "opentelemetry.trace.Link"
LOGREC = "opentelemetry.sdk._logs._internal.LogRecord"


def lim(name):
    """A field of a limits object."""
    return lambda t: t.op == "attr" and t.args[1] == name and (t.args[0].op == "param" and "limit" in t.args[0].args[0] or t.args[0].op == "attr" and "limit" in t.args[0].args[1])


def bounded_attrs(c, a, t, count, length, where, con, src=None):
    """t is a BoundedAttributes built with these limits."""
    ls = a.leaves(t) if t is not None else ()
    ok = bool(ls)
    for l in ls:
        if l.op != "obj" or l.args[1] != BA:
            ok = False
            continue
        m, v, at = obj_field(c.prog, l, "maxlen"), obj_field(c.prog, l, "max_value_len"), obj_field(c.prog, l, "attributes")
        c.ob("count-limit", con, all_are(a, m, lim(count)), where, "the attributes are not bounded by %s but %s" % (count, m))
        c.ob("length-limit", con, all_are(a, v, lim(length)), where, "attribute values are not bounded by %s but %s" % (length, v))
        if src is not None:
            c.ob("attributes-kept", con, at is not None and src(at), where, "the collection does not hold the attributes given")
    return c.ob("bounded", con, ok, where, "the attributes stored are not a bounded collection: %s" % t)


def content_objs(a, t, depth=0):
    """Members put into a list-like value."""
    out = set()
    if depth > 5 or t is None:
        return out
    for l in a.leaves(t):
        if l.op in ("new", "tup"):
            out |= set(x for x in l.args if isinstance(x, Term) and l.op == "tup")
            for k_, v, i in a.contents.get(l, ()):
                out |= set(a.leaves(v))
        elif callee_of(l) is not None and callee_of(l).op == "glob" and callee_of(l).args[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and call_args(l):
            out |= content_objs(a, call_args(l)[0], depth + 1)
        else:
            out.add(l)
    return out


def member_ok(c, a, v, cls, count, length, where, con):
    """A member stored in the event/link list carries bounded attributes."""
    prog = c.prog
    for l in a.leaves(v):
        if l.op == "obj":
            k = prog.classes.get(l.args[1])
            c.ob("member-kind", con, k is not None and prog.classes.get(cls) in prog.mro(k), where, "%s is stored" % l)
            f = obj_field(prog, l, "attributes")
            at = f
            # attributes may also be replaced after construction
            st = [r for r in a.events("store_attr") if r.instr.name == "_attributes" and any(x is l for x in a.leaves(r.t["base"]))]
            if st:
                at = st[-1].t["val"]
            bounded_attrs(c, a, at, count, length, where, con)
        elif l.op == "elem" or l.op in ("item", "param"):
            st = [r for r in a.events("store_attr") if r.instr.name == "_attributes" and any(x is l for x in a.leaves(r.t["base"]))]
            c.ob("bounded", con, bool(st), where, "a member given by the caller is stored with its own attributes")
            for r in st:
                bounded_attrs(c, a, r.t["val"], count, length, where, con)
        else:
            c.ob("bounded", con, False, where, "the origin of %s, which is stored, is not known" % l)


def run(c):
    prog = c.prog
    k = prog.cls(SPAN)
    spec = {"_events": ("max_events", EV, "max_event_attributes", "max_attribute_length"), "_links": ("max_links", LK, "max_link_attributes", "max_attribute_length")}
    pub = {n: m for kk in reversed(prog.mro(k)) for n, m in kk.methods.items() if kk.mod.name == "opentelemetry.sdk.trace" and (not n.startswith("_") or n in ("__init__", "__exit__"))}
    n_add = {"_events": 0, "_links": 0}
    for n, m in sorted(pub.items()):
        a = c.an(m, k, policy=Policy(mods=("opentelemetry.sdk.trace",)))
        for r in a.events("store_attr"):
            nm = r.instr.name
            if not is_self(r.t["base"]) or r.instr.block not in a.reach:
                continue
            if nm in spec or nm == "_attributes":
                if overwritten(a, r, nm):
                    continue
                con = "%s.%s stores %s" % (SPAN, n, nm)
                if nm == "_attributes":
                    bounded_attrs(c, a, r.t["val"], "max_span_attributes", "max_span_attribute_length", r.where, con, src=lambda t, a=a: a.derives(t, is_param("attributes")))
                    for l in a.leaves(r.t["val"]):
                        if l.op == "obj":
                            im = obj_field(prog, l, "immutable")
                            c.ob("span-attributes-mutable", con, im is not None and isconst(im, False), r.where, "attributes can not be added to the span")
                else:
                    lm, cls, cnt, ln = spec[nm]
                    for l in a.leaves(r.t["val"]):
                        mem = None
                        if l.op == "obj" and l.args[1] == BL:
                            v = obj_field(prog, l, "maxlen")
                        elif is_call(name="from_seq")(l) and len(call_args(l)) >= 1:
                            v = call_args(l)[0]
                            mem = call_args(l)[1] if len(call_args(l)) > 1 else None
                        else:
                            v = None
                        c.ob("list-limit", con, v is not None and all_are(a, v, lim(lm)), r.where, "%s is not bounded by %s but %s" % (nm, lm, v if v is not None else l))
                        if mem is not None:
                            n_add[nm] += 1
                            for x in content_objs(a, mem):
                                member_ok(c, a, x, cls, cnt, ln, r.where, con)
        for r in a.recs:
            if r.instr.kind != "call" or r.instr.name not in ("append", "appendleft", "extend", "insert", "add"):
                continue
            rv = r.t.get("recv")
            if rv is None:
                continue
            for nm, (lm, cls, cnt, ln) in spec.items():
                if is_list_of(a, rv, nm, lm, prog):
                    n_add[nm] += 1
                    v = r.args[-1] if r.args else None
                    c.ob("appended", "%s.%s to %s" % (SPAN, n, nm), r.instr.name in ("append", "extend"), r.where, "members are not appended")
                    for x in ([v] if r.instr.name == "append" else content_objs(a, v)):
                        member_ok(c, a, x, cls, cnt, ln, r.where, "%s.%s adds to %s" % (SPAN, n, nm))
    for nm, x in n_add.items():
        c.ob("appended", SPAN + " " + nm, x >= 2, k.mod.path if hasattr(k.mod, "path") else "", "only %d operations add to %s" % (x, nm))
    added(c, k)
    attributes(c)
    lists(c)
    dropped(c)
    logrecord(c)
    limits(c)
    wiring(c)
    c.floor("bounded", 5)
    c.floor("list-limit", 2)
    c.floor("limit-source", 8)
    c.floor("evicts-counts", 1)


def overwritten(a, r, nm):
    """Another store of the same attribute always follows."""
    others = [x.instr for x in a.events("store_attr") if x.instr.name == nm and x.instr is not r.instr and is_self(x.t["base"])]
    if not others or not a.exit_blocks(exc=False):
        return False
    if not any(a.can_reach(r.instr, x) for x in others):
        return False
    return a.path_avoiding(r.instr, others, a.exit_blocks(exc=False)) is None


def is_list_of(a, rv, nm, lm, prog):
    for l in a.leaves(rv):
        if l.op == "attr" and is_self(l.args[0]) and l.args[1] == nm:
            return True
        if l.op == "obj" and l.args[1] == BL:
            v = obj_field(prog, l, "maxlen")
            if v is not None and all_are(a, v, lim(lm)):
                return True
    return False


def added(c, k):
    """add_event / add_link / set_attributes keep what they are given."""
    prog = c.prog
    for n, cls, fields in (("add_event", EV, ("name", "timestamp")), ("add_link", LK, ("context",))):
        m = c.method(k, n)
        a = c.an(m, k, policy=Policy(mods=("opentelemetry.sdk.trace",)))
        for r in a.recs:
            if r.dst is not None and r.dst.op == "obj" and r.dst.args[1] == cls and r.instr.uid == r.dst.args[0]:
                for f in fields:
                    v = obj_field(prog, r.dst, f)
                    c.ob("member-content", "%s.%s %s" % (SPAN, n, f), v is not None and all_are(a, v, is_param(f)), r.where, "the %s given is not kept" % f)
                v = obj_field(prog, r.dst, "attributes")
                for l in a.leaves(v) if v is not None else ():
                    at = obj_field(prog, l, "attributes") if l.op == "obj" else None
                    c.ob("member-content", "%s.%s attributes" % (SPAN, n), at is not None and a.derives(at, is_param("attributes")), r.where, "the attributes given are not kept")
    # set_attributes goes through the bounded collection, for every item
    m = c.method(k, "set_attributes")
    from .t01 import end_attr
    a = c.an(m, k, policy=Policy(mods=("opentelemetry.sdk.trace",)), oracle=oracle(o_isnone(self_attr(end_attr(c, k)), True)))
    p = [x for x in m.params()[0] if x != "self"][0]
    st = [r for r in a.events("store_item") if any(l.op == "attr" and is_self(l.args[0]) and l.args[1] == "_attributes" for l in a.leaves(r.t["base"]))]
    up = [r for r in a.calls(name="update") if any(l.op == "attr" and is_self(l.args[0]) and l.args[1] == "_attributes" for l in a.leaves(r.t["recv"]))]
    if st:
        every_member(c, "every-attribute-set", SPAN + ".set_attributes", a, is_param(p), st, m, order=False)
        for r in st:
            kx, v = r.t["key"], r.t["val"]
            c.ob("attribute-content", SPAN + ".set_attributes", a.derives(kx, lambda t: t.op in ("keyof", "elem") and is_param(p)(t.args[0])) and a.derives(v, lambda t: t.op in ("elem", "item") and is_param(p)(t.args[0])), r.where, "%s is stored under %s" % (v, kx))
    else:
        c.ob("every-attribute-set", SPAN + ".set_attributes", bool(up) and all(all_are(a, r.args[0], is_param(p)) for r in up), m.where, "the attributes given do not reach the span's collection")


# -- BoundedAttributes -----------------------------------------------------------------
def o_fill(maxlen, full, has, length="len"):
    """maxlen: None / 0 / 'n' ; full: len(dict)==maxlen ; has: key in dict."""
    ml = lambda t: t.op == "attr" and t.args[1] == "maxlen"
    ln = lambda t: is_call(fqn="builtins.len")(t)

    def f(a, t, st):
        if t.op == "isnone" and ml(t.args[0]):
            return maxlen is None
        if ml(t):
            return maxlen == "n"
        if t.op == "eq":
            x, y = t.args
            for p, q in ((x, y), (y, x)):
                if ml(p) and q.op == "const":
                    return q.args[0] == 0 and maxlen == 0 if isinstance(q.args[0], int) else None
                if ml(p) and ln(q):
                    return bool(full)
        if t.op == "lt":
            x, y = t.args
            if ln(x) and ml(y):
                return not full
            if ml(x) and ln(y):
                return False
            if ml(x) and y.op == "const":
                return maxlen == 0 and y.args[0] > 0 or (False if maxlen == "n" and y.args[0] <= 1 else None)
            if ml(y) and x.op == "const" and x.args[0] == 0:
                return maxlen == "n"
        if t.op == "in" and is_param("key")(t.args[0]):
            return has
        if is_attr("_immutable")(t) or t.op == "isnone" and is_attr("_immutable")(t.args[0]):
            return False
        if is_call(name="_clean_attribute")(t):
            return True
        if t.op == "isnone" and is_call(name="_clean_attribute")(t.args[0]):
            return False
        return None
    return f


def incr(a, k_name, amount):
    """Stores adding `amount` (predicate on the linear form) to self.<k_name>."""
    out = []
    for r in a.events("store_attr"):
        if r.instr.name == k_name and is_self(r.t["base"]) and amount(r.t["val"]):
            out.append(r)
    return out


def once_on_every_path(a, ev, exc=False):
    if not ev:
        return False
    if any(a.can_reach(x.instr, y.instr) for x in ev for y in ev):
        return False
    return always(a, ev, exc=exc) is None


def attributes(c):
    prog = c.prog
    k = prog.cls(BA)
    m = c.method(k, "__setitem__")
    ps = [p for p in m.params()[0] if p != "self"]
    plus1 = lambda t: lin_is(t, const=1, terms=[(1, self_attr("dropped"))])
    con = BA + ".__setitem__"
    pol = Policy(mods=(m.mod.name,), deny=("_clean_attribute",))

    def sub(a, t):
        # the parameter name of the key
        return None

    def an(*rest, **kw):
        f = o_fill(*rest)
        return c.an(m, k, oracle=lambda a, t, st: f(a, rename(a, t), st), policy=pol)

    def rename(a, t):
        return t

    def stores(a):
        return [r for r in a.events("store_item") if any(l.op == "attr" and is_self(l.args[0]) and l.args[1] == "_dict" or l.op in ("call", "new", "obj", "pure") for l in a.leaves(r.t["base"]))]

    def evicts(a):
        return [r for r in a.calls(name=("popitem", "pop"))] + [r for r in a.events("del_item")]
    z = an(0, None, None)
    d = incr(z, "dropped", plus1)
    c.ob("zero-limit-counts", con, once_on_every_path(z, d), m.where, "with limit 0 a dropped attribute is not counted once")
    bad = stores(z)
    c.ob("zero-limit-stores-nothing", con, not bad, bad[0].where if bad else m.where, "with limit 0 an attribute is stored")
    full = an("n", True, False)
    d = incr(full, "dropped", plus1)
    c.ob("evicts-counts", con, once_on_every_path(full, d), m.where, "an attribute evicted because of the limit is not counted once")
    e = [r for r in full.calls(name=("popitem", "pop"))] + [r for r in full.events("del_item")]
    c.ob("evicts", con, once_on_every_path(full, e), m.where, "a new attribute is stored beyond the limit without evicting one")
    for r in e:
        if r.instr.name == "popitem":
            l_ = arg(r, 0, "last")
            c.ob("evicts-oldest", con, l_ is not None and isconst(l_, False), r.where, "the newest instead of the oldest attribute is evicted")
            s = stores(full)
            c.ob("evicts-before-store", con, not any(full.can_reach(x.instr, r.instr) for x in s), r.where, "the new attribute itself may be evicted")
    for what, args_ in (("room left", ("n", False, False)), ("no limit", (None, False, False)), ("existing key", ("n", True, True))):
        b = an(*args_)
        d = [r for r in b.events("store_attr") if r.instr.name == "dropped"]
        c.ob("counts-only-discards", "%s %s" % (con, what), not d, d[0].where if d else m.where, "an attribute is counted as dropped although nothing is discarded (%s)" % what)
        e = [r for r in b.calls(name=("popitem",))]
        c.ob("keeps-others", "%s %s" % (con, what), not e, e[0].where if e else m.where, "an attribute is evicted although there is room (%s)" % what)
        s = stores(b)
        c.ob("stores", "%s %s" % (con, what), bool(s) and always(b, s, exc=False) is None, m.where, "the attribute is not stored (%s)" % what)
    s = stores(full)
    c.ob("stores", con + " full", bool(s) and always(full, s, exc=False) is None, m.where, "the attribute is not stored after evicting another")
    for r in s:
        kx, v = r.t["key"], r.t["val"]
        c.ob("stored-under-key", con, all_are(full, kx, is_param(ps[0])), r.where, "stored under %s" % kx)
        ok = all_are(full, v, is_call(name="_clean_attribute"))
        c.ob("value-cleaned", con, ok, r.where, "the value is stored without applying the length limit")
        for l in full.leaves(v):
            if is_call(name="_clean_attribute")(l):
                ar = call_args(l)
                lv = ar[2] if len(ar) > 2 else dict(x for x in l.args[3] if isinstance(x, tuple)).get("max_len")
                c.ob("value-length-limit", con, lv is not None and all_are(full, lv, self_attr("max_value_len")), r.where, "the configured length limit is not applied")
                c.ob("value-cleaned", con + " value", len(ar) > 1 and all_are(full, ar[1], is_param(ps[1])), r.where, "another value than the one given is stored")
    # construction
    a = c.am(k, "__init__", policy=Policy(mods=(m.mod.name,), deny=("__setitem__", "_clean_attribute")))
    f = a.fi
    for p in ("maxlen", "max_value_len"):
        st = [r for r in a.events("store_attr") if r.instr.name == p]
        c.ob("limit-kept", "%s.%s" % (BA, p), bool(st) and all(all_are(a, r.t["val"], is_param(p)) for r in st) and always(a, st, exc=False) is None, f.where, "%s is not kept" % p)
    st = [r for r in a.events("store_attr") if r.instr.name == "dropped"]
    c.ob("counter-starts-at-zero", BA, bool(st) and all(isconst(r.t["val"], 0) for r in st), f.where, "the dropped count does not start at 0")
    si = [r for r in a.events("store_item") if is_self(r.t["base"])] + [r for r in a.calls(name=("__setitem__", "update")) if r.t.get("recv") is not None and is_self(r.t["recv"])]
    if any(r.instr.kind == "store_item" or r.instr.name == "__setitem__" for r in si):
        every_member(c, "initial-attributes", BA, a, is_param("attributes"), si, f, order=False)
    else:
        c.ob("initial-attributes", BA, any(r.instr.name == "update" and all_are(a, r.args[0], is_param("attributes")) for r in si), f.where, "the initial attributes bypass the limits")
    direct = [r for r in a.recs if r.instr.kind == "store_attr" and r.instr.name == "_dict" and not all(l.op == "new" and not a.contents.get(l) for l in a.leaves(r.t["val"]))]
    c.ob("initial-attributes", BA + " direct", not direct, direct[0].where if direct else f.where, "the initial attributes bypass the limits")
    # the cleaner truncates
    g = prog.func("opentelemetry.attributes._clean_attribute_value")
    vp, lp = g.params()[0][:2]
    iss = lambda t: is_param(vp)(t) or is_call(name="decode")(t)
    a = c.an(g, None, oracle=oracle(o_isnone(is_param(lp), False), o_isnone(is_param(vp), False), o_isinst(iss, True, lambda k: k.op == "glob" and k.args[0] == "builtins.str")))
    ok = bool(a.rets())
    n = 0
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            if isconst(l, None):
                continue
            n += 1
            ok = ok and l.op == "slice" and len(l.args) >= 3 and is_start(l.args[1]) and all_are(a, l.args[2], is_param(lp)) and (len(l.args) < 4 or isconst(l.args[3], None)) and all(iss(x) for x in a.leaves(l.args[0]))
    c.ob("value-truncated", g.fqn, ok and n > 0, g.where, "a string (or decoded byte string) longer than the limit is not cut to the limit")
    h = prog.func("opentelemetry.attributes._clean_attribute")
    kp, vp, lp = h.params()[0][:3]
    a = c.an(h, None, policy=Policy(mods=(h.mod.name,), deny=(g.name,)))
    cs = [r for r in a.calls(name=g.name)]
    c.ob("value-truncated", h.fqn, len(cs) >= 2 and all(all_are(a, arg(r, 1, g.params()[0][1]), is_param(lp)) for r in cs), h.where, "the length limit does not reach every element")
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            if isconst(l, None):
                continue
            srcs = content_objs(a, l)
            c.ob("value-truncated", h.fqn + " result", bool(srcs) and all(is_call(name=g.name)(x) for x in srcs), r.where, "a value is returned without having been cut to the limit: %s" % l)


def is_start(t):
    return isconst(t, None) or isconst(t, 0)


# -- BoundedList -------------------------------------------------------------------------
def lists(c):
    prog = c.prog
    k = prog.cls(BL)
    ia = c.am(k, "__init__")
    dq = None
    for r in ia.events("store_attr"):
        for l in ia.leaves(r.t["val"]):
            cal = callee_of(l)
            if cal is not None and cal.op == "glob" and cal.args[0] == "collections.deque":
                dq = r.instr.name
                kw = dict(x for x in (l.args[3] if l.op == "call" else ()) if isinstance(x, tuple))
                v = kw.get("maxlen") or (call_args(l)[1] if len(call_args(l)) > 1 else None)
                if l.op == "pure":
                    ar = list(l.args[1])
                    v = next((ar[i + 1] for i, x in enumerate(ar[:-1]) if isconst(x, "maxlen")), v)
                c.ob("list-bounded", BL, v is not None and all_are(ia, v, is_param("maxlen")), r.where, "the list is not bounded by its limit")
    if dq is None:
        c.ob("list-bounded", BL, False, ia.fi.where, "the members are not kept in a bounded queue")
        return
    st = [r for r in ia.events("store_attr") if r.instr.name == "dropped"]
    c.ob("counter-starts-at-zero", BL, bool(st) and all(isconst(r.t["val"], 0) for r in st), ia.fi.where, "the dropped count does not start at 0")
    isdq = self_attr(dq)
    ml = lambda t: t.op == "attr" and t.args[1] == "maxlen"
    ln = lambda t: is_call(fqn="builtins.len")(t) and isdq(call_args(t)[0])

    def orc(limited, full):
        def f(a, t, st):
            if t.op == "isnone" and ml(t.args[0]):
                return not limited
            if t.op == "eq" and any(ml(x) for x in t.args) and any(ln(x) for x in t.args):
                return full
            if t.op == "lt":
                x, y = t.args
                if ln(x) and ml(y):
                    return not full
                if ml(x) and ln(y):
                    return False
            return None
        return f
    m = c.method(k, "append")
    for what, lim_, full in (("full", True, True), ("room left", True, False), ("no limit", False, False)):
        a = c.an(m, k, oracle=orc(lim_, full))
        con = "%s.append %s" % (BL, what)
        d = incr(a, "dropped", lambda t: lin_is(t, const=1, terms=[(1, self_attr("dropped"))]))
        alld = [r for r in a.events("store_attr") if r.instr.name == "dropped"]
        if full:
            c.ob("list-counts", con, once_on_every_path(a, d) and len(alld) == len(d), m.where, "an item pushed out by the limit is not counted once")
        else:
            c.ob("list-counts", con, not alld, m.where, "an item is counted as dropped although nothing is discarded")
        ap = [r for r in a.calls(name="append") if all_are(a, r.t["recv"], isdq)]
        c.ob("list-appends", con, once_on_every_path(a, ap) and all(all_are(a, r.args[0], is_param(m.params()[0][1])) for r in ap), m.where, "the item is not appended")
        for r in alld:
            c.ob("list-counts-before", con, not any(a.can_reach(x.instr, r.instr) for x in ap), r.where, "the fill state is tested after the item was added")
    m = c.method(k, "extend")
    sp = m.params()[0][1]
    lens = lambda t: is_call(fqn="builtins.len")(t) and a_derives_param(t, sp)
    over = [(1, lens), (1, ln), (-1, ml)]
    clipped = lambda t: is_call(fqn="builtins.max")(t) and any(lin_is(x, terms=over) for x in call_args(t)) and any(isconst(x, 0) for x in call_args(t))
    amount = lambda t: lin_is(t, terms=[(1, self_attr("dropped"))] + over) or lin_is(t, terms=[(1, self_attr("dropped")), (1, clipped)])

    def o_over(over):
        base = orc(True, None)

        def f(a, t, st):
            if t.op == "isnone" and ml(t.args[0]):
                return False
            if t.op == "lt":
                x, y = t.args
                d = dict(linear(y))
                for kk, v in linear(x).items():
                    d[kk] = d.get(kk, 0) - v
                d = {kk: v for kk, v in d.items() if v}
                pos = {kk: v for kk, v in d.items() if kk is not None}
                s = set()
                for kk, v in pos.items():
                    s.add(("seq" if lens(kk) else "dq" if ln(kk) else "max" if ml(kk) else "?", v))
                if s == {("seq", 1), ("dq", 1), ("max", -1)} and d.get(None, 0) in (0,):
                    return over  # 0 < to_drop
                if s == {("seq", -1), ("dq", -1), ("max", 1)} and d.get(None, 0) in (0,):
                    return not over if over else None  # to_drop < 0
            return None
        return f
    a = c.an(m, k, oracle=o_over(True))
    d = incr(a, "dropped", amount)
    c.ob("list-counts", BL + ".extend over", once_on_every_path(a, d), m.where, "items pushed out by the limit are not all counted")
    for r in d:
        ext = [x for x in a.calls(name=("extend", "append")) if all_are(a, x.t["recv"], isdq)]
        c.ob("list-counts-before", BL + ".extend", not any(a.can_reach(x.instr, r.instr) for x in ext), r.where, "the fill state is tested after the items were added")
    ext = [x for x in a.calls(name="extend") if all_are(a, x.t["recv"], isdq)]
    loopapp = [x for x in a.calls(name="append") if all_are(a, x.t["recv"], isdq) or is_self(x.t["recv"])]
    c.ob("list-appends", BL + ".extend", once_on_every_path(a, ext) and all(a.derives(x.args[0], is_param(sp)) for x in ext) or bool(loopapp), m.where, "the items are not added")
    a = c.an(m, k, oracle=o_over(False))
    alld = [r for r in a.events("store_attr") if r.instr.name == "dropped" and not maxed(r.t["val"])]
    c.ob("list-counts", BL + ".extend within", not alld, m.where, "items are counted as dropped although they fit")
    a = c.an(m, k, oracle=orc(False, False))
    alld = [r for r in a.events("store_attr") if r.instr.name == "dropped"]
    c.ob("list-counts", BL + ".extend no limit", not alld, m.where, "items are counted as dropped although there is no limit")
    m = prog.find_method(k, "from_seq")
    if m is not None:
        ps = [p for p in m.params()[0] if p not in ("cls", "self")]
        a = c.an(m, k, policy=Policy(mods=(m.mod.name,), deny=("extend",)))
        ex = [r for r in a.calls(name="extend")]
        c.ob("from-seq", BL + ".from_seq", bool(ex) and all(a.derives(r.args[0], is_param(ps[1])) for r in ex), m.where, "the sequence given is not added through extend")


def a_derives_param(t, p):
    return any(is_param(p)(x) for x in subterms(t))


def maxed(t):
    return any(is_call(fqn="builtins.max")(x) for x in subterms(t))


# -- dropped counts ---------------------------------------------------------------------
def dropped(c):
    prog = c.prog
    for cls, prop, attr, kind in (("opentelemetry.sdk.trace.ReadableSpan", "dropped_attributes", ("_attributes", "attributes"), BA), ("opentelemetry.sdk.trace.ReadableSpan", "dropped_events", ("_events",), BL),
                                  ("opentelemetry.sdk.trace.ReadableSpan", "dropped_links", ("_links",), BL), (EV, "dropped_attributes", ("_attributes", "attributes"), BA), (LK, "dropped_attributes", ("_attributes", "attributes"), BA),
                                  (LOGREC, "dropped_attributes", ("attributes", "_attributes"), BA)):
        k = prog.cls(cls)
        m = c.method(k, prop)
        isit = lambda t, attr=attr: t.op == "attr" and is_self(t.args[0]) and t.args[1] in attr
        a = c.an(m, k, oracle=oracle(o_isinst(isit, True), o_isnone(isit, False)))
        ok = bool(a.rets())
        for r in a.rets():
            ok = ok and all_are(a, r.t["val"], lambda l: l.op == "attr" and l.args[1] == "dropped" and isit(l.args[0]))
        c.ob("reports-dropped", "%s.%s" % (cls, prop), ok, m.where, "%s does not report the collection's own count in every case" % prop)
    # the view handed to processors reads the live collections
    sk = prog.cls(SPAN)
    for kk in prog.mro(sk):
        for p in ("dropped_attributes", "dropped_events", "dropped_links"):
            if kk is not prog.cls("opentelemetry.sdk.trace.ReadableSpan") and p in kk.methods:
                c.ob("reports-dropped", "%s.%s override" % (kk.fqn, p), False, kk.methods[p].where, "%s is overridden" % p)


def logrecord(c):
    prog = c.prog
    k = prog.cls(LOGREC)
    a = c.am(k, "__init__", policy=Policy(mods=("opentelemetry.sdk._logs._internal", "opentelemetry._logs._internal")))
    st = [r for r in a.events("store_attr") if r.instr.name == "attributes" and is_self(r.t["base"])]
    sup = [r for r in a.recs if r.instr.kind == "call" and r.instr.name == "__init__"]
    vals = [(r.where, r.t["val"]) for r in st]
    if not vals:
        for r in sup:
            v = call_kwargs(r).get("attributes")
            if v is not None:
                vals.append((r.where, v))
    c.ob("bounded", LOGREC, bool(vals), a.fi.where, "the record's attributes are not stored")
    for w, v in vals:
        bounded_attrs(c, a, v, "max_attributes", "max_attribute_length", w, LOGREC, src=lambda t: a.derives(t, is_param("attributes")))


# -- SpanLimits / LogLimits -----------------------------------------------------------------
P = "opentelemetry.sdk.trace."
DEFAULTS = {"_DEFAULT": 128}
TABLE = {
    "opentelemetry.sdk.trace.SpanLimits": {
        "max_events": ("OTEL_SPAN_EVENT_COUNT_LIMIT", 128), "max_links": ("OTEL_SPAN_LINK_COUNT_LIMIT", 128), "max_attributes": ("OTEL_ATTRIBUTE_COUNT_LIMIT", 128),
        "max_span_attributes": ("OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", ("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", 128)), "max_event_attributes": ("OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", ("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", 128)),
        "max_link_attributes": ("OTEL_LINK_ATTRIBUTE_COUNT_LIMIT", ("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", 128)), "max_attribute_length": ("OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None),
        "max_span_attribute_length": ("OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT", ("max_attribute_length", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None)),
    },
    "opentelemetry.sdk._logs._internal.LogLimits": {"max_attributes": ("OTEL_ATTRIBUTE_COUNT_LIMIT", 128), "max_attribute_length": ("OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None)},
}


def env_const(t, name):
    return t is not None and (isconst(t, name) or t.op == "glob" and t.args[0].rpartition(".")[2] == name)


def resolver(l, prog):
    """(param term, env term, default term) of a resolution call."""
    cal = callee_of(l)
    if cal is None:
        return None
    ar = list(call_args(l))
    kw = dict(x for x in (l.args[3] if l.op == "call" else ()) if isinstance(x, tuple))
    env = [x for x in ar + list(kw.values()) if isinstance(x, Term) and (x.op == "const" and isinstance(x.args[0], str) and x.args[0].startswith("OTEL_") or x.op == "glob" and x.args[0].rpartition(".")[2].startswith("OTEL_"))]
    if len(env) != 1 or not ar and not kw:
        return None
    val = kw.get("value", ar[0] if ar else None)
    dfl = kw.get("default", ar[2] if len(ar) > 2 else None)
    return val, env[0], dfl


def limits(c):
    prog = c.prog
    for cls, table in TABLE.items():
        k = prog.cls(cls)
        m = c.method(k, "__init__")
        rn = resolver_method(c, k)

        for field, (env, dflt) in table.items():
            for gl in ((True, False) if isinstance(dflt, tuple) or field == "max_attributes" else (None,)):
                def o_global(a, t, st, gl=gl):
                    if t.op == "isnone":
                        rs = resolver(t.args[0], prog)
                        if rs and env_const(rs[1], "OTEL_ATTRIBUTE_COUNT_LIMIT"):
                            return not gl if gl is not None else None
                    return None
                a = c.an(m, k, oracle=o_global, policy=Policy(deny=(rn,)) if rn else None)
                st = [r for r in a.events("store_attr") if r.instr.name == field and is_self(r.t["base"])]
                con = "%s.%s%s" % (cls, field, "" if gl is None else " general limit %s" % ("set" if gl else "unset"))
                ok = bool(st) and always(a, st, exc=False) is None
                why = "the field is not set"
                for r in st:
                    for l in a.leaves(r.t["val"]):
                        good, why2 = limit_source(a, prog, l, field, env, dflt, gl)
                        if not good:
                            ok, why = False, why2
                c.ob("limit-source", con, ok, st[0].where if st else m.where, why)
        if rn:
            resolution(c, k, rn)


def resolver_method(c, k):
    """Method called with (value, ENV name, default)."""
    for n, m in [(n, m) for kk in c.prog.mro(k) for n, m in kk.methods.items()]:
        if any(p == "env_var" for p in m.params()[0]):
            return n
    for n, m in [(n, m) for kk in c.prog.mro(k) for n, m in kk.methods.items()]:
        if n != "__init__" and len(m.params()[0]) >= 3:
            return n
    return None


def limit_source(a, prog, l, field, env, dflt, gl):
    rs = resolver(l, prog)
    if rs is None:
        # the general limit's default
        if field == "max_attributes" and gl is False and l.op == "const":
            return l.args[0] == 128, "the default is %s" % l
        return False, "%s is taken from %s" % (field, l)
    v, e, d = rs
    if not all_are(a, v, is_param(field)):
        return False, "%s is not taken from the argument of that name but %s" % (field, v)
    if not env_const(e, env):
        return False, "%s is read from %s" % (field, e)
    if isinstance(dflt, tuple):
        gf, ge, gd = dflt
        if d is None:
            return False, "%s does not fall back to the general limit" % field
        for x in a.leaves(d):
            g = resolver(x, prog)
            if gl is False and gd is not None and x.op == "const":
                if x.args[0] != gd:
                    return False, "the default of %s is %s" % (field, x)
                continue
            if gl is False and gd is not None:
                return False, "%s falls back to %s when no general limit is set" % (field, x)
            if g is None or not all_are(a, g[0], is_param(gf)) or not env_const(g[1], ge):
                return False, "%s falls back to %s" % (field, x)
        return True, ""
    if field == "max_attributes":
        return gl is True and (d is None or isconst(d, None)) or gl is False and False or (gl is True and d is not None and isconst(d, 128)) or (gl is False and d is not None and isconst(d, 128)), "the general limit defaults to %s" % d
    if dflt is None:
        return d is None or isconst(d, None), "%s has the default %s" % (field, d)
    return d is not None and all_are(a, d, lambda x: isconst(x, dflt)), "the default of %s is %s" % (field, d)


def resolution(c, k, rn):
    """Argument, then environment, then default; UNSET means no limit."""
    m = c.method(k, rn)
    ps = [p for p in m.params()[0] if p not in ("cls", "self")]
    if len(ps) < 3:
        return
    vp, ep, dp = ps[:3]
    unset = lambda t: t.op == "eq" and any(is_param(vp)(x) for x in t.args) and any(isconst(x, -1) or is_attr("UNSET")(x) or x.op == "glob" and x.args[0].endswith(".UNSET") for x in t.args)

    def neg(val):
        def f(a, t, st):
            if t.op == "lt" and isconst(t.args[1], 0):
                return val
            if t.op == "lt" and isconst(t.args[0], -1):
                return not val
            return None
        return f

    def table(con, orc, ok, msg):
        a = c.an(m, k, oracle=orc)
        good = bool(a.rets())
        for r in a.rets():
            good = good and all_are(a, r.t["val"], lambda l: ok(a, l))
        c.ob("limit-resolution", "%s.%s %s" % (k.fqn, rn, con), good, m.where, msg)
    isv = lambda val: lambda a, t, st: val if unset(t) else None
    table("UNSET", oracle(isv(True), o_isnone(is_param(vp), False)), lambda a, l: isconst(l, None), "UNSET does not mean no limit")
    table("given", oracle(isv(False), o_isnone(is_param(vp), False), neg(False)), lambda a, l: is_param(vp)(l), "an explicit limit is not the one used")
    table("absent", oracle(isv(False), o_isnone(is_param(vp), True), o_env(False), neg(False)), lambda a, l: is_param(dp)(l), "without argument and variable the default is not used")
    text = lambda x: x.op == "const" and x.args[0] in ("", "unset")

    def blank(val):
        """The variable's text is (not) one that means no limit."""
        def f(a, t, st):
            if t.op == "eq" and any(text(x) for x in t.args):
                return val
            if t.op == "in" and t.args[1].op == "tup" and all(text(x) for x in t.args[1].args):
                return val
            if t.op in ("call", "pure", "item") and any(env_read(x) is not None for x in subterms(t)) and (t.op == "item" or is_call(name=("strip", "lower", "get", "getenv"))(t)):
                return not val
            return None
        return f

    notun = oracle(blank(False), lambda a, t, st: False if t.op == "eq" and any(x.op == "const" and isinstance(x.args[0], str) for x in t.args) else None)
    table("environment", oracle(isv(False), o_isnone(is_param(vp), True), o_env(True), notun, neg(False)), lambda a, l: a.derives(l, lambda t: env_read(t) is not None and is_param(ep)(env_read(t))) and mentions(l, is_call(name="int")), "a limit set in the environment is not the one used")
    unsets = blank(True)
    table("environment unset", oracle(isv(False), o_isnone(is_param(vp), True), o_env(True), unsets), lambda a, l: isconst(l, None), "the environment value for no limit is not honoured")
    a = c.an(m, k, oracle=oracle(isv(False), neg(True), o_isnone(is_param(vp), False)))
    c.ob("limit-resolution", "%s.%s negative" % (k.fqn, rn), not a.rets(), m.where, "a negative limit is accepted")


def wiring(c):
    """The provider's limits reach its tracers."""
    prog = c.prog
    k = prog.cls("opentelemetry.sdk.trace.TracerProvider")
    m = c.method(k, "__init__")
    a = c.an(m, k, oracle=oracle(o_isnone(is_param("span_limits"), False), o_truth(is_param("span_limits"), True)))
    st = [r for r in a.events("store_attr") if is_self(r.t["base"]) and all_are(a, r.t["val"], is_param("span_limits"))]
    c.ob("limits-wired", k.fqn, bool(st), m.where, "the limits given to the provider are not kept")
    names = {r.instr.name for r in st}
    a = c.an(m, k, oracle=oracle(o_isnone(is_param("span_limits"), True)))
    for r in a.events("store_attr"):
        if r.instr.name in names:
            c.ob("limits-wired", k.fqn + " default", all_are(a, r.t["val"], lambda l: l.op == "obj" and l.args[1] == "opentelemetry.sdk.trace.SpanLimits" and not l.args[2] and not l.args[3]), r.where, "without explicit limits the limits are not read from the environment")
    g = c.am(k, "get_tracer")
    n = 0
    for r in g.recs:
        if r.dst is not None and r.dst.op == "obj" and r.dst.args[1] == "opentelemetry.sdk.trace.Tracer" and r.instr.uid == r.dst.args[0]:
            v = obj_field(prog, r.dst, "span_limits")
            n += 1
            c.ob("limits-wired", k.fqn + ".get_tracer", v is not None and all_are(g, v, lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] in names), r.where, "the provider's limits do not reach the tracer")
    c.ob("limits-wired", k.fqn + ".get_tracer constructs", n > 0, g.fi.where, "no tracer is constructed")
    t = prog.cls("opentelemetry.sdk.trace.Tracer")
    a = c.am(t, "__init__")
    st = [r for r in a.events("store_attr") if is_self(r.t["base"]) and all_are(a, r.t["val"], is_param("span_limits"))]
    c.ob("limits-wired", t.fqn, bool(st), a.fi.where, "the tracer does not keep the limits")
    names = {r.instr.name for r in st}
    s = c.am(t, "start_span")
    for r in s.recs:
        if r.dst is not None and r.dst.op == "obj" and r.instr.uid == r.dst.args[0] and prog.classes.get(r.dst.args[1]) is not None and prog.cls(SPAN) in prog.mro(prog.classes[r.dst.args[1]]):
            v = obj_field(prog, r.dst, "limits")
            c.ob("limits-wired", t.fqn + ".start_span", v is not None and all_are(s, v, lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] in names), r.where, "the tracer's limits do not reach the span")
