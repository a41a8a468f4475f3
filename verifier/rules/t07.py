"""T07: status precedence."""
from .c03 import obj_field
from .lib import *
from .t01 import end_attr, of_self
from .c02 import mutations

NOTE = "Decision table of set_status (3 stored codes x 3 new codes x 2 argument forms) and of Status.__init__ by conditional constant propagation."
SC = "opentelemetry.trace.status.StatusCode"
ST = "opentelemetry.trace.status.Status"
CODES = ("UNSET", "OK", "ERROR")


def code(T, n):
    return T.mk("glob", SC + "." + n)


def status_attr(c, k):
    a = c.am(k, "status")
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            if l.op == "attr" and l.args[0].op == "self":
                return l.args[1]
    return "_status"


def run(c):
    prog = c.prog
    k = prog.cls(SPAN)
    end = end_attr(c, k)
    sa = status_attr(c, k)
    m = c.method(k, "set_status")
    ps = m.params()[0]
    raw = m.params()[0]
    for stored in CODES:
        for new in CODES:
            for form in ("Status", "StatusCode"):
                c_form(c, k, m, end, sa, stored, new, form)
    ctor(c)
    c.floor("precedence", 18)


def c_form(c, k, m, end, sa, stored, new, form):
    # parameter names of the undecorated function
    ps = [p for p in m.params()[0] if p != "self"]
    sp = ps[0]
    dp = ps[1] if len(ps) > 1 else "description"
    isarg = lambda t: is_param(sp)(t) or (t.op in ("item", "elem") and t.args[0].op in ("param",))

    def subst(a, t):
        if t.op == "attr" and t.args[1] in ("status_code", "_status_code"):
            b = t.args[0]
            if b.op == "attr" and b.args[1] in (sa,) and b.args[0].op == "self":
                return code(a.T, stored)
            if isarg(b) and form == "Status":
                return code(a.T, new)
        if form == "Status" and t.op == "attr" and t.args[1] in ("is_ok", "is_unset"):
            b = t.args[0]
            w = stored if (b.op == "attr" and b.args[1] == sa) else new if isarg(b) else None
            if w:
                return a.T.const(w == "UNSET" if t.args[1] == "is_unset" else w != "ERROR")
        return None

    def orc(a, t, st):
        if t.op == "isnone" and is_attr(end)(t.args[0]):
            return True
        if is_attr(end)(t):
            return False
        if t.op == "isnone" and is_attr(sa)(t.args[0]):
            return False
        if is_attr(sa)(t):
            return True
        if t.op == "isinst" and isarg(t.args[0]) and t.args[1].op == "glob":
            if t.args[1].args[0] == ST:
                return form == "Status"
            if t.args[1].args[0] == SC:
                return form == "StatusCode"
        if t.op == "eq" and any(isarg(x) for x in t.args):
            o = [x for x in t.args if not isarg(x)]
            if len(o) == 1 and o[0].op == "glob" and o[0].args[0].startswith(SC + "."):
                return form == "StatusCode" and o[0].args[0] == SC + "." + new
        if t.op == "in" and isarg(t.args[0]) and t.args[1].op == "tup":
            return form == "StatusCode" and any(x.op == "glob" and x.args[0] == SC + "." + new for x in t.args[1].args)
        if t.op == "isnone" and isarg(t.args[0]):
            return False
        if isarg(t):
            return True
        return None

    a = c.an(m, k, oracle=orc, subst=subst)
    con = "stored %s, new %s given as %s" % (stored, new, form)
    st = [r for r in a.events("store_attr") if r.instr.name == sa and is_self(r.t["base"])]
    want = stored != "OK" and new != "UNSET"
    if not want:
        c.ob("precedence", con, not st, st[0].where if st else m.where, "the status is replaced although %s" % ("OK is final" if stored == "OK" else "UNSET must be ignored"))
        return
    p = always(a, st, exc=False) if st else [a.b.entry]
    c.ob("precedence", con, p is None, m.where, "the new status is not stored")
    for r in st:
        for l in a.leaves(r.t["val"]):
            if form == "Status":
                same = isarg(l)
                if not same and l.op == "obj" and l.args[1] == ST:
                    f = obj_field(c.prog, l, "status_code")
                    d = obj_field(c.prog, l, "description")
                    same = f is not None and all(isarg(x) or x.op == "glob" and x.args[0] == SC + "." + new for x in a.leaves(f)) and d is not None and all(x.op == "attr" and x.args[1] in ("description", "_description") and isarg(x.args[0]) for x in a.leaves(d))
                c.ob("status-kept", con, same, r.where, "the status stored is not the one given")
            else:
                f = obj_field(c.prog, l, "status_code") if l.op == "obj" else None
                d = obj_field(c.prog, l, "description") if l.op == "obj" else None
                ok = f is not None and all(isarg(x) or x.op == "glob" and x.args[0] == SC + "." + new for x in a.leaves(f))
                c.ob("status-kept", con, ok, r.where, "the status stored does not carry the code given")
                okd = d is not None and all(is_param(dp)(x) or x.op in ("item", "call", "pure") for x in a.leaves(d))
                if new == "ERROR":
                    c.ob("description-kept", con, okd, r.where, "the status stored does not carry the description given")
    # nothing else changes
    other = [r for r, t in mutations(a) if of_self(a, t) and not (r.instr.kind == "store_attr" and r.instr.name == sa)]
    c.ob("only-status", con, not other, other[0].where if other else m.where, "set_status changes something else")


def ctor(c):
    prog = c.prog
    k = prog.cls(ST)
    m = c.method(k, "__init__")
    ps = m.params()[0]
    cp, dp = ps[1], ps[2]
    ca, da = None, None
    for n in ("status_code", "description"):
        p = c.am(k, n)
        for r in p.rets():
            for l in p.leaves(r.t["val"]):
                if l.op == "attr" and l.args[0].op == "self":
                    if n == "status_code":
                        ca = l.args[1]
                    else:
                        da = l.args[1]
    for codev in CODES:
        orc = oracle(o_isnone(is_param(dp), False), o_truth(is_param(dp), True), o_isinst(is_param(dp), True))
        a = c.an(m, k, oracle=orc, params={cp: lambda T, n=codev: code(T, n)})
        st = [r for r in a.events("store_attr") if r.instr.name == da]
        ends = [v for v in final_values(a, da)]
        if codev == "ERROR":
            ok = bool(ends) and all(is_param(dp)(v) for v in ends)
            c.ob("description", "Status(%s, text)" % codev, ok, m.where, "the description of an error status is lost")
        else:
            ok = bool(ends) and all(isconst(v, None) for v in ends)
            c.ob("description", "Status(%s, text)" % codev, ok, m.where, "a description is kept although the status is %s" % codev)
        cs = [v for v in final_values(a, ca)]
        c.ob("code", "Status(%s)" % codev, bool(cs) and all(v.op == "glob" and v.args[0] == SC + "." + codev for v in cs), m.where, "the code given is not kept")
    for n, truth in (("is_ok", {"UNSET": True, "OK": True, "ERROR": False}), ("is_unset", {"UNSET": True, "OK": False, "ERROR": False})):
        for codev, want in truth.items():
            a = c.am(k, n, subst=lambda a, t, codev=codev: code(a.T, codev) if t.op == "attr" and t.args[1] == ca and t.args[0].op == "self" else None)
            from ..flow import State
            ds = {a.decide(r.t["val"], State({}, {}, dict(r.facts), {})) for r in a.rets()}
            c.ob("query", "%s of %s" % (n, codev), ds == {want}, a.fi.where, "%s does not answer %s for %s" % (n, want, codev))


def final_values(a, attr):
    """Values of self.attr at the normal exits."""
    out = []
    b = a.b.exits.get("ret")
    if b is None or b not in a.reach:
        return out
    h = a.in_state[b].heap
    for (base, n), v in h.items():
        if n == attr and base.op == "self":
            out.extend(a.leaves(v))
    return out
