"""Roles and field queries of the wire encoders."""
import ast

from .mx import *

O = "opentelemetry.exporter.otlp.proto.common._internal"
PB = "opentelemetry.proto."
COMMON = PB + "common.v1.common_pb2."
RESOURCE = PB + "resource.v1.resource_pb2.Resource"
SCOPE = COMMON + "InstrumentationScope"


# -- which functions of the encoder package do what ---------------------------------
class Roles:
    """Value encoders (recursive, build AnyValue) and attribute encoders (loop
    over a mapping and encode each entry), found by what they do."""

    def __init__(self, c, pkg=O):
        self.pkg, prog = pkg, c.prog
        fs = [f for f in program_funcs(prog, pkg) if f.cls is None]
        by = {f.fqn: f for f in fs}
        self.refs = {}
        for f in fs:
            out = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    r = prog.resolve_expr(f.mod, x)
                    if r in by:
                        out.add(r)
            self.refs[f.fqn] = out
        reach = {n: self.closure(n) for n in self.refs}
        self.values = {n for n in by if n in reach[n] and self.makes(by[n], reach, by, "AnyValue", prog)}
        self.attrs = set()
        for n, f in by.items():
            if n not in self.values and self.refs[n] & self.values and any(isinstance(x, ast.For) and "items" in ast.unparse(x.iter) or isinstance(x, (ast.ListComp, ast.GeneratorExp)) and "items" in ast.unparse(x.generators[0].iter) for x in ast.walk(f.node)):
                self.attrs.add(n)
        self.entry = None
        for n in sorted(self.values):
            if self.builds(by[n], COMMON + "AnyValue", prog, "bool_value"):
                self.entry = by[n]
        self.fns = by

    def closure(self, n):
        seen, todo = set(), list(self.refs.get(n, ()))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.refs.get(x, ())
        return seen

    def builds(self, f, fqn, prog, kw=None):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and prog.resolve_expr(f.mod, x.func) == fqn and (kw is None or any(k.arg == kw for k in x.keywords)):
                return True
        return False

    def makes(self, f, reach, by, name, prog):
        return any(self.builds(by[m], COMMON + name, prog) for m in reach[f.fqn] | {f.fqn})

    def policy(self, **kw):
        return Policy(mods=(self.pkg,), deny=self.values | self.attrs, **kw)

    def given(self, t, n=0):
        """The n-th argument of a call of one of these functions."""
        p = self.fns[t.args[1].args[0]].params()
        names = p[0] + p[2]
        return t.args[2][n] if n < len(t.args[2]) else kwof(t).get(names[n]) if n < len(names) else None

    def is_value(self, pred):
        """A call encoding one value satisfying pred."""
        def f(a, t):
            return t.op == "call" and t.args[1].op == "glob" and t.args[1].args[0] in self.values and self.given(t) is not None and all_leaves(a, self.given(t), pred)
        return f

    def is_attrs(self, pred):
        def f(a, t):
            return t.op == "call" and t.args[1].op == "glob" and t.args[1].args[0] in self.attrs and self.given(t) is not None and all_leaves(a, self.given(t), pred)
        return f


def kwof(t):
    return dict(t.args[3] or ()) if t.op == "call" and len(t.args) > 3 else {}


def all_leaves(a, t, pred):
    ls = a.leaves(t)
    return bool(ls) and all(pred(l) for l in ls)


# -- terms ---------------------------------------------------------------------------
def is_const(t):
    return t.op == "const"


def elem_of(pred):
    return lambda t: t.op == "elem" and pred(t.args[0])


def chain(base, path):
    """The value reached from `base` through the attributes of the path."""
    p = base
    for n in path.split("."):
        p = is_attr(n, p) if n[-1:] != ")" else method_of(n[:-2], p)
    return p


def method_of(n, p):
    return lambda t: t.op in ("call", "pure") and (k := callee_of(t)) is not None and k.op == "attr" and k.args[1] == n and p(k.args[0])


def either(*ps):
    return lambda t: any(p(t) for p in ps)


def made_by(fqn):
    return lambda t: t.op == "call" and t.args[1].op == "glob" and t.args[1].args[0] == fqn


def ident(n, pred):
    """The value as n big-endian unsigned bytes."""
    def f(t):
        k = callee_of(t)
        if k is None or k.op != "attr" or k.args[1] != "to_bytes" or not pred(k.args[0]):
            return False
        kw = dict(t.args[3] or ()) if t.op == "call" and len(t.args) > 3 else {}
        pos = list(call_args(t))
        ln = kw.get("length", pos[0] if pos else None)
        bo = kw.get("byteorder", pos[1] if len(pos) > 1 else None)
        sg = kw.get("signed")
        return ln is not None and is_const(ln) and ln.args[0] == n and bo is not None and is_const(bo) and bo.args[0] == "big" and (sg is None or is_const(sg) and not sg.args[0])
    return f


# -- fields of a message ---------------------------------------------------------------
def under(t, obj):
    """Dotted path of attributes from the object to t, or None."""
    p = []
    while t.op == "attr":
        p.append(t.args[1])
        t = t.args[0]
        if t is obj:
            return ".".join(reversed(p))
    return None


def fields(a, obj):
    """{path: [(how, value, instr)]} of everything put into a message."""
    out = {}
    mk = [r for r in a.calls() if r.dst is obj]
    at = mk[0].instr if mk else None
    for k, v in kwof(obj).items():
        out.setdefault(k, []).append(("set", v, at))
    for r in a.events("store_attr"):
        for b in a.leaves(r.t["base"]):
            if b is obj:
                out.setdefault(r.instr.name, []).append(("set", r.t["val"], r.instr))
            else:
                p = under(b, obj)
                if p is not None:
                    out.setdefault(p + "." + r.instr.name, []).append(("set", r.t["val"], r.instr))
    for r in a.calls(name=("append", "extend", "add", "CopyFrom", "MergeFrom", "SetInParent", "Clear", "ClearField", "pop", "remove", "clear", "insert", "sort", "reverse")):
        if r.t.get("recv") is None:
            continue
        for b in a.leaves(r.t["recv"]):
            p = under(b, obj)
            if p is not None:
                n = r.instr.name
                how = {"append": "item", "extend": "set", "add": "item", "CopyFrom": "set", "MergeFrom": "set"}.get(n, n)
                out.setdefault(p, []).append((how, r.args[0] if r.args else r.dst, r.instr))
    return out


def has(c, rule, con, a, obj, where, **spec):
    """Every leaf of each named field satisfies its predicate and the field is
    set once."""
    fs = fields(a, obj)
    for n, pred in spec.items():
        n = n.replace("__", ".")
        vs = fs.get(n, [])
        one = c.ob(rule, con + "." + n, len(vs) >= 1 and all(h == "set" for h, v, i in vs), where, "the field is never filled")
        if not one:
            continue
        for h, v, i in vs:
            bad = [l for l in a.leaves(v) if not pred(l)]
            c.ob(rule, con + "." + n, not bad and a.leaves(v) != [], i.where if i is not None else where, "is filled from %s" % (bad or ["nothing"])[0])


MUT = ("pop", "remove", "clear", "insert", "sort", "reverse", "popleft", "appendleft", "__delitem__")


def mapped(a, t, src, item, at=None):
    """None when the value lists exactly one `item` for every member of src,
    in order; otherwise what is wrong."""
    ls = choices(a, t)
    if not ls:
        return "nothing"
    for l in ls:
        k = callee_of(l)
        if k is not None and k.op == "glob" and k.args[0] in KEEP_ORDER and call_args(l):
            e = mapped(a, call_args(l)[0], src, item, at)
            if e:
                return e
            continue
        if l.op != "new" or not a.contents.get(l):
            return "%s does not list them" % l
        for r in a.calls(name=MUT):
            if r.t.get("recv") is not None and any(x is l for x in a.leaves(r.t["recv"])):
                return "members are taken away or moved at %s" % r.where
        e = mapped_into(a, a.contents[l], src, item, at, [r.instr for r in a.events("new") if r.dst is l])
        if e:
            return e
    return None


def choices(a, t):
    """Leaves of the value, without the empty stand-in of `x or ()`."""
    ls = a.leaves(t)
    if t.op != "phi":
        return ls
    empty = lambda x: x.op == "tup" and not x.args or is_const(x) and x.args[0] is None or x.op == "new" and not a.contents.get(x)
    out = []
    for x, facts in (a.phis.get(t) or {}).values():
        if empty(x) and any(v is False and any(l is y for l in ls for y in a.leaves(k)) and not empty(k) for k, v in facts.items() if k is not x):
            continue
        out += choices(a, x) if x is not t else []
    return list(dict.fromkeys(out))


def mapped_into(a, contents, src, item, at=None, born=None):
    ins = []
    for k, v, i in contents:
        bad = [x for x in a.leaves(v) if not item(x)]
        if bad:
            return "a member is %s" % bad[0]
        ins.append(i)
    return once_each(a, ins, src, at, born=born)


def once_each(a, ins, src, at=None, order=True, born=None):
    lps = [lp for lp in a.events("loop") if ordered(a, lp.t["iter"], src, perm=not order) and any(i.block in loop_body(a, lp) for i in ins)]
    if not lps:
        return "no loop over all of them adds the members"
    seen = []
    for lp in lps:
        b = loop_body(a, lp)
        mine = [i for i in ins if i.block in b]
        seen += mine
        if loop_skips(a, lp, mine) is not None:
            return "a member may be left out at %s" % lp.where
        if loop_breaks(a, lp):
            return "the loop at %s may end early" % lp.where
        for i in mine:
            for j in mine:
                ij = a.path_avoiding(i, [lp.instr], [j.block]) if j.block is not lp.block else None
                if ij and (i is not j or len(ij) > 1):
                    return "a member may be added twice at %s" % i.where
        for outer in a.events("loop") if born else ():
            if outer.instr is not lp.instr and lp.block in loop_body(a, outer) and not all(i.block in loop_body(a, outer) for i in born):
                return "the members of one group stay for the next at %s" % outer.where
        if at is not None and not a.dominated(at, [lp.instr]):
            return "the members may not be visited at %s" % lp.where
    if any(i not in seen for i in ins):
        return "something else is added at %s" % [i for i in ins if i not in seen][0].where
    if len(lps) > 1:
        return "they are added by two loops"
    return None


# -- presence --------------------------------------------------------------------------
def is_data(t):
    """A value read from the telemetry given to the encoder."""
    if t.op in ("elem", "keyof", "kv"):
        return True
    if t.op in ("attr", "item"):
        return is_data(t.args[0]) or t.args[0].op == "param"
    if t.op == "call" and not t.args[2] and not t.args[3] and t.args[1].op == "attr":
        return is_data(t.args[1].args[0])
    return False


def o_present(*parts):
    """The optional parts are there (and, for lists, not empty)."""
    t_pred = either(*parts)

    def f(a, t, st):
        if t.op == "isnone":
            return False if t_pred(t.args[0]) else None
        if t.op in ("lt", "eq"):
            x, y = t.args
            ln = lambda z: is_call(fqn="builtins.len")(z) and t_pred(call_args(z)[0])
            if t.op == "eq" and (ln(x) and is_const(y) and y.args[0] == 0 or t_pred(x) and is_const(y) and y.args[0] in (0, "", False, None)):
                return False
            if t.op == "lt" and ln(y) and is_const(x) and x.args[0] == 0:
                return True
            if t.op == "lt" and ln(x) and is_const(y) and y.args[0] == 1:
                return False
            return None
        if t.op in ("isinst", "in", "not"):
            return None
        if t.op == "istrue":
            return None
        if is_call(fqn=("builtins.len", "builtins.bool"))(t) and call_args(t) and t_pred(call_args(t)[0]):
            return True
        return True if t_pred(t) else None
    return f


def o_absent(pred):
    """The value is None."""
    return oracle(o_isnone(pred, True), o_truth(pred, False), lambda a, t, st: False if t.op in ("isinst", "eq") and any(pred(x) for x in t.args) else None)


# -- grouping -----------------------------------------------------------------------------
def place(t):
    """(container, keys) of a place inside nested dictionaries."""
    keys = []
    while True:
        if t.op == "item":
            keys.insert(0, t.args[1])
            t = t.args[0]
        elif t.op == "call" and t.args[1].op == "attr" and t.args[1].args[1] in ("setdefault", "get") and t.args[2]:
            keys.insert(0, t.args[2][0])
            t = t.args[1].args[0]
        else:
            break
    flat = []
    for k in keys:
        flat += list(k.args) if k.op == "tup" else [k]
    return t, flat


def grouped(c, rule, con, a, f, rec, src, made, resource, scope):
    """Every made message is put once, under its own resource and scope, into
    a dictionary; returns the container."""
    D, ins, where = None, [], rec.where
    for r in a.calls(name=("append", "add", "extend")):
        if r.args and any(l is made for l in a.leaves(r.args[0])):
            for l in a.leaves(r.t["recv"]):
                d, ks = place(l)
                if l.op == "new":
                    for s in a.events("store_item"):
                        if any(x is l for x in a.leaves(s.t["val"])):
                            d, ks = place(s.t["base"])
                            ks = ks + (list(s.t["key"].args) if s.t["key"].op == "tup" else [s.t["key"]])
                if len(ks) == 2:
                    D, where = d, r.where
                    good = all_leaves(a, ks[0], resource) and all_leaves(a, ks[1], scope)
                    c.ob(rule, con + "-key", good, r.where, "is grouped under %s and %s" % tuple(ks))
                    ins.append(r.instr)
                    c.ob(rule, con + "-whole", a.leaves(r.args[0]) == [made], r.where, "something else is added")
    if not c.ob(rule, con, D is not None, where, "is not put under its own resource and scope"):
        return None
    e = once_each(a, ins, src)
    c.ob(rule, con + "-each", e is None, where, "not exactly once for every member: %s" % e)
    return D


def ungroup(c, rule, a, f, D, R, scope_msg, leaf_field, res_msg, scope_field, request, request_field):
    """Each resource and scope of the dictionary becomes one message holding
    its own group."""
    G = lambda t: t is D
    group, res = elem_of(G), lambda t: t.op == "keyof" and G(t.args[0])
    leafs, sc = elem_of(group), lambda t: t.op == "keyof" and group(t.args[0])
    made_s = [r for r in a.calls(fqn=scope_msg)]
    c.ob(rule, "scope-message", len(made_s) >= 1, f.where, "no scope message is made")
    for r in made_s:
        has(c, rule, "scope-message", a, r.dst, r.where, **{leaf_field: either(leafs, lambda t: is_call(fqn=tuple(KEEP_ORDER))(t) and leafs(call_args(t)[0])), "schema_url": chain(sc, "schema_url"), "scope": scope_message(c, a, R, sc)})
    made_r = [r for r in a.calls(fqn=res_msg)]
    c.ob(rule, "resource-message", len(made_r) >= 1, f.where, "no resource message is made")
    for r in made_r:
        has(c, rule, "resource-message", a, r.dst, r.where, schema_url=chain(res, "schema_url"), resource=resource_message(a, R, res))
        lists(c, rule, "resource-message", a, r, scope_field, group, lambda t: t.op == "call" and t.args[1].op == "glob" and t.args[1].args[0] == scope_msg)
    made_q = [r for r in a.calls(fqn=request)]
    c.ob(rule, "request", len(made_q) >= 1, f.where, "no request is made")
    for r in made_q:
        lists(c, rule, "request", a, r, request_field, G, lambda t: t.op == "call" and t.args[1].op == "glob" and t.args[1].args[0] == res_msg)
    returned(c, rule, a, f, request)


def returned(c, rule, a, f, request):
    for r in a.rets():
        if r.instr.frame.parent is None:
            c.ob(rule, "request-returned", all_leaves(a, r.t["val"], made_by(request)), r.where, "does not return the request")


def lists(c, rule, con, a, rec, field, src, item):
    """The repeated field of the message holds one item for every member."""
    vs = fields(a, rec.dst).get(field, [])
    if not c.ob(rule, con + "." + field, bool(vs), rec.where, "the field is never filled"):
        return
    sets = [(v, i) for h, v, i in vs if h == "set"]
    items = [(None, v, i) for h, v, i in vs if h == "item"]
    other = [h for h, v, i in vs if h not in ("set", "item")]
    e = "members are taken away" if other else None
    if sets and items or len(sets) > 1:
        e = e or "the field is filled in two ways"
    for v, i in sets:
        e = e or mapped(a, v, src, item, i)
    if items:
        e = e or mapped_into(a, items, src, item, None, [rec.instr])
    c.ob(rule, con + "." + field, e is None, rec.where, "does not list one for every member: %s" % e)


def scope_message(c, a, R, sc):
    def f(t):
        if not made_by(SCOPE)(t):
            return False
        fs = fields(a, t)
        get = lambda n: [v for h, v, i in fs.get(n, []) if h == "set"]
        return all(len(get(n)) == 1 for n in ("name", "version", "attributes")) and all_leaves(a, get("name")[0], chain(sc, "name")) and all_leaves(a, get("version")[0], chain(sc, "version")) and all_leaves(a, get("attributes")[0], lambda l: R.is_attrs(chain(sc, "attributes"))(a, l))
    return f


def resource_message(a, R, res):
    def f(t):
        if not made_by(RESOURCE)(t):
            return False
        vs = [v for h, v, i in fields(a, t).get("attributes", []) if h == "set"]
        return len(vs) == 1 and all_leaves(a, vs[0], lambda l: R.is_attrs(chain(res, "attributes"))(a, l))
    return f


def attrs_of(a, R, pred):
    return lambda l: R.is_attrs(pred)(a, l)


def dereferences(a, pred):
    """Places that use the value as if it were there."""
    out = []
    for r in a.events("attr"):
        if any(pred(l) for l in a.leaves(r.t["base"])):
            out.append(r)
    for r in a.calls():
        if r.t.get("recv") is not None and any(pred(l) for l in a.leaves(r.t["recv"])):
            out.append(r)
        elif r.instr.fqn in ("builtins.int", "builtins.float", "builtins.len", "builtins.list", "builtins.tuple", "builtins.dict") and any(pred(l) for x in r.args for l in a.leaves(x)):
            out.append(r)
    for r in a.events("loop"):
        if any(pred(l) for l in a.leaves(r.t["iter"])):
            out.append(r)
    for r in a.events("item"):
        if any(pred(l) for l in a.leaves(r.t["base"])):
            out.append(r)
    return out
