"""T06: isolation of span views."""
from .c02 import bad_root, mutations
from .c03 import obj_field
from .lib import *
from .t01 import end_attr
from .t05 import BA, BL, EV, LK, content_objs

NOTE = "Alias analysis: what every public method of the span classes returns is traced to its origin and must not be the span's own container; what is stored in a container field must not be a caller's object; no method changes a parameter or anything reached through it."
RS = "opentelemetry.sdk.trace.ReadableSpan"
CONTAINERS = ("_attributes", "_events", "_links")
WRAP = {"types.MappingProxyType", "builtins.tuple", "builtins.list", "builtins.dict", "builtins.frozenset", "copy.copy", "copy.deepcopy", "collections.OrderedDict", "collections.deque", "builtins.set", "builtins.sorted"}
MODS = ["opentelemetry.sdk.trace", "opentelemetry.attributes", "opentelemetry.sdk.util", "opentelemetry.trace", "opentelemetry.sdk.trace.sampling", "opentelemetry.sdk.trace.id_generator", "opentelemetry.trace.status"]


def own(a, t, fields, depth=0):
    """t is, or iterates over, a container of the object itself."""
    if depth > 8:
        return None
    for l in a.leaves(t):
        if l.op == "attr" and l.args[0].op == "self" and l.args[1] in fields:
            return l
        k = callee_of(l)
        if k is not None and k.op == "glob" and k.args[0] in ("builtins.iter", "builtins.reversed", "typing.cast") and call_args(l):
            w = own(a, call_args(l)[-1 if k.args[0] == "typing.cast" else 0], fields, depth + 1)
            if w is not None:
                return w
        if l.op in ("phi", "ite", "or", "and"):
            for x in l.args:
                if isinstance(x, Term) and x is not l:
                    w = own(a, x, fields, depth + 1)
                    if w is not None:
                        return w
    return None


def is_copy(a, t, fields):
    """t is a new object holding the members of the container."""
    ls = a.leaves(t)
    for l in ls:
        k = callee_of(l)
        if l.op in ("new", "tup", "const", "gen"):
            continue
        if k is not None and (k.op == "glob" and k.args[0] in WRAP or k.op == "attr" and k.args[1] == "copy"):
            continue
        return l
    return None


def run(c):
    prog = c.prog
    rs, sp = prog.cls(RS), prog.cls(SPAN)
    for k in (rs, sp):
        for f in CONTAINERS:
            m = c.method(k, f[1:])
            pol = Policy(mods=("opentelemetry.sdk.trace",))
            full = {r.where for r in c.an(m, k, policy=pol, oracle=oracle(o_truth(is_attr(f, lambda b: b.op == "self"), True))).rets()}
            a = c.an(m, k, policy=pol)
            for r in a.rets():
                w = own(a, r.t["val"], CONTAINERS)
                x = is_copy(a, r.t["val"], CONTAINERS)
                con = "%s.%s" % (k.fqn, f[1:])
                c.ob("view-is-a-copy", con, w is None, r.where, "the span's own %s is handed out" % f)
                c.ob("view-is-a-copy", con, x is None, r.where, "%s, which is returned, is not known to be a copy" % x)
                c.ob("view-content", con, r.where not in full or a.derives(r.t["val"], is_attr(f, lambda b: b.op == "self")) or mentions_self(a, r, f), r.where, "%s is not what is returned" % f)
        pub = {n: m for kk in reversed(prog.mro(k)) for n, m in kk.methods.items() if kk.mod.name == "opentelemetry.sdk.trace" and not n.startswith("_")}
        for n, m in sorted(pub.items()):
            if n in ("attributes", "events", "links"):
                continue
            a = c.an(m, k, policy=Policy(mods=("opentelemetry.sdk.trace",)))
            w = [r for r in a.rets() if r.t["val"] is not None and own(a, r.t["val"], CONTAINERS) is not None]
            c.ob("no-leak", "%s.%s" % (k.fqn, n), not w, w[0].where if w else m.where, "the span's own container is handed out")
    containers(c)
    stored(c)
    unchanged(c)
    view(c, sp, rs)
    members(c, sp)
    values(c)
    c.floor("view-is-a-copy", 6)
    c.floor("param-unchanged", 60)
    c.floor("view-field", 10)


def mentions_self(a, r, f):
    for l in a.leaves(r.t["val"]):
        if any(x.op == "attr" and x.args[1] == f for x in walk(l)):
            return True
        for x in call_args(l) if callee_of(l) is not None else ():
            for y in a.leaves(x):
                if any(z.op == "attr" and z.args[1] == f for z in walk(y)):
                    return True
                if any(z.op == "attr" and z.args[1] == f for k_, v, i in a.contents.get(y, ()) for z in walk(v)):
                    return True
        if any(z.op == "attr" and z.args[1] == f for k_, v, i in a.contents.get(l, ()) for z in walk(v)):
            return True
    return False


def walk(t, depth=0):
    yield t
    if depth < 12:
        for x in t.args:
            if isinstance(x, Term):
                yield from walk(x, depth + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        yield from walk(y, depth + 1)


def containers(c):
    """The collection classes hand out copies when iterated or copied."""
    prog = c.prog
    for cn, names in ((BA, ("__iter__", "copy")), (BL, ("__iter__",))):
        k = prog.cls(cn)
        # the fields that hold a mutable container made by the class
        mk = ("collections.deque", "builtins.dict", "builtins.list", "collections.OrderedDict")
        fields = set()
        for m in k.methods.values():
            am = c.an(m, k)
            for r in am.events("store_attr"):
                if is_self(r.t["base"]) and any(l.op == "new" or callee_of(l) is not None and callee_of(l).op == "glob" and callee_of(l).args[0] in mk for l in am.leaves(r.t["val"])):
                    fields.add(r.instr.name)
        c.ob("container-field", cn, len(fields) >= 1, k.where if hasattr(k, "where") else "", "no container found")
        for n, m in sorted(k.methods.items()):
            if n.startswith("_") and n not in names:
                continue
            a = c.an(m, k)
            for r in a.rets():
                v = r.t["val"]
                if v is None:
                    continue
                w = own(a, v, fields)
                c.ob("iteration-copies", "%s.%s" % (cn, n), w is None, r.where, "the collection's own %s is handed out" % w)
        for n in names:
            a = c.am(k, n)
            c.ob("iteration-copies", "%s.%s" % (cn, n), all(r.t["val"] is not None for r in a.rets()), a.fi.where if hasattr(a, "fi") else "", "nothing is returned")


def stored(c):
    """A caller's collection never becomes the collection of a span."""
    prog = c.prog
    for cn, fields in ((SPAN, CONTAINERS), (BA, None), (BL, None)):
        k = prog.cls(cn)
        for n, m in sorted(k.methods.items()):
            a = c.an(m, k, policy=Policy(mods=("opentelemetry.sdk.trace",)) if cn == SPAN else None)
            for r in a.events("store_attr"):
                if fields is not None and r.instr.name not in fields or not is_self(r.t["base"]) and r.t["base"].op != "obj":
                    continue
                if fields is None and not r.instr.name.startswith("_d"):
                    continue
                for l in a.leaves(r.t["val"]):
                    if l.op == "const":
                        continue
                    if r.instr.frame.fi is not m and cn == SPAN and r.instr.frame.fi.cls is not None and r.instr.frame.fi.cls.fqn == RS:
                        continue  # set by the base class first, then replaced
                    c.ob("stored-copy", "%s.%s %s" % (cn, n, r.instr.name), not rooted(l), r.where, "the caller's %s becomes the collection itself" % l)


def rooted(t):
    while t.op in ("attr", "item", "elem", "slice") and isinstance(t.args[0], Term):
        t = t.args[0]
    return t.op == "param"


def unchanged(c):
    prog = c.prog
    for f in program_funcs(prog, MODS):
        a = c.an(f)
        bad = None
        for r, recv in mutations(a):
            why = bad_root(a, recv, False)
            if not why or not why.startswith("parameter"):
                continue
            if f.name in ("inject", "set_span_in_context", "__setattr__", "__delattr__"):
                continue
            if why.split()[1] in ("cls", "self"):
                continue
            if r.instr.frame.fi is not f and r.instr.frame.fi.cls is not None and r.instr.frame.fi.name in ("__init__", "__new__") and recv.op in ("obj", "self"):
                continue
            bad = (r, why)
            break
        c.ob("param-unchanged", f.fqn, bad is None, bad[0].where if bad else f.where, "%s is changed (%s)" % (bad[1] if bad else "", bad[0].instr.name if bad else ""))


def view(c, sp, rs):
    """What on_end receives is a ReadableSpan of its own with the span's data."""
    prog = c.prog
    a = c.am(sp, "end", policy=Policy(mods=("opentelemetry.sdk.trace",)))
    ends = [r for r in a.calls(name="on_end")]
    c.ob("view-handed-out", SPAN + ".end", bool(ends), sp.mod.name, "on_end is not called")
    names = ("name", "context", "parent", "resource", "attributes", "events", "links", "kind", "status", "start_time", "end_time", "instrumentation_info", "instrumentation_scope")
    for r in ends:
        v = r.args[0] if r.args else None
        ls = a.leaves(v) if v is not None else ()
        objs = [l for l in ls if l.op == "obj" and l.args[1] == RS]
        c.ob("view-handed-out", SPAN + ".end", bool(ls) and len(objs) == len(ls), r.where, "on_end receives %s, not a view" % v)
        for l in objs:
            for n in names:
                x = obj_field(prog, l, "_" + n) if obj_field(prog, l, "_" + n) is not None else obj_field(prog, l, n)
                if n == "end_time":
                    ok = x is not None and x.op != "const"
                else:
                    ok = x is not None and a.derives(x, lambda t, n=n: t.op == "attr" and t.args[1] == "_" + n and t.args[0].op == "self")
                c.ob("view-field", "%s %s" % (SPAN, n), ok, r.where, "the view's %s is %s" % (n, x))


def members(c, sp):
    """Events and links of a span are new objects with immutable attributes."""
    prog = c.prog
    for n in ("add_event", "add_link", "__init__", "record_exception"):
        m = c.method(sp, n)
        a = c.an(m, sp, policy=Policy(mods=("opentelemetry.sdk.trace",)))
        kept = {l for s in a.events("store_attr") if s.instr.name in ("_events", "_links") for l in a.leaves(s.t["val"])}
        for r in a.recs:
            vals = []
            if r.instr.kind == "call" and r.instr.name in ("append", "extend", "from_seq") and r.args:
                vals = content_objs(a, r.args[-1]) if r.instr.name != "append" else a.leaves(r.args[0])
                if r.instr.name == "append" and not any(l.op == "obj" and l.args[1] in (EV, LK) for l in vals) and not (r.t.get("recv") is not None and (any(x.op == "attr" and x.args[1] in ("_events", "_links") for x in walk(r.t["recv"])) or any(l in kept for l in a.leaves(r.t["recv"])))):
                    vals = []
            for l in vals:
                if l.op == "elem" and l.args[0].op == "new":
                    continue
                c.ob("member-copied", "%s.%s" % (SPAN, n), l.op in ("obj", "const"), r.where, "%s itself is stored" % l)
                if l.op != "obj":
                    continue
                at = obj_field(prog, l, "attributes")
                st = [s for s in a.events("store_attr") if s.instr.name == "_attributes" and any(x is l for x in a.leaves(s.t["base"]))]
                if st:
                    at = st[-1].t["val"]
                for y in a.leaves(at) if at is not None else ():
                    if y.op == "obj" and y.args[1] == BA:
                        im = obj_field(prog, y, "immutable")
                        c.ob("member-immutable", "%s.%s" % (SPAN, n), im is None or isconst(im, True), r.where, "the attributes of a stored member can be changed")
    c.floor("member-copied", 3)


def values(c):
    """Sequence values are frozen copies."""
    prog = c.prog
    ba = prog.cls(BA)
    m = c.method(ba, "__setitem__")
    pol = Policy(mods=("opentelemetry.attributes",))
    seq = lambda t: any(x.op == "glob" and x.args[0].rpartition(".")[2] in ("Sequence", "list", "tuple") for x in walk(t))
    val = lambda t: t.op == "param" and t.args[0] == "value"
    a = c.an(m, ba, policy=pol, oracle=oracle(o_isinst(val, True, seq), o_isinst(val, False, lambda t: not seq(t)), o_isnone(val, False)))
    n = 0
    for r in a.events("store_item"):
        if r.instr.block not in a.reach:
            continue
        for l in a.leaves(r.t["val"]):
            n += 1
            k = callee_of(l)
            ok = l.op in ("tup", "const") or k is not None and k.op == "glob" and k.args[0] == "builtins.tuple"
            c.ob("value-frozen", BA, ok, r.where, "a sequence value is stored as %s" % l)
    c.floor("value-frozen", 1)
