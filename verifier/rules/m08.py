"""M08: metric state is isolated from the caller and shared configuration."""
import ast

from .mx import *
from .c02 import mutations

NOTE = "Escape and alias analysis: what a stream or exemplar keeps of the caller's attributes, what a point takes of the live aggregation, and whether anything but its constructor changes a configuration object."

EXM = MI + "exemplar.exemplar_reservoir."
EXPO = MI + "exponential_histogram."
CONTAINERS = ("builtins.list", "builtins.dict", "builtins.set", "collections.deque", "collections.defaultdict", "collections.OrderedDict", "builtins.bytearray")


def run(c):
    streams(c)
    exemplars(c)
    points(c)
    config(c)
    c.floor("stream-attributes", 1)
    c.floor("exemplar-attributes", 1)
    c.floor("handed-out", 8)
    c.floor("config-unchanged", 8)


# -- the caller's attributes -----------------------------------------------------------
def streams(c):
    k = c.prog.cls(MATCH)
    m = c.method(k, "consume_measurement")
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
    p = m.params()[0][1]
    ev = a.calls(name="_create_aggregation")
    for r in ev:
        v = arg(r, 1, "attributes")
        ok = v is not None and fresh(a, v)
        c.ob("stream-attributes", m.fqn, ok, r.where, "the stream keeps the caller's own dictionary of attributes: %s" % (v,))
    c.ob("stream-attributes", m.fqn, bool(ev), m.where, "no stream is created")
    for r in a.events("store_item"):
        if all_are(a, r.t["base"], lambda l: l.op == "attr" and l.args[0].op == "self"):
            ok = all(hashable(l) for l in a.leaves(r.t["key"]))
            c.ob("stream-attributes", m.fqn + " key", ok, r.where, "the stream's identity can change after the measurement: %s" % r.t["key"])
    # an aggregation keeps nothing of a measurement that can change
    for k in c.prog.subclasses(c.prog.cls(AGG + "_Aggregation")):
        m = c.method(k, "aggregate")
        a = c.an(m, k)
        meas = is_param(m.params()[0][1])
        keeps(c, a, m, k, lambda t: meas(t) or t.op == "attr" and meas(t.args[0]) and t.args[1] in ("attributes",), "stream-attributes")


def hashable(l):
    ca = callee_of(l)
    if ca is not None and ca.op == "glob" and ca.args[0] in ("builtins.frozenset", "builtins.tuple", "builtins.hash", "builtins.str"):
        return True
    return l.op in ("tup", "const", "fstr")


def keeps(c, a, m, k, pred, rule):
    """Nothing satisfying pred is stored in the object."""
    bad = None
    for r in self_stores(a):
        if any(pred(l) for l in a.leaves(r.t["val"])):
            bad = bad or r
    for r in a.recs:
        if r.instr.kind in ("store_item", "content") and any(is_rooted(l) for l in a.leaves(r.t["base"])):
            if r.t["val"] is not None and any(pred(l) for l in a.leaves(r.t["val"])):
                bad = bad or r
        if r.instr.kind == "call" and r.instr.name in PUTS + ("add", "setdefault", "insert") and r.t.get("recv") is not None and any(is_rooted(l) for l in a.leaves(r.t["recv"])):
            if any(pred(l) for x in r.args for l in a.leaves(x)):
                bad = bad or r
    c.ob(rule, "%s.%s" % (k.fqn, m.name), bad is None, bad.where if bad else m.where, "what the caller passed is kept as it is, the caller may change it later")


def is_rooted(l):
    return l.op in ("attr", "item", "elem") and root(l).op == "self"


def exemplars(c):
    n = 0
    for q, k in sorted(c.prog.classes.items()):
        if not q.startswith(MI + "exemplar.") or "offer" not in k.methods:
            continue
        m = k.methods["offer"]
        # an empty dictionary says as little as None: judge the attributes there are
        a = c.an(m, k, oracle=oracle(o_truth(is_param("attributes"), True), o_isnone(is_param("attributes"), False)))
        n += 1
        keeps(c, a, m, k, is_param("attributes"), "exemplar-attributes")
    c.ob("exemplar-attributes", EXM, n > 0, "", "no reservoir takes measurements")


# -- what readers are handed -----------------------------------------------------------
def container(a, l, seen=None):
    """The value is a container or an object holding one."""
    if l.op == "new":
        return True
    if l.op == "obj":
        return l.args[1].startswith(EXPO)
    if l.op == "bin":
        return any(container(a, x) for x in l.args[1:] if hasattr(x, "op") for x in a.leaves(x))
    if l.op == "slice":
        return True
    ca = callee_of(l)
    if ca is not None and ca.op == "glob":
        return ca.args[0] in CONTAINERS or ca.args[0].startswith(EXPO) and ca.args[0] in a.prog.classes
    if ca is not None and ca.op == "attr":
        return ca.args[1] in ("copy", "copy_empty", "split")
    return False


def holding(c, k):
    """Fields that hold containers the object itself changes or replaces."""
    out = set()
    for kk in c.prog.mro(k):
        if not kk.mod.name.startswith("opentelemetry"):
            continue
        for m in kk.methods.values():
            if m.is_static or m.is_gen():
                continue
            a = c.an(m, k)
            for r in self_stores(a):
                if any(container(a, l) for l in a.leaves(r.t["val"])):
                    out.add(r.instr.name)
            for r, t in mutations(a):
                if r.instr.kind in ("store_attr", "del_attr"):
                    continue
                for l in a.leaves(t):
                    if l.op == "attr" and l.args[0].op == "self":
                        out.add(l.args[1])
    return out


def shared(c, a, l, H, prog_props, r):
    """Description when the term is a container the object goes on using."""
    if l.op == "attr" and l.args[0].op == "self":
        return l.args[1] if l.args[1] in H else None
    if l.op == "attr" and l.args[1] in prog_props and live(a, l.args[0], r):
        return l.args[1]
    if l.op in ("item", "elem") and is_rooted(l) and root_field(l) in H:
        return None
    ca = callee_of(l)
    if ca is not None and ca.op == "attr" and ca.args[1] in prog_props and live(a, ca.args[0], r):
        return ca.args[1] + "()"
    return None


def live(a, t, r):
    """One of the values is still the object's own when it returns."""
    return any(root(x).op == "self" and not detached(a, x, r) for x in a.leaves(t))


def root_field(t):
    while t.op in ("attr", "item", "elem") and t.args[0].op != "self":
        t = t.args[0]
    return t.args[1] if t.op == "attr" else None


def leaky(c):
    """Methods and properties of the histogram's buckets that give out the
    container they keep."""
    out = {}
    for q, k in sorted(c.prog.classes.items()):
        if not q.startswith(EXPO):
            continue
        H = holding(c, k)
        for m in k.methods.values():
            if m.is_static or m.name.startswith("__"):
                continue
            a = c.an(m, k)
            for r in a.rets():
                for l in a.leaves(r.t["val"]):
                    if l.op == "attr" and l.args[0].op == "self" and l.args[1] in H:
                        out[m.name] = out[l.args[1]] = l.args[1]
    return out


def handed(a, t, seen):
    """Terms reachable from what is returned."""
    for l in a.leaves(t):
        if l in seen:
            continue
        seen.add(l)
        yield l
        if l.op == "obj":
            for x in l.args[2]:
                yield from handed(a, x, seen)
            for n, x in l.args[3]:
                if n != "**":
                    yield from handed(a, x, seen)
        elif l.op == "new":
            for k, v, i in a.contents.get(l, ()):
                if v is not None:
                    yield from handed(a, v, seen)
        elif l.op == "tup":
            for x in l.args:
                yield from handed(a, x, seen)


def points(c):
    props = leaky(c)
    ks = [(k, "collect") for k in c.prog.subclasses(c.prog.cls(AGG + "_Aggregation"))]
    ks += [(c.prog.cls(MATCH), "collect"), (c.prog.cls(STORAGE), "collect"), (c.prog.cls(CONSUMER), "collect")]
    ks += [(k, "collect") for q, k in sorted(c.prog.classes.items()) if q.startswith(MI + "exemplar.") and "collect" in k.methods]
    for k, n in ks:
        m = c.method(k, n)
        a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
        H = holding(c, k)
        bad = None
        for r in a.rets():
            for l in handed(a, r.t["val"], set()):
                s = shared(c, a, l, H, props, r)
                if s and not detached(a, l, r):
                    bad = bad or (r, s)
                if l.op == "new" and kept(a, l):
                    bad = bad or (r, "a container it keeps")
        c.ob("handed-out", "%s.%s" % (k.fqn, n), bad is None, bad[0].where if bad else m.where, "what a reader is handed changes with later measurements (%s)" % (bad and bad[1]))


def detached(a, l, ret):
    """The object gave the container up: the field has another value by the
    time the method returns, and no other field holds it."""
    if not (l.op == "attr" and l.args[0].op == "self"):
        return False
    st = [r for r in self_stores(a) if r.instr.name == l.args[1] and not any(x is l for x in a.leaves(r.t["val"]))]
    if not st or not a.dominated(ret.instr, [r.instr for r in st]):
        return False
    return not any(any(x is l for x in a.leaves(r.t["val"])) for r in self_stores(a))


def kept(a, l):
    return any(any(x is l for x in a.leaves(r.t["val"])) for r in self_stores(a))


# -- configuration ---------------------------------------------------------------------
def config(c):
    ks = [k for k in c.prog.subclasses(c.prog.cls(AGG + "Aggregation")) if k.fqn.startswith(MI)] + list(c.prog.subclasses(c.prog.cls(VIEW)))
    names = {k.fqn for k in ks}
    for k in ks:
        for kk in c.prog.mro(k):
            if kk.fqn not in names:
                continue
            for m in kk.methods.values():
                if m.name in ("__init__", "__new__") or m.is_static:
                    continue
                a = c.an(m, k)
                bad = next((r for r, t in mutations(a) if any(l.op == "self" or is_rooted(l) or root(l).op == "glob" or l.op == "param" or root(l).op == "param" for l in a.leaves(t))), None)
                c.ob("config-unchanged", "%s.%s" % (k.fqn, m.name), bad is None, bad.where if bad else m.where, "a shared configuration object is modified")
                shares(c, a, k, m)
    # nobody else modifies them either
    for f in c.prog.funcs.values():
        if not f.mod.name.startswith(MI[:-1]) or f.cls is not None and f.cls.fqn in names or f.node is None or isinstance(f.node, ast.Lambda):
            continue
        if not touches(f):
            continue
        a = c.an(f, f.cls)
        for r, t in mutations(a):
            for l in a.leaves(t):
                if about(l) and not fresh(a, l):
                    c.ob("config-unchanged", f.fqn, False, r.where, "a view or aggregation is modified: %s" % l)
        c.ob("config-unchanged", f.fqn, True, f.where, "")


WORDS = ("view", "_view", "_views", "views", "_aggregation", "_boundaries", "_attribute_keys", "preferred_temporality", "preferred_aggregation", "_preferred_temporality", "_preferred_aggregation")


def touches(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id in WORDS or isinstance(n, ast.Attribute) and n.attr in WORDS:
            return True
    return False


def about(l):
    """A part of a configuration object: reached through a view, a view's or a
    reader's aggregation, or the user's tables."""
    t = l
    while True:
        if t.op == "param":
            return t.args[0] in ("view", "preferred_temporality", "preferred_aggregation", "boundaries", "attribute_keys", "instrument_class_aggregation", "instrument_class_temporality", "views")
        if t.op == "attr":
            if t.args[0].op == "self":
                return t.args[1] in ("_view", "_preferred_temporality", "_preferred_aggregation") and t is not l or t.args[1] in ("_preferred_temporality", "_preferred_aggregation", "_views")
            if t.args[1] in ("_aggregation", "_attribute_keys", "_views", "views"):
                return True
            t = t.args[0]
        elif t.op in ("item", "elem", "keyof", "slice"):
            t = t.args[0]
        else:
            return False


def shares(c, a, k, m):
    """What a factory makes does not work on the factory's own containers."""
    for r in a.recs:
        if r.instr.kind not in ("call", "enter"):
            continue
        q = r.instr.fqn if r.instr.kind == "call" else (r.instr.fqn or "").rsplit(".__init__", 1)[0]
        if q not in c.prog.classes or not c.prog.classes[q].fqn.startswith(AGG + "_"):
            continue
        kk = c.prog.classes[q]
        ini = c.prog.find_method(kk, "__init__")
        ia = c.an(ini, kk)
        ch = set()
        for x in kk.methods.values():
            if x.name == "__init__" or x.is_static:
                continue
            for rr, t in mutations(c.an(x, kk)):
                if rr.instr.kind in ("store_attr", "del_attr"):
                    continue
                for l in c.an(x, kk).leaves(t):
                    f = root_field(l) if is_rooted(l) else None
                    if f:
                        ch.add(f)
        bad = None
        for s in self_stores(ia):
            if s.instr.name in ch and any(l.op == "param" for l in ia.leaves(s.t["val"])):
                bad = s.instr.name
        c.ob("config-unchanged", "%s makes %s" % (m.fqn, kk.name), bad is None, r.where, "the stream changes %s, which it was given by the factory" % bad)

