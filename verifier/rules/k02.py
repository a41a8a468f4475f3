"""K02: resources merge by precedence and detectors are isolated."""
from .mx import *
from .ox import method_of, elem_of, chain, either, mapped
from . import lib, ox
from ..flow import isconst
from .bx import truth_edge
from .m09 import reach_blocks

NOTE = "Constant propagation of every combination of schema URLs through merge(); layering provenance of the merged attributes and of the resources create() merges; coverage and exception-escape analysis of the loops over detectors; provenance of what each built-in detector reports."

RES = "opentelemetry.sdk.resources."
RESOURCE = RES + "Resource"
AGG = RES + "get_aggregated_resources"
ENV = "opentelemetry.sdk.environment_variables."


made_by = is_made


def call_args(t):
    return t.args[2] if t.op == "obj" else lib.call_args(t)


def kwof(t):
    if t.op == "obj":
        return dict(t.args[3] or ())
    if t.op == "pure":
        return dict(t.args[2] or ()) if len(t.args) > 2 else {}
    return ox.kwof(t)


def run(c):
    k = c.prog.cls(RESOURCE)
    A, S = construct(c, k)
    merge(c, k, A, S)
    compare(c, k, A, S)
    create(c, k, A)
    aggregate(c)
    environment(c)
    builtin(c)
    providers(c)
    for r, n in (("merged", 20), ("resource", 4), ("create", 12), ("detectors", 8), ("isolated", 6), ("environment", 5), ("reported", 12), ("default-resource", 3)):
        c.floor(r, n)


# -- the resource itself -----------------------------------------------------------------
def construct(c, k):
    m = c.method(k, "__init__")
    P = Policy(mods=(k.mod.name,))
    out = []
    a = c.an(m, k, policy=P)
    at = [r for r in self_stores(a) if all_are(a, r.t["val"], made_by("opentelemetry.attributes.BoundedAttributes"))]
    ok = len({r.instr.name for r in at}) == 1
    if c.ob("resource", m.fqn + " attributes", ok, m.where, "the attributes are not copied into bounded attributes"):
        for r in at:
            for l in a.leaves(r.t["val"]):
                kw = kwof(l)
                pos = call_args(l)
                src = kw.get("attributes", pos[1] if len(pos) > 1 else None)
                im = kw.get("immutable", pos[2] if len(pos) > 2 else None)
                mx_ = kw.get("maxlen", pos[0] if pos else None)
                vl = kw.get("max_value_len", pos[3] if len(pos) > 3 else None)
                none = lambda t: t is None or isconst(t, None)
                c.ob("resource", m.fqn + " attributes", src is not None and all_are(a, src, is_param("attributes")) and (im is None or isconst(im, True)) and none(mx_) and none(vl), r.where, "the resource's attributes are %s" % l)
    sf = set()
    for none in (True, False):
        b = c.an(m, k, policy=P, oracle=o_isnone(is_param("schema_url"), none))
        st = [r for r in self_stores(b) if all_are(b, r.t["val"], lambda l: isconst(l, "") if none else is_param("schema_url")(l))]
        p = missing_path(b, b.b.entry, [r.instr for r in st], exc=False)
        sf.add(tuple(sorted({r.instr.name for r in st})))
        c.ob("resource", m.fqn + " schema URL " + ("absent" if none else "given"), bool(st) and p is None, m.where, "the schema URL is not %s" % ("empty" if none else "kept"))
    A = {r.instr.name for r in at}
    S = {n for t in sf for n in t}
    for n, F in (("attributes", A), ("schema_url", S)):
        g = c.method(k, n)
        b = c.an(g, k, policy=P)
        ls = [l for r in b.rets() for l in b.leaves(r.t["val"])]
        c.ob("resource", g.fqn, bool(ls) and all(self_attr(tuple(F))(l) or method_of("copy", self_attr(tuple(F)))(l) for l in ls), g.where, "is %s" % (ls or ["nothing"])[0])
    return A, S


def compare(c, k, A, S):
    m = c.prog.find_method(k, "__eq__")
    h = c.prog.find_method(k, "__hash__")
    if m is None and h is None:
        return
    P = Policy(mods=(k.mod.name,))
    isf = lambda F: (lambda t: t.op == "eq" and all(is_attr(tuple(F))(x) for x in t.args[:2]))
    for av, sv in ((True, True), (True, False), (False, True), (False, False)):
        a = c.an(m, k, policy=P, oracle=oracle(o_isinst(is_param(m.params()[0][1]), True), lambda a, t, st: av if isf(A)(t) else sv if isf(S)(t) else None))
        ls = [l for r in a.rets() for l in a.leaves(r.t["val"])]
        want = av and sv
        ok = bool(ls) and all(isconst(l, want) or isf(S)(l) and sv is want or isf(A)(l) and av is want for l in ls)
        c.ob("resource", "%s attributes %s schema URL %s" % (m.fqn, "equal" if av else "differ", "equal" if sv else "differs"), ok, m.where, "the resources compare %s" % (ls or ["not at all"])[0])
    if c.ob("resource", k.fqn + ".__hash__", h is not None, m.where, "resources that compare equal have no common hash"):
        a = c.an(h, k, policy=P)
        ok = bool(a.rets())
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                for x in subterms(l):
                    if x.op == "attr" and is_self(x.args[0]) and x.args[1] not in A | S:
                        ok = False
                    if is_call(name=("id", "time", "random"))(x) or x.op == "self" and not any(y.op == "attr" and y.args[0] is x for y in subterms(l)):
                        ok = False
                    if is_call(name="dumps")(x) and not isconst(kwof(x).get("sort_keys", a.T.const(None)), True):
                        ok = False
        c.ob("resource", h.fqn, ok, h.where, "the hash depends on more than what is compared")


# -- merge ------------------------------------------------------------------------------
def o_known(pred_a, x, pred_b, y):
    """Two attributes with known string values."""
    def val(t):
        if t.op == "const":
            return (t.args[0],)
        return (x,) if pred_a(t) else (y,) if pred_b(t) else None

    def f(a, t, st):
        if t.op == "eq":
            u, v = val(t.args[0]), val(t.args[1])
            return None if u is None or v is None else u[0] == v[0]
        if t.op == "in" and val(t.args[0]) is not None and t.args[1].op == "tup" and all(val(z) for z in t.args[1].args):
            return val(t.args[0])[0] in [val(z)[0] for z in t.args[1].args]
        if t.op == "isnone" and val(t.args[0]) is not None:
            return val(t.args[0])[0] is None
        z = t.args[0] if t.op == "istrue" else t
        if val(z) is not None and z.op != "const":
            return bool(val(z)[0])
        return None
    return f, val


def layers(a, t, at, depth=0):
    """The mappings a dict is built from, later ones overriding earlier ones,
    or None."""
    ls = a.leaves(t)
    if len(ls) != 1 or depth > 6:
        return None
    t = ls[0]
    out = []
    k = callee_of(t)
    if t.op == "bin" and t.args[0] == "BitOr":
        x, y = layers(a, t.args[1], at, depth + 1), layers(a, t.args[2], at, depth + 1)
        return None if x is None or y is None else x + y
    if k is not None and k.op == "attr" and k.args[1] in ("copy", "items") and not call_args(t):
        out = layers(a, k.args[0], at, depth + 1)
    elif k is not None and k.op == "glob" and k.args[0] in ("builtins.dict", "collections.OrderedDict", "copy.copy", "types.MappingProxyType") and len(call_args(t)) <= 1:
        out = layers(a, call_args(t)[0], at, depth + 1) if call_args(t) else []
    elif k is not None and k.op == "glob" and k.args[0] == "collections.ChainMap":
        for x in reversed(call_args(t)):
            y = layers(a, x, at, depth + 1)
            if y is None:
                return None
            out += y
    elif t.op not in ("new",):
        return [t]
    if out is None:
        return None
    adds = []
    for kk, v, i in a.contents.get(t, ()):
        if kk is None or kk.op not in ("keyof", "elem") or i.name == "setdefault" or not all(x.op in ("elem", "item") and x.args[0] is kk.args[0] for x in a.leaves(v)):
            return None
        lp = [l for l in a.events("loop") if i.block in loop_body(a, l)]
        if any(loop_skips(a, l, [i]) is not None or loop_breaks(a, l) for l in lp):
            return None
        adds.append((kk.args[0], i))
    order = []
    for src, i in adds:
        if not a.dominated(at, [l.instr for l in a.events("loop") if i.block in loop_body(a, l)] or [i]):
            return None
        order.append((src, i))
    pos_of = {p: n for n, p in enumerate(order)}
    # later instructions override earlier ones
    def before(p, q):
        (s, i), (u, j) = p, q
        if i is j:
            for lp in a.events("loop"):
                it = lp.t["iter"]
                if it.op == "tup" and i.block in loop_body(a, lp):
                    pos = [n for w in (s, u) for n, x in enumerate(it.args) if any(y is x for y in subterms(w))]
                    if len(pos) == 2:
                        return pos[0] < pos[1]
            return pos_of[p] < pos_of[q]
        if i.block is j.block:
            return i.block.instrs.index(i) < i.block.instrs.index(j)
        return a.path_avoiding(j, [], [i.block]) is None
    import functools
    order.sort(key=functools.cmp_to_key(lambda p, q: -1 if before(p, q) else 1))
    return out + [s for s, i in order]


def merge(c, k, A, S):
    m = c.method(k, "merge")
    oth = m.params()[0][1]
    P = Policy(mods=(k.mod.name,))
    names = tuple(S) + ("schema_url",)
    mine, their = is_attr(names, is_self), is_attr(names, is_param(oth))
    myattr, theirattr = is_attr(tuple(A) + ("attributes",), is_self), is_attr(tuple(A) + ("attributes",), is_param(oth))
    for x in ("", "a", "b"):
        for y in ("", "a", "b"):
            f, val = o_known(mine, x, their, y)
            a = c.an(m, k, policy=P, oracle=f)
            con = "%s of %r and %r" % (m.fqn, x, y)
            rs = a.rets()
            if x and y and x != y:
                ls = [l for r in rs for l in a.leaves(r.t["val"])]
                c.ob("merged", con, bool(ls) and all(is_self(l) for l in ls), m.where, "resources of conflicting schemas merge into %s" % (ls or ["nothing"])[0])
                p = always(a, [r.instr for r in logger_calls(a)], exc=False)
                c.ob("merged", con + " reported", p is None, m.where, "the conflict is not reported: %s" % witness(a, p))
                continue
            for r in rs:
                for l in a.leaves(r.t["val"]):
                    if not made_by(RESOURCE)(l):
                        # an unchanged resource is the merge with an empty one
                        c.ob("merged", con, False, r.where, "the result is %s" % l)
                        continue
                    kw, pos = kwof(l), call_args(l)
                    at, sc = kw.get("attributes", pos[0] if pos else None), kw.get("schema_url", pos[1] if len(pos) > 1 else None)
                    vs = [val(z) for z in a.leaves(sc)] if sc is not None else [("",)]
                    want = x or y
                    c.ob("merged", con, all(v == (want,) or want == "" and v == (None,) for v in vs) and bool(vs), r.where, "the schema URL is %s" % sc)
                    la = layers(a, at, r.instr) if at is not None else None
                    c.ob("merged", con + " attributes", la is not None and len(la) == 2 and myattr(la[0]) and theirattr(la[1]), r.where, "the attributes are those of %s" % (", then ".join(map(str, la)) if la is not None else at))
            c.ob("merged", con + " result", bool(rs), m.where, "nothing is returned")
            esc = [i for i, e in a.escaping("E") if i.kind == "raise"]
            c.ob("merged", con + " raises", not esc, m.where, "the merge fails")


# -- create -----------------------------------------------------------------------------
def unordered(a, t, depth=0):
    """Enumerating the value follows no fixed order."""
    if depth > 6:
        return False
    for l in a.leaves(t):
        if l.op == "new":
            if l.args[1] in ("set", "frozenset"):
                return True
            if any(unordered(a, v.args[0], depth + 1) for kk, v, i in a.contents.get(l, ()) if v.op == "elem"):
                return True
            if any(unordered(a, lp.t["iter"], depth + 1) for kk, v, i in a.contents.get(l, ()) for lp in a.events("loop") if i.block in loop_body(a, lp)):
                return True
            continue
        if l.op == "bin":
            if any(isinstance(x, Term) and unordered(a, x, depth + 1) for x in l.args[1:]):
                return True
            continue
        k = callee_of(l)
        if k is None:
            continue
        if k.op == "glob" and k.args[0] in ("builtins.set", "builtins.frozenset"):
            return True
        if k.op == "glob" and k.args[0] == "builtins.sorted":
            continue
        if k.op == "attr" and k.args[1] in ("union", "difference", "intersection", "symmetric_difference"):
            return True
        if any(isinstance(x, Term) and unordered(a, x, depth + 1) for x in call_args(l)) or k.op == "attr" and k.args[0].op != "glob" and unordered(a, k.args[0], depth + 1):
            return True
    return False


def members(a, t, depth=0):
    """[(value, instruction or None)] of everything a collection is made of."""
    out = []
    if depth > 8:
        return out
    for l in a.leaves(t):
        k = callee_of(l)
        if l.op == "tup":
            out += [(x, None) for x in l.args]
        elif l.op == "bin":
            for x in l.args[1:]:
                out += members(a, x, depth + 1)
        elif k is not None and k.op == "glob" and (k.args[0] in KEEP_ORDER or k.args[0] in ("builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.dict.fromkeys", "itertools.chain", "collections.OrderedDict.fromkeys")):
            for x in call_args(l):
                out += members(a, x, depth + 1)
        elif k is not None and k.op == "attr" and k.args[1] in ("union", "fromkeys", "copy", "keys"):
            for x in list(call_args(l)) + ([k.args[0]] if k.args[1] != "fromkeys" else []):
                out += members(a, x, depth + 1)
        elif l.op != "new":
            out.append((a.T.mk("elem", l), None))
        for kk, v, i in a.contents.get(l, ()):
            x = kk if kk is not None and l.op == "new" and l.args[1] == "dict" else v
            out += members(a, x.args[0], depth + 1) if x.op == "elem" and (x.args[0].op == "new" or callee_of(x.args[0]) is not None and is_call(name=("union", "set", "list", "tuple"))(x.args[0])) else [(x, i)]
    return out


def stripped(t):
    while callee_of(t) is not None and callee_of(t).op == "attr" and callee_of(t).args[1] in ("strip", "lower") and not call_args(t):
        t = callee_of(t).args[0]
    return t


def env_is(name):
    """Predicate: a read of the environment variable of that name."""
    return lambda t: (n := env_read(t)) is not None and n.op == "const" and n.args[0] == name


def piece_of(name):
    """Predicate: a comma-separated piece of the environment variable."""
    def f(t):
        t = stripped(t)
        return t.op == "elem" and is_call(name="split")(t.args[0]) and callee_of(t.args[0]).op == "attr" and env_is(name)(stripped(callee_of(t.args[0]).args[0])) and len(call_args(t.args[0])) == 1 and isconst(call_args(t.args[0])[0], ",")
    return f


def create(c, k, A):
    m = c.method(k, "create")
    mg = c.method(k, "merge").fqn
    P = Policy(mods=(k.mod.name,), deny=(mg, AGG, k.fqn + ".__init__"))
    name = lambda t: isconst(t, "service.name")

    def parts(a, t, depth=0):
        kk = callee_of(t)
        if kk is not None and (kk.op == "attr" and kk.args[1] == "merge") and call_args(t) and depth < 8:
            x, y = [a.leaves(z) for z in (kk.args[0], call_args(t)[0])]
            if len(x) == 1 and len(y) == 1:
                p, q = parts(a, x[0], depth + 1), parts(a, y[0], depth + 1)
                return None if p is None or q is None else p + q
            return None
        if is_call(fqn=AGG)(t):
            kw, pos = kwof(t), call_args(t)
            ini = kw.get("initial_resource", pos[1] if len(pos) > 1 else None)
            return None if ini is None else parts(a, a.leaves(ini)[0], depth + 1) + [("detected", kw.get("detectors", pos[0] if pos else None))]
        if made_by(RESOURCE)(t):
            kw, pos = kwof(t), call_args(t)
            return [("made", kw.get("attributes", pos[0] if pos else None), kw.get("schema_url", pos[1] if len(pos) > 1 else None))]
        return [("value", t)]

    def given(a, p):
        """The three precedence levels every created resource has."""
        if p is None or len(p) < 3:
            return None
        if p[0][0] != "value" or p[1][0] != "detected" or p[2][0] != "made":
            return None
        return p[0][1], p[1][1], p[2]

    def full(a, t):
        p = parts(a, t)
        return p is not None and len(p) == 3 and given(a, p) is not None

    def present(val, what):
        def f(a, t, st):
            x = t.args[0] if t.op in ("isnone", "istrue") else t
            hit = False
            if is_call(name="get")(x) and callee_of(x).op == "attr" and call_args(x) and isconst(call_args(x)[0], what):
                b = callee_of(x).args[0]
            elif x.op == "item" and isconst(x.args[1], what):
                b = x.args[0]
            elif t.op == "in" and isconst(t.args[0], what):
                b, x = t.args[1], t
            else:
                return None
            hit = b.op == "attr" and b.args[1] in tuple(A) + ("attributes",) and any(full(a, l) for l in a.leaves(b.args[0]))
            return None if not hit else (not val if t.op == "isnone" else val)
        return f

    base = c.prog.display_expr(RES + "_DEFAULT_RESOURCE")
    fromarg = either(is_param("attributes"))
    for svc in (True, False):
        for exe in ((None,) if svc else (True, False)):
            orc = oracle(present(svc, "service.name"), *([] if exe is None else [present(exe, "process.executable.name")]))
            a = c.an(m, None, policy=P, oracle=orc)
            con = m.fqn + (" with a service name" if svc else " without a service name" + (", executable known" if exe else ""))
            ls = [(l, r) for r in a.rets() for l in a.leaves(r.t["val"])]
            c.ob("create", con + " result", bool(ls), m.where, "nothing is returned")
            for l, r in ls:
                p = parts(a, l)
                g = given(a, p)
                if not c.ob("create", con, g is not None and len(p) == (3 if svc else 4), r.where, "the resource is not that of the SDK, the detectors, the arguments%s in this order: %s" % ("" if svc else " and the default service name", l)):
                    continue
                ini, det, (_, at, sc) = g
                c.ob("create", con + " SDK attributes", ini.op == "glob" and ini.args[0] == RES + "_DEFAULT_RESOURCE" or made_by(RESOURCE)(ini), r.where, "the first resource is %s" % ini)
                okv = at is not None and all(is_param("attributes")(x) or x.op == "new" and not a.contents.get(x) for x in a.leaves(at)) and any(is_param("attributes")(x) for x in a.leaves(at))
                c.ob("create", con + " attributes", okv, r.where, "the given attributes become %s" % at)
                c.ob("create", con + " schema URL", sc is not None and all_are(a, sc, is_param("schema_url")), r.where, "the given schema URL becomes %s" % sc)
                if not svc:
                    _, dat, dsc = p[3]
                    c.ob("create", con + " default name schema URL", dsc is None or all_are(a, dsc, lambda x: isconst(x, None) or isconst(x, "")), r.where, "a schema URL that conflicts drops the default service name")
                    vs = [(kk, v) for x in (a.leaves(dat) if dat is not None else ()) for kk, v, i in a.contents.get(x, ())]
                    ok = len(vs) >= 1
                    for kk, v in vs:
                        for x in a.leaves(v):
                            t = text(x)
                            w = ["unknown_service"] if not exe else ["unknown_service:", "exe"]
                            ok = ok and kk is not None and name(kk) and [y if isinstance(y, str) else "exe" if mentions(y, lambda z: isconst(z, "process.executable.name")) else "?" for y in t] == w
                    c.ob("create", con + " default name", ok, r.where, "the default service name is %s" % ", ".join(str(v) for kk, v in vs))
    # an absent argument is no argument
    a = c.an(m, None, policy=P)
    es = [i for i, e in a.escaping("E")]
    detectors(c, m, a, P)
    e = base
    if c.ob("create", RES + "_DEFAULT_RESOURCE", e is not None, m.where, "is not a fixed resource"):
        import ast
        mod, x = e
        d = next((y for y in ast.walk(x) if isinstance(y, ast.Dict)), None)
        ks = {}
        for kk, v in zip(d.keys, d.values) if d is not None else ():
            q = c.prog.const_expr(mod, kk)
            ks[q[1] if q else None] = c.prog.const_expr(mod, v)
        ok = {x for x in ks} == {"telemetry.sdk.language", "telemetry.sdk.name", "telemetry.sdk.version"} and ks["telemetry.sdk.language"] == (True, "python") and ks["telemetry.sdk.name"] == (True, "opentelemetry")
        c.ob("create", RES + "_DEFAULT_RESOURCE", ok, m.where, "the SDK describes itself as %s" % sorted(map(str, ks)))


def text(t):
    """Parts of a concatenation, adjacent constants joined."""
    out = []

    def walk(x):
        if x.op == "bin" and x.args[0] == "Add":
            walk(x.args[1]), walk(x.args[2])
        elif x.op == "fstr":
            for y in x.args:
                walk(y)
        elif x.op == "const" and isinstance(x.args[0], str):
            if out and isinstance(out[-1], str):
                out[-1] += x.args[0]
            else:
                out.append(x.args[0])
        else:
            out.append(x)
    walk(t)
    return out


def detectors(c, m, a, P):
    """Every listed detector is loaded; one that cannot be is logged and left out."""
    listed = piece_of("OTEL_EXPERIMENTAL_RESOURCE_DETECTORS")
    con = m.fqn + " detectors"
    lists = {l for r in a.calls(fqn=AGG) for x in ([call_kwargs(r).get("detectors")] if "detectors" in call_kwargs(r) else r.args[:1]) if x is not None for l in a.leaves(x)}
    ins = [(v, i) for l in lists for kk, v, i in a.contents.get(l, ())]
    if not c.ob("detectors", con, bool(ins), m.where, "no detector is loaded"):
        return
    lps = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for v, i in ins)]
    c.ob("detectors", con + " loops", len(lps) == 1, m.where, "the detectors are loaded by %d loops" % len(lps))
    for lp in lps:
        it = lp.t["iter"]
        c.ob("detectors", con + " order", not unordered(a, it), lp.where, "the detectors are taken from a set: which of two overrides the other changes from run to run")
        ms = members(a, it)
        c.ob("detectors", con + " environment", any(isconst(v, "otel") and (i is None or not_conditional(a, i, lp)) for v, i in ms), lp.where, "the detector of the environment's attributes is not always asked")
        named = [v for v, i in ms if listed(v)]
        c.ob("detectors", con + " listed", bool(named), lp.where, "the listed detectors are not asked")
        odd = [v for v, i in ms if not listed(v) and not isconst(v, "otel")]
        c.ob("detectors", con + " others", not odd, lp.where, "a detector nobody listed is asked: %s" % (odd or [""])[0])
        loaded = [i for v, i in ins]
        logs = [r.instr for r in logger_calls(a) if r.instr.block in loop_body(a, lp)]
        p = loop_skips(a, lp, loaded + logs)
        c.ob("detectors", con + " each", p is None, lp.where, "a listed detector is silently left out: %s" % witness(a, p))
        p = loop_skips(a, lp, [i for i in loaded])
        br = loop_breaks(a, lp)
        c.ob("detectors", con + " all", not br, lp.where, "the loop may end early")
        b = loop_body(a, lp)
        esc = [i for i, e in a.escaping("E") if i.block in b and i not in logs and e not in ("KeyboardInterrupt", "SystemExit")]
        esc = [i for i in esc if i.kind == "call" and not (i.rec is not None and is_call(name=("strip", "append"))(i.rec.dst))]
        c.ob("isolated", con, not esc, lp.where, "a detector that cannot be loaded fails the others: %s" % (esc[0].rec.where if esc and esc[0].rec else ""))
        for v, i in ins:
            eps = [x for x in subterms(v) if is_call(name=("entry_points",))(x)]
            kw = kwof(eps[0]) if eps else {}
            g, n = kw.get("group"), kw.get("name")
            okc = v.op == "call" and is_call(name="load")(v.args[1]) and bool(eps) and isconst(g, "opentelemetry_resource_detector") and n is not None and stripped(n).op in ("elem", "keyof") and ordered(a, it, lambda t: t is stripped(n).args[0])
            c.ob("detectors", con + " loaded", okc, "%s" % (i.rec.where if i.rec else lp.where), "what is asked is %s, not the detector registered under the name" % v)


def not_conditional(a, i, lp):
    return a.dominated(lp.instr, [i])


# -- aggregation --------------------------------------------------------------------------
def aggregate(c):
    f = c.prog.func(AGG)
    mg = RESOURCE + ".merge"
    P = Policy(mods=(f.mod.name,), deny=(mg, RESOURCE + ".create", RESOURCE + ".__init__"))
    tm = next((p for p in f.params()[0] if "timeout" in p), "timeout")
    roe = lambda t: t.op == "attr" and t.args[1] == "raise_on_error"
    a = c.an(f, None, policy=P, oracle=o_truth(roe, False))
    con = f.fqn
    isres = is_call(name="result")
    rs = a.calls(name="result")
    merges = a.calls(name="merge")
    if not c.ob("isolated", con, bool(rs) and bool(merges), f.where, "the detectors' resources are not merged"):
        return
    sub = lambda t: is_call(name="submit")(t) and call_args(t) and (x := call_args(t)[0]).op == "attr" and x.args[1] == "detect" and x.args[0].op == "elem" and ordered(a, x.args[0].args[0], is_param("detectors"))
    for r in rs:
        lps = [lp for lp in a.events("loop") if r.instr.block in loop_body(a, lp)]
        if not c.ob("isolated", con + " loop", bool(lps), r.where, "only one detector is waited for"):
            continue
        lp = lps[-1]
        fut = r.t["recv"]
        c.ob("isolated", con + " timeout", (x := call_kwargs(r).get("timeout", r.args[0] if r.args else None)) is not None and all_are(a, x, is_param(tm)), r.where, "the wait for a detector is not bounded by the timeout")
        # the futures are those of every detector, in order
        srcs = [l.args[0] if l.op == "elem" else l for l in a.leaves(fut)]
        bad = next((e for s in srcs for e in [mapped(a, s, is_param("detectors"), sub)] if e), None)
        c.ob("isolated", con + " every detector", bad is None, r.where, "not every detector is asked once in order: %s" % bad)
        c.ob("isolated", con + " order", all(ordered(a, lp.t["iter"], lambda t: any(t is s for s in srcs)) for s in srcs), lp.where, "the results are not merged in the detectors' order: %s" % lp.t["iter"])
        br = [e for e in loop_breaks(a, lp)]
        c.ob("isolated", con + " all", not br, lp.where, "the loop may end before every detector was merged")
        mine = [q for q in merges if q.instr.block in loop_body(a, lp)]
        good = [q for q in mine if any(isres(x) for z in q.args[:1] for x in a.leaves(z))]
        p = path_from(a, norm_edges(r), good, [lp.instr.block] + exits(a, True, False))
        c.ob("isolated", con + " merged", bool(good) and p is None, r.where, "a detected resource is not merged: %s" % witness(a, p))
        for q in good:
            odd = [x for x in a.leaves(q.args[0]) if not isres(x) and not (x.op == "glob" and x.args[0] == RES + "_EMPTY_RESOURCE" or made_by(RESOURCE)(x) or is_call(name="get_empty")(x))]
            c.ob("isolated", con + " merged resource", not odd, q.where, "what is merged is %s" % (odd or [""])[0])
        acc = {x for q in mine for x in a.leaves(q.t["recv"])}
        ini = lambda x: is_param("initial_resource")(x) or is_call(fqn=RESOURCE + ".create")(x) or is_call(name="create")(x)
        odd = [x for x in acc if not ini(x) and not any(x is q.dst for q in mine)]
        c.ob("isolated", con + " accumulated", not odd and any(ini(x) for x in acc) and all(any(x is q.dst for q in good) for q in good for x in [q.dst] if x in acc) and any(q.dst in acc for q in good), lp.where, "the resources are not accumulated: %s" % (odd or ["each is merged alone"])[0])
        res = [l for t in a.rets() for l in a.leaves(t.t["val"])]
        c.ob("isolated", con + " returned", bool(res) and all(ini(l) or any(l is q.dst for q in mine) for l in res) and any(l is q.dst for l in res for q in good), f.where, "the result is %s" % (res or ["nothing"])[0])
        # failures
        for kind in ("Exception*",):
            ee = exc_edges(r, kind)
            esc = [i for i, e in a.escaping("E") if i is r.instr]
            rer = [i for i, e in a.escaping("E") if i.kind == "raise"]
            c.ob("isolated", con + " failure", bool(ee) and not esc and not rer, r.where, "a detector that fails or takes too long fails the others")
            logs = logger_calls(a)
            p = path_from(a, ee, logs, [lp.instr.block] + exits(a, True, False))
            c.ob("isolated", con + " logged", p is None, r.where, "a detector's failure is not logged: %s" % witness(a, p))
    # waiting for a detector that hangs
    wt = [r for r in a.events("with_exit") if any(is_call(name=("ThreadPoolExecutor",))(x) for x in a.leaves(r.t["mgr"]))]
    c.ob("isolated", con + " hangs", not wt, wt[0].where if wt else f.where, "leaving the executor waits without limit for a detector that hangs")
    for r in a.calls(name="shutdown"):
        w = call_kwargs(r).get("wait", r.args[0] if r.args else None)
        c.ob("isolated", con + " hangs", w is not None and isconst(w, False), r.where, "shutting the executor down waits without limit for a detector that hangs")
    b = c.an(f, None, policy=P, oracle=o_truth(roe, True))
    for r in b.calls(name="result"):
        q = path_from(b, exc_edges(r, "Exception*"), [], exits(b, True, False) + [lp.instr.block for lp in b.events("loop")])
        c.ob("isolated", con + " raise_on_error", q is None, r.where, "a failure is not raised though the detector asks for it: %s" % witness(b, q))


# -- the environment's attributes -----------------------------------------------------------
def environment(c):
    k = c.prog.cls(RES + "OTELResourceDetector")
    m = c.method(k, "detect")
    P = Policy(mods=(k.mod.name,), deny=(RESOURCE + ".__init__",))
    a = c.an(m, k, policy=P, oracle=o_env(True))
    attrs, name = "OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME"
    pair = piece_of(attrs)
    con = m.fqn
    rets = [l for r in a.rets() for l in a.leaves(r.t["val"])]
    ok = bool(rets) and all(made_by(RESOURCE)(l) for l in rets)
    if not c.ob("environment", con, ok, m.where, "does not return a resource"):
        return
    D = [x for l in rets for z in [kwof(l).get("attributes", call_args(l)[0] if call_args(l) else None)] if z is not None for x in a.leaves(z)]
    cont = [e for d in D for e in a.contents.get(d, ())]

    def side(n):
        def f(t):
            t = stripped(t)
            if t.op == "item" and isconst(t.args[1], n) and is_call(name="split")(t.args[0]) and pair(callee_of(t.args[0]).args[0]):
                pos, kw = call_args(t.args[0]), kwof(t.args[0])
                mxs = kw.get("maxsplit", pos[1] if len(pos) > 1 else None)
                return bool(pos) and isconst(pos[0], "=") and mxs is not None and isconst(mxs, 1)
            if t.op == "item" and isconst(t.args[1], 2 * n) and is_call(name="partition")(t.args[0]) and pair(callee_of(t.args[0]).args[0]):
                return bool(call_args(t.args[0])) and isconst(call_args(t.args[0])[0], "=")
            return False
        return f

    def decoded(p):
        def f(t):
            t = stripped(t)
            return is_call(fqn=("urllib.parse.unquote",))(t) and bool(call_args(t)) and p(call_args(t)[0])
        return f

    pairs = [(kk, v, i) for kk, v, i in cont if kk is not None and not isconst(kk, "service.name")]
    svc = [(kk, v, i) for kk, v, i in cont if kk is not None and isconst(kk, "service.name") and i.name != "setdefault"]
    c.ob("environment", con + " pairs", bool(pairs) and all(all_are(a, kk, side(0)) and kk is not stripped(kk) and all_are(a, v, decoded(side(1))) for kk, v, i in pairs), m.where, "an attribute of the environment is not the stripped key with its decoded value: %s" % [(str(kk), str(v)) for kk, v, i in pairs][:1])
    lps = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for kk, v, i in pairs)]
    c.ob("environment", con + " loop", len(lps) == 1, m.where, "the pairs are not read by one loop")
    for lp in lps:
        logs = [r.instr for r in logger_calls(a)]
        p = loop_skips(a, lp, [i for kk, v, i in pairs] + logs)
        c.ob("environment", con + " each", p is None, lp.where, "a pair is silently dropped: %s" % witness(a, p))
        c.ob("environment", con + " all", not loop_breaks(a, lp), lp.where, "the pairs after a malformed one are dropped")
        for kk, v, i in svc:
            q = a.path_avoiding(i, [], [lp.instr.block])
            c.ob("environment", con + " service name first", q is None, lp.where, "the service name of %s overrides that of %s" % (attrs, name))
    bad = [i for i, e in a.escaping("E") if i.kind in ("raise",) or i.kind in ("op", "unpack") and i.name in ("unpack",) or i.kind == "unpack"]
    c.ob("environment", con + " malformed", not bad, m.where, "a malformed pair raises")
    c.ob("environment", con + " service name", bool(svc) and all(all_are(a, v, lambda t: env_is(name)(stripped(t))) for kk, v, i in svc) and always(a, [i for kk, v, i in svc], exc=False) is None, m.where, "%s does not set the service name" % name)
    b = c.an(m, k, policy=P, oracle=o_env(False, lambda t: isconst(t, name)))
    cb = [i for l in b.contents.values() for kk, v, i in l if kk is not None and isconst(kk, "service.name")]
    c.ob("environment", con + " no service name", not cb, m.where, "the service name is set though %s is not" % name)


# -- built-in detectors -----------------------------------------------------------------------
G = lambda n: (lambda t: t.op == "glob" and t.args[0] == n)


def call_of(*names):
    return lambda t: (k := callee_of(t)) is not None and k.op == "glob" and k.args[0] in names


def is_version(t):
    return mentions(t, lambda x: x.op == "glob" and x.args[0].startswith("sys.version_info"))


PROCESS = {
    "process.runtime.description": G("sys.version"),
    "process.runtime.name": G("sys.implementation.name"),
    "process.runtime.version": None,
    "process.pid": call_of("os.getpid"),
    "process.executable.name": G("sys.executable"),
    "process.executable.path": lambda t: call_of("os.path.dirname")(t) and G("sys.executable")(call_args(t)[0]),
    "process.command": lambda t: t.op == "item" and G("sys.argv")(t.args[0]) and isconst(t.args[1], 0),
    "process.command_line": lambda t: method_of("join", lambda x: isconst(x, " "))(t) and G("sys.argv")(call_args(t)[0]),
    "process.command_args": lambda t: G("sys.argv")(t) or call_of("builtins.list", "builtins.tuple")(t) and G("sys.argv")(call_args(t)[0]),
    "process.parent_pid": call_of("os.getppid"),
    "process.owner": method_of("username", lambda t: is_call(name="Process")(t)),
}


def report(c, n, orc=None):
    k = c.prog.cls(RES + n)
    m = c.method(k, "detect")
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,), deny=(RESOURCE + ".__init__",)), oracle=orc)
    out = {}
    rets = [l for r in a.rets() for l in a.leaves(r.t["val"])]
    c.ob("reported", m.fqn, bool(rets) and all(made_by(RESOURCE)(l) for l in rets), m.where, "does not return a resource")
    for l in rets:
        z = kwof(l).get("attributes", call_args(l)[0] if made_by(RESOURCE)(l) and call_args(l) else None)
        for d in a.leaves(z) if z is not None else ():
            for kk, v, i in a.contents.get(d, ()):
                out.setdefault(kk.args[0] if kk is not None and kk.op == "const" else str(kk), []).extend(a.leaves(v))
    return m, a, out


def builtin(c):
    m, a, out = report(c, "ProcessResourceDetector")
    for n, p in sorted(PROCESS.items()):
        vs = out.get(n, [])
        ok = bool(vs) and all(p is None or p(v) for v in vs)
        c.ob("reported", m.fqn + " " + n, ok, m.where, "%s is %s" % (n, (vs or ["not reported"])[0]))
    m, a, out = report(c, "_HostResourceDetector")
    for n, p in (("host.name", call_of("socket.gethostname", "platform.node")), ("host.arch", call_of("platform.machine"))):
        vs = out.get(n, [])
        c.ob("reported", m.fqn + " " + n, bool(vs) and all(p(v) for v in vs), m.where, "%s is %s" % (n, (vs or ["not reported"])[0]))
    system = lambda t: method_of("lower", call_of("platform.system"))(t)
    for os_, typ, ver in (("windows", None, "platform.version"), ("sunos", "solaris", "platform.version"), ("linux", None, "platform.release"), ("darwin", None, "platform.release")):
        def orc(a, t, st):
            if t.op == "eq":
                for x, y in (t.args[:2], t.args[1::-1]):
                    if system(x) and y.op == "const":
                        return y.args[0] == os_
            if t.op == "in" and system(t.args[0]) and t.args[1].op == "tup" and all(x.op == "const" for x in t.args[1].args):
                return os_ in [x.args[0] for x in t.args[1].args]
            return None
        m, a, out = report(c, "OsResourceDetector", orc)
        vs = out.get("os.type", [])
        c.ob("reported", "%s os.type on %s" % (m.fqn, os_), bool(vs) and all((isconst(v, typ) if typ else system(v) or isconst(v, os_)) for v in vs), m.where, "os.type is %s" % (vs or ["not reported"])[0])
        vs = out.get("os.version", [])
        c.ob("reported", "%s os.version on %s" % (m.fqn, os_), bool(vs) and all(call_of(ver)(v) for v in vs), m.where, "os.version is %s" % (vs or ["not reported"])[0])


# -- providers --------------------------------------------------------------------------------
def providers(c):
    for n in ("trace.TracerProvider", "metrics._internal.MeterProvider", "_logs._internal.LoggerProvider"):
        k = c.prog.cls("opentelemetry.sdk." + n)
        m = c.method(k, "__init__")
        for none in (True, False):
            a = c.an(m, k, policy=Policy(mods=(k.mod.name,)), oracle=oracle(o_isnone(is_param("resource"), none), o_isinst(is_param("resource"), not none), o_truth(is_param("resource"), not none)))
            res = lambda t: is_param("resource")(t) or is_call(fqn=RESOURCE + ".create")(t)
            vals = [l for r in self_stores(a) for l in a.leaves(r.t["val"]) if res(l)]
            for r in a.calls():
                if r.instr.name == "SdkConfiguration" or (r.instr.fqn or "").endswith(".SdkConfiguration"):
                    for v in list(r.args) + list(call_kwargs(r).values()):
                        vals += [l for l in a.leaves(v) if res(l)]
            ok = bool(vals) and all((is_call(fqn=RESOURCE + ".create")(l) if none else is_param("resource")(l)) for l in vals)
            c.ob("default-resource", k.fqn + (" without" if none else " with") + " a resource", ok, m.where, "a provider made %s a resource has %s" % ("without" if none else "with", (vals or ["none"])[0]))
