"""T04: parents, identifiers and parent-based sampling."""
from .c03 import obj_field
from .lib import *
from .t03 import SAMP, SCX, TRACER, all_are, constructed, decided, is_flag, o_flag

NOTE = "Tracer.start_span is evaluated with the parent span context assumed absent, invalid and valid; ParentBased.should_sample for each of the six parent classes; id generators with the generated value assumed zero."


def is_parent(t):
    return is_call(name="get_span_context")(t)


def o_parent(present, valid):
    def f(a, t, st):
        if t.op == "isnone" and is_parent(t.args[0]):
            return not present
        if is_parent(t):
            return present if not present else None
        if t.op == "isinst" and is_parent(t.args[0]):
            return present
        if t.op == "attr" and t.args[1] == "is_valid" and is_parent(t.args[0]):
            return valid
        if t.op == "istrue" and t.args[0].op == "attr" and t.args[0].args[1] == "is_valid" and is_parent(t.args[0].args[0]):
            return valid
        # the invalid span context is what an absent parent reads as
        if t.op == "eq" and any(is_parent(x) for x in t.args) and any(x.op == "glob" and x.args[0].endswith("INVALID_SPAN_CONTEXT") for x in t.args):
            return False if valid else None
        return None
    return f


def run(c):
    prog = c.prog
    k = prog.cls(TRACER)
    m = c.method(k, "start_span")
    for case, present, valid in (("absent", False, False), ("invalid", True, False), ("valid", True, True)):
        for d in ("DROP", "RECORD_ONLY", "RECORD_AND_SAMPLE"):
            start(c, k, m, case, present, valid, d)
    parent_based(c)
    generators(c)
    validity(c)
    c.floor("trace-id", 9)
    c.floor("delegate", 6)
    c.floor("never-zero", 2)


def start(c, k, m, case, present, valid, d):
    prog = c.prog
    con = "%s.start_span parent %s, %s" % (TRACER, case, d)
    a = c.an(m, k, oracle=o_parent(present, valid), subst=decided(d), policy=Policy(mods=(m.mod.name, "opentelemetry.sdk.trace.sampling"), deny=("start", "should_sample")))
    cur = [r for r in a.calls(name="get_current_span")]
    c.ob("parent-from-context", con, bool(cur) and all(all_are(a, arg(r, 0, "context"), is_param("context")) for r in cur), m.where, "the parent is not read from the caller's context")
    isgen = lambda n: lambda l: is_call(name=n)(l) and callee_of(l).op == "attr" and a.derives(callee_of(l).args[0], self_attr("id_generator"))
    partid = lambda l: l.op == "attr" and l.args[1] == "trace_id" and is_parent(l.args[0])
    want = partid if valid else isgen("generate_trace_id")
    scs = list(constructed(prog, a, SCX))
    c.ob("trace-id", con + " context", bool(scs), m.where, "no span context is created")
    for r, o in scs:
        t = obj_field(prog, o, "trace_id")
        c.ob("trace-id", con, t is not None and all_are(a, t, want), r.where, "the trace identifier is %s" % t)
        s = obj_field(prog, o, "span_id")
        c.ob("span-id", con, s is not None and all_are(a, s, isgen("generate_span_id")), r.where, "the span identifier is not freshly generated: %s" % s)
        for q in a.calls(name="should_sample"):
            v = arg(q, 1, "trace_id")
            c.ob("sampler-trace-id", con, v is not None and t is not None and set(a.leaves(v)) == set(a.leaves(t)), q.where, "the sampler decides on another trace identifier than the span's")
    gens = [r for r in a.calls(name="generate_span_id")]
    for r in gens:
        c.ob("span-id-once", con, not any(a.can_reach(r.instr, x.instr) for x in gens), r.where, "more than one identifier is generated for a span")
    for r, o in constructed(prog, a, SPAN):
        p = obj_field(prog, o, "parent")
        if valid:
            c.ob("parent-recorded", con, p is not None and all_are(a, p, is_parent), r.where, "the parent recorded is not the parent span's context")
        else:
            c.ob("no-parent", con, p is None or all_are(a, p, lambda l: isconst(l, None)), r.where, "a span without a valid parent records one")
    if d != "DROP":
        c.ob("returns", con, bool(a.rets()), m.where, "start_span does not return")
    # the span keeps the parent
    ik = prog.cls(SPAN)
    if "kept" not in c.cache:
        c.cache["kept"] = 1
        ia = c.am(ik, "__init__", policy=Policy(mods=("opentelemetry.sdk.trace",)))
        for p, prop in (("parent", "parent"), ("context", "context")):
            st = [r for r in ia.events("store_attr") if is_self(r.t["base"]) and all_are(ia, r.t["val"], is_param(p))]
            names = {r.instr.name for r in st}
            c.ob("span-keeps", "%s.%s" % (SPAN, p), bool(st), ia.fi.where, "the span does not keep its %s" % p)
            pa = c.am(ik, prop)
            c.ob("span-reports", "%s.%s" % (SPAN, p), bool(pa.rets()) and all(all_are(pa, r.t["val"], lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] in names) for r in pa.rets()), pa.fi.where, "the %s reported is not the one the span was made with" % p)
        ga = c.am(ik, "get_span_context")
        c.ob("span-reports", SPAN + ".get_span_context", bool(ga.rets()) and all(all_are(ga, r.t["val"], lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] in names) for r in ga.rets()), ga.fi.where, "the span context reported is not the one the span was made with")


# -- ParentBased ------------------------------------------------------------------
ROWS = (("none", None, None, "root"), ("invalid", None, None, "root"), ("remote sampled", True, True, "remote_parent_sampled"), ("remote not sampled", True, False, "remote_parent_not_sampled"),
        ("local sampled", False, True, "local_parent_sampled"), ("local not sampled", False, False, "local_parent_not_sampled"))


def parent_based(c):
    prog = c.prog
    k = prog.cls(SAMP + "ParentBased")
    init = c.method(k, "__init__")
    ia = c.an(init, k)
    field = {}
    for _, _, _, p in ROWS:
        st = [r for r in ia.events("store_attr") if is_self(r.t["base"]) and all_are(ia, r.t["val"], is_param(p))]
        c.ob("delegate-kept", "%s.%s" % (k.fqn, p), bool(st) and always(ia, st, exc=False) is None, init.where, "the delegate %s is not kept" % p)
        if st:
            field[p] = st[0].instr.name
    dfl = init.defaults()
    import ast
    for p, want in (("remote_parent_sampled", "ALWAYS_ON"), ("remote_parent_not_sampled", "ALWAYS_OFF"), ("local_parent_sampled", "ALWAYS_ON"), ("local_parent_not_sampled", "ALWAYS_OFF")):
        v = dfl.get(p)
        c.ob("delegate-default", "%s.%s" % (k.fqn, p), v is not None and ast.unparse(v).rpartition(".")[2] == want, init.where, "the default delegate for %s is not %s" % (p, want))
    m = c.method(k, "should_sample")
    for row, remote, sampled, want in ROWS:
        valid = remote is not None

        def o_remote(a, t, st):
            if t.op == "attr" and t.args[1] == "is_remote" and is_parent(t.args[0]):
                return remote
            if t.op == "istrue" and t.args[0].op == "attr" and t.args[0].args[1] == "is_remote":
                return remote
            return None
        rules = [o_parent(row != "none", valid)]
        if valid:
            rules += [o_remote, o_flag(sampled)]
        a = c.an(m, k, oracle=oracle(*rules))
        con = "%s parent %s" % (k.fqn, row)
        cur = [r for r in a.calls(name="get_current_span")]
        c.ob("sampling-parent-from-context", con, bool(cur) and all(all_are(a, arg(r, 0, "context"), is_param("parent_context")) for r in cur), m.where, "the parent is not read from the context given to the sampler")
        ss = [r for r in a.calls(name="should_sample")]
        c.ob("delegate", con, bool(ss) and always(a, ss, exc=False) is None and all(all_are(a, r.t["recv"], lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] == field.get(want)) for r in ss), ss[0].where if ss else m.where, "asks %s instead of the %s delegate" % (", ".join(str(r.t["recv"]) for r in ss) or "nobody", want))
        for r in ss:
            for i, p in enumerate(("parent_context", "trace_id", "name", "kind", "attributes", "links")):
                c.ob("delegate-argument", "%s %s" % (con, p), all_are(a, arg(r, i, p), is_param(p)), r.where, "the delegate is not given the %s" % p)
        for r in a.rets():
            c.ob("delegate-result", con, all_are(a, r.t["val"], lambda l: any(l is x.dst for x in ss)), r.where, "the delegate's result is not returned")


# -- generators ---------------------------------------------------------------------
RAND = {"random.getrandbits", "random.randint", "random.randrange", "secrets.randbits"}


def israndom(t):
    cal = callee_of(t)
    return cal is not None and (cal.op == "glob" and cal.args[0] in RAND or cal.op == "attr" and cal.args[1] in ("getrandbits", "randint", "randrange", "randbits"))


def generators(c):
    prog = c.prog
    k = prog.cls("opentelemetry.sdk.trace.id_generator.RandomIdGenerator")
    for n, bits in (("generate_span_id", 64), ("generate_trace_id", 128)):
        m = c.method(k, n)
        con = "%s.%s" % (k.fqn, n)
        a = c.an(m, k)
        ok, wide, nz = bool(a.rets()), True, True
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                if not israndom(l):
                    ok = False
                    continue
                args = call_args(l)
                name = callee_of(l).args[-1].rpartition(".")[2]
                if name in ("getrandbits", "randbits"):
                    wide = wide and len(args) == 1 and isconst(args[0], bits)
                    z = c.an(m, k, oracle=lambda x, t, st: zero_oracle(t))
                    nz = nz and not z.rets()
                elif name in ("randint", "randrange"):
                    top = 2 ** bits - (1 if name == "randint" else 0)
                    wide = wide and len(args) == 2 and args[1].op == "const" and args[1].args[0] == top
                    nz = nz and args[0].op == "const" and args[0].args[0] >= 1
        c.ob("random-id", con, ok, m.where, "the identifier is not freshly drawn")
        c.ob("id-width", con, wide, m.where, "the identifier is not drawn from all %d bits" % bits)
        c.ob("never-zero", con, nz, m.where, "the invalid identifier 0 may be generated")


def zero_oracle(t):
    if t.op == "eq":
        x, y = t.args
        for p, q in ((x, y), (y, x)):
            if q.op == "const" and draws(p):
                return q.args[0] == 0
    if t.op == "lt":
        x, y = t.args
        if draws(x) and y.op == "const":
            return 0 < y.args[0]
        if draws(y) and x.op == "const":
            return x.args[0] < 0
    if draws(t):
        return False
    return None


def draws(t):
    return israndom(t) or t.op == "phi"


# -- validity --------------------------------------------------------------------------
def validity(c):
    """SpanContext.__new__ decides is_valid from both identifiers' ranges."""
    prog = c.prog
    k = prog.cls(SCX)
    m = c.method(k, "__new__")
    mt, ms = 2 ** 128 - 1, 2 ** 64 - 1
    va = c.am(k, "is_valid")
    ixs = {l.args[1].args[0] for r in va.rets() for l in va.leaves(r.t["val"]) if l.op == "item" and is_self(l.args[0]) and l.args[1].op == "const"}
    vix = ixs.pop() if len(ixs) == 1 else 5
    for tid in (0, 1, mt, mt + 1):
        for sid in (0, 1, ms, ms + 1):
            a = c.an(m, k, params={"trace_id": lambda T, v=tid: T.const(v), "span_id": lambda T, v=sid: T.const(v)}, oracle=const_cmp)
            want = 1 <= tid <= mt and 1 <= sid <= ms
            got = set()
            for r in a.rets():
                for l in a.leaves(r.t["val"]):
                    args = call_args(l) if callee_of(l) is not None else ()
                    tup = args[-1] if args else None
                    got.add(valid_of(a, r, tup, vix))
            c.ob("validity", "%s trace_id=%s span_id=%s" % (SCX, edge(tid, mt), edge(sid, ms)), got == {want}, m.where, "a span context with trace_id %s and span_id %s is %s" % (edge(tid, mt), edge(sid, ms), "not valid" if want else "valid"))
    # the accessors read the right slots
    a = c.an(m, k)
    order = []
    for r in a.rets():
        for l in a.leaves(r.t["val"]):
            args = call_args(l) if callee_of(l) is not None else ()
            if args and args[-1].op == "tup":
                order = [x for x in args[-1].args]
    for p in ("trace_id", "span_id", "is_remote", "trace_flags", "trace_state"):
        ix = next((i for i, x in enumerate(order) if x.op != "phi" and is_param(p)(x) or x.op == "phi" and a.derives(x, is_param(p))), None)
        q = c.am(k, p)
        ok = ix is not None and bool(q.rets())
        for r in q.rets():
            for l in q.leaves(r.t["val"]):
                ok = ok and l.op == "item" and is_self(l.args[0]) and isconst(l.args[1], ix)
        c.ob("accessor", "%s.%s" % (SCX, p), ok, q.fi.where, "%s does not read the value the span context was made with" % p)


def edge(v, top):
    return "max" if v == top and v > 1 else "max+1" if v == top + 1 and v > 1 else str(v)


def const_cmp(a, t, st):
    if t.op in ("lt", "eq") and all(x.op == "const" for x in t.args):
        try:
            return t.args[0].args[0] < t.args[1].args[0] if t.op == "lt" else t.args[0].args[0] == t.args[1].args[0]
        except TypeError:
            return None
    return None


def valid_of(a, r, tup, ix):
    if tup is None or tup.op != "tup":
        return None
    vs = [x for x in tup.args if not is_param("is_remote")(x)]
    from ..flow import State
    st = State({}, {}, dict(r.facts), {})
    last = tup.args[ix] if isinstance(ix, int) and -len(tup.args) <= ix < len(tup.args) else None
    if last is None:
        return None
    return a.decide(last, st)
