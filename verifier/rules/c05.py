"""C05: injection."""
from .c04 import TMP, propagators
from .bx import cond_means
from .lib import *

NOTE = "Dominance of every setter call by the validity of the injected span context; agreement of injected, declared and extracted header names; identifier formatting and sampled flag decided by constant propagation under both flag values."


def set_calls(a):
    return [r for r in a.events("call", name="set") if r.t.get("recv") is not None and any(is_param("setter")(l) for l in a.leaves(r.t["recv"]))]


def get_keys(a):
    out = []
    for r in a.events("call", name="get"):
        if r.t.get("recv") is not None and any(is_param("getter")(l) for l in a.leaves(r.t["recv"])):
            k = arg(r, 1, "key")
            if k is not None:
                out.append((r, k))
    return out


def consts(a, t):
    return {l.args[0] for l in a.leaves(t) if l.op == "const" and isinstance(l.args[0], str)}


def prefix(a, t):
    """Constant prefix of a computed header name."""
    for l in a.leaves(t):
        if l.op in ("bin", "fstr"):
            args = l.args[1:] if l.op == "bin" else l.args
            if args and args[0].op == "const":
                return args[0].args[0]
    return None


def span_ctx(a, t):
    """The term is (derived from) the span context found in the context."""
    return any(is_call(name="get_span_context")(x) for x in subterms(t)) or a.derives(t, is_call(name="get_span_context"))


def run(c):
    prog = c.prog
    n = 0
    for k in propagators(prog):
        m = prog.find_method(k, "inject")
        con = k.fqn + ".inject"
        a = c.an(m, k)
        sets = set_calls(a)
        c.ob("uses-setter", con, bool(sets), m.where, "inject never writes through the setter")
        cp = m.params()[0][1]
        # never writes to the carrier directly
        from .c02 import mutations
        direct = [r for r, recv in mutations(a) if any(is_param(cp)(root(l)) for l in a.leaves(recv))]
        c.ob("no-direct-write", con, not direct, direct[0].where if direct else m.where, "writes into the carrier without the setter")
        for r in sets:
            c.ob("carrier-passed", con, bool(r.args) and is_param(cp)(r.args[0]) or is_param(cp)(r.kw.get("carrier", r.t["recv"])), r.where, "writes into something other than the caller's carrier")
        # header names
        fm = prog.find_method(k, "fields")
        fa = c.an(fm, k)
        declared = set()
        for r in fa.rets():
            for x in fa.sources(r.t["val"]):
                if x.op == "const" and isinstance(x.args[0], str):
                    declared.add(x.args[0])
        ea = c.an(prog.find_method(k, "extract"), k)
        read = set()
        for r, kt in get_keys(ea):
            read |= consts(ea, kt)
        pref_read = {x.args[0] for r in ea.calls(name="startswith") for x in r.args if x.op == "const"}
        written = set()
        for r in sets:
            kt = arg(r, 1, "key")
            ks = consts(a, kt) if kt is not None else set()
            if not ks:
                p = prefix(a, kt) if kt is not None else None
                c.ob("declared-header", "%s prefix" % con, p is not None and p in pref_read, r.where, "the computed header %s does not start with the prefix extraction looks for" % kt)
                continue
            written |= ks
            c.ob("declared-header", "%s %s" % (con, sorted(ks)), ks <= declared, r.where, "header %s is written but not declared in fields %s" % (sorted(ks - declared), sorted(declared)))
            c.ob("readable-header", "%s %s" % (con, sorted(ks)), ks <= read, r.where, "header %s is written but never read by extract (%s)" % (sorted(ks - read), sorted(read)))
        c.ob("declared-written", con, declared <= written, fm.where, "declared header %s is never written" % sorted(declared - written))
        no_baggage(c, m, k, con)
        # guards
        isspan = any(is_call(name="get_span_context")(x.dst) for x in a.recs if x.dst is not None and x.instr.kind == "call") or any(is_call(name="get_span_context")(y) for r in sets for z in r.args for y in a.sources(z))
        if not isspan:
            continue
        n += 1
        sc = is_call(name="get_span_context")
        inval = oracle(o_truth(is_attr("is_valid"), False))
        ia = c.an(m, k, oracle=inval)
        bad = set_calls(ia)
        c.ob("nothing-when-invalid", con, not bad, bad[0].where if bad else m.where, "headers are written for an invalid span context")
        # the validity tested is that of the span context written
        for r in sets:
            tested = [f.args[0] for f, v in r.facts.items() if v and f.op == "attr" and f.args[1] == "is_valid"]
            c.ob("validity-of-this-span", con, any(span_ctx(a, t) for t in tested), r.where, "the validity tested is not that of the injected span context")
        va = c.an(m, k, oracle=oracle(o_truth(is_attr("is_valid"), True), o_truth(is_attr("trace_state"), True)))
        vs = set_calls(va)
        idset = [r for r in vs if any(is_call(name=("format_trace_id", "format"))(x) or (x.op == "attr" and x.args[1] == "trace_id") for x in va.sources(arg(r, 2, "value") or va.T.const(None)))]
        p = always(va, idset, exc=False) if idset else [va.b.entry]
        c.ob("identity-always-written", con, p is None, m.where, "a valid span context may leave without its identifiers being written")
        for key in sorted(written):
            ev = [r for r in vs if arg(r, 1, "key") is not None and key in consts(va, arg(r, 1, "key"))]
            p = always(va, ev, exc=False) if ev else [va.b.entry]
            c.ob("header-always-written", "%s %s" % (con, key), p is None, m.where, "header %s is not written for some valid span contexts" % key)
        # identifiers
        for idn, fmt, spec in (("trace_id", "format_trace_id", "032x"), ("span_id", "format_span_id", "016x")):
            hits, wrong = 0, None
            for r in vs:
                v = arg(r, 2, "value")
                for x in va.sources(v):
                    if x.op == "attr" and x.args[1] == idn and span_ctx(va, x.args[0]):
                        hits += 1
                    if x.op in ("pure", "call") and (is_call(name=(fmt,))(x) or is_call(fqn="builtins.format")(x) and any(isconst(y, spec) for y in call_args(x))):
                        ar = call_args(x)
                        if ar and not (ar[0].op == "attr" and ar[0].args[1] in (idn, "parent_id")) and not isconst(ar[0]) and not ar[0].op == "phi" and not (ar[0].op == "attr" and ar[0].args[1] == idn):
                            wrong = (r, x)
            fmts = [x for r in vs for x in va.sources(arg(r, 2, "value")) if x.op in ("pure", "call") and (is_call(name=fmt)(x) or is_call(fqn="builtins.format")(x) and any(isconst(y, spec) for y in call_args(x))) and call_args(x) and any(y.op == "attr" and y.args[1] == idn and span_ctx(va, y.args[0]) for y in va.leaves(call_args(x)[0]))]
            c.ob("id-formatted", "%s %s" % (con, idn), bool(fmts), m.where, "the %s is not written with %s hexadecimal digits" % (idn, spec[1:3]))
            c.ob("id-of-span", "%s %s" % (con, idn), hits > 0 and wrong is None, m.where, "the %s written is not the span's" % idn)
        for r in vs:
            seq = order_of(va, arg(r, 2, "value"))
            if "trace_id" in seq and "span_id" in seq:
                c.ob("id-order", con, seq.index("trace_id") < seq.index("span_id"), r.where, "trace and span identifier are written in the wrong order")
        sampled(c, m, k, con)
    formatters(c)
    default_access(c)
    c.floor("nothing-when-invalid", 4)


def no_baggage(c, m, k, con):
    """Without baggage, what is written from the baggage is not written: the
    write is in a loop over its entries, or guarded by there being some."""
    bag = is_call(name="get_all")
    a = c.an(m, k)
    from_bag = lambda b, t: b.derives(t, bag)
    if not any(from_bag(a, x) for r in set_calls(a) for x in r.args[1:]):
        return

    def none(b, t, st):
        v = cond_means(t, bag)
        return None if v is None or t.op == "not" else not v

    b = c.an(m, k, oracle=none)
    for r in set_calls(b):
        x = arg(r, 2, "value")
        if x is None or not (from_bag(b, x) or from_bag(b, arg(r, 1, "key"))):
            continue
        inl = any(b.derives(lp.t["iter"], bag) and r.instr.block in loop_body(b, lp) for lp in b.events("loop"))
        c.ob("nothing-without-baggage", con, inl or r.facts.get(x) is True, r.where, "a baggage header is written when there is no baggage")
    c.ob("nothing-without-baggage", con, True, m.where, "")


def order_of(a, t, seen=None):
    """Depth-first order in which identity attributes occur in a value."""
    out, seen = [], set()

    def go(x, d=0):
        if not isinstance(x, Term) or d > 40 or x.id in seen:
            return
        seen.add(x.id)
        if x.op == "attr" and x.args[1] in ("trace_id", "span_id", "trace_flags"):
            out.append(x.args[1])
            return
        if x.op == "phi":
            for v, _ in a.phis.get(x, {}).values():
                go(v, d + 1)
            return
        for kk, v, i in a.contents.get(x, ()):
            go(v, d + 1)
        for y in x.args:
            for z in (y if isinstance(y, tuple) else (y,)):
                go(z[1] if isinstance(z, tuple) else z, d + 1)

    go(t)
    return out


def sampled(c, m, k, con):
    """The flag written is the span's: decide the written text for flags 0 and 1."""
    for flag in (1, 0):
        def subst(a, t, flag=flag):
            if t.op == "attr" and t.args[1] == "trace_flags" and span_ctx(a, t.args[0]):
                return a.T.const(flag)
            if t.op == "attr" and t.args[1] == "sampled" and t.args[0].op == "const":
                return a.T.const(bool(t.args[0].args[0] & 1))
            return None
        a = c.an(m, k, subst=subst, oracle=oracle(o_truth(is_attr("is_valid"), True)))
        good = False
        vals = []
        for r in set_calls(a):
            v = arg(r, 2, "value")
            vals.append(v)
            if flag_in(a, v, flag, r):
                good = True
        c.ob("sampled-flag", "%s flag=%d" % (con, flag), good, m.where, "with the sampled flag %s the header does not say so: %s" % ("set" if flag else "clear", vals[:3]))


def flag_in(a, t, flag, r):
    """Some component of the written value states exactly this flag."""
    found = None
    comps = []

    def go(x, d=0, seen=set()):
        if not isinstance(x, Term) or d > 30:
            return
        if x.op == "phi":
            for l in a.leaves(x):
                go(l, d + 1)
            return
        if x.op == "const":
            comps.append(x.args[0])
            return
        if is_call(fqn="builtins.format")(x):
            ar = call_args(x)
            if ar and len(ar) > 1 and isconst(ar[1], "02x"):
                for l in a.leaves(ar[0]):
                    if l.op == "const" and isinstance(l.args[0], int):
                        comps.append("%02x" % l.args[0])
                    else:
                        comps.append(None)
            return
        if x.op in ("call", "pure", "fstr", "bin", "tup", "new", "star"):
            if x.op in ("call", "pure") and is_call(name="join")(x) and callee_of(x).op == "attr":
                go(callee_of(x).args[0], d + 1)
            for kk, v, i in a.contents.get(x, ()):
                go(v, d + 1)
            for y in x.args:
                for z in (y if isinstance(y, tuple) else (y,)):
                    go(z[1] if isinstance(z, tuple) else z, d + 1)

    go(t)
    yes = {"1", "01", "03", "d"}
    no = {"0", "00", "02"}
    # drop separators and version prefixes
    comps = [x for x in comps if x not in ("-", ":")]
    if len(comps) > 1 and comps[0] == "00":
        comps = comps[1:]
    s = [x for x in comps if isinstance(x, str)]
    s = [x for x in s if x in yes or x in no]
    if not s:
        # folded into one constant string
        for x in comps:
            if isinstance(x, str) and x and x[-1] in "013":
                return (x[-1] in "13") == bool(flag)
        return False
    return all((x in yes) == bool(flag) for x in s)


def formatters(c):
    prog = c.prog
    for fn, spec in (("format_trace_id", "032x"), ("format_span_id", "016x")):
        f = prog.func("opentelemetry.trace.span." + fn)
        a = c.an(f)
        p = f.params()[0][0]
        ok = bool(a.rets())
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                s = str(l)
                o = is_call(fqn="builtins.format")(l) and is_param(p)(call_args(l)[0]) and len(call_args(l)) > 1 and isconst(call_args(l)[1], spec)
                o = o or (l.op == "fstr" and spec in s and p in s) or (l.op == "bin" and l.args[0] == "Mod" and isconst(l.args[1], "%" + spec))
                o = o or (is_call(name="format")(l) and ("{:%s}" % spec) in s)
                o = o or (is_call(name="zfill")(l) and isconst(call_args(l)[0], int(spec[1:3])) and "x" in s)
                ok = ok and bool(o)
        c.ob("formatter", f.fqn, ok, f.where, "%s does not produce %s lower-case hexadecimal digits" % (fn, spec[1:3]))


def default_access(c):
    """The default setter stores exactly the key and value it is given."""
    prog = c.prog
    k = prog.cls("opentelemetry.propagators.textmap.DefaultSetter")
    a = c.am(k, "set")
    ps = a.fi.params()[0]
    ev = [r for r in a.events("store_item") if is_param(ps[1])(r.t["base"]) and is_param(ps[2])(r.t["key"]) and is_param(ps[3])(r.t["val"])]
    ev += [r for r in a.events("call", name="__setitem__") if r.t["recv"] is not None and is_param(ps[1])(r.t["recv"]) and len(r.args) == 2 and is_param(ps[2])(r.args[0])]
    c.ob("default-setter", k.fqn, bool(ev) and always(a, ev, exc=False) is None, a.fi.where, "the default setter does not store the header")
    k = prog.cls("opentelemetry.propagators.textmap.DefaultGetter")
    a = c.am(k, "get")
    ps = a.fi.params()[0]
    ok = any(any(is_param(ps[1])(x) for x in a.sources(r.t["val"])) and any(is_param(ps[2])(x) for x in a.sources(r.t["val"])) for r in a.rets())
    c.ob("default-getter", k.fqn, ok and not [x for x in a.escaping("E") if x[0].kind != "call"], a.fi.where, "the default getter does not read the header")
    # a plain string value is one element, not a sequence of characters
    o = c.am(k, "get", oracle=oracle(o_isinst(lambda t: True, True, lambda cl: cl.op == "glob" and cl.args[0] == "builtins.str")))
    for r in o.rets():
        for l in o.leaves(r.t["val"]):
            if isconst(l, None):
                continue
            c.ob("default-getter-str", k.fqn, l.op == "new" or l.op == "tup", r.where, "a string header value is split into characters")
