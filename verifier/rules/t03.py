"""T03: the sampler decides."""
from .c03 import obj_field
from .lib import *

NOTE = "Tracer.start_span is evaluated once per sampling decision (the decision attribute of the sampler's result replaced by each member of Decision): which span class is constructed, with what flags, attributes and trace state. Exporting processors are evaluated with the sampled flag assumed set and clear."
SAMP = "opentelemetry.sdk.trace.sampling."
DEC = SAMP + "Decision"
DECISIONS = ("DROP", "RECORD_ONLY", "RECORD_AND_SAMPLE")
SCX = "opentelemetry.trace.span.SpanContext"
FLAGS = "opentelemetry.trace.span.TraceFlags"
TRACER = "opentelemetry.sdk.trace.Tracer"


def constructed(prog, a, base):
    """Reachable constructions of base or a subclass: (rec, obj term)."""
    k = prog.cls(base) if isinstance(base, str) else base
    for r in a.recs:
        d = r.dst
        if d is not None and d.op == "obj" and r.instr.kind in ("call", "new") and r.instr.uid == d.args[0]:
            kk = prog.classes.get(d.args[1])
            if kk is not None and k in prog.mro(kk):
                yield r, d


def below(val):
    """The trace identifier is (not) below the sampler's bound."""
    tid = is_param("trace_id")

    def f(a, t, st):
        if t.op == "lt":
            x, y = t.args
            if mentions(x, tid) and not mentions(y, tid):
                return val
            if mentions(y, tid) and not mentions(x, tid) and val:
                return False
        return None
    return f


def is_result(t):
    return is_call(name="should_sample")(t)


def decided(name):
    def subst(a, t):
        if t.op == "attr" and t.args[1] in ("decision", "_decision") and mentions(t.args[0], is_result):
            return a.T.mk("glob", DEC + "." + name)
        return None
    return subst


def flag_value(a, t, depth=0):
    """Set of integer values of a trace-flags term, None when not constant."""
    out = set()
    if t is None or depth > 6:
        return None
    for l in a.leaves(t):
        if l.op == "const":
            if not isinstance(l.args[0], (int, bool)):
                return None
            out.add(int(l.args[0]))
        elif l.op == "obj" and l.args[1] == FLAGS:
            vs = list(l.args[2]) or [v for k, v in l.args[3]]
            r = flag_value(a, vs[0], depth + 1) if vs else {0}
            if r is None:
                return None
            out |= r
        elif l.op == "glob":
            n = l.args[0].rpartition(".")[2]
            if n in ("DEFAULT_TRACE_OPTIONS", "DEFAULT"):
                out.add(0)
            elif n == "SAMPLED":
                out.add(1)
            else:
                return None
        elif callee_of(l) is not None:
            cal = callee_of(l)
            n = cal.args[1] if cal.op == "attr" else cal.args[0].rpartition(".")[2] if cal.op == "glob" else ""
            if n == "get_default":
                out.add(0)
            elif n in ("int", "TraceFlags", "bool") and call_args(l):
                r = flag_value(a, call_args(l)[0], depth + 1)
                if r is None:
                    return None
                out |= r
            else:
                return None
        elif l.op == "bin" and l.args[0] in ("BitOr", "BitAnd", "Add", "BitXor"):
            x, y = flag_value(a, l.args[1], depth + 1), flag_value(a, l.args[2], depth + 1)
            if x is None or y is None:
                return None
            f = {"BitOr": lambda p, q: p | q, "BitAnd": lambda p, q: p & q, "Add": lambda p, q: p + q, "BitXor": lambda p, q: p ^ q}[l.args[0]]
            out |= {f(p, q) for p in x for q in y}
        elif l.op in ("eq", "isnone", "in", "not", "lt", "isinst"):
            return None
        else:
            return None
    return out


COPIES = {"builtins.dict", "copy.copy", "copy.deepcopy", "types.MappingProxyType"}


def uncopied(a, t, depth=0):
    """Source values through copies."""
    out = set()
    for l in a.leaves(t):
        cal = callee_of(l)
        if depth < 6 and cal is not None and cal.op == "attr" and cal.args[1] == "copy" and not call_args(l):
            out |= uncopied(a, cal.args[0], depth + 1)
        elif depth < 6 and cal is not None and cal.op == "glob" and cal.args[0] in COPIES and call_args(l):
            out |= uncopied(a, call_args(l)[0], depth + 1)
        elif l.op == "new" and l.args[1] == "dict" and a.contents.get(l):
            srcs = set()
            for k_, v, i in a.contents[l]:
                srcs.add(v.args[0] if v.op == "elem" and k_ is not None and k_.op == "keyof" else v)
            out |= srcs
        else:
            out.add(l)
    return out


def all_are(a, t, pred):
    ls = a.leaves(t) if t is not None else ()
    return bool(ls) and all(pred(l) for l in ls)


def run(c):
    prog = c.prog
    k = prog.cls(TRACER)
    m = c.method(k, "start_span")
    where = m.where
    pn = [p for p in m.params()[0] if p != "self"]
    for d in DECISIONS:
        start(c, k, m, d)
    tables(c)
    results(c)
    exporters(c)
    started(c)
    c.floor("flag", 2)
    c.floor("exported-iff-sampled", 2)


def start(c, k, m, d):
    prog = c.prog
    con = "%s.start_span %s" % (TRACER, d)
    a = c.an(m, k, subst=decided(d), policy=Policy(mods=(m.mod.name, "opentelemetry.sdk.trace.sampling"), deny=("start", "should_sample")))
    ss = [r for r in a.calls(name="should_sample")]
    c.ob("asks-sampler", con, bool(ss) and always(a, ss, exc=False) is None, m.where, "a span may be started without asking the sampler")
    for r in ss:
        c.ob("asks-once", con, not any(a.can_reach(r.instr, x.instr) for x in ss), r.where, "the sampler may be asked twice")
        c.ob("configured-sampler", con, all_are(a, r.t["recv"], self_attr("sampler")), r.where, "another sampler than the tracer's is asked")
        g = prog.func(SAMP + "Sampler.should_sample")
        for i, (p, mine) in enumerate((("parent_context", "context"), ("trace_id", None), ("name", "name"), ("kind", "kind"), ("attributes", "attributes"), ("links", "links"))):
            v = arg(r, i, p)
            if mine and mine in m.params()[0]:
                c.ob("sampler-argument", "%s %s" % (con, p), all_are(a, v, is_param(mine)) or v is not None and mine in ("attributes", "links") and a.derives(v, is_param(mine)), r.where, "the sampler is not given the span's %s" % p)
    spans = list(constructed(prog, a, SPAN))
    nrs = [(r, o) for r, o in constructed(prog, a, "opentelemetry.trace.span.NonRecordingSpan")]
    scs = list(constructed(prog, a, SCX))
    for r, o in scs:
        fv = flag_value(a, obj_field(prog, o, "trace_flags")) if obj_field(prog, o, "trace_flags") is not None else {0}
        want = 1 if d == "RECORD_AND_SAMPLE" else 0
        c.ob("flag", con, fv is not None and {x & 1 for x in fv} == {want}, r.where, "the span context is created with trace flags %s for decision %s" % (fv if fv is not None else "unrelated to the decision", d))
        ts = obj_field(prog, o, "trace_state")
        c.ob("trace-state", con, ts is not None and all_are(a, ts, lambda l: l.op == "attr" and l.args[1] == "trace_state" and is_result(l.args[0])), r.where, "the span's trace state is not the one the sampler returned")
        rm = obj_field(prog, o, "is_remote")
        c.ob("local", con, rm is not None and all_are(a, rm, lambda l: isconst(l, False)), r.where, "a locally started span is marked remote")
    c.ob("flag", con + " context", bool(scs), m.where, "no span context is created")
    mine = {o for r, o in scs}
    if d == "DROP":
        c.ob("drop-records-nothing", con, not spans, spans[0][0].where if spans else m.where, "a dropped span is recorded")
        bad = [r for r in a.calls(name=("on_start", "_on_starting", "start")) if r.t.get("recv") is not None and a.derives(r.t["recv"], lambda t: t.op == "obj" or t.op == "attr" and t.args[1] == "span_processor")]
        c.ob("drop-not-notified", con, not bad, bad[0].where if bad else m.where, "processors are told about a dropped span")
        made = nrs
        for r, o in nrs:
            v = obj_field(prog, o, "context")
            c.ob("span-context", con, all_are(a, v, lambda l: l in mine), r.where, "the span does not carry the context created for it")
    else:
        c.ob("record-constructs", con, bool(spans), m.where, "no recording span is created for decision %s" % d)
        made = spans
        for r, o in spans:
            for p in ("context",):
                v = obj_field(prog, o, p)
                c.ob("span-context", con, all_are(a, v, lambda l: l in mine), r.where, "the span does not carry the context created for it")
            v = obj_field(prog, o, "attributes")
            srcs = uncopied(a, v) if v is not None else set()
            c.ob("sampler-attributes", con, bool(srcs) and all(l.op == "attr" and l.args[1] == "attributes" and is_result(l.args[0]) for l in srcs), r.where, "the span's attributes are not the ones the sampler returned: %s" % ", ".join(map(str, srcs)))
            v = obj_field(prog, o, "span_processor")
            c.ob("span-processor", con, all_are(a, v, self_attr("span_processor")), r.where, "the span is not given the tracer's processors")
            for p in ("name", "kind", "links"):
                v = obj_field(prog, o, p)
                c.ob("span-argument", "%s %s" % (con, p), v is not None and (all_are(a, v, is_param(p)) or p == "links" and a.derives(v, is_param(p))), r.where, "the caller's %s does not reach the span" % p)
            for p, at in (("resource", "resource"), ("limits", "_span_limits"), ("instrumentation_scope", "_instrumentation_scope")):
                v = obj_field(prog, o, p)
                c.ob("span-argument", "%s %s" % (con, p), v is not None and all_are(a, v, lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1].strip("_") == at.strip("_")), r.where, "the tracer's %s does not reach the span" % p)
            st = [x for x in a.calls(name="start") if all_are(a, x.t.get("recv"), lambda l: l is o)]
            p = a.path_avoiding(r.instr, [x.instr for x in st], a.exit_blocks(exc=False))
            c.ob("span-started", con, bool(st) and p is None, r.where, "the span is handed out without having been started")
            for x in st:
                c.ob("started-once", con, not any(a.can_reach(x.instr, y.instr) for y in st), x.where, "the span may be started twice")
                c.ob("start-time-passed", con, all_are(a, arg(x, 0, "start_time"), is_param("start_time")), x.where, "the caller's start time is not used")
                c.ob("parent-context-passed", con, all_are(a, arg(x, 1, "parent_context"), is_param("context")), x.where, "processors are not given the caller's context")
    ok = {o for r, o in made}
    for r in a.rets():
        c.ob("span-returned", con, all_are(a, r.t["val"], lambda l: l in ok), r.where, "what is returned is not the span decided on (%s)" % r.t["val"])
    c.ob("span-returned", con + " reachable", bool(a.rets()), m.where, "start_span cannot return for decision %s" % d)


def tables(c):
    """Decision.is_recording / is_sampled and TraceFlags.sampled."""
    prog = c.prog
    k = prog.cls(DEC)
    for n, yes in (("is_recording", ("RECORD_ONLY", "RECORD_AND_SAMPLE")), ("is_sampled", ("RECORD_AND_SAMPLE",))):
        m = c.method(k, n)
        for d in DECISIONS:
            a = c.an(m, k, params={"self": lambda T, d=d: T.mk("glob", DEC + "." + d)})
            ok = bool(a.rets())
            for r in a.rets():
                v = a.decide(r.t["val"], __import__("verifier.flow", fromlist=["State"]).State({}, {}, dict(r.facts), {})) if r.t["val"] is not None else None
                ok = ok and v is (d in yes)
            c.ob("decision-table", "%s.%s %s" % (DEC, n, d), ok, m.where, "%s of %s is not %s" % (n, d, d in yes))
    kk = prog.cls(FLAGS)
    m = c.method(kk, "sampled")
    a = c.an(m, kk)
    ok = bool(a.rets())
    for r in a.rets():
        ls = a.leaves(r.t["val"])
        for l in ls:
            x = l
            while is_call(name="bool")(x) and call_args(x):
                x = call_args(x)[0]
            if x.op == "not" and x.args[0].op == "eq":
                x = x.args[0].args[0] if isconst(x.args[0].args[1], 0) else x.args[0].args[1]
            if x.op == "eq":
                y = [z for z in x.args if z.op == "const"]
                x = [z for z in x.args if z.op != "const"][0] if y and y[0].args[0] == 1 else x
            ok = ok and x.op == "bin" and x.args[0] == "BitAnd" and any(is_self(y) for y in x.args[1:]) and any(isconst(y, 1) for y in x.args[1:])
    c.ob("sampled-bit", FLAGS + ".sampled", ok, m.where, "the sampled property is not bit 0 of the flags")
    g = prog.const_global(FLAGS + ".SAMPLED")
    c.ob("sampled-bit", FLAGS + ".SAMPLED", g is not None and g[1] == 1, kk.where if hasattr(kk, "where") else "", "the sampled bit is not 1")


def results(c):
    """SamplingResult keeps what it is given; the built-in samplers return
    their decision with the parent's trace state and the given attributes."""
    prog = c.prog
    k = prog.cls(SAMP + "SamplingResult")
    init = c.method(k, "__init__")
    for p in ("decision", "attributes", "trace_state"):
        a = c.an(init, k, oracle=oracle(o_isnone(is_param(p), False)))
        st = [r for r in a.events("store_attr") if r.instr.name == p and is_self(r.t["base"])]
        ok = bool(st) and always(a, st, exc=False) is None
        for r in st:
            src = uncopied(a, r.t["val"])
            ok = ok and bool(src) and all(is_param(p)(l) for l in src)
        c.ob("result-kept", "%s.%s" % (k.fqn, p), ok, init.where, "the sampling result does not keep its %s" % p)
    base = prog.cls(SAMP + "Sampler")
    for kk in prog.subclasses(base):
        if kk is base or not kk.fqn.startswith("opentelemetry.sdk"):
            continue
        m = kk.methods.get("should_sample")
        if m is None:
            continue
        a = c.an(m, kk)
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                if l.op != "obj" or l.args[1] != k.fqn:
                    continue
                ts = obj_field(prog, l, "trace_state")
                c.ob("keeps-parent-state", kk.fqn, ts is not None and a.derives(ts, lambda t: t.op == "attr" and t.args[1] in ("trace_state", "_trace_state") or is_call(name="_get_parent_trace_state")(t)), r.where, "the parent's trace state is lost")
                at = obj_field(prog, l, "attributes")
                for d in ("RECORD_ONLY", "RECORD_AND_SAMPLE"):
                    dt = obj_field(prog, l, "decision")
                    b = c.an(m, kk, subst=lambda x, t, dt=dt, d=d: x.T.mk("glob", DEC + "." + d) if t.op == "attr" and is_self(t.args[0]) and t.args[1].strip("_") == "decision" else None)
                    for r2 in b.rets():
                        for l2 in b.leaves(r2.t["val"]):
                            if l2.op != "obj":
                                continue
                            dv = obj_field(prog, l2, "decision")
                            if dv is None or not all(x.op == "glob" and x.args[0] == DEC + "." + d for x in b.leaves(dv)):
                                continue
                            av = obj_field(prog, l2, "attributes")
                            c.ob("keeps-attributes", "%s %s" % (kk.fqn, d), av is not None and all(is_param("attributes")(x) for x in uncopied(b, av)), r2.where, "a recorded span loses the attributes it was started with")
        if "TraceIdRatio" in kk.name:
            b = c.an(m, kk, oracle=below(True))
            for r2 in b.rets():
                for l2 in b.leaves(r2.t["val"]):
                    if l2.op == "obj":
                        c.ob("ratio-decision", kk.fqn + " below bound", all_are(b, obj_field(prog, l2, "decision"), lambda x: x.op == "glob" and x.args[0] == DEC + ".RECORD_AND_SAMPLE"), r2.where, "an identifier below the bound is not sampled")
                        c.ob("keeps-attributes", kk.fqn, all(is_param("attributes")(x) for x in uncopied(b, obj_field(prog, l2, "attributes"))), r2.where, "a sampled span loses the attributes it was started with")
            b = c.an(m, kk, oracle=below(False))
            for r2 in b.rets():
                for l2 in b.leaves(r2.t["val"]):
                    if l2.op == "obj":
                        c.ob("ratio-decision", kk.fqn + " above bound", all_are(b, obj_field(prog, l2, "decision"), lambda x: x.op == "glob" and x.args[0] == DEC + ".DROP"), r2.where, "an identifier not below the bound is sampled")
    # static decisions
    for name, want in (("ALWAYS_ON", "RECORD_AND_SAMPLE"), ("ALWAYS_OFF", "DROP")):
        mod = prog.modules["opentelemetry.sdk.trace.sampling"]
        v = global_call(prog, mod, name)
        ok = v is not None and v[1] and v[1][0].endswith("Decision." + want) or v is not None and v[0].rpartition(".")[2] == {"ALWAYS_ON": "_AlwaysOn", "ALWAYS_OFF": "_AlwaysOff"}[name]
        c.ob("static-sampler", name, ok, mod.path if hasattr(mod, "path") else name, "%s is not the sampler deciding %s" % (name, want))
    ss = prog.cls(SAMP + "StaticSampler")
    a = c.am(ss, "__init__")
    m = c.method(ss, "should_sample")
    b = c.an(m, ss)
    fields = {r.instr.name for r in a.events("store_attr") if is_self(r.t["base"]) and all_are(a, r.t["val"], is_param("decision"))}
    for r in b.rets():
        for l in b.leaves(r.t["val"]):
            v = obj_field(prog, l, "decision") if l.op == "obj" else None
            if v is None:
                c.ob("static-decision", ss.fqn, False, r.where, "the sampler does not return a sampling result with its decision")
                continue
            ok = all(x.op == "attr" and is_self(x.args[0]) and x.args[1] in fields for x in b.leaves(v))
            c.ob("static-decision", ss.fqn, ok, r.where, "the sampler does not return the decision it was made with")


def global_call(prog, mod, name):
    """(callee name, [argument source]) of `name = callee(args)` in a module."""
    import ast
    for n in mod.tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in ts) and isinstance(n.value, ast.Call):
                return ast.unparse(n.value.func), [ast.unparse(x) for x in n.value.args] + [ast.unparse(k.value) for k in n.value.keywords]
    return None


def is_flag(t):
    """`span.context.trace_flags.sampled` or `flags & 1`."""
    if t.op == "attr" and t.args[1] == "sampled":
        return True
    if t.op == "bin" and t.args[0] == "BitAnd" and any(isconst(x, 1) for x in t.args[1:]) and any(is_attr("trace_flags")(x) for x in t.args[1:]):
        return True
    return False


def o_flag(val):
    def f(a, t, st):
        if is_flag(t):
            return val
        if t.op == "eq" and any(is_flag(x) for x in t.args):
            o = [x for x in t.args if not is_flag(x)]
            if len(o) == 1 and o[0].op == "const":
                return bool(o[0].args[0]) == val
        if t.op == "istrue" and is_flag(t.args[0]):
            return val
        if t.op == "isnone" and is_attr(("context", "trace_flags", "_context"))(t.args[0]):
            return False
        if t.op == "isnone" and is_call(name="get_span_context")(t.args[0]):
            return False
        return None
    return f


def exporters(c):
    """Processors handing ended spans to an exporter filter on the flag."""
    prog = c.prog
    base = prog.cls("opentelemetry.sdk.trace.SpanProcessor")
    for k in prog.subclasses(base):
        if not k.fqn.startswith("opentelemetry.sdk.trace.export"):
            continue
        m = prog.find_method(k, "on_end")
        if m is None or m.cls is base:
            continue
        sp = [p for p in m.params()[0] if p != "self"][0]

        def outs(a):
            out = []
            for r in a.recs:
                if r.instr.kind != "call" or r.instr.name in LOGM:
                    continue
                rv = r.t.get("recv")
                vals = list(r.args) + list(r.kw.values())
                if r.instr.name == "export" and any(a.derives(v, is_param(sp)) for v in vals):
                    out.append(r)
                elif rv is not None and r.instr.name in ("append", "appendleft", "put", "put_nowait", "extend", "extendleft") and any(a.derives(v, is_param(sp)) for v in vals) and root(rv).op == "self":
                    out.append(r)
            return out
        off = c.an(m, k, oracle=o_flag(False))
        bad = outs(off)
        c.ob("exported-iff-sampled", k.fqn + " not sampled", not bad, bad[0].where if bad else m.where, "a span whose sampled flag is not set is passed on to the exporter")
        live = oracle(o_flag(True), o_truth(lambda t: t.op == "attr" and is_self(t.args[0]) and closed_flag(c, k, t.args[1]), False), o_isnone(is_param(sp), False))
        on = c.an(m, k, oracle=live)
        ev = outs(on)
        p = always(on, ev, exc=False)
        c.ob("exported-iff-sampled", k.fqn + " sampled", bool(ev) and p is None, m.where, "a sampled span is not passed on to the exporter: %s" % witness(on, p))
        for r in ev:
            c.ob("passed-on-once", k.fqn, not any(on.can_reach(r.instr, x.instr) for x in ev), r.where, "a span may be passed on twice")


def closed_flag(c, k, name):
    """The attribute is set to True by shutdown."""
    key = ("closed", k.fqn)
    if key not in c.cache:
        m = c.prog.find_method(k, "shutdown")
        out = set()
        if m is not None:
            a = c.an(m, k)
            for r in a.events("store_attr"):
                if is_self(r.t["base"]) and isconst(r.t["val"], True):
                    out.add(r.instr.name)
        c.cache[key] = out
    return name in c.cache[key]


def started(c):
    """Span.start notifies the processors once, after the start time is set."""
    prog = c.prog
    k = prog.cls(SPAN)
    from .t01 import start_attr
    sa = start_attr(c, k)
    m = c.method(k, "start")
    con = SPAN + ".start"
    a = c.an(m, k, oracle=oracle(o_isnone(self_attr(sa), True)))
    ev = [r for r in a.calls(name="on_start")]
    c.ob("start-notifies", con, bool(ev) and always(a, ev, exc=False) is None, m.where, "a span may start without its processors being told")
    ia = c.am(k, "__init__")
    procs = {r.instr.name for r in ia.events("store_attr") if is_self(r.t["base"]) and all_are(ia, r.t["val"], is_param("span_processor"))}
    st = [r for r in a.events("store_attr") if r.instr.name == sa]
    for r in ev:
        c.ob("start-notifies-once", con, not any(a.can_reach(r.instr, x.instr) for x in ev), r.where, "processors may be told twice about one start")
        c.ob("start-notifies-own", con, all_are(a, r.t["recv"], lambda l: l.op == "attr" and is_self(l.args[0]) and l.args[1] in procs), r.where, "other processors than the span's are told")
        c.ob("start-time-first", con, bool(st) and a.dominated(r.instr, [s.instr for s in st]), r.where, "processors are told before the start time is set")
        c.ob("start-notifies-span", con, all_are(a, arg(r, 0, "span"), is_self), r.where, "processors are not given the span")
        pc = arg(r, 1, "parent_context")
        c.ob("start-notifies-context", con, pc is not None and all_are(a, pc, is_param("parent_context")), r.where, "processors are not given the parent context")
    g = c.an(m, k, oracle=oracle(o_isnone(self_attr(sa), True), o_isnone(is_param("start_time"), False)))
    for r in g.events("store_attr"):
        if r.instr.name == sa:
            c.ob("given-start-time", con, all_are(g, r.t["val"], is_param("start_time")), r.where, "a start time passed by the caller (possibly 0) is not the one recorded")
    b = c.an(m, k, oracle=oracle(o_isnone(self_attr(sa), False)))
    bad = list(b.calls(name="on_start")) + [r for r in b.events("store_attr") if r.instr.name == sa]
    c.ob("started-only-once", con, not bad, bad[0].where if bad else m.where, "starting a started span again notifies or changes it")
