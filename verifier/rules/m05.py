"""M05: temporality and aggregation preferences select as documented."""
from .mx import *
from .lib import logger_calls

NOTE = "Table extraction by conditional constant propagation: the exporter's tables for every preference value, the reader's tables for every instrument kind of the override, and the lookups that use them."

T_ENV = "OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE"
H_ENV = "OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION"
MIXIN = "opentelemetry.exporter.otlp.proto.common._internal.metrics_encoder.OTLPMetricExporterMixin"
EXPORTER = MI + "export.MetricExporter"
KIND = ("Counter", "UpDownCounter", "Histogram", "Gauge", "ObservableCounter", "ObservableUpDownCounter", "ObservableGauge")
DELTA = {"DELTA": ("Counter", "Histogram", "ObservableCounter"), "LOWMEMORY": ("Counter", "Histogram"), "CUMULATIVE": ()}
VALUES = ((None, "CUMULATIVE"), ("CUMULATIVE", "CUMULATIVE"), ("cumulative", "CUMULATIVE"), ("Delta", "DELTA"), (" DELTA ", "DELTA"), ("lowmemory", "LOWMEMORY"), ("LOWMEMORY", "LOWMEMORY"), ("sometimes", None))
HISTS = ((None, "Explicit"), ("explicit_bucket_histogram", "Explicit"), ("base2_exponential_bucket_histogram", "Exponential"), ("fancy", None))


def run(c):
    for v, row in VALUES:
        temporality(c, v, row)
    for v, agg in HISTS:
        histogram(c, v, agg)
    mixin_use(c)
    reader(c)
    handed(c)
    used(c)
    c.floor("preference", 48)
    c.floor("histogram", 6)
    c.floor("override", 14)
    c.floor("reader-default", 14)
    c.floor("handed-on", 8)


def setting(name, value):
    """The environment variable has the value (None: it is not set)."""
    def f(a, t):
        n = env_read(t)
        if n is None or n.op != "const" or n.args[0] != name:
            return None
        if value is not None:
            return a.T.const(value)
        args = call_args(t) if callee_of(t) is not None else ()
        return args[1] if len(args) > 1 else a.T.const(None)
    return f


def table(a, v):
    """[(key, value, instr, position)] of the dictionaries a value may be, or
    None when it may be something else."""
    out = []
    for l in a.leaves(v):
        src = l
        ca = callee_of(l)
        if ca is not None and (ca.op == "glob" and ca.args[0] == "builtins.dict") and call_args(l):
            src = call_args(l)[0]
            for s in a.leaves(src):
                out += [(k, x, i, n) for n, (k, x, i) in enumerate(a.contents.get(s, ()))]
            out += [(k, x, i, 1000 + n) for n, (k, x, i) in enumerate(a.contents.get(l, ()))]
            continue
        if l.op != "new" or l.args[1] != "dict":
            return None
        out += [(k, x, i, n) for n, (k, x, i) in enumerate(a.contents.get(l, ()))]
    return out


def override_of(a, k, v, p):
    """An entry copied from the caller's own table (parameter p or nothing)."""
    pr = is_param(p)
    def src(t):
        ls = a.leaves(t)
        return any(pr(l) for l in ls) and all(pr(l) or l.op == "const" or l.op == "new" and not a.contents.get(l) for l in ls)
    return k is not None and k.op == "keyof" and v.op == "elem" and k.args[0] is v.args[0] and src(k.args[0])


def after(a, x, y):
    """Entry y is written after entry x."""
    if x[2] is y[2] or x[2].uid == y[2].uid:
        return x[3] < y[3]
    return a.can_reach(x[2], y[2]) and not a.can_reach(y[2], x[2])


def preferred(c, value, name, param, which):
    """The table the exporter passes on, under a value of the environment."""
    k = c.prog.cls(MIXIN)
    m = c.method(k, "_common_configuration")
    a = c.an(m, k, subst=setting(name, value), oracle=oracle(o_truth(is_param(param), True), o_isnone(is_param(param), False)), policy=Policy(mods=(k.mod.name,), deny=(EXPORTER + ".__init__",)))
    ev = [r for r in a.calls(name="__init__") if r.instr.fqn == EXPORTER + ".__init__"]
    con = "%s(%s=%s)" % (m.fqn, name, value)
    if not ev or always(a, ev, exc=False) is not None:
        c.ob(which, con, False, m.where, "the exporter's tables are not set up")
        return None
    rows = None
    for r in ev:
        ps = c.prog.func(EXPORTER + ".__init__").params()[0]
        pos = [x for x in r.args if x.op != "self"]
        i = ps.index(param) - 1
        v = r.kw.get(param, pos[i] if i < len(pos) else None)
        rows = table(a, v) if v is not None else None
        if rows is None:
            c.ob(which, con, False, r.where, "what is passed on is not a table of instrument kinds: %s" % (v,))
    return a, m, con, rows


def base_row(a, rows, kind):
    f = INST + kind
    return [x for x in rows if x[0] is not None and x[0].op == "glob" and x[0].args[0] == f]


def overrides(c, a, m, con, rows, p, which):
    o = [x for x in rows if override_of(a, x[0], x[1], p)]
    base = [x for x in rows if x not in o]
    ok = bool(o) and all(x[0] is not None and x[0].op == "glob" for x in base) and all(any(after(a, x, y) for y in o) and not any(after(a, y, x) for y in o) for x in base)
    ins = {y[2] for y in o}
    ok = ok and not any(i.kind == "call" and i.name == "setdefault" for i in ins)
    lps = [lp for lp in loops_over(a, is_param(p)) if any(i.block in loop_body(a, lp.instr) for i in ins)]
    ok = ok and all(loop_skips(a, lp.instr, list(ins)) is None for lp in lps) and always(a, list(ins) + lps, exc=False) is None
    c.ob(which, con + " override", ok, m.where, "the user's table does not win over the defaults")


def temporality(c, value, row):
    x = preferred(c, value, T_ENV, "preferred_temporality", "preference")
    if x is None or x[3] is None:
        return
    a, m, con, rows = x
    for kind in KIND:
        got = {l.args[0].rsplit(".", 1)[-1] if l.op == "glob" else None for e in base_row(a, rows, kind) for l in a.leaves(e[1])}
        want = "DELTA" if kind in DELTA[row or "CUMULATIVE"] else "CUMULATIVE"
        ok = got == {want} or not got and want == "CUMULATIVE"
        c.ob("preference", "%s %s" % (con, kind), ok, m.where, "a %s is %s with preference %r" % (kind, "/".join(sorted(map(str, got))) or "left to the reader", value))
    overrides(c, a, m, con, rows, "preferred_temporality", "preference")
    if row is None:
        lg = logger_calls(a)
        c.ob("preference", con + " warned", bool(lg) and always(a, lg, exc=False) is None, m.where, "an unknown preference is not reported")


def histogram(c, value, agg):
    x = preferred(c, value, H_ENV, "preferred_aggregation", "histogram")
    if x is None or x[3] is None:
        return
    a, m, con, rows = x
    cls = AGG + (agg or "Explicit") + "BucketHistogramAggregation"
    base = [e for e in rows if not override_of(a, e[0], e[1], "preferred_aggregation")]
    only = all(e[0] is not None and e[0].op == "glob" and e[0].args[0] == INST + "Histogram" for e in base)
    c.ob("histogram", con + " kinds", only, m.where, "the histogram setting applies to another kind of instrument")
    ok = bool(base) and all(is_made(cls)(l) for e in base for l in a.leaves(e[1]))
    c.ob("histogram", con, ok, m.where, "histograms are not aggregated as set (%r)" % (value,))
    overrides(c, a, m, con, rows, "preferred_aggregation", "histogram")
    if agg is None:
        lg = logger_calls(a)
        c.ob("histogram", con + " warned", bool(lg) and always(a, lg, exc=False) is None, m.where, "an unknown aggregation is not reported")


def mixin_use(c):
    """Exporters sharing the tables set them up with the user's own."""
    n = 0
    for k in c.prog.subclasses(c.prog.cls(MIXIN), strict=True):
        m = c.method(k, "__init__")
        a = c.an(m, k, policy=Policy(mods=(k.mod.name,), deny=(MIXIN + "._common_configuration",)))
        ev = a.calls(name="_common_configuration")
        ok = bool(ev) and always(a, ev, exc=False) is None
        ps = c.prog.find_method(k, "_common_configuration").params()[0][1:]
        for r in ev:
            for i, p in enumerate(ps):
                v = arg(r, i, p)
                if v is not None and p in ("preferred_temporality", "preferred_aggregation"):
                    ok = ok and all_are(a, v, is_param(p))
                else:
                    ok = False
        n += 1
        c.ob("handed-on", k.fqn, ok, m.where, "the exporter does not set up its tables with the user's preferences")
    c.ob("handed-on", MIXIN, n >= 2, "", "no exporter uses the tables")


def reader(c):
    k = c.prog.cls(READER)
    m = c.method(k, "__init__")
    fields = (("preferred_temporality", "_instrument_class_temporality"), ("preferred_aggregation", "_instrument_class_aggregation"))
    classes = {x: INST + "_" + x for x in KIND}
    for p, f in fields:
        # the defaults
        a = c.an(m, k, oracle=oracle(o_isnone(is_param("preferred_temporality"), True), o_isnone(is_param("preferred_aggregation"), True)))
        rows = field_table(a, f)
        for x in KIND:
            vs = [l for e in rows or () if e[0] is not None and e[0].op == "glob" and e[0].args[0] == classes[x] for l in a.leaves(e[1])]
            ok = bool(vs) and all(l.op == "glob" and l.args[0].endswith(".CUMULATIVE") if f.endswith("temporality") else is_made(AGG + "DefaultAggregation")(l) for l in vs)
            c.ob("reader-default", "%s %s of %s" % (m.fqn, f, x), ok, m.where, "without a preference a %s has %s" % (x, vs))
        # the overrides
        for x in KIND + (None,):
            key = lambda an, t: an.T.mk("glob", INST + x if x else PROVIDER) if t.op == "keyof" and is_param(p)(root_of(t.args[0])) else None
            a = c.an(m, k, subst=key, oracle=oracle(o_isnone(is_param(p), False), lambda an, t, st: True if t.op == "in" and t.args[0].op == "elem" else None))
            con = "%s %s[%s]" % (m.fqn, p, x or "something else")
            if field_table(a, f) is None:
                c.ob("override", con, False, m.where, "the table is not a dictionary")
                continue
            ov = lambda l: l.op == "elem" and is_param(p)(root_of(l.args[0]))
            ev = [r for r in a.recs if r.instr.kind in ("store_item",) and any(h in table_terms(a, f) for h in a.leaves(r.t["base"]))]
            if x is None:
                c.ob("override", con, not ev and not a.rets() or not ev and any(r.instr.kind == "raise" for r in a.recs), ev[0].where if ev else m.where, "a preference for something that is no instrument is accepted")
                continue
            ok = bool(ev) and all(r.t["key"].op == "glob" and r.t["key"].args[0] == classes[x] and all_are(a, r.t["val"], ov) for r in ev)
            c.ob("override", con, ok, ev[0].where if ev else m.where, "the preference for %s does not set exactly that kind's entry" % x)
            lps = [lp for lp in loops_over(a, lambda t: any(is_param(p)(y) for y in subterms(t))) if any(in_loop(a, r, lp) for r in ev)]
            sk = [s for lp in lps for s in [loop_skips(a, lp.instr, ev)] if s]
            c.ob("override", con + " always", bool(lps) and not sk, m.where, "a preference may be passed over")


def root_of(t):
    while callee_of(t) is not None and callee_of(t).op == "attr" and callee_of(t).args[1] in ("items", "keys", "copy") or callee_of(t) is not None and callee_of(t).op == "glob" and callee_of(t).args[0] in ("builtins.dict", "builtins.list") and call_args(t):
        t = callee_of(t).args[0] if callee_of(t).op == "attr" else call_args(t)[0]
    return t


def table_terms(a, f):
    out = set()
    for r in self_stores(a):
        if r.instr.name == f:
            out.update(a.leaves(r.t["val"]))
    for r in a.recs:
        if r.instr.kind == "attr" and r.instr.name == f and r.dst is not None:
            out.update(a.leaves(r.dst))
    return out


def field_table(a, f):
    v = [r.t["val"] for r in self_stores(a) if r.instr.name == f]
    if not v:
        return None
    out = []
    for x in v:
        t = table(a, x)
        if t is None:
            return None
        out += t
    return out


def handed(c):
    """Readers pass the preferences they get on; the exporter's are the reader's."""
    k = c.prog.cls(EXPORTER)
    a = c.am(k, "__init__")
    for p in ("preferred_temporality", "preferred_aggregation"):
        fs = field_of_param(a, p)
        c.ob("handed-on", "%s %s" % (k.fqn, p), "_" + p in fs, a.fi.where, "an exporter does not keep its preference")
    k = c.prog.cls(PERIODIC)
    m = c.method(k, "__init__")
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,), deny=(READER + ".__init__",)))
    passed(c, a, m, k, lambda p: lambda t: t.op == "attr" and t.args[1] == "_" + p and is_param("exporter")(t.args[0]))
    k = c.prog.cls(MI + "export.InMemoryMetricReader")
    m = c.method(k, "__init__")
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,), deny=(READER + ".__init__",)))
    passed(c, a, m, k, is_param)


def passed(c, a, m, k, want):
    ev = [r for r in a.calls(name="__init__") if r.instr.fqn == READER + ".__init__"]
    c.ob("handed-on", k.fqn, bool(ev) and always(a, ev, exc=False) is None, m.where, "the reader is not set up")
    ps = c.prog.func(READER + ".__init__").params()[0][1:]
    for r in ev:
        for p in ("preferred_temporality", "preferred_aggregation"):
            i = ps.index(p)
            v = arg(r, i, p)
            c.ob("handed-on", "%s %s" % (k.fqn, p), v is not None and all_are(a, v, want(p)), r.where, "the reader's %s is %s" % (p, v))


def used(c):
    """A stream is aggregated as its view says, else as its reader says for the
    instrument's own kind; it is collected with its kind's temporality."""
    k = c.prog.cls(MATCH)
    i = c.am(k, "__init__")
    fi, fv, fa = [field_of_param(i, p) for p in ("instrument", "view", "instrument_class_aggregation")]
    inst = lambda t: any(is_field(f)(t) for f in fi) or is_param("instrument")(t)
    view = lambda t: any(is_field(f)(t) for f in fv) or is_param("view")(t)
    tab = lambda t: any(is_field(f)(t) for f in fa) or is_param("instrument_class_aggregation")(t)
    va = lambda t: t.op == "attr" and t.args[1] == "_aggregation" and view(t.args[0])
    kind = lambda t: t.op == "attr" and t.args[1] == "__class__" and inst(t.args[0]) or glob_call(t, "builtins.type") and inst(call_args(t)[0]) or t.op == "pure" and t.args[0].op == "glob" and t.args[0].args[0] == "builtins.type" and inst(t.args[1][0])
    ra = lambda t: t.op == "item" and tab(t.args[0]) and kind(t.args[1])
    for mn in ("__init__", "consume_measurement"):
        m = c.method(k, mn)
        for dflt in (True, False):
            a = c.an(m, k, oracle=o_isinst(va, dflt), policy=Policy(mods=(k.mod.name,)))
            ev = a.calls(name="_create_aggregation")
            want = ra if dflt else va
            ok = bool(ev) and all(r.t.get("recv") is not None and all_are(a, r.t["recv"], want) for r in ev)
            c.ob("used", "%s %s" % (m.fqn, "default" if dflt else "own"), ok, ev[0].where if ev else m.where, "the stream is not aggregated as its %s says" % ("reader" if dflt else "view"))
            for r in ev:
                v = arg(r, 0, "instrument")
                c.ob("used", m.fqn + " instrument", v is not None and all_are(a, v, inst), r.where, "the stream is made for another instrument")
    k = c.prog.cls(STORAGE)
    i = c.am(k, "__init__")
    ft = field_of_param(i, "instrument_class_temporality")
    fa = field_of_param(i, "instrument_class_aggregation")
    m = c.method(k, "collect")
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
    ev = [r for r in a.calls(name="collect") if r.args or r.kw]
    c.ob("used", m.fqn, bool(ev), m.where, "no stream is collected")
    for r in ev:
        v = arg(r, 0, "collection_aggregation_temporality")
        ok = v is not None and all_are(a, v, lambda t: t.op == "item" and any(is_field(f)(t.args[0]) for f in ft) and (t.args[1].op == "attr" and t.args[1].args[1] == "__class__" or t.args[1].op in ("pure", "call") and callee_of(t.args[1]) is not None and glob_name(callee_of(t.args[1])) == "builtins.type"))
        c.ob("used", m.fqn + " temporality", ok, r.where, "a stream is collected with temporality %s" % (v,))
    n = 0
    for mn in k.methods:
        m = k.methods[mn]
        if mn == "__init__":
            continue
        a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
        for r in made(a, MATCH):
            v = argof(c.prog, r, MATCH, "instrument_class_aggregation")
            n += 1
            c.ob("used", m.fqn + " aggregation", v is not None and all_are(a, v, lambda t: any(is_field(f)(t) for f in fa)), r.where, "a stream gets other aggregations than its reader's")
    c.ob("used", k.fqn, n > 0, "", "no stream is made")
    k = c.prog.cls(CONSUMER)
    m = c.method(k, "__init__")
    a = c.an(m, k)
    ms = made(a, STORAGE)
    c.ob("used", m.fqn, bool(ms), m.where, "no reader gets a storage")
    for r in ms:
        for p, f in (("instrument_class_temporality", "_instrument_class_temporality"), ("instrument_class_aggregation", "_instrument_class_aggregation")):
            v = argof(c.prog, r, STORAGE, p)
            c.ob("used", "%s %s" % (m.fqn, p), v is not None and all_are(a, v, lambda t: t.op == "attr" and t.args[1] == f and t.args[0].op == "elem"), r.where, "a reader's storage does not get the reader's own table: %s" % (v,))


def glob_name(t):
    return t.args[0] if t.op == "glob" else None
