"""K03: auto-configuration wires every signal to its configured exporters."""
from .mx import *
from . import lib
from .k02 import kwof, call_args, members, stripped, env_is, piece_of
from ..flow import isconst

NOTE = "Argument provenance through the whole start-up (all initialisers inlined into one flow graph): from the configured names through the loaded entry points to the processors, readers and global providers, with loop coverage; constant propagation of exporter names and protocol settings through the routing."

M = "opentelemetry.sdk._configuration"
TP = "opentelemetry.sdk.trace.TracerProvider"
MP = "opentelemetry.sdk.metrics._internal.MeterProvider"
LP = "opentelemetry.sdk._logs._internal.LoggerProvider"
EP = "opentelemetry.sdk._events.EventLoggerProvider"
SIGNALS = (
    # signal, parameter, setting, protocol setting, group, base classes
    ("traces", "trace_exporter_names", "OTEL_TRACES_EXPORTER", "OTEL_EXPORTER_OTLP_TRACES_PROTOCOL", "opentelemetry_traces_exporter", ("SpanExporter",)),
    ("metrics", "metric_exporter_names", "OTEL_METRICS_EXPORTER", "OTEL_EXPORTER_OTLP_METRICS_PROTOCOL", "opentelemetry_metrics_exporter", ("MetricExporter", "MetricReader")),
    ("logs", "log_exporter_names", "OTEL_LOGS_EXPORTER", "OTEL_EXPORTER_OTLP_LOGS_PROTOCOL", "opentelemetry_logs_exporter", ("LogExporter",)),
)
GENERIC = "OTEL_EXPORTER_OTLP_PROTOCOL"
P = Policy(mods=(M,))


def entry(c):
    return c.prog.func(M + "._initialize_components")


def run(c):
    wiring(c)
    kinds(c)
    readers(c)
    routing(c)
    settings(c)
    handler(c)
    for r, n in (("pipeline", 20), ("global", 4), ("names", 40), ("configured", 5), ("handler", 6)):
        c.floor(r, n)


# -- provenance through containers -----------------------------------------------------------
def trace(a, t, depth=0):
    """[(value, [insertions])] a value read from a container comes from."""
    out = []
    for l in a.leaves(t):
        if depth > 10:
            out.append((l, []))
        elif l.op in ("elem", "keyof"):
            # a member of something that is itself a container of this function
            for b, via in trace(a, l.args[0], depth + 1):
                k = callee_of(b)
                while k is not None and (k.op == "attr" and k.args[1] in ("items", "values", "keys", "copy") and not call_args(b) or k.op == "glob" and k.args[0] in KEEP_ORDER and call_args(b)):
                    b = k.args[0] if k.op == "attr" else call_args(b)[0]
                    k = callee_of(b)
                cs = a.contents.get(b, ()) if b.op == "new" else ()
                if not cs:
                    out.append((a.T.mk(l.op, b), via))
                for kk, v, i in cs:
                    x = kk if l.op == "keyof" and kk is not None else v
                    for y, w in trace(a, x, depth + 1):
                        out.append((y, via + [i] + w))
        elif l.op == "item" and isconst(l.args[1]) and isinstance(l.args[1].args[0], int):
            n = l.args[1].args[0]
            for b, via in trace(a, l.args[0], depth + 1):
                if b.op == "tup" and -len(b.args) <= n < len(b.args):
                    for y, w in trace(a, b.args[n], depth + 1):
                        out.append((y, via + w))
                elif b.op == "new" and b.args[1] in ("list", "tuple") and a.contents.get(b):
                    for kk, v, i in a.contents[b]:
                        for y, w in trace(a, v, depth + 1):
                            out.append((y, via + [i] + w))
                else:
                    out.append((a.T.mk("item", b, l.args[1]), via))
        else:
            out.append((l, []))
    return out


def loaded(a, t):
    """(group, name) of the entry point a value is loaded from, or None."""
    if not is_call(name="load")(t):
        return None
    eps = [x for x in subterms(t) if is_call(name="entry_points")(x)]
    if len(eps) != 1:
        return None
    kw = kwof(eps[0])
    return kw.get("group"), kw.get("name")


def covered(c, a, rule, con, ins, where):
    """Every insertion happens for each element of the loop it is in."""
    ok = True
    for i in ins:
        lps = [lp for lp in a.events("loop") if i.block in loop_body(a, lp)]
        for lp in lps[-1:]:
            p = loop_skips(a, lp, [x for x in ins if x.block in loop_body(a, lp)])
            ok = ok and p is None and not loop_breaks(a, lp)
            if p is not None:
                return c.ob(rule, con, False, lp.where, "a configured exporter is silently left out: %s" % witness(a, p))
            if loop_breaks(a, lp):
                return c.ob(rule, con, False, lp.where, "the loop over the configured exporters may end early")
    return c.ob(rule, con, ok, where, "")


def exporter_class(a, t):
    """The class of a made exporter: a call of something, without arguments."""
    return t.args[1] if t.op == "call" and not t.args[2] else None


def source_names(c, a, con, sig, ins, name, where, rule="pipeline"):
    """The names an entry point is asked for are the ones configured."""
    s, param, env, proto, group, base = sig
    its = []
    for l in a.leaves(name) if name is not None else ():
        x = stripped(l)
        its += [x.args[0]] if x.op == "elem" else [None]
    ok = bool(its) and all(t is not None for t in its)
    if not c.ob(rule, con + " names", ok, where, "the entry point's name is %s" % name):
        return
    for t in its:
        ms = members(a, t)
        given = [v for v, i in ms if v.op == "elem" and is_param(param)(v.args[0])]
        conf = [i for v, i in ms if any(piece_of(env)(l) for l in a.leaves(v))]
        odd = [v for v, i in ms if not (v.op == "elem" and is_param(param)(v.args[0])) and not any(piece_of(env)(l) or l.op == "const" or is_call(name="get")(l) or l.op == "item" for l in a.leaves(v))]
        c.ob(rule, con + " given names", bool(given), where, "the exporters given by name are not made")
        c.ob(rule, con + " configured names", bool(conf), where, "the exporters named in %s are not made" % env)
        c.ob(rule, con + " other names", not odd, where, "an exporter of another signal is made: %s" % (odd or [""])[0])
        covered(c, a, rule, con + " configured names", [i for i in conf if i is not None], where)


def wiring(c):
    f = entry(c)
    named = lambda t: any(is_param(s[1])(t) for s in SIGNALS)
    # exporters are given by name and named in the environment as well
    a = c.an(f, None, policy=P, oracle=oracle(o_isnone(named, False), o_truth(named, True), o_env(True, lambda t: t.op == "const" and t.args[0] in [s[2] for s in SIGNALS])))
    prov = {}
    for s, fqn in (("traces", TP), ("metrics", MP), ("logs", LP)):
        ms = made(a, fqn)
        if not c.ob("global", "%s provider" % s, len(ms) == 1 and always(a, [ms[0].instr], exc=False) is None, f.where, "%d providers are made" % len(ms)):
            continue
        prov[s] = ms[0]
    for s, setter in (("traces", "set_tracer_provider"), ("metrics", "set_meter_provider"), ("logs", "set_logger_provider")):
        rs = a.calls(name=setter)
        want = {"traces": TP, "metrics": MP, "logs": LP}[s]
        ok = bool(rs) and all(r.args and all_are(a, r.args[0], is_made(want)) for r in rs)
        p = always(a, [r.instr for r in rs], exc=False) if rs else None
        c.ob("global", s, ok and p is None and len(rs) == 1, rs[0].where if rs else f.where, "the provider does not become the global one: %s" % (witness(a, p) if p else [str(r.args) for r in rs]))
    rs = a.calls(name="set_event_logger_provider")
    ok = len(rs) == 1 and rs[0].args and all_are(a, rs[0].args[0], lambda t: is_made(EP)(t) and all_are(a, kwof(t).get("logger_provider", call_args(t)[0] if call_args(t) else None), is_made(LP)))
    c.ob("global", "events", bool(ok) and always(a, [r.instr for r in rs], exc=False) is None, f.where, "the events do not go to the logger provider of the signal")
    # the resource of all
    res = {}
    for s, r in prov.items():
        v = kwof(r.dst).get("resource", None)
        if v is None and call_args(r.dst):
            v = argof(c.prog, r, {"traces": TP, "metrics": MP, "logs": LP}[s], "resource")
        res[s] = v
        okr = v is not None and all_are(a, v, is_call(name="create"))
        c.ob("global", s + " resource", okr, r.where, "the provider's resource is %s" % v)
    c.ob("global", "resource", len({id(v) for v in res.values()}) == 1, f.where, "the signals have different resources")
    for v in {id(v): v for v in res.values() if v is not None}.values():
        for l in a.leaves(v):
            x = kwof(l).get("attributes", call_args(l)[0] if callee_of(l) is not None and call_args(l) else None)
            ok = x is not None and any(is_param("resource_attributes")(y) or any(is_param("resource_attributes")(z) for z in subterms(y)) for y in a.leaves(x)) and all(is_param("resource_attributes")(y) or y.op == "new" or mentions(y, is_param("resource_attributes")) for y in a.leaves(x))
            c.ob("global", "resource attributes", ok, f.where, "the resource is created from %s" % x)
    b = c.an(f, None, policy=P, oracle=oracle(o_truth(is_param("auto_instrumentation_version"), True), o_isnone(is_param("auto_instrumentation_version"), False)))
    cr = b.calls(name="create")
    st = [i for l in b.contents.values() for kk, v, i in l if kk is not None and isconst(kk, "telemetry.auto.version") and all_are(b, v, is_param("auto_instrumentation_version"))]
    c.ob("global", "resource auto version", bool(cr) and bool(st) and all(b.dominated(r.instr, st) for r in cr), f.where, "the auto-instrumentation's version is not in the resource")
    # pipelines
    for sig in SIGNALS:
        s, param, env, proto, group, base = sig
        con = "%s pipelines" % s
        if s == "metrics":
            if s not in prov:
                continue
            v = kwof(prov[s].dst).get("metric_readers")
            if v is None:
                v = argof(c.prog, prov[s], MP, "metric_readers")
            if not c.ob("pipeline", con, v is not None, prov[s].where, "the provider gets no readers"):
                continue
            put = [(x, [i]) for l in a.leaves(v) for kk, x, i in a.contents.get(l, ())]
            ends = [i for x, w in put for i in w]
            c.ob("pipeline", con + " before the provider", all(a.path_avoiding(prov[s].instr, [], [i.block]) is None for i in ends), prov[s].where, "a reader is added after the provider was made")
            cls = []
            for x, w in put:
                for l in a.leaves(x):
                    if is_made("opentelemetry.sdk.metrics._internal.export.PeriodicExportingMetricReader")(l):
                        e = kwof(l).get("exporter", call_args(l)[0] if call_args(l) else None)
                        cls += [exporter_class(a, y) for y in a.leaves(e)] if e is not None else [None]
                    else:
                        cls.append(exporter_class(a, l))
        else:
            add, proc = ("add_span_processor", "opentelemetry.sdk.trace.export.BatchSpanProcessor") if s == "traces" else ("add_log_record_processor", "opentelemetry.sdk._logs._internal.export.BatchLogRecordProcessor")
            own = [r for r in a.calls(name=add)]
            okr = bool(own) and all(r.t.get("recv") is not None and all_are(a, r.t["recv"], is_made(TP if s == "traces" else LP)) for r in own)
            if not c.ob("pipeline", con, okr, f.where, "no processor is added to the provider"):
                continue
            ends, cls = [r.instr for r in own], []
            for r in own:
                for l in a.leaves(r.args[0]) if r.args else ():
                    if is_made(proc)(l):
                        e = next(iter(kwof(l).get(n) for n in ("span_exporter", "exporter") if kwof(l).get(n) is not None), call_args(l)[0] if call_args(l) else None)
                        cls += [exporter_class(a, y) for y in a.leaves(e)] if e is not None else [None]
                    else:
                        cls.append(None)
        if not c.ob("pipeline", con + " made of exporters", bool(cls) and all(x is not None for x in cls), f.where, "what is added is not a batch pipeline of a configured exporter"):
            continue
        covered(c, a, "pipeline", con + " every exporter", ends, f.where)
        inloop = all(any(i.block in loop_body(a, lp) for lp in a.events("loop")) for i in ends)
        c.ob("pipeline", con + " each exporter", inloop, f.where, "only one exporter gets a pipeline")
        for x in {y for y in cls}:
            for src, via in trace(a, x):
                g = loaded(a, src)
                if not c.ob("pipeline", con + " entry point", g is not None and isconst(g[0], group), f.where, "the exporter is loaded from %s" % (g[0] if g else src)):
                    continue
                covered(c, a, "pipeline", con + " every name", via, f.where)
                source_names(c, a, con, sig, via, g[1], f.where)
    # the entry points are handed to the configurator unchanged
    k = c.prog.cls(M + "._OTelSDKConfigurator")
    m = c.method(k, "_configure")
    b = c.an(m, k, policy=Policy(mods=(M,), deny=(f.fqn,)))
    rs = b.calls(fqn=f.fqn)
    c.ob("pipeline", m.fqn, len(rs) == 1 and always(b, [rs[0].instr], exc=False) is None, m.where, "the configurator does not initialise the components once")


def kinds(c):
    """A class that is no exporter of the signal is refused."""
    f = entry(c)
    for sig in SIGNALS:
        s, param, env, proto, group, base = sig
        def sub(t):
            k = callee_of(t)
            if k is None or k.op != "glob" or k.args[0] != "builtins.issubclass" or len(call_args(t)) < 2:
                return False
            x = call_args(t)[1]
            names = [y.args[0].rpartition(".")[2] for y in (x.args if x.op == "tup" else (x,)) if y.op == "glob"]
            return set(names) == set(base)
        a = c.an(f, None, policy=P, oracle=o_truth(sub, False))
        exits_ = exits(a, True, False)
        # with a name of this signal configured, start-up fails
        lps = []
        for r in a.calls(name="entry_points"):
            if isconst(call_kwargs(r).get("group", kwof(r.dst).get("group")), group):
                lps += [lp for lp in a.events("loop") if r.instr.block in loop_body(a, lp)]
        full = c.an(f, None, policy=P)
        tests = [r for r in full.calls(name="issubclass") if sub(r.dst)]
        c.ob("pipeline", s + " exporter class", bool(tests), f.where, "a class that is no %s is accepted" % " or ".join(base))
        for r in tests:
            rr = [x for x in a.calls(name="issubclass") if x.instr is r.instr or sub(x.dst)]
            for x in rr:
                heads = [lp.instr.block for lp in a.events("loop") if x.instr.block in loop_body(full, next((q for q in full.events("loop") if q.instr is lp.instr), lp))]
                p = a.path_avoiding(x.instr, [], heads + exits_)
                c.ob("pipeline", s + " exporter class", p is None, x.where, "a class that is no %s is accepted or silently left out: %s" % (" or ".join(base), witness(a, p)))


def readers(c):
    f = entry(c)
    PR = "opentelemetry.sdk.metrics._internal.export.PeriodicExportingMetricReader"
    for isr in (True, False):
        def sub(t):
            k = callee_of(t)
            if k is None or k.op != "glob" or k.args[0] != "builtins.issubclass" or len(call_args(t)) < 2:
                return False
            x = call_args(t)[1]
            return x.op == "glob" and x.args[0].rpartition(".")[2] == "MetricReader"
        def subx(t):
            k = callee_of(t)
            x = call_args(t)[1] if k is not None and k.op == "glob" and k.args[0] == "builtins.issubclass" and len(call_args(t)) > 1 else None
            return x is not None and x.op == "glob" and x.args[0].rpartition(".")[2] == "MetricExporter"
        a = c.an(f, None, policy=P, oracle=oracle(o_truth(sub, isr), o_truth(subx, not isr)))
        for r in made(a, MP):
            v = kwof(r.dst).get("metric_readers")
            if v is None:
                v = argof(c.prog, r, MP, "metric_readers")
            vs = [l for x in (a.leaves(v) if v is not None else ()) for kk, y, i in a.contents.get(x, ()) if i.block in a.reach for l in a.leaves(y)]
            c.ob("pipeline", "metrics reader" if isr else "metrics exporter", bool(vs) and all(is_made(PR)(l) != isr for l in vs), r.where, "a configured %s becomes %s" % ("reader" if isr else "exporter", (vs or ["nothing"])[0]))


# -- names and protocols ---------------------------------------------------------------------
GRPC, HTTP = "otlp_proto_grpc", "otlp_proto_http"


def expected(name, own, generic):
    if name not in ("otlp", GRPC, HTTP):
        return name
    p = own or generic
    if not p:
        return GRPC if name == "otlp" else name
    if name == "otlp":
        return {"grpc": GRPC, "http/protobuf": HTTP}.get(p.strip())
    return name


def values(env):
    """Known values of settings."""
    def f(a, t):
        n = env_read(t)
        if n is None or n.op != "const" or n.args[0] not in env:
            return None
        v = env[n.args[0]]
        if v is None and callee_of(t) is not None and len(call_args(t)) > 1:
            return call_args(t)[1]
        return a.T.const(v)
    return f


def known_env(env):
    def f(a, t, st):
        if t.op == "in" and is_environ(t.args[1]) and t.args[0].op == "const" and t.args[0].args[0] in env:
            return env[t.args[0].args[0]] is not None
        return None
    return f


def routing(c):
    f = entry(c)
    for name in ("otlp", GRPC, HTTP, "console"):
        for own in (None, "", "grpc", "http/protobuf", " http/protobuf ", "bogus"):
            for generic in (None, "grpc", "http/protobuf"):
                if own in ("", " http/protobuf ", "bogus") and generic == "grpc" and name != "otlp":
                    continue
                env = {GENERIC: generic}
                env.update({s[3]: own for s in SIGNALS})
                route(c, f, name, env)
    for s in SIGNALS:
        # the protocol of one signal is not that of another
        env = {t[3]: "http/protobuf" if t is s else "grpc" for t in SIGNALS}
        env[GENERIC] = None
        route(c, f, "otlp", env)
    for v in (None, "", "none", " None "):
        env = {s[2]: v for s in SIGNALS}
        a = c.an(f, None, policy=P, subst=values(env), oracle=known_env(env))
        for s in SIGNALS:
            got = []
            for r in a.calls(name="entry_points"):
                kw = kwof(r.dst)
                if isconst(kw.get("group"), s[4]):
                    for l in a.leaves(kw.get("name")):
                        x = stripped(l)
                        got += [m for m, i in members(a, x.args[0]) if not (m.op == "elem" and is_param(s[1])(m.args[0]))] if x.op == "elem" else [x]
            c.ob("names", "%s=%s" % (s[2], v), not got, f.where, "an exporter is configured: %s" % (got or [""])[0])


def route(c, f, name, env):
    sub = values(env)
    piece = [piece_of(s[2]) for s in SIGNALS]
    bare = lambda t: t.op == "elem" and any(p(t) for p in piece)
    a = c.an(f, None, policy=P, subst=lambda a, t: a.T.const(" %s " % name) if bare(t) else sub(a, t), oracle=known_env(env))
    for s in SIGNALS:
                    own, generic = env[s[3]], env[GENERIC]
                    want = expected(name, own, generic)
                    got, ins = [], []
                    for r in a.calls(name="entry_points"):
                        kw = kwof(r.dst)
                        if not isconst(kw.get("group"), s[4]):
                            continue
                        for l in a.leaves(kw.get("name")):
                            x = stripped(l)
                            if x.op != "elem":
                                got.append(x)
                                continue
                            for v, i in members(a, x.args[0]):
                                if not (v.op == "elem" and is_param(s[1])(v.args[0])):
                                    got += [a.T.const(y.args[0].strip()) if x is not l and y.op == "const" and isinstance(y.args[0], str) else y for y in a.leaves(v)]
                    con = "%s %s, %s=%s, generic %s" % (s[0], name, s[3], own, generic)
                    if want is None:
                        c.ob("names", con, not got, f.where, "the unknown protocol is taken for %s" % (got or [""])[0])
                    else:
                        c.ob("names", con, bool(got) and all(isconst(v, want) for v in got), f.where, "the exporter is %s, not %s" % ((got or ["none"])[0], want))


# -- sampler and identifiers --------------------------------------------------------------------
def settings(c):
    f = entry(c)
    for p, group, env, default in (("sampler", "opentelemetry_traces_sampler", "OTEL_TRACES_SAMPLER", None), ("id_generator", "opentelemetry_id_generator", "OTEL_PYTHON_ID_GENERATOR", "random")):
        for none in (False, True):
            a = c.an(f, None, policy=P, oracle=oracle(o_isnone(is_param(p), none), o_truth(is_param(p), not none), *([o_env(True, lambda t: isconst(t, env))] if none else [])))
            for r in made(a, TP):
                v = kwof(r.dst).get(p)
                if v is None:
                    v = argof(c.prog, r, TP, p)
                ls = a.leaves(v) if v is not None else ()
                con = "%s %s" % (p, "configured" if none else "given")
                if not none:
                    c.ob("configured", con, bool(ls) and all(is_param(p)(l) for l in ls), r.where, "the %s given is replaced by %s" % (p, (ls or ["nothing"])[0]))
                    continue
                ls = [l for l in ls if not is_param(p)(l)]
                rest = [l for l in ls if not isconst(l, None)]
                ok = bool(rest)
                for l in rest:
                    srcs = trace(a, l.args[1]) if l.op == "call" else [(l, [])]
                    for s, via in srcs:
                        g = loaded(a, s)
                        n = g and g[1]
                        ns = [y for x in (a.leaves(n) if n is not None else ()) for y, w in trace(a, x)]
                        ok = ok and g is not None and isconst(g[0], group) and bool(ns) and all(env_is(env)(stripped(y)) for y in ns)
                c.ob("configured", con, ok, r.where, "the %s is %s, not the one %s names" % (p, (rest or ["nothing"])[0], env))
                if default:
                    gets = [x for x in a.calls(name=("get", "getenv")) if env_read(x.dst) is not None and isconst(env_read(x.dst), env)]
                    dv = [call_args(x.dst)[1] for x in gets if len(call_args(x.dst)) > 1]
                    c.ob("configured", con + " default", bool(dv) and all(isconst(x, default) for x in dv), r.where, "the default is %s" % dv)
    a = c.an(f, None, policy=P)
    tests = [r for r in a.calls(name="issubclass") if len(r.args) > 1 and r.args[1].op == "glob" and r.args[1].args[0].endswith(".IdGenerator")] + [r for r in a.events("op") if r.instr.name == "isinstance" and "IdGenerator" in str(r.t)]
    c.ob("configured", "id_generator class", bool(tests), f.where, "a class that is no identifier generator is accepted")
    for r in tests:
        b = c.an(f, None, policy=P, oracle=o_truth(lambda t: is_call(name="issubclass")(t) and len(call_args(t)) > 1 and call_args(t)[1].op == "glob" and call_args(t)[1].args[0].endswith(".IdGenerator"), False))
        p = b.path_avoiding(r.instr, [], exits(b, True, False)) if r.instr.block in b.reach else None
        c.ob("configured", "id_generator class", p is None, r.where, "a class that is no identifier generator is accepted")


# -- the logging handler ---------------------------------------------------------------------------
SWITCH = "OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED"


def handler(c):
    f = entry(c)
    p = "setup_logging_handler"
    H = "opentelemetry.sdk._logs._internal.LoggingHandler"
    cases = [(True, None, True), (False, "true", False)] + [(None, v, w) for v, w in ((None, False), ("", False), ("false", False), ("true", True), (" True ", True), ("1", False))]
    for given, env, want in cases:
        sub = values({SWITCH: env})
        a = c.an(f, None, policy=P, params={p: lambda T: T.const(given)}, subst=sub, oracle=known_env({SWITCH: env}))
        rs = a.calls(name="addHandler")
        con = "handler given %s, %s=%r" % (given, SWITCH, env)
        if not want:
            c.ob("handler", con, not rs, f.where, "the logging handler is installed though not enabled")
            continue
        ok = len(rs) == 1 and always(a, [rs[0].instr], exc=False) is None
        if not c.ob("handler", con, ok, f.where, "the logging handler is not installed exactly once"):
            continue
        r = rs[0]
        root = lambda t: is_call(name="getLogger")(t) and (not call_args(t) or isconst(call_args(t)[0], None)) or t.op == "attr" and t.args[1] == "root" or t.op == "glob" and t.args[0] == "logging.root"
        c.ob("handler", con + " root logger", all_are(a, r.t["recv"], root), r.where, "the handler is added to %s" % r.t["recv"])
        okh = r.args and all_are(a, r.args[0], lambda t: is_made(H)(t) and all_are(a, kwof(t).get("logger_provider", call_args(t)[1] if len(call_args(t)) > 1 else None), is_made(LP)))
        c.ob("handler", con + " provider", bool(okh), r.where, "the handler does not log to the provider made")
        for l in a.leaves(r.args[0]) if r.args else ():
            lv = kwof(l).get("level", call_args(l)[0] if l.op in ("obj", "call") and call_args(l) else None)
            c.ob("handler", con + " level", lv is None or all_are(a, lv, lambda t: isconst(t, 0) or t.op == "glob" and t.args[0] == "logging.NOTSET"), r.where, "the handler drops records below %s" % lv)
