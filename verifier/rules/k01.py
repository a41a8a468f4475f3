"""K01: invalid or missing settings fall back to documented defaults."""
from .mx import *
from .k02 import kwof, call_args
from .k03 import values, known_env, trace, loaded, M, TP
from .t05 import TABLE
from ..flow import isconst

NOTE = "Constant propagation of the settings through each constructor, once per assumed content of the environment (absent, valid, unreadable, out of range) and presence of the argument; a conversion of a known text takes exactly the edge it takes, so the stored value, the handler reached and the logging of it are decided for each world."

BSP = "opentelemetry.sdk.trace.export.BatchSpanProcessor"
BLP = "opentelemetry.sdk._logs._internal.export.BatchLogRecordProcessor"
PER = "opentelemetry.sdk.metrics._internal.export.PeriodicExportingMetricReader"
MP = "opentelemetry.sdk.metrics._internal.MeterProvider"
SAMP = "opentelemetry.sdk.trace.sampling."
EXEM = "opentelemetry.sdk.metrics._internal.exemplar.exemplar_filter."


def slots():
    out = []
    for k, x in ((BSP, "BSP"), (BLP, "BLRP")):
        out += [(k, "max_queue_size", "OTEL_%s_MAX_QUEUE_SIZE" % x, 2048, 4096), (k, "schedule_delay_millis", "OTEL_%s_SCHEDULE_DELAY" % x, 5000, 7), (k, "max_export_batch_size", "OTEL_%s_MAX_EXPORT_BATCH_SIZE" % x, 512, 7), (k, "export_timeout_millis", "OTEL_%s_EXPORT_TIMEOUT" % x, 30000, 7)]
    out += [(PER, "export_interval_millis", "OTEL_METRIC_EXPORT_INTERVAL", 60000, 7), (PER, "export_timeout_millis", "OTEL_METRIC_EXPORT_TIMEOUT", 30000, 7)]
    return out


def run(c):
    numbers(c)
    limits(c)
    sampler(c)
    configured_sampler(c)
    factories(c)
    exemplars(c)
    context(c)
    for r, n in (("setting", 50), ("limit", 50), ("sampler", 20), ("exemplars", 5), ("context", 3)):
        c.floor(r, n)


def none(T):
    return T.const(None)


def is_num(t, v):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool) and t.args[0] == v


def converts(r):
    return r.instr.kind == "call" and r.instr.fqn in ("builtins.int", "builtins.float")


def unhandled(a):
    """A conversion whose failure leaves the function."""
    return [r.where for i, x in a.escaping("E") for r in (i.rec,) if r is not None and converts(r)]


def silent(a):
    """A path to a normal exit on which nothing is logged."""
    return always(a, logger_calls(a), exc=False)


def stored(a, names):
    out = []
    for r in a.events("store_attr"):
        if is_self(r.t["base"]) and r.instr.name in names:
            out.append((r, a.leaves(r.t["val"])))
    return out


# -- numbers -----------------------------------------------------------------------------------
def numbers(c):
    allp = {}
    for s in slots():
        allp.setdefault(s[0], []).append(s)
    for k, ss in allp.items():
        kc = c.prog.cls(k)
        m = c.method(kc, "__init__")
        pol = Policy(mods=(kc.mod.name,), deny=("_ticker", "worker"))
        P = [s[1] for s in ss]
        given = c.an(m, kc, policy=pol, oracle=oracle(*[o_isnone(is_param(p), False) for p in P], *[o_truth(is_param(p), True) for p in P]), subst=values({s[2]: "3" for s in ss}), )
        for _, p, env, dflt, ok in ss:
            names = {r.instr.name for r in given.events("store_attr") if is_self(r.t["base"]) and any(is_param(p)(l) for l in given.leaves(r.t["val"]))}
            con = "%s.%s" % (k.rpartition(".")[2], p)
            st = stored(given, names)
            c.ob("setting", con + " given", bool(st) and all(is_param(p)(l) for r, ls in st for l in ls), m.where, "an argument does not win over %s" % env)
            if not st:
                continue
            for v, want in ((None, dflt), (str(ok), ok), (" %d " % ok, ok), ("abc", dflt), ("", dflt)):
                e = {s[2]: None for s in ss}
                e[env] = v
                a = c.an(m, kc, policy=pol, params={x: none for x in P}, subst=values(e), oracle=known_env(e))
                w = "%s, %s=%r" % (con, env, v)
                esc = unhandled(a)
                c.ob("setting", w, not esc, (esc or [m.where])[0], "the constructor fails on the value of %s" % env)
                st = stored(a, names)
                got = [l for r, ls in st for l in ls]
                bad = [l for l in got if not is_num(l, want)]
                c.ob("setting", w, bool(got) and not bad and always(a, [r for r, ls in st], exc=False) is None, st[0][0].where if st else m.where, "the setting is %s, not %s" % ((bad or ["not stored"])[0], want))
                if v is not None and want == dflt:
                    c.ob("setting", w, silent(a) is None, m.where, "the value of %s is ignored without a word" % env)


# -- limits ---------------------------------------------------------------------------------------
def limits(c):
    for k, tab in TABLE.items():
        kc = c.prog.cls(k)
        m = c.method(kc, "__init__")
        P = list(tab)
        envs = [v[0] for v in tab.values()]

        def unset(a, t, st):
            if t.op == "eq":
                for x, y in (t.args, t.args[::-1]):
                    if x.op == "const" and (is_attr("UNSET")(y) or y.op == "glob" and y.args[0].endswith(".UNSET")):
                        return x.args[0] == -1 and isinstance(x.args[0], int)
                    if x.op == "param" and (isconst(y, -1) or is_attr("UNSET")(y) or y.op == "glob" and y.args[0].endswith(".UNSET")):
                        return False
            if t.op == "lt" and t.args[0].op == "param" and isconst(t.args[1], 0):
                return False
            return None

        for p, (env, d) in tab.items():
            gp, ge, gd = d if isinstance(d, tuple) else (None, None, d)
            con = "%s.%s" % (k.rpartition(".")[2], p)
            # (own argument, own variable, general argument, general variable, expected)
            worlds = [("given", "3", None, None, "param"), (-1, "3", None, None, None), (None, "7", None, None, 7), (None, " 0 ", None, None, 0), (None, "", None, None, None), (None, None, None, None, gd),
                      (None, "abc", None, None, ValueError), (None, "-3", None, None, ValueError), (None, "1.5", None, None, ValueError), (-5, None, None, None, ValueError)]
            if gp:
                worlds += [(None, None, "given", "9", "general"), (None, None, None, "9", 9), (None, "7", None, "9", 7), ("given", None, "given", "9", "param"), (None, "7", "given", None, 7)]
                if p != "max_span_attribute_length":
                    worlds += [(None, None, -1, None, gd)]
            if p == "max_attributes":
                # no general limit: the specific ones have defaults of their own
                worlds = [(a1, e1, g1, e2, 128 if w is None else w) for a1, e1, g1, e2, w in worlds]
            for own, e1, g, e2, want in worlds:
                env_ = {x: None for x in envs}
                env_[env] = e1
                prm = {x: none for x in P}
                if gp:
                    env_[ge] = e2
                    prm[gp] = (lambda T, g=g: T.const(g))
                prm[p] = (lambda T, own=own: T.const(own))
                giv = [p] if own == "given" else []
                if g == "given":
                    giv.append(gp)
                for x in giv:
                    del prm[x]
                a = c.an(m, kc, params=prm, subst=values(env_), oracle=oracle(unset, known_env(env_), *[o_isnone(is_param(x), False) for x in giv]))
                st = stored(a, {p})
                w = "%s=%s, %s=%r%s" % (con, own, env, e1, ", general %s/%r" % (g, e2) if gp and (g or e2) else "")
                if want is ValueError:
                    c.ob("limit", w, not a.rets() and not exits(a, True, False), m.where, "a limit that is no non-negative integer is accepted")
                    continue
                got = [l for r, ls in st for l in ls]
                if want == "param":
                    good = lambda l: is_param(p)(l)
                elif want == "general":
                    good = lambda l: is_param(gp)(l)
                elif want is None:
                    good = lambda l: isconst(l, None)
                else:
                    good = lambda l: is_num(l, want)
                bad = [l for l in got if not good(l)]
                c.ob("limit", w, bool(got) and not bad and bool(exits(a, True, False)), st[0][0].where if st else m.where, "the limit is %s, not %s" % ((bad or ["not set"])[0], want))


# -- sampler --------------------------------------------------------------------------------------------
NAMES = {"always_on": "ALWAYS_ON", "always_off": "ALWAYS_OFF", "parentbased_always_on": "DEFAULT_ON", "parentbased_always_off": "DEFAULT_OFF"}
RATIO = {"traceidratio": "TraceIdRatioBased", "parentbased_traceidratio": "ParentBasedTraceIdRatio"}
MEANS = {"ALWAYS_ON": ("StaticSampler", "RECORD_AND_SAMPLE"), "ALWAYS_OFF": ("StaticSampler", "DROP"), "DEFAULT_ON": ("ParentBased", "ALWAYS_ON"), "DEFAULT_OFF": ("ParentBased", "ALWAYS_OFF")}
E1, E2 = "OTEL_TRACES_SAMPLER", "OTEL_TRACES_SAMPLER_ARG"
RATES = (("0.25", 0.25), ("0", 0.0), ("1", 1.0), (None, 1.0), ("abc", 1.0), ("2.0", 1.0), ("-0.5", 1.0))


def sampler(c):
    kc = c.prog.cls(TP)
    m = c.method(kc, "__init__")
    pol = Policy(mods=(kc.mod.name, SAMP[:-1]), deny=("SpanLimits",))
    a = c.an(m, kc, policy=pol, oracle=oracle(o_isnone(is_param("sampler"), False), o_truth(is_param("sampler"), True)))
    names = {r.instr.name for r in a.events("store_attr") if is_self(r.t["base"]) and any(is_param("sampler")(l) for l in a.leaves(r.t["val"]))}
    st = stored(a, names)
    c.ob("sampler", "given", bool(st) and all(is_param("sampler")(l) for r, ls in st for l in ls), m.where, "the sampler given is not the one used")

    def world(n, arg):
        e = {E1: n, E2: arg}
        a = c.an(m, kc, policy=pol, params={"sampler": none}, subst=values(e), oracle=known_env(e))
        st = stored(a, names)
        w = "%s=%r %s=%r" % (E1, n, E2, arg)
        esc = unhandled(a)
        c.ob("sampler", w, not esc and bool(exits(a, True, False)), (esc or [m.where])[0], "the provider fails on the sampler setting")
        return a, st, [l for r, ls in st for l in ls], w
    for n, g, quiet in [(None, "DEFAULT_ON", True), ("bogus", "DEFAULT_ON", False)] + [(x, y, True) for x, y in NAMES.items()] + [("ALWAYS_OFF", "ALWAYS_OFF", True), ("Always_On", "ALWAYS_ON", True)]:
        a, st, got, w = world(n, None)
        bad = [l for l in got if not (l.op == "glob" and l.args[0] == SAMP + g)]
        c.ob("sampler", w, bool(got) and not bad, st[0][0].where if st else m.where, "the sampler is %s, not %s" % ((bad or ["none"])[0], g))
        if not quiet:
            c.ob("sampler", w, silent(a) is None, m.where, "an unknown sampler is replaced without a word")
    for n, cls in RATIO.items():
        for arg, want in RATES:
            a, st, got, w = world(n, arg)
            bad = [l for l in got if not (made_class(l) == SAMP + cls and [1 for x in call_args(l)[:1] or list(kwof(l).values())[:1] if is_num(x, want)])]
            c.ob("sampler", w, bool(got) and not bad, st[0][0].where if st else m.where, "the sampler is %s, not %s(%s)" % ((bad or ["none"])[0], cls, want))
            if want == 1.0 and arg != "1":
                c.ob("sampler", w, silent(a) is None, m.where, "a ratio that is no ratio is replaced without a word")
    # what the named samplers are
    mod = c.prog.modules[SAMP[:-1]]
    for g, (cls, x) in MEANS.items():
        es = mod.globals.get(g) or []
        t = a.expr_term(mod, es[0]) if len(es) == 1 else None
        args = call_args(t) or list(kwof(t).values()) if t is not None and t.op in ("obj", "call", "pure") else []
        of = made_class(t) if t is not None else None
        c.ob("sampler", g, of == SAMP + cls and len(args) == 1 and args[0].op == "glob" and args[0].args[0].rpartition(".")[2] == x, mod.path, "%s is %s" % (g, t))


def made_class(t):
    """Qualified name of the class an object is made from."""
    if t.op == "obj":
        return t.args[1]
    k = callee_of(t)
    return k.args[0] if k is not None and k.op in ("glob", "cls") and isinstance(k.args[0], str) else None


GROUP = "opentelemetry_traces_sampler"


def configured_sampler(c):
    f = c.prog.func(M + "._initialize_components")
    pol = Policy(mods=(M,), deny=("_init_metrics", "_init_logging", "_import_exporters"))

    def world(n, arg, orc=()):
        e = {E1: n, E2: arg}
        a = c.an(f, None, policy=pol, params={"sampler": none}, subst=values(e), oracle=oracle(known_env(e), *orc))
        out = []
        for r in made(a, TP):
            v = kwof(r.dst).get("sampler")
            if v is None:
                v = argof(c.prog, r, TP, "sampler")
            out += a.leaves(v) if v is not None else []
        return a, out, "auto-configured %s=%r %s=%r" % (E1, n, E2, arg)

    def fact(a, l):
        if l.op != "call":
            return None
        for s, via in trace(a, l.args[1]):
            g = loaded(a, s)
            if g is not None and isconst(g[0], GROUP):
                return g
        return None
    for n, arg, want in [(x, y, z) for x in ("traceidratio", " parentbased_traceidratio ") for y, z in RATES if y not in ("2.0", "-0.5")] + [("custom", "a=b", "a=b"), ("custom", None, None)]:
        a, ls, w = world(n, arg)
        calls = [l for l in ls if fact(a, l)]
        ok = bool(calls)
        for l in calls:
            xs = [y for x in call_args(l)[:1] for y in a.leaves(x)]
            ok = ok and len(xs) == 1 and (is_num(xs[0], want) if isinstance(want, float) else isconst(xs[0], want) or want is None and env_read(xs[0]) is not None)
            ns = [y for x in a.leaves(fact(a, l)[1]) for y, via in trace(a, x)]
            ok = ok and bool(ns) and all(isconst(y, n.strip()) for y in ns)
        rest = [l for l in ls if not fact(a, l) and not isconst(l, None)]
        c.ob("sampler", w, ok and not rest, f.where, "the sampler is %s" % [str(x)[:80] for x in (rest or ls)][:2])
        # whatever goes wrong on the way leaves the default
        bad = []
        for i, x in a.escaping("E"):
            r = i.rec
            if r is None:
                continue
            t = r.dst
            if converts(r) or t is not None and (fact(a, t) is not None or loaded(a, t) is not None and isconst(loaded(a, t)[0], GROUP)):
                bad.append(r.where)
        c.ob("sampler", w + " fails", not bad and any(isconst(l, None) for l in ls), (bad or [f.where])[0], "a sampler that cannot be made is not replaced by the default")
    a, ls, w = world("custom", None, (lambda a, t, st: False if t.op == "isinst" and t.args[1].op == "glob" and t.args[1].args[0].endswith(".Sampler") else None,))
    c.ob("sampler", w + " is none", bool(ls) and all(isconst(l, None) for l in ls), f.where, "something that is no sampler is handed to the provider")


def factories(c):
    """The entry points of the named samplers."""
    for n, (cls, attr, want) in {"_AlwaysOn": ("StaticSampler", "decision", "RECORD_AND_SAMPLE"), "_AlwaysOff": ("StaticSampler", "decision", "DROP"), "_ParentBasedAlwaysOn": ("ParentBased", "root", "ALWAYS_ON"), "_ParentBasedAlwaysOff": ("ParentBased", "root", "ALWAYS_OFF"), "ParentBasedTraceIdRatio": ("ParentBased", "root", "TraceIdRatioBased")}.items():
        k = c.prog.cls(SAMP + n)
        if k is None:
            continue
        base = c.prog.cls(SAMP + cls)
        a0 = c.am(base, "__init__")
        names = field_of_param(a0, attr)
        names = {names} if isinstance(names, str) else set(names or ())
        m = c.method(k, "__init__")
        a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
        st = stored(a, names)
        ls = [l for r, x in st for l in x]
        if n == "ParentBasedTraceIdRatio":
            p = [x for x in m.params()[0] if x != "self"][0]
            good = lambda l: made_class(l) == SAMP + want and [x for x in call_args(l)[:1] or list(kwof(l).values())[:1] if is_param(p)(x)]
        else:
            good = lambda l: l.op == "glob" and l.args[0].rpartition(".")[2] == want
        c.ob("sampler", n, bool(ls) and all(good(l) for l in ls) and c.prog.is_sub(k, base) if hasattr(c.prog, "is_sub") else bool(ls) and all(good(l) for l in ls), m.where, "%s is a %s of %s" % (n, cls, (ls or ["nothing"])[0]))


# -- exemplars -----------------------------------------------------------------------------------------
FILTERS = {"trace_based": "TraceBasedExemplarFilter", "always_on": "AlwaysOnExemplarFilter", "always_off": "AlwaysOffExemplarFilter"}


def exemplars(c):
    kc = c.prog.cls(MP)
    m = c.method(kc, "__init__")
    E = "OTEL_METRICS_EXEMPLAR_FILTER"
    CFG = "opentelemetry.sdk.metrics._internal.sdk_configuration.SdkConfiguration"
    p = "exemplar_filter"
    for v in ("given", None, "bogus", "") + tuple(FILTERS):
        e = {E: None if v == "given" else v}
        orc = [o_isnone(is_param(p), False), o_truth(is_param(p), True)] if v == "given" else [known_env(e)]
        a = c.an(m, kc, policy=Policy(mods=(kc.mod.name,)), params={} if v == "given" else {p: none}, subst=values(e), oracle=oracle(*orc))
        rs = made(a, CFG)
        ls = [l for r in rs for x in (kwof(r.dst).get(p) or argof(c.prog, r, CFG, p),) if x is not None for l in a.leaves(x)]
        want = FILTERS.get(v, "TraceBasedExemplarFilter")
        good = is_param(p) if v == "given" else lambda l: (made_class(l) or "").rpartition(".")[2] == want
        bad = [l for l in ls if not good(l)]
        c.ob("exemplars", "%s=%r" % (E, v), bool(ls) and not bad and bool(exits(a, True, False)), rs[0].where if rs else m.where, "the exemplar filter is %s, not %s" % ((bad or ["none"])[0], want))
        if v == "bogus":
            c.ob("exemplars", "%s=%r" % (E, v), silent(a) is None, m.where, "an unknown filter is replaced without a word")
    # the configured filter decides for every measurement
    k = c.prog.cls("opentelemetry.sdk.metrics._internal.measurement_consumer.SynchronousMeasurementConsumer")
    f = c.method(k, "consume_measurement")
    a = c.am(k, "consume_measurement")
    asks = [r for r in a.calls(name="should_sample")]
    ok = bool(asks) and all(r.t["recv"] is not None and is_attr(p)(r.t["recv"]) for r in asks)
    c.ob("exemplars", "asked", ok, f.where, "the configured exemplar filter is not asked")
    outs = [r for r in a.calls(name="consume_measurement") if r.t.get("recv") is not None]
    c.ob("exemplars", "heeded", bool(outs) and all(any(any(l is q.dst for q in asks) for x in list(r.args) + list(r.kw.values()) for l in a.leaves(x)) for r in outs), f.where, "the answer of the exemplar filter does not reach the storage")


# -- runtime context --------------------------------------------------------------------------------------
def context(c):
    f = c.prog.func("opentelemetry.context._load_runtime_context")
    E, D, G = "OTEL_PYTHON_CONTEXT", "contextvars_context", "opentelemetry_context"
    for v in (None, "custom"):
        e = {E: v}
        a = c.an(f, None, subst=values(e), oracle=known_env(e))
        got = []
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                g = loaded(a, callee_of(l)) if callee_of(l) is not None else None
                n = set()
                if g is not None and isconst(g[0], G):
                    n = {y.args[0] if y.op == "const" else None for y in a.leaves(g[1])}
                got.append(n or {None})
        names = set().union(*got) if got else set()
        want = {D} if v is None else {D, v}
        c.ob("context", "%s=%r" % (E, v), names == want, f.where, "the context loaded is %s, not %s" % (sorted(map(str, names)), sorted(want)))
        bad = []
        for i, x in a.escaping("E"):
            r = i.rec
            g = None
            for t in (r.dst, r.t.get("callee")) if r is not None else ():
                g = g or (loaded(a, t) if t is not None else None)
            if g is not None and v is not None and any(isconst(y, v) for y in a.leaves(g[1])):
                bad.append(r.where)
        c.ob("context", "%s=%r fails" % (E, v), not bad, (bad or [f.where])[0], "a context that cannot be loaded is not replaced by the default")
        if v is not None:
            firsts = [r for r in a.calls(name="entry_points") if isconst(kwof(r.dst).get("name"), v)]
            edges = [x for r in firsts for x in r.instr.block.succs if isinstance(x.label, tuple)]
            from .bx import path_from
            c.ob("context", "%s=%r logged" % (E, v), bool(firsts) and path_from(a, edges, logger_calls(a), exits(a, True, False)) is None, f.where, "the default context is taken without a word")
