"""G01: a log record carries its origin, severity and active span."""
from .mx import *
from .bx import truth_edge

NOTE = "Field provenance from the standard-library record (or event) to the log record and from there to the processors, under assumptions on the formatter, the arguments, the exception and the level; table extraction of the severity bands."

LOGS = "opentelemetry.sdk._logs._internal."
API = "opentelemetry._logs._internal."
SEV = "opentelemetry._logs.severity."
LR = LOGS + "LogRecord"
FIELDS = ("timestamp", "observed_timestamp", "trace_id", "span_id", "trace_flags", "severity_text", "severity_number", "body", "attributes")
# the attributes every logging.LogRecord has, or is given by its formatter
STANDARD = {"args", "asctime", "created", "exc_info", "exc_text", "filename", "funcName", "levelname", "levelno", "lineno", "message", "module", "msecs", "msg", "name", "pathname", "process", "processName", "relativeCreated", "stack_info", "taskName", "thread", "threadName"}


def run(c):
    bands(c)
    handler(c)
    hand_off(c)
    record(c)
    events(c)
    c.floor("severity", 60)
    c.floor("translated", 8)
    c.floor("handed-on", 3)


# -- severity --------------------------------------------------------------------------
BAND = {1: "DEBUG", 2: "INFO", 3: "WARN", 4: "ERROR", 5: "FATAL"}


def expected(n):
    if n < 10:
        return "UNSPECIFIED"
    if n > 53:
        return "FATAL4"
    k = min(n % 10, 3)
    return BAND[n // 10] + (str(k + 1) if k else "")


def bands(c):
    k = c.prog.cls(SEV + "SeverityNumber")
    want = {"UNSPECIFIED": 0}
    for i, b in enumerate(("TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL")):
        for j in range(4):
            want[b + (str(j + 1) if j else "")] = 4 * i + j + 1
    got = enum_values(k)
    c.ob("severity", k.fqn, got == want, k.mod.name, "the severity numbers are not those of the data model: %s" % sorted(set(got.items()) ^ set(want.items()))[:3])
    f = c.prog.func(SEV + "std_to_otel")
    p = f.params()[0][0]
    for n in list(range(-2, 72)) + [100, 10 ** 6]:
        a = c.an(f, None, params={p: lambda T, n=n: T.const(n)}, oracle=arith_oracle, policy=Policy(mods=(f.mod.name,)))
        ls = [l for r in a.rets() for l in a.leaves(r.t["val"])]
        ok = bool(ls) and all(l.op == "glob" and l.args[0] == SEV + "SeverityNumber." + expected(n) for l in ls)
        c.ob("severity", "%s level %d" % (f.fqn, n), ok, f.where, "the level maps to %s, not to %s" % (", ".join(str(l).rsplit(".", 1)[-1] for l in ls) or "nothing", expected(n)))


def enum_values(k):
    import ast
    out = {}
    for s in k.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                out[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    return out


def value(t, env=lambda t: None):
    """The number a term of arithmetic denotes, env giving the values of
    its unknowns; None when it is not arithmetic."""
    v = env(t)
    if v is not None:
        return v
    if t.op == "const":
        return t.args[0] if isinstance(t.args[0], (int, float)) else None
    if t.op == "bin":
        x, y = value(t.args[1], env), value(t.args[2], env)
        if x is None or y is None:
            return None
        o = t.args[0]
        try:
            return {"Mult": lambda: x * y, "Add": lambda: x + y, "Sub": lambda: x - y, "Div": lambda: x / y, "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x ** y, "LShift": lambda: x << y, "RShift": lambda: x >> y}[o]()
        except (KeyError, ArithmeticError, TypeError):
            return None
    ca = callee_of(t)
    if ca is not None and ca.op == "glob" and len(call_args(t)) >= 1:
        xs = [value(x, env) for x in call_args(t)]
        if None in xs:
            return None
        fn = {"builtins.int": int, "builtins.round": round, "builtins.float": float, "builtins.min": min, "builtins.max": max, "builtins.abs": abs, "math.floor": int}.get(ca.args[0])
        if fn is not None:
            try:
                return fn(*xs)
            except (TypeError, ValueError):
                return None
    return None


def arith_oracle(a, t, st):
    if t.op == "lt":
        x, y = value(t.args[0]), value(t.args[1])
        if x is not None and y is not None:
            return x < y
    return None


# -- the standard-library handler ------------------------------------------------------
def handler(c):
    k = c.prog.cls(LOGS + "LoggingHandler")
    m = c.method(k, "emit")
    rec = m.params()[0][1]
    P = Policy(mods=(k.mod.name,), deny=(LR, LR + ".__init__"))
    R = lambda n: lambda t: t.op == "attr" and t.args[1] == n and is_param(rec)(t.args[0])
    ini = c.am(k, "__init__")
    PV = {r.instr.name for r in self_stores(ini) if any(is_param("logger_provider")(l) for l in ini.leaves(r.t["val"]))}
    con = k.fqn
    c.ob("provider", con, bool(PV), c.method(k, "__init__").where, "the handler does not keep the provider it is given")
    given = c.an(c.method(k, "__init__"), k, oracle=oracle(o_truth(is_param("logger_provider"), True), o_isnone(is_param("logger_provider"), False)))
    for r in self_stores(given):
        if r.instr.name in PV:
            c.ob("provider", con, all_are(given, r.t["val"], is_param("logger_provider")), r.where, "the handler does not use the provider it is given")

    def logger(a, l):
        """The logger of the record's name from the handler's provider."""
        ca = callee_of(l)
        if ca is None:
            return False
        n = [x for x in call_args(l)] + kwvals(l)
        named = any(all_are(a, x, R("name")) for x in n)
        if ca.op == "glob" and ca.args[0].endswith(".get_logger"):
            return named and any(all_are(a, x, is_field(PV)) for x in n)
        return ca.op == "attr" and ca.args[1] == "get_logger" and all_are(a, ca.args[0], is_field(PV)) and named

    base = oracle(o_isinst(lambda t: is_call(name="get_logger")(t), False))

    def made_(*os):
        a = c.an(m, k, policy=P, oracle=oracle(*os, base))
        ev = [r for r in a.calls(name="emit") if r.t.get("recv") is not None and all_are(a, r.t["recv"], lambda l: logger(a, l))]
        objs = [(r, l) for r in ev for x in r.args[:1] for l in a.leaves(x)]
        return a, ev, objs

    a, ev, objs = made_()
    c.ob("emitted", con, bool(ev) and always(a, ev, exc=False) is None, m.where, "a record may not be emitted: %s" % (ev and witness(a, always(a, ev, exc=False))))
    for r in ev:
        c.ob("emitted", con, len(r.args) == 1 and all_are(a, r.args[0], is_made(LR)), r.where, "what is emitted is no log record")
    if not objs:
        return

    def field(a, objs, n, ok, why, rule="translated", tag=""):
        good = bool(objs)
        w = m.where
        for r, l in objs:
            v = field_of(c, l, LR, n)
            if v is None or not ok(a, v):
                good, w = False, r.where
                why_ = "%s (%s)" % (why, v)
        c.ob(rule, "%s %s%s" % (con, n, tag), good, w, why if good else why_)

    created = lambda t: 1700000123.25 if R("created")(t) else None
    def nanos(a, v):
        ls = list(a.leaves(v))
        return bool(ls) and all(value(l, created) is not None and abs(value(l, created) - 1700000123250000000) < 1000000 for l in ls)
    field(a, objs, "timestamp", nanos, "the record's time is not the time of the log call in nanoseconds")
    ctx = lambda a, t: is_call(name="get_span_context")(t) and callee_of(t).op == "attr" and all_are(a, callee_of(t).args[0], lambda l: is_call(name="get_current_span")(l) and not call_args(l))
    for n in ("trace_id", "span_id", "trace_flags"):
        field(a, objs, n, lambda a, v: all_are(a, v, lambda l: l.op == "attr" and l.args[1] == n and all_are(a, l.args[0], lambda x: ctx(a, x))), "the record does not carry the active span's %s" % n)
    field(a, objs, "severity_number", lambda a, v: all_are(a, v, lambda l: is_call(fqn=SEV + "std_to_otel")(l) and len(call_args(l)) == 1 and all_are(a, call_args(l)[0], R("levelno"))), "the severity number is not that of the record's level")
    logg = lambda l: all_are(a, l, lambda x: logger(a, x))
    field(a, objs, "resource", lambda a, v: all_are(a, v, lambda l: l.op == "attr" and l.args[1] == "resource" and all_are(a, l.args[0], lambda x: logger(a, x)) or l.op == "const" and l.args[0] is None), "the record does not carry the logger's resource")
    isw = lambda t: R("levelname")(t)
    warn = lambda v: o_eq(isw, "WARNING", v)
    for v, ok, tag in ((True, lambda l: l.op == "const" and l.args[0] == "WARN", " warning"), (False, R("levelname"), " other")):
        b, e, o = made_(warn(v))
        field(b, o, "severity_text", lambda a, t: all_are(a, t, ok), "the severity text is not the level's name, with WARNING as WARN", tag=tag)

    fmt = lambda t: t.op == "attr" and t.args[1] == "formatter"
    fm = lambda v: oracle(o_truth(fmt, v), o_isnone(fmt, not v))
    args = lambda v: oracle(o_truth(R("args"), v))
    st = lambda v: o_isinst(R("msg"), v)
    formatted = lambda l: is_call(name="format")(l) and len(call_args(l)) == 1 and is_param(rec)(call_args(l)[0]) and callee_of(l).op == "attr" and (callee_of(l).args[0].op == "self" or fmt(callee_of(l).args[0]))
    message = lambda l: is_call(name="getMessage")(l) and callee_of(l).op == "attr" and is_param(rec)(callee_of(l).args[0])
    for os, ok, tag in (
        ((fm(True),), formatted, " formatter"),
        ((fm(False), args(True)), message, " arguments"),
        ((fm(False), args(False), st(True)), lambda l: message(l) or R("msg")(l), " text"),
        ((fm(False), args(False), st(False)), R("msg"), " object"),
    ):
        b, e, o = made_(*os)
        field(b, o, "body", lambda a, t: all_are(a, t, ok), "the body is not the message the record formats to", tag=tag)
    attributes(c, m, con, made_, R, rec)


def kwvals(l):
    i = 3 if l.op == "call" else 2
    return [v for n, v in l.args[i]] if len(l.args) > i else []


def field_of(c, l, cls, n):
    """The value a constructed object was given for a parameter."""
    for k, v in l.args[3]:
        if k == n:
            return v
    ini = c.prog.find_method(c.prog.cls(cls), "__init__")
    if ini is None:
        return None
    names = ini.params()[0][1:]
    i = names.index(n) if n in names else -1
    return l.args[2][i] if 0 <= i < len(l.args[2]) else None


def attributes(c, m, con, made_, R, rec):
    ex = R("exc_info")
    part = lambda i: lambda t: t.op == "item" and ex(t.args[0]) and t.args[1].op == "const" and t.args[1].args[0] == i
    full = oracle(o_truth(ex, True), o_isnone(ex, False), *[oracle(o_isnone(part(i), False), o_truth(part(i), True)) for i in range(3)], o_truth(lambda t: t.op == "attr" and t.args[1] == "args" and part(1)(t.args[0]), True))
    a, ev, objs = made_(full)
    none = oracle(o_truth(ex, False), o_isnone(ex, True))
    b, _, objs0 = made_(none)
    for an, ob, tag in ((a, objs, " exception"), (b, objs0, "")):
        for r, l in ob:
            v = field_of(c, l, LR, "attributes")
            ds = [x for x in an.leaves(v)] if v is not None else []
            if not ds or any(x.op != "new" for x in ds):
                c.ob("attributes", con + tag, False, r.where, "the attributes are not collected in a mapping of their own: %s" % v)
                continue
            for d in ds:
                ents = [e for e in an.contents.get(d, ())]
                extra(c, an, con, m, d, ents, rec, tag)
                if tag:
                    exception(c, an, con, r, ents, part, ex)


def extra(c, a, con, m, d, ents, rec, tag):
    src = lambda t: is_call(fqn="builtins.vars")(t) and is_param(rec)(call_args(t)[0]) or t.op == "attr" and t.args[1] == "__dict__" and is_param(rec)(t.args[0])
    names = set(STANDARD) | {"getMessage"}
    good = None
    for k, v, i in ents:
        if k is None or k.op != "keyof" or not src(k.args[0]) or v.op not in ("elem", "item") or not src(v.args[0]):
            continue
        good = i
        # reserved names only are left out
        kept = reserved(c, a, m, k)
        c.ob("extra-attributes", con + tag, kept is not None and kept <= names, m.where, "an extra attribute of the record may be left out: %s" % ("its condition is not a set of names" if kept is None else sorted(kept - names)[:3]))
    c.ob("extra-attributes", con + tag, good is not None, m.where, "the record's extra attributes are not carried")


def reserved(c, a, m, key):
    """Names whose keys the tests of the loop exclude; None when something else
    is tested."""
    out = set()
    for lp in a.events("loop"):
        ks = [r for r in a.recs if r.instr.kind in ("store_item", "content") and r.instr.block in loop_body(a, lp)]
        if not any(r.t.get("key") is not None and r.t["key"] is key for r in ks):
            continue
        for b in loop_body(a, lp) | {lp.instr.block}:
            for e in b.succs:
                if e.label in ("T", "F") and b is not lp.instr.block:
                    t = tested(a, b)
                    if t is None:
                        continue
                    while t.op == "not":
                        t = t.args[0]
                    s = names_in(c, a, t, key)
                    if s is None:
                        return None
                    out |= s
    return out


def tested(a, b):
    for i in reversed(b.instrs):
        if i.kind == "branch":
            r = next((r for r in a.recs if r.instr is i), None)
            return r.t.get("cond") if r is not None else None
    return None


def names_in(c, a, t, key):
    if t.op == "in" and t.args[0] is key:
        return strings(c, a, t.args[1])
    if t.op == "eq" and key in t.args:
        o = [x for x in t.args[:2] if x is not key]
        return {o[0].args[0]} if o and o[0].op == "const" else None
    return None


def strings(c, a, t):
    import ast
    for l in a.leaves(t):
        n = None
        if l.op == "glob":
            n = (c.prog.display_expr(l.args[0]) or (None, None))[1]
        if n is None:
            return None
        return {x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return None


def exception(c, a, con, r, ents, part, ex):
    tb = lambda t: mentions(t, lambda x: is_call(name=("format_exception", "format_exc", "print_exception"))(x) and (mentions(x, ex)))
    want = {
        "exception.type": lambda t: t.op == "attr" and t.args[1] in ("__name__", "__qualname__") and (part(0)(t.args[0]) or t.args[0].op == "attr" and t.args[0].args[1] == "__class__" and part(1)(t.args[0].args[0])),
        "exception.message": lambda t: is_call(fqn="builtins.str")(t) and mentions(t, part(1)),
        "exception.stacktrace": tb,
    }
    for n, ok in sorted(want.items()):
        es = [(v, i) for k, v, i in ents if k is not None and k.op == "const" and k.args[0] == n]
        good = bool(es) and all(all_are(a, v, ok) for v, i in es) and a.path_avoiding(a.b.entry, [i for v, i in es], [r.instr.block]) is None
        c.ob("exception", "%s %s" % (con, n), good, r.where, "the exception's %s is not carried" % n.split(".")[1])


# -- from the logger to the processors -------------------------------------------------
def hand_off(c):
    k = c.prog.cls(LOGS + "Logger")
    ini = c.method(k, "__init__")
    i = c.an(ini, k)
    names = ini.params()[0][1:]
    F = {}
    for n in names:
        F[n] = {r.instr.name for r in self_stores(i) if all_are(i, r.t["val"], is_param(n))}
    proc = next((n for n in names if "processor" in n), None)
    scope = next((n for n in names if "scope" in n), None)
    m = c.method(k, "emit")
    p = m.params()[0][1]
    D = LOGS + "LogData"
    a = c.an(m, k, policy=Policy(mods=(k.mod.name,), deny=(D, D + ".__init__")))
    ev = [r for r in a.calls(name="emit") if r.t.get("recv") is not None and all_are(a, r.t["recv"], is_field(F.get(proc, ())))]
    c.ob("handed-on", m.fqn, bool(ev) and always(a, ev, exc=False) is None, m.where, "a record may not reach the processors")
    for r in ev:
        for l in a.leaves(r.args[0]) if r.args else ():
            ok = is_made(D)(l)
            if ok:
                v, s = field_of(c, l, D, "log_record"), field_of(c, l, D, "instrumentation_scope")
                ok = v is not None and all_are(a, v, is_param(p)) and s is not None and all_are(a, s, is_field(F.get(scope, ())))
            c.ob("handed-on", m.fqn, ok, r.where, "the processors do not get the record with the logger's scope")
    if len(ev) > 1:
        pass
    q = a.path_avoiding(ev[0].instr, [], [r.instr.block for r in ev]) if ev else None
    c.ob("handed-on", m.fqn + " once", q is None, m.where, "a record may reach the processors twice")
    g = c.prog.find_method(k, "resource")
    b = c.an(g, k)
    c.ob("handed-on", g.fqn, bool(b.rets()) and all(all_are(b, r.t["val"], is_field(F.get("resource", ()))) for r in b.rets()), g.where, "the logger does not give its resource")
    stores(c, c.prog.cls(D), ("log_record", "instrumentation_scope"))
    # the provider
    pk = c.prog.cls(LOGS + "LoggerProvider")
    gm = c.method(pk, "get_logger")
    pi = c.am(pk, "__init__")
    RS = {r.instr.name for r in self_stores(pi) if any(is_param("resource")(l) for l in pi.leaves(r.t["val"]))}
    PR = {r.instr.name for r in self_stores(pi) if any(is_param("multi_log_record_processor")(l) for l in pi.leaves(r.t["val"]))}
    SC = "opentelemetry.sdk.util.instrumentation.InstrumentationScope"
    for tag, orc in (("", o_isnone(is_param("attributes"), True)), (" attributes", oracle(o_isnone(is_param("attributes"), False), o_truth(is_param("attributes"), True)))):
        a = c.an(gm, pk, oracle=orc, policy=Policy(mods=(pk.mod.name,), deny=(k.fqn, k.fqn + ".__init__", SC, SC + ".__init__")))
        made_l = [l for l in created(a) if is_made(k.fqn)(l)]
        c.ob("provided", gm.fqn + tag, bool(made_l), gm.where, "no logger is made")
        for l in made_l:
            ok = True
            for n, pr in (("resource", is_field(RS)), (proc, is_field(PR))):
                v = field_of(c, l, k.fqn, n)
                ok = ok and v is not None and all_are(a, v, pr)
            s = field_of(c, l, k.fqn, scope)
            ss = list(a.leaves(s)) if s is not None else []
            ok = ok and bool(ss) and all(is_made(SC)(x) for x in ss)
            for x in ss if ok else ():
                for n in ("name", "version", "schema_url") + (("attributes",) if tag else ()):
                    v = field_of(c, x, SC, n)
                    ok = ok and v is not None and all_are(a, v, is_param(n))
            c.ob("provided", gm.fqn + tag, ok, gm.where, "a logger does not get the provider's resource and processors and its own scope: %s" % l)
        # a logger given out again was made for the same arguments
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                if l.op == "item" or is_call(name=("get", "setdefault"))(l):
                    key = l.args[1] if l.op == "item" else call_args(l)[0]
                    miss = [n for n in ("name", "version", "schema_url") if not any(is_param(n)(x) for y in a.leaves(key) for x in ([y] + list(y.args) if y.op == "tup" else [y]) if hasattr(x, "op"))]
                    if tag and not mentions(key, is_param("attributes")):
                        miss.append("attributes")
                    c.ob("provided", gm.fqn + " again" + tag, not miss, r.where, "loggers with a different %s share one" % ", ".join(miss))


def created(a):
    out = []
    for r in a.recs:
        for t in [r.dst] + list(r.t.values()):
            if t is None or not hasattr(t, "op"):
                continue
            for l in a.leaves(t):
                if l.op == "obj" and l not in out:
                    out.append(l)
    return out


def stores(c, k, names, rule="record-fields", allow=None):
    m = c.method(k, "__init__")
    for n in names:
        a = c.an(m, k, oracle=o_isnone(is_param(n), False))
        vs = [r for r in self_stores(a) if r.instr.name == n]
        ok = bool(vs) and always(a, vs, exc=False) is None and all(all_are(a, r.t["val"], is_param(n)) for r in vs)
        c.ob(rule, "%s.%s" % (k.fqn, n), ok, vs[0].where if vs else m.where, "the field does not hold what it was given")


def record(c):
    base = c.prog.cls(API + "LogRecord")
    stores(c, base, FIELDS)
    k = c.prog.cls(LR)
    m = c.method(k, "__init__")
    for n in FIELDS + ("resource",):
        some = (o_truth(is_param(n), True),) if n in ("attributes", "resource") else ()
        a = c.an(m, k, oracle=oracle(o_isnone(is_param(n), False), o_isinst(is_param(n), True), *some), policy=Policy(mods=(k.mod.name, base.mod.name), deny=("BoundedAttributes",)))
        vs = [r for r in self_stores(a) if r.instr.name == n]
        if n == "attributes":
            want = lambda l: is_param(n)(l) or mentions(l, is_param(n))
        else:
            want = is_param(n)
        ok = bool(vs) and always(a, vs, exc=False) is None and all(all_are(a, r.t["val"], want) for r in vs)
        c.ob("record-fields", "%s.%s" % (k.fqn, n), ok, vs[0].where if vs else m.where, "the record's %s is not what it was given" % n)


# -- events ----------------------------------------------------------------------------
def events(c):
    k = c.prog.cls("opentelemetry.sdk._events.EventLogger")
    m = c.method(k, "emit")
    p = m.params()[0][1]
    E = lambda n: lambda t: t.op == "attr" and t.args[1] == n and is_param(p)(t.args[0])
    ini = c.am(k, "__init__")
    LG = {r.instr.name for r in self_stores(ini) if any(is_call(name="get_logger")(l) for l in ini.leaves(r.t["val"]))}
    for r in ini.calls(name="get_logger"):
        got = [x for x in r.args] + list(r.kw.values())
        miss = [n for n in ("name", "version", "schema_url", "attributes") if not any(all_are(ini, x, is_param(n)) for x in got)]
        c.ob("event-logger", k.fqn, not miss, r.where, "the event logger's %s is lost" % ", ".join(miss))
    P = Policy(mods=(k.mod.name,), deny=(LR, LR + ".__init__"))
    noop = o_isinst(is_field(LG), False)
    for present in (True, False):
        a = c.an(m, k, policy=P, oracle=oracle(noop, *[oracle(o_isnone(E(n), not present), o_truth(E(n), present)) for n in ("timestamp", "trace_id", "span_id", "trace_flags", "severity_number")]))
        ev = [r for r in a.calls(name="emit") if r.t.get("recv") is not None and all_are(a, r.t["recv"], is_field(LG))]
        c.ob("event", k.fqn + (" given" if present else ""), bool(ev) and always(a, ev, exc=False) is None, m.where, "an event may not be emitted")
        cur = lambda n: lambda l: l.op == "attr" and l.args[1] == n and all_are(a, l.args[0], lambda x: is_call(name="get_span_context")(x) and mentions(x, is_call(name="get_current_span")))
        want = {"body": E("body"), "attributes": E("attributes")}
        for n in ("trace_id", "span_id", "trace_flags"):
            want[n] = E(n) if present else cur(n)
        want["timestamp"] = E("timestamp") if present else is_call(fqn="time.time_ns")
        want["severity_number"] = E("severity_number") if present else (lambda l: l.op == "glob" and l.args[0].endswith(".SeverityNumber.INFO"))
        want["resource"] = lambda l: l.op == "attr" and l.args[1] == "resource" and is_field(LG)(l.args[0]) or l.op == "const" and l.args[0] is None
        for r in ev:
            for l in a.leaves(r.args[0]) if r.args else ():
                if not is_made(LR)(l):
                    c.ob("event", k.fqn, False, r.where, "what is emitted is no log record")
                    continue
                for n, ok in sorted(want.items()):
                    v = field_of(c, l, LR, n)
                    c.ob("event", "%s %s%s" % (k.fqn, n, " given" if present else ""), v is not None and all_are(a, v, ok), r.where, "the event's %s does not reach the record: %s" % (n, v))
    # flags that say "not sampled" are flags all the same
    a = c.an(m, k, policy=P, oracle=oracle(noop, o_isnone(E("trace_flags"), False), o_truth(E("trace_flags"), False)))
    for r in a.calls(name="emit"):
        for l in a.leaves(r.args[0]) if r.args else ():
            if is_made(LR)(l):
                v = field_of(c, l, LR, "trace_flags")
                c.ob("event", k.fqn + " trace_flags zero", v is not None and all_are(a, v, E("trace_flags")), r.where, "flags given as not sampled are replaced by the active span's")
    # the API's event keeps what it is given
    ek = c.prog.cls("opentelemetry._events.Event")
    em = c.method(ek, "__init__")
    for n in ("timestamp", "trace_id", "span_id", "trace_flags", "body", "severity_number"):
        a = c.an(em, ek, oracle=oracle(o_isnone(is_param(n), False)), policy=Policy(mods=(ek.mod.name, base_mod(c))))
        vs = [r for r in self_stores(a) if r.instr.name == n]
        c.ob("event", "%s.%s" % (ek.fqn, n), bool(vs) and all(all_are(a, r.t["val"], is_param(n)) for r in vs), em.where, "the event does not keep its %s" % n)


def base_mod(c):
    return c.prog.cls(API + "LogRecord").mod.name
