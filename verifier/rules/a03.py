"""A03: a disabled SDK and no-op implementations do nothing and never fail."""
import ast

from .a02 import *

NOTE = "Conditional constant propagation of every spelling of the switch from the environment to what each provider hands out; for every no-op class, each operation of its interface: signature conformance, class of the result, no raise, no failing use of an argument, no effect; provenance of the no-op tracer's span."

S = "opentelemetry.sdk."
SDKS = (
    (S + "trace.TracerProvider", "get_tracer", T + "NoOpTracer", T + "Tracer"),
    (S + "metrics._internal.MeterProvider", "get_meter", M + "NoOpMeter", M + "Meter"),
    (S + "_logs._internal.LoggerProvider", "get_logger", L + "NoOpLogger", L + "Logger"),
)
SWITCH = "OTEL_SDK_DISABLED"
ON = ("true", "TRUE", "True", "tRuE", " true ", "true\n", "\tTrue")
OFF = (None, "", " ", "false", "False", "0", "1", "yes", "no", "on", "t", "truee", "not true", "None")
UNKNOWN = object()


def run(c):
    for p, get, noop, iface in SDKS:
        switch_of(c, p, get, noop, iface)
    noops = noop_classes(c)
    c.ob("no-op", "the no-op classes", len(noops) >= 13, "opentelemetry-api", "only %d classes" % len(noops))
    for k in noops:
        conforms(c, k, noops)
    tracer(c)
    span(c)
    stand_ins(c, noops)
    events(c)
    c.floor("switch", 3)
    c.floor("no-op", 10)


# -- the switch --------------------------------------------------------------------------
def evalt(t, spelling, fields=None):
    """The value of a term of strings and booleans, the switch being spelled
    so (None: absent); UNKNOWN when it depends on something else."""
    ev = lambda x: evalt(x, spelling, fields)
    if t.op == "const":
        return t.args[0]
    if fields and t.op == "attr" and is_self(t.args[0]) and t.args[1] in fields:
        return fields[t.args[1]]
    n = env_read(t)
    if n is not None:
        if not (n.op == "const" and n.args[0] == SWITCH):
            return UNKNOWN
        if spelling is not None:
            return spelling
        a = call_args(t) if callee_of(t) is not None else []
        return ev(a[1]) if len(a) > 1 else None
    if t.op == "in" and is_environ(t.args[1]):
        return spelling is not None if ev(t.args[0]) == SWITCH else UNKNOWN
    if t.op == "not":
        v = ev(t.args[0])
        return UNKNOWN if v is UNKNOWN else not v
    if t.op in ("isnone", "istrue"):
        v = ev(t.args[0])
        return UNKNOWN if v is UNKNOWN else (v is None) if t.op == "isnone" else bool(v)
    if t.op in ("eq", "is"):
        x, y = ev(t.args[0]), ev(t.args[1])
        return UNKNOWN if UNKNOWN in (x, y) else x == y
    if t.op in ("tup", "tuple", "list", "set"):
        xs = [ev(x) for x in t.args if isinstance(x, Term)]
        return UNKNOWN if UNKNOWN in xs else xs
    if t.op == "in":
        x, y = ev(t.args[0]), ev(t.args[1])
        if UNKNOWN in (x, y):
            return UNKNOWN
        try:
            return x in y
        except TypeError:
            return UNKNOWN
    ca = callee_of(t)
    if ca is not None and ca.op == "attr" and ca.args[1] in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase", "startswith", "endswith", "replace"):
        b, xs = ev(ca.args[0]), [ev(x) for x in call_args(t)]
        if not isinstance(b, str) or UNKNOWN in xs:
            return UNKNOWN
        try:
            return getattr(b, ca.args[1])(*xs)
        except (TypeError, ValueError):
            return UNKNOWN
    if ca is not None and ca.op == "glob" and ca.args[0] in ("builtins.str", "builtins.bool") and len(call_args(t)) == 1:
        v = ev(call_args(t)[0])
        return UNKNOWN if v is UNKNOWN else {"str": str, "bool": bool}[ca.args[0][9:]](v)
    return UNKNOWN


def o_eval(spelling, fields=None):
    def f(a, t, st):
        v = evalt(t, spelling, fields)
        return None if v is UNKNOWN else bool(v)
    return f


def switch_of(c, p, get, noop, iface):
    k = c.prog.cls(p)
    con = k.name + "." + get
    m = c.method(k, get)
    nk, ik = c.prog.cls(noop), c.prog.cls(iface)
    name = m.params()[0][1]
    named = oracle(o_truth(is_param(name), True), o_isnone(is_param(name), False))
    for s in ON + OFF:
        ini = c.am(k, "__init__", oracle=o_eval(s))
        fields = {}
        for r in self_stores(ini):
            vs = [evalt(l, s) for l in ini.leaves(r.t["val"])]
            if vs and not any(v is UNKNOWN for v in vs) and len({repr(v) for v in vs}) == 1 and r.instr.name not in ("_shutdown",):
                fields.setdefault(r.instr.name, set()).add(repr(vs[0]))
                fields[r.instr.name + "\0"] = vs[0]
        fl = {n: fields[n + "\0"] for n in fields if not n.endswith("\0") and len(fields[n]) == 1 and only_in_init(c, k, n)}
        a = c.an(m, k, oracle=oracle(o_eval(s, fl), named))
        ls = results(a)
        ks = [class_of(c, l) for l in ls]
        isno = [x is not None and nk in c.prog.mro(x) for x in ks]
        if s in ON:
            c.ob("switch", con, bool(ls) and all(isno), m.where, "with %s=%r it hands out %s, which is not a no-op" % (SWITCH, s, next((str(l)[:60] for l, o in zip(ls, isno) if not o), "nothing")))
            c.ob("switch", con, not reached_raise(a), m.where, "with %s=%r it raises" % (SWITCH, s))
        else:
            c.ob("switch", con, bool(ls) and not all(isno), m.where, "with %s=%r it hands out a no-op, although the SDK is not disabled" % (SWITCH, s))


def only_in_init(c, k, n):
    return not any(m.name != "__init__" and any(r.instr.name == n for r in self_stores(c.an(m, k))) for b in c.prog.mro(k) for m in b.methods.values())


# -- the no-op classes ---------------------------------------------------------------------
def noop_classes(c):
    out = []
    for k in c.prog.classes.values():
        if k.mod.name.startswith("opentelemetry.") and not k.mod.name.startswith("opentelemetry.sdk") and (k.name.startswith("NoOp") or k.fqn == "opentelemetry.trace.span.NonRecordingSpan"):
            out.append(k)
    return sorted(out, key=lambda k: k.fqn)


def still_abstract(c, k):
    seen, out = set(), []
    for b in c.prog.mro(k):
        for n, m in b.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if any(d.endswith(("abstractmethod", "abstractproperty")) for d in decos(m)):
                out.append(n)
    return out


def interfaces(c, k):
    return [b for b in c.prog.mro(k)[1:] if not b.name.startswith("NoOp")]


RESULT = {"get_tracer": T + "Tracer", "get_meter": M + "Meter", "get_logger": L + "Logger", "get_event_logger": E + "EventLogger"}


def conforms(c, k, noops):
    con = k.name
    ab = still_abstract(c, k)
    c.ob("no-op", con, not ab, k.mod.name, "it cannot be made: %s is not implemented" % ", ".join(ab))
    mods = sorted({n.mod.name for n in noops} | {b.mod.name for n in noops for b in c.prog.mro(n)} | {"opentelemetry.trace", "opentelemetry.trace.propagation"})
    ops = []
    for b in interfaces(c, k):
        for o in operations(c, b):
            if o not in ops:
                ops.append(o)
    ini = c.prog.find_method(k, "__init__")
    for o in ops + (["__init__"] if ini is not None else []) + ["__enter__", "__exit__", "is_recording", "get_span_context"]:
        m = c.prog.find_method(k, o)
        if m is None or o in ("is_recording", "get_span_context") and o in ops:
            continue
        oc = con + "." + o
        im = next((b.methods[o] for b in interfaces(c, k) if o in b.methods), None)
        if im is not None and im is not m:
            if o != "__init__":
                same_params(c, "no-op", oc, m, im)
            req = required(m) - required(im)
            c.ob("no-op", oc, not req, m.where, "%s must be given, unlike the interface says" % ", ".join(sorted(req)))
        harmless(c, oc, k, m, noops, mods)
        kind = RESULT.get(o)
        if o.startswith("create_"):
            kind = I + "".join(w.title() for w in o[7:].split("_"))
        if kind:
            a = c.an(m, k, policy=Policy(mods=(k.mod.name,)))
            ks = [class_of(c, l) for l in results(a)]
            ok = bool(ks) and all(x in noops and c.prog.cls(kind) in c.prog.mro(x) for x in ks)
            c.ob("result", oc, ok, m.where, "it does not return a no-op %s" % kind.rsplit(".", 1)[-1])


def required(m):
    ps, va, ko, kw = m.params()
    return {canon(n) for n in ps[1:] + ko} - {canon(n) for n in m.defaults()}


STR = ("strip", "lower", "upper", "casefold", "title")


def harmless(c, oc, k, m, noops, mods):
    """Nothing in the operation can fail on what the interface allows its
    arguments to be, and it changes nothing but the no-op object."""
    a = c.an(m, k, policy=Policy(mods=tuple(mods)))
    tracing = k.fqn in (T + "NoOpTracer",)
    own = set(m.params()[0][1:]) | set(m.params()[2])
    isarg = lambda l: l.op == "param" and l.args[0] in own or l.op in ("attr", "elem", "item") and root(l).op == "param" and root(l).args[0] in own
    strs = {n for n in own if "str" in ann(m, n) and "Optional" not in ann(m, n)}
    bad = []
    for r in a.recs:
        i = r.instr
        if i.kind == "raise" and reachable(a, i) and i.name != "reraise" and not (tracing and i.frame is not a.b.frames[0]):
            bad.append((r, "it raises"))
        elif i.kind == "loop" and any(isarg(l) for l in a.leaves(r.t["iter"])):
            bad.append((r, "it iterates over an argument"))
        elif i.kind == "item" and any(isarg(l) for l in a.leaves(r.t["base"])):
            bad.append((r, "it looks into an argument"))
        elif i.kind == "call" and not tracing:
            rc = r.t.get("recv")
            ca = callee_of(r.dst) if r.dst is not None else None
            if rc is not None and any(isarg(l) for l in a.leaves(rc)) and not (i.name in STR and all(l.op != "param" or l.args[0] in strs or l.args[0] == "name" for l in a.leaves(rc))):
                bad.append((r, "it calls %s of an argument" % i.name))
            elif rc is None and ca is not None and any(isarg(l) for l in a.leaves(ca)):
                bad.append((r, "it calls an argument"))
            elif i.fqn in c.prog.classes:
                x = c.prog.classes[i.fqn]
                if x in noops or x.name.startswith("NoOp"):
                    w = fits(c, a, r.dst, x)
                    if w:
                        bad.append((r, w))
        elif i.kind in ("store_glob",) or i.kind in ("store_attr", "store_item", "del_attr", "del_item") and any(isarg(l) for l in a.leaves(r.t["base"])):
            bad.append((r, "it changes something"))
        elif i.kind == "op" and r.dst is not None and r.dst.op in ("bin", "lt") and any(any(isarg(l) for l in a.leaves(x)) for x in r.dst.args if isinstance(x, Term)):
            bad.append((r, "it compares or computes with an argument"))
        elif i.kind == "branch" and any(x.op == "lt" and any(any(isarg(l) for l in a.leaves(y)) for y in x.args) for x in subterms(r.t["cond"])):
            bad.append((r, "it compares an argument"))
    c.ob("harmless", oc, not bad, bad[0][0].where if bad else m.where, bad[0][1] if bad else "")


def fits(c, a, l, x):
    """The constructor call of a no-op class fits its parameters."""
    if l is None:
        return None
    i = c.prog.find_method(x, "__init__")
    if i is None:
        return None
    got = bound(c, a, l, x, "__init__")
    if got is None:
        return "%s is not made with the arguments it takes" % x.name
    miss = required(i) - set(got)
    return "%s is made without %s" % (x.name, ", ".join(sorted(miss))) if miss and not ({"*", "**"} & set(got)) else None


def ann(m, n):
    e = m.annotations().get(n)
    return ast.unparse(e) if e is not None else ""


# -- the no-op tracer ------------------------------------------------------------------------
CUR = ("opentelemetry.trace.propagation.get_current_span", "opentelemetry.trace.get_current_span")
NR = "opentelemetry.trace.span.NonRecordingSpan"


def tracer(c):
    k = c.prog.cls(T + "NoOpTracer")
    for op in ("start_span", "start_as_current_span"):
        m = c.method(k, op)
        con = "NoOpTracer." + op
        cx = "context"
        P = Policy(mods=(k.mod.name,), deny=CUR)
        cur = lambda a: (lambda t: glob_call(t, *CUR) and bool(ctx_arg(t)) and all_are(a, ctx_arg(t), is_param(cx)))
        for rec in (False, True):
            a = c.an(m, k, policy=P, oracle=o_isinst(lambda t: glob_call(t, *CUR), not rec))
            f = cur(a)

            def passes_on(l):
                if l.op == "obj" and l.args[1] == NR or glob_call(l, NR):
                    xs = list(l.args[2]) + [v for n, v in l.args[3]] if l.op == "obj" else list(call_args(l)) + kwv(l)
                    return len(xs) == 1 and all_are(a, xs[0], lambda q: is_call(name="get_span_context")(q) and all_are(a, callee_of(q).args[0], f) if callee_of(q) is not None and callee_of(q).op == "attr" else False)
                return not rec and f(l)
            if m.is_gen():
                ys = a.events("yield")
                vs = [(y, y.t["val"]) for y in ys]
                c.ob("parent", con, bool(ys) and not always(a, ys, exc=False), m.where, "a path hands out no span")
            else:
                vs = [(r, r.t["val"]) for r in a.rets()]
            for r, v in vs:
                ls = [l.args[0] if l.op == "entered" else l for l in a.leaves(v)]
                ls = [y for l in ls for y in a.leaves(used(l))]
                c.ob("parent", con, bool(ls) and all(passes_on(l) for l in ls), r.where, "the span does not have the parent's span context: %s" % ", ".join(str(l) for l in ls))
                if m.is_gen():
                    at = [x for x in a.calls(name=("attach",)) if a.dominated(r.instr, [x.instr])] + [x for x in a.events("with_enter") if a.dominated(r.instr, [x.instr])]
                    c.ob("current", con, bool(at), r.where, "the span is not current inside the block")


def kwv(l):
    return [v for n, v in l.args[3]] if l.op == "call" and len(l.args) > 3 else []


def ctx_arg(t):
    xs = list(call_args(t)) + kwv(t)
    return xs[0] if len(xs) == 1 else None


def used(l):
    """The span of a use_span() manager."""
    if is_call(name="use_span")(l) and call_args(l):
        return call_args(l)[0]
    return l


def span(c):
    k = c.prog.cls(NR)
    m = c.method(k, "is_recording")
    a = c.an(m, k)
    c.ob("not-recording", "NonRecordingSpan", bool(results(a)) and all(isconst(l, False) for l in results(a)), m.where, "it says that it records")
    m = c.method(k, "get_span_context")
    a = c.an(m, k)
    gf = given_fields(c, k)
    f = {n for s in gf.values() for n in s}
    c.ob("parent", "NonRecordingSpan", bool(f) and bool(results(a)) and all(is_field(f)(l) for l in results(a)), m.where, "its span context is not the one it was made with")


# -- what stands in before a provider is set ----------------------------------------------------
def stand_ins(c, noops):
    for g, mod, x, prov, res in KINDS:
        if x == "meter":
            continue
        k = proxy_class(c, mod, prov)
        if not c.ob("stand-in", x, k is not None, c.prog.func(mod + "get_%s_provider" % x).where, "no proxy provider"):
            continue
        gs = global_of(c, mod, x)
        G = lambda t: t.op == "glob" and t.args[0] in gs
        unset = oracle(o_truth(G, False), o_isnone(G, True))
        a = c.an(c.method(k, "get_" + x), k, oracle=unset)
        for pk in {class_of(c, l) for l in results(a)} - {None}:
            ini = c.an(c.prog.find_method(pk, "__init__"), pk)
            for op in operations(c, c.prog.cls(mod + res)):
                m = c.prog.find_method(pk, op)
                a = c.an(m, pk, policy=Policy(mods=(pk.mod.name,)))
                R = {r.instr.name for r in self_stores(a)}
                a = c.an(m, pk, policy=Policy(mods=(pk.mod.name,)), oracle=oracle(unset, o_truth(is_field(R), False), o_isnone(is_field(R), True)))
                for r in a.calls(name=op):
                    for l in a.leaves(r.t["recv"]):
                        if l.op == "attr" and is_self(l.args[0]):
                            vs = [v for s in self_stores(ini) if s.instr.name == l.args[1] for v in ini.leaves(s.t["val"])]
                            ks = [class_of(c, v) for v in vs]
                        else:
                            ks = [class_of(c, l)]
                        c.ob("stand-in", pk.name + "." + op, bool(ks) and all(q in noops for q in ks), r.where, "before a provider is set the call does not go to a no-op %s" % res)


def events(c):
    """An event logger of a disabled SDK does nothing."""
    k = c.prog.cls(S + "_events.EventLogger")
    m = c.method(k, "emit")
    nl = lambda t: t.op == "attr" and is_self(t.args[0])
    a = c.an(m, k, oracle=o_isinst(nl, True, L + "NoOpLogger") if False else o_isinst(nl, True))
    bad = [r for r in a.calls() if r.t.get("recv") is not None and any(nl(l) for l in a.leaves(r.t["recv"])) and r.instr.name != "emit"]
    c.ob("events", "EventLogger.emit", not bad, bad[0].where if bad else m.where, "an operation a no-op logger does not have is called on it")
    at = [r for r in a.recs if r.instr.kind == "attr" and any(nl(l) for l in a.leaves(r.t["base"])) and r.instr.name not in ("emit",)]
    have = {n for b in c.prog.mro(c.prog.cls(L + "NoOpLogger")) for n in b.methods}
    at = [r for r in at if r.instr.name not in have and reachable(a, r.instr)]
    c.ob("events", "EventLogger.emit", not at, at[0].where if at else m.where, "an attribute a no-op logger does not have is read")
