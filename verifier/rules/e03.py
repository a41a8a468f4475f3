"""E03: OTLP logs carry every field of the record."""
from .ox import *

NOTE = "Field provenance of the wire record built by encode_logs with every optional field present and, field by field, absent: no use of an absent field as if it were there and no other field changed by its absence; grouping keys and exactly-once coverage; extraction of the severity table."

LR = PB + "logs.v1.logs_pb2."
REQ = PB + "collector.logs.v1.logs_service_pb2.ExportLogsServiceRequest"
ENTRY = O.rpartition("._")[0] + "._log_encoder.encode_logs"
SEVERITY = ["UNSPECIFIED"] + [n + i for n in ("TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL") for i in ("", "2", "3", "4")]
OPTIONAL = ("span_id", "trace_id", "trace_flags", "severity_number", "severity_text", "body", "attributes", "timestamp", "observed_timestamp")


def run(c):
    f = c.prog.func(ENTRY)
    R = Roles(c)
    LD = elem_of(is_param(f.params()[0][0]))
    RE = chain(LD, "log_record")
    check(c, f, R, LD, RE, None)
    for n in OPTIONAL + ("scope",):
        check(c, f, R, LD, RE, n)
    body_null(c, f, R, RE)
    severity(c, f, R, RE, LD)
    c.floor("record", 11)
    c.floor("absent", 9)


def present(LD, RE):
    return o_present(lambda t: t.op == "keyof" and t.args[0].op == "elem", chain(LD, "instrumentation_scope"), *[chain(RE, n) for n in OPTIONAL])


def policy(R):
    return R.policy(noraise=R.values)


def field_preds(a, R, RE):
    g = lambda n: chain(RE, n)
    return {
        "time_unix_nano": ("timestamp", g("timestamp")),
        "observed_time_unix_nano": ("observed_timestamp", g("observed_timestamp")),
        "span_id": ("span_id", ident(8, g("span_id"))),
        "trace_id": ("trace_id", ident(16, g("trace_id"))),
        "flags": ("trace_flags", either(g("trace_flags"), lambda t: is_call(fqn="builtins.int")(t) and all_leaves(a, call_args(t)[0], g("trace_flags")))),
        "body": ("body", lambda t: R.is_value(g("body"))(a, t)),
        "severity_text": ("severity_text", g("severity_text")),
        "severity_number": ("severity_number", either(chain(g("severity_number"), "value"), lambda t: t.op in ("item", "call") and mentions(t, g("severity_number")))),
        "attributes": ("attributes", attrs_of(a, R, g("attributes"))),
        "dropped_attributes_count": ("dropped", g("dropped_attributes")),
    }


def empty(a):
    return lambda t: is_const(t) and not t.args[0] or is_call(fqn="builtins.int")(t) and call_args(t) and all_leaves(a, call_args(t)[0], lambda l: is_const(l) and not l.args[0])


def check(c, f, R, LD, RE, missing):
    src = None
    o = present(LD, RE)
    scope = lambda t: t.op == "keyof" and t.args[0].op == "elem"
    if missing == "scope":
        src = either(chain(LD, "instrumentation_scope"), scope)
    elif missing:
        src = chain(RE, missing)
    if src is not None:
        o = oracle(o_absent(src), o)
    a = c.an(f, None, policy=policy(R), oracle=o)
    made = a.calls(fqn=LR + "LogRecord")
    con = "without " + missing if missing else "complete"
    if not c.ob("record", con, len(made) == 1, f.where, "%d record messages are built" % len(made)):
        return
    r = made[0]
    for n, (field, pred) in field_preds(a, R, RE).items():
        if missing == field:
            pred = either(pred, empty(a), lambda t: src(t))
        if missing == field and n not in fields(a, r.dst):
            continue
        has(c, "record", con, a, r.dst, r.where, **{n: pred})
    if src is not None:
        bad = [x for x in dereferences(a, src)]
        c.ob("absent", missing, not bad, bad[0].where if bad else f.where, "%s is used although a record may lack it" % missing)
    none = lambda t: missing == "scope" and is_const(t) and t.args[0] is None
    D = grouped(c, "group", con, a, f, r, is_param(f.params()[0][0]), r.dst, chain(RE, "resource"), either(chain(LD, "instrumentation_scope"), none))
    if D is not None and missing != "scope":
        ungroup(c, "group", a, f, D, R, LR + "ScopeLogs", "log_records", LR + "ResourceLogs", "scope_logs", REQ, "resource_logs")
    elif D is not None:
        for r in a.calls(fqn=LR + "ResourceLogs"):
            lists(c, "group", con, a, r, "scope_logs", elem_of(lambda t: t is D), made_by(LR + "ScopeLogs"))


def body_null(c, f, R, RE):
    """An absent body, or an absent value inside it, is not an error."""
    a = c.an(f, None, policy=policy(R))
    for r in a.calls(fqn=tuple(R.values)):
        if r.args and any(chain(RE, "body")(l) for l in a.leaves(r.args[0])):
            fi = R.fns[r.instr.fqn]
            rest = fi.params()[0][1:] + fi.params()[2]
            vs = [v for n, x in call_kwargs(r).items() if n in rest for v in a.leaves(x)]
            c.ob("null-body", "body", not rest or bool(vs) and all(is_const(v) and v.args[0] is True for v in vs), r.where, "an absent value in the body is an error")


def severity(c, f, R, RE, LD):
    k = c.prog.cls("opentelemetry._logs.SeverityNumber")
    got = {n: (c.prog.const_expr(k.mod, e, k) or (0, None))[1] for n, e in k.attrs.items() if n.isupper() or n[:-1].isupper()}
    for i, n in enumerate(SEVERITY):
        c.ob("severity", n, got.get(n) == i, k.mod.path, "has the number %s" % got.get(n))
