"""E01: OTLP spans carry every field of the span."""
from .ox import *

NOTE = "Field provenance of every wire message built by encode_spans, with every optional part assumed present and, per part, absent; exactly-once coverage of the loops over spans, events and links; the grouping dictionary's keys and how it is read back; extraction of the kind and status tables."

TR = PB + "trace.v1.trace_pb2."
REQ = PB + "collector.trace.v1.trace_service_pb2.ExportTraceServiceRequest"
ENTRY = O.rpartition("._")[0] + ".trace_encoder.encode_spans"
KINDS = ("INTERNAL", "SERVER", "CLIENT", "PRODUCER", "CONSUMER")
STATUS = {"UNSET": 0, "OK": 1, "ERROR": 2}
HAS, IS = "SPAN_FLAGS_CONTEXT_HAS_IS_REMOTE_MASK", "SPAN_FLAGS_CONTEXT_IS_REMOTE_MASK"


def run(c):
    f = c.prog.func(ENTRY)
    R = Roles(c)
    SP = elem_of(is_param(f.params()[0][0]))
    remote = is_attr("is_remote", is_data)
    a = c.an(f, None, policy=R.policy(), oracle=oracle(o_truth(remote, True), present(SP)))
    span(c, a, f, R, SP)
    event(c, a, f, R, SP)
    link(c, a, f, R, SP)
    tables(c, a, f, SP)
    local = c.an(f, None, policy=R.policy(), oracle=oracle(o_truth(remote, False), present(SP)))
    span(c, local, f, R, SP, {HAS})
    absent(c, f, R, SP)
    c.floor("span", 15)
    c.floor("event", 4)
    c.floor("link", 6)


def optional(SP):
    X = either(ctx_of(SP), chain(elem_of(chain(SP, "links")), "context"))
    return {
        "context": X,
        "trace state": chain(X, "trace_state"),
        "parent": chain(SP, "parent"),
        "scope": chain(SP, "instrumentation_scope"),
        "status": chain(SP, "status"),
        "events": chain(SP, "events"),
        "links": chain(SP, "links"),
    }


def group_scope(t):
    return t.op == "keyof" and t.args[0].op == "elem"


def present(SP):
    opt = optional(SP)
    return oracle(o_isinst(opt["trace state"], True, lambda g: g.op == "glob" and g.args[0].rpartition(".")[2] in ("TraceState", "Mapping", "Collection", "Iterable", "Sized")), o_present(group_scope, *opt.values()))


def ctx_of(sp):
    return either(chain(sp, "context"), chain(sp, "get_span_context()"))


def flag_names(a, t):
    """Names of the flag constants or-ed together; None when something else is."""
    out = set()
    if t.op == "phi":
        for l in a.leaves(t):
            x = flag_names(a, l)
            if x is None:
                return None
            out |= x
        return out
    if t.op == "bin" and t.args[0] == "BitOr":
        for x in t.args[1:]:
            n = flag_names(a, x)
            if n is None:
                return None
            out |= n
        return out
    if t.op == "glob":
        return {t.args[0].rpartition(".")[2]}
    if is_call(fqn="builtins.int")(t):
        return flag_names(a, call_args(t)[0])
    return set() if is_const(t) and t.args[0] == 0 else None


def state_text(a, pred):
    """key=value pairs of the trace state, joined by commas, in order."""
    def f(t):
        k = callee_of(t)
        if k is not None and k.op == "attr" and k.args[1] == "to_header" and pred(k.args[0]):
            return True
        if k is None or k.op != "attr" or k.args[1] != "join" or not (is_const(k.args[0]) and k.args[0].args[0] == ",") or not call_args(t):
            return False
        src = lambda x: pred(x) or method_of("items", pred)(x)
        return mapped(a, call_args(t)[0], src, lambda l: pair_text(a, l, pred)) is None
    return f


def pair_text(a, t, pred):
    bare = any(pred(lp.t["iter"]) for lp in a.events("loop"))
    k, v = lambda x: x.op in ("keyof", "elem" if bare else "keyof") and pred(x.args[0]), lambda x: x.op in ("elem", "item") and pred(x.args[0])
    if t.op == "fstr":
        p = [x for x in t.args]
    elif t.op == "bin" and t.args[0] == "Add":
        p, todo = [], [t]
        while todo:
            x = todo.pop()
            if x.op == "bin" and x.args[0] == "Add":
                todo += [x.args[2], x.args[1]]
            else:
                p.append(x)
    elif callee_of(t) is not None and callee_of(t).op == "attr" and callee_of(t).args[1] == "join" and is_const(callee_of(t).args[0]) and callee_of(t).args[0].args[0] == "=" and call_args(t) and call_args(t)[0].op == "tup":
        x = call_args(t)[0].args
        return len(x) == 2 and k(x[0]) and v(x[1])
    else:
        return False
    return len(p) == 3 and k(p[0]) and is_const(p[1]) and p[1].args[0] == "=" and v(p[2])


def span(c, a, f, R, SP, want={HAS, IS}):
    made = a.calls(fqn=TR + "Span")
    c.ob("span", "span", len(made) == 1, f.where, "%d span messages are built" % len(made))
    if len(made) != 1:
        return
    r = made[0]
    X = ctx_of(SP)
    has(c, "span", "span", a, r.dst, r.where,
        trace_id=ident(16, chain(X, "trace_id")), span_id=ident(8, chain(X, "span_id")),
        trace_state=state_text(a, chain(X, "trace_state")),
        parent_span_id=ident(8, chain(SP, "parent.span_id")),
        name=chain(SP, "name"), start_time_unix_nano=chain(SP, "start_time"), end_time_unix_nano=chain(SP, "end_time"),
        attributes=attrs_of(a, R, either(chain(SP, "attributes"), chain(SP, "_attributes"))),
        dropped_attributes_count=chain(SP, "dropped_attributes"), dropped_events_count=chain(SP, "dropped_events"), dropped_links_count=chain(SP, "dropped_links"),
        status=made_by(TR + "Status"))
    lists(c, "span", "span", a, r, "events", chain(SP, "events"), made_by(TR + "Span.Event"))
    lists(c, "span", "span", a, r, "links", chain(SP, "links"), made_by(TR + "Span.Link"))
    flags(c, a, SP, want)
    for s in a.calls(fqn=TR + "Status"):
        has(c, "span", "status", a, s.dst, s.where, message=chain(SP, "status.description"))
    structure(c, a, f, R, SP, r)


def structure(c, a, f, R, SP, r, none=False):
    D = grouped(c, "group", "span", a, f, r, is_param(f.params()[0][0]), r.dst, chain(SP, "resource"), either(chain(SP, "instrumentation_scope"), lambda t: none and is_const(t) and t.args[0] is None))
    if D is not None:
        ungroup(c, "group", a, f, D, R, TR + "ScopeSpans", "spans", TR + "ResourceSpans", "scope_spans", REQ, "resource_spans")


def flags(c, a, SP, want):
    for fqn, src in ((TR + "Span", chain(SP, "parent")), (TR + "Span.Link", chain(elem_of(chain(SP, "links")), "context"))):
        for r in a.calls(fqn=fqn):
            con = fqn.rpartition(".")[2].lower()
            vs = [v for h, v, i in fields(a, r.dst).get("flags", [])]
            got = flag_names(a, vs[0]) if len(vs) == 1 else None
            c.ob("flags", con, got == want, r.where, "the flags are %s for a %s context" % (got, "remote" if IS in want else "local"))
            # the flags speak of the right context
            for b in a.events("branch"):
                t = b.t["cond"]
            asked = [x for x in a.events("attr", name="is_remote")]
            c.ob("flags-source", con, any(src(l) for x in asked for l in a.leaves(x.t["base"])), r.where, "never asks whether its own context is remote")


def event(c, a, f, R, SP):
    E = elem_of(chain(SP, "events"))
    made = a.calls(fqn=TR + "Span.Event")
    c.ob("event", "event", bool(made), f.where, "no event message is built")
    for r in made:
        has(c, "event", "event", a, r.dst, r.where, name=chain(E, "name"), time_unix_nano=chain(E, "timestamp"),
            attributes=attrs_of(a, R, chain(E, "attributes")), dropped_attributes_count=chain(E, "dropped_attributes"))


def link(c, a, f, R, SP):
    K = elem_of(chain(SP, "links"))
    X = chain(K, "context")
    made = a.calls(fqn=TR + "Span.Link")
    c.ob("link", "link", bool(made), f.where, "no link message is built")
    for r in made:
        has(c, "link", "link", a, r.dst, r.where, trace_id=ident(16, chain(X, "trace_id")), span_id=ident(8, chain(X, "span_id")),
            trace_state=state_text(a, chain(X, "trace_state")),
            attributes=attrs_of(a, R, chain(K, "attributes")), dropped_attributes_count=chain(K, "dropped_attributes"))


def tables(c, a, f, SP):
    """The kind and the status code become the wire constant of the same name."""
    kind = c.prog.cls("opentelemetry.trace.SpanKind")
    code = c.prog.cls("opentelemetry.trace.status.StatusCode")
    names = [n for n in kind.attrs if n.isupper()]
    c.ob("kind", "members", set(names) == set(KINDS), "SpanKind", "the kinds are %s" % names)
    for n in names:
        m = "opentelemetry.trace.SpanKind." + n
        got = looked(c, SP, f, chain(SP, "kind"), m, TR + "Span", "kind")
        c.ob("kind", n, got == {"SPAN_KIND_" + n}, f.where, "becomes %s" % got)
    for n in [x for x in code.attrs if x.isupper()]:
        m = code.fqn + "." + n
        got = looked(c, SP, f, chain(SP, "status.status_code"), m, TR + "Status", "code")
        v = c.prog.const_expr(code.mod, code.attrs[n], code)
        if got == {"value"}:
            got = {v[1]} if v else None
        want = STATUS.get(n)
        c.ob("status", n, got in ({want}, {"STATUS_CODE_" + n}), f.where, "becomes %s" % got)


def looked(c, SP, f, src, member, fqn, field):
    """What the field is for one member of the enumeration."""
    base = c.an(f, None, policy=Roles(c).policy(), oracle=oracle(lambda A, t, st: (t.args[1].args[0] == member) if t.op == "eq" and src(t.args[0]) and t.args[1].op == "glob" else None, present(SP)))
    out = set()
    for r in base.calls(fqn=fqn):
        for h, v, i in fields(base, r.dst).get(field, []):
            for l in base.leaves(v):
                out.add(entry(base, l, src, member))
    return out


def entry(a, l, src, member):
    if l.op == "glob":
        return l.args[0].rpartition(".")[2]
    if is_const(l):
        return l.args[0]
    if is_attr("value", src)(l):
        return "value"
    b, k = None, None
    if l.op == "item":
        b, k = l.args
    elif l.op == "call" and l.args[1].op == "attr" and l.args[1].args[1] == "get" and l.args[2]:
        b, k = l.args[1].args[0], l.args[2][0]
    if b is not None and src(k):
        d = a.global_display(b.args[0]) if b.op == "glob" else a.display(b)
        for kk, v in d or ():
            if kk.op == "glob" and kk.args[0] == member:
                return v.args[0].rpartition(".")[2] if v.op == "glob" else v.args[0] if is_const(v) else None
    return None


def absent(c, f, R, SP):
    """Parts a span may lack are not used as if they were there."""
    for con, src in optional(SP).items():
        if con == "context":
            continue
        a = c.an(f, None, policy=R.policy(), oracle=oracle(o_absent(src), present(SP)))
        bad = dereferences(a, src)
        c.ob("absent", con, not bad, bad[0].where if bad else f.where, "is used although it may be missing")
        for r in a.calls(fqn=TR + "Span"):
            structure(c, a, f, R, SP, r, con == "scope")
    a = c.an(f, None, policy=R.policy(), oracle=oracle(o_absent(group_scope), present(SP)))
    bad = dereferences(a, group_scope)
    c.ob("absent", "no scope", not bad, bad[0].where if bad else f.where, "the scope is used although it may be missing")
    made = made_by(TR + "ScopeSpans")
    for r in a.calls(fqn=TR + "ResourceSpans"):
        lists(c, "group", "resource-message", a, r, "scope_spans", elem_of(lambda t: True), made)
    a = c.an(f, None, policy=R.policy(), oracle=oracle(o_absent(chain(SP, "parent")), present(SP)))
    for r in a.calls(fqn=TR + "Span"):
        for h, v, i in fields(a, r.dst).get("parent_span_id", []):
            c.ob("root", "parent_span_id", all_leaves(a, v, lambda l: is_const(l) and not l.args[0]), r.where, "a root span has the parent %s" % v)
        vs = [v for h, v, i in fields(a, r.dst).get("flags", [])]
        c.ob("root", "flags", len(vs) == 1 and flag_names(a, vs[0]) == {HAS}, r.where, "a root span has the flags %s" % vs)
