"""E08: Zipkin spans carry every field of the span."""
from .ox import *
from .bx import glob_call

NOTE = "Field provenance of every record the three Zipkin encoders build, under assumed kinds of attribute value, status, limit and presence: each field comes from the span's own part, on every path of the iteration over the spans; parts that are absent are left out; the kind table maps every kind to its own name; the exporters hand every span and their own endpoint and limit to the encoder chosen by the version."

Z = "opentelemetry.exporter.zipkin"
POL = Policy(mods=(Z,))
PB2 = Z + ".proto.http.v2.gen.zipkin_pb2."
ENCODERS = {"json v1": Z + ".json.v1.JsonV1Encoder", "json v2": Z + ".json.v2.JsonV2Encoder", "protobuf": Z + ".proto.http.v2.ProtobufEncoder"}
KINDS = {"INTERNAL": None, "SERVER": "SERVER", "CLIENT": "CLIENT", "PRODUCER": "PRODUCER", "CONSUMER": "CONSUMER"}
LIMIT = "max_tag_value_length"


def run(c):
    for name, fqn in ENCODERS.items():
        k = c.prog.cls(fqn)
        V(c, name, k).check()
    limits(c)
    exporters_(c)
    c.floor("span", 20)
    c.floor("tags", 60)
    c.floor("annotations", 9)
    c.floor("endpoint", 9)


def num(t):
    if is_const(t) and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return t.args[0]
    if t.op == "bin":
        x, y = num(t.args[1]), num(t.args[2])
        if x is not None and y is not None and abs(x) < 100 and abs(y) < 100:
            return {"Pow": lambda: x ** y, "Mult": lambda: x * y, "Add": lambda: x + y}.get(t.args[0], lambda: None)()
    return None


def usec(a, t, pred):
    """The nanoseconds pred as whole microseconds."""
    k = callee_of(t)
    if k is not None and k.op == "glob" and k.args[0] in ("builtins.int", "builtins.round") and len(call_args(t)) == 1:
        t = call_args(t)[0]
        if t.op == "bin" and t.args[0] == "Div" and num(t.args[2]) == 1000:
            return all_leaves(a, t.args[1], pred)
    if t.op != "bin" or t.args[0] != "FloorDiv" or num(t.args[2]) != 1000:
        return False
    x = t.args[1]
    if x.op == "bin" and x.args[0] == "Add":
        for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if num(q) == 500:
                x = p
                break
    return all_leaves(a, x, pred)


def snake(n):
    return "".join("_" + ch.lower() if ch.isupper() else ch for ch in n)


class V:
    def __init__(self, c, name, k):
        self.c, self.name, self.k = c, name, k
        self.f = c.am(k, "serialize") and c.method(k, "serialize")
        ps = [p for p in self.f.params()[0] if p != "self"]
        self.spans, self.local = is_param(ps[0]), is_param(ps[1])
        self.SP = elem_of(self.spans)
        self.ctx = ctx_of(self.SP)
        self.proto = name == "protobuf"

    def ob(self, rule, what, ok, where, msg):
        return self.c.ob(rule, self.name + "/" + what, ok, where or self.f.where, msg)

    # -- worlds ---------------------------------------------------------------------
    def world(self, limit=None, kind="str", elem="str", status="ERROR", absent=(), sampled=True, extra=()):
        SP = self.SP
        attrs = [chain(SP, "attributes"), chain(SP, "resource.attributes")]
        events = chain(SP, "events")
        ev_attrs = chain(elem_of(events), "attributes")
        values = elem_of(either(*attrs, ev_attrs))
        members = elem_of(elem_of(either(*attrs)))
        is_lim = is_attr(LIMIT)
        parent = chain(SP, "parent")
        code = chain(SP, "status.status_code")
        parts = {
            "attributes": attrs[0], "resource": chain(SP, "resource"), "resource attributes": attrs[1], "scope": chain(SP, "instrumentation_scope"),
            "parent": parent, "events": events, "event attributes": ev_attrs,
            "dropped": either(*[chain(SP, "dropped_" + x) for x in ("attributes", "events", "links")]),
            "ipv4": part(self.local, "ipv4"), "ipv6": part(self.local, "ipv6"), "port": part(self.local, "port"),
            "parent id": chain(parent, "span_id"),
        }
        types = {"bool": ("bool", "int"), "int": ("int",), "float": ("float",), "str": ("str", "Sequence", "Iterable", "Collection"), "seq": ("Sequence", "tuple", "Iterable", "Collection"), "none": (), "other": ()}

        def inst(pred, ty):
            def g(a, t, st):
                if t.op == "isinst" and pred(t.args[0]):
                    cs = t.args[1].args if t.args[1].op == "tup" else [t.args[1]]
                    return any(x.op == "glob" and x.args[0].rpartition(".")[2] in types[ty] for x in cs)
                if t.op == "isnone" and pred(t.args[0]):
                    return ty == "none"
                return None
            return g

        def par(a, t, st):
            if t.op == "isinst" and parent(t.args[0]):
                return "parent" not in absent and t.args[1].op == "glob" and t.args[1].args[0].endswith(".SpanContext")
            return None

        def stat(a, t, st):
            if t.op == "eq":
                for x, y in (t.args, t.args[::-1]):
                    if code(x) and y.op == "glob":
                        return y.args[0].rpartition(".")[2] == status
            return None

        def lim(a, t, st):
            if limit is None:
                return None
            if t.op == "lt":
                x, y = t.args
                if is_lim(y) and is_const(x) and x.args[0] in (0, 1):
                    return True
                if is_lim(x) and is_const(y) and y.args[0] in (0, 1):
                    return False
            if t.op == "eq" and any(is_lim(x) for x in t.args) and any(is_const(x) and x.args[0] in (0, 1, None) for x in t.args):
                return False
            if t.op == "isnone" and is_lim(t.args[0]):
                return False
            if is_lim(t) or t.op == "istrue" and is_lim(t.args[0]):
                return True
            return None

        def sub(a, t):
            if limit is None and is_lim(t):
                return a.T.const(None)
            return None
        here = [p for n, p in parts.items() if n not in absent]
        gone = [p for n, p in parts.items() if n in absent]
        flag = chain(self.ctx, "trace_flags.sampled")
        o = oracle(*extra, lim, par, stat, inst(values, kind), inst(members, elem), o_truth(flag, sampled), *[o_absent(p) for p in gone], o_present(*here))
        a = self.c.an(self.f, self.k, policy=POL, oracle=oracle(filled, o), subst=sub)
        return a

    # -- checks ------------------------------------------------------------------------
    def check(self):
        a = self.world()
        rec = self.records(a)
        self.listed(a, rec)
        self.fields(a, rec)
        self.endpoint(a)
        self.values()
        self.statuses()
        self.absent()
        self.alone()
        self.kinds()
        self.nones()

    def out(self, a):
        """The list (or message) of records that is serialised."""
        rs = [l for r in a.rets() for l in a.leaves(r.t["val"])]
        got = []
        for l in rs:
            k = callee_of(l)
            if k is not None and k.op == "attr" and k.args[1] in ("encode", "SerializeToString"):
                l = k.args[0]
                k = callee_of(l) if k.args[1] == "encode" else k
            if k is not None and k.op == "glob" and k.args[0] == "json.dumps" and call_args(l):
                got += a.leaves(call_args(l)[0])
            elif l.op == "call" and made_by(PB2 + "ListOfSpans")(l):
                got.append(l)
            else:
                got.append(l)
        return got

    def records(self, a):
        recs = []
        for l in self.out(a):
            if made_by(PB2 + "ListOfSpans")(l):
                for h, v, i in fields(a, l).get("spans", []):
                    for m in a.leaves(v):
                        recs += [x for k_, vv, ii in a.contents.get(m, ()) for x in a.leaves(vv)] if h == "set" else [m]
            else:
                recs += [x for k_, vv, ii in a.contents.get(l, ()) for x in a.leaves(vv)]
        recs = list(dict.fromkeys(recs))
        return recs[0] if len(recs) == 1 else None

    def listed(self, a, rec):
        self.ob("span", "record", rec is not None, "", "no single record is built per span")
        err = None
        for l in self.out(a):
            if made_by(PB2 + "ListOfSpans")(l):
                vs = fields(a, l).get("spans", [])
                if len(vs) == 1 and vs[0][0] == "set":
                    err = err or mapped(a, vs[0][1], self.spans, lambda x: x is rec)
                else:
                    err = err or ("another change of the list" if any(h != "item" for h, v, i in vs) else once_each(a, [i for h, v, i in vs], self.spans))
            else:
                err = err or mapped(a, l, self.spans, lambda x: x is rec)
        self.ob("span", "every span", self.out(a) != [] and err is None, "", "does not send one record per span in order: %s" % err)

    def loop(self, a):
        return [r for r in a.events("loop") if ordered(a, r.t["iter"], self.spans)]

    def skipped(self, a, ins):
        """Whether an iteration over the spans can avoid the instructions."""
        lps = self.loop(a)
        for lp in lps:
            body = loop_body(a, lp)
            if any(i.block in body for i in ins):
                return loop_skips(a, lp, ins) is not None
        return True

    def got(self, a, rec, name):
        """[(value, instr)] of one field of a record."""
        out = []
        if rec is None:
            return out
        if self.proto:
            for h, v, i in fields(a, rec).get(name, []):
                out.append((v, i))
            return out
        for k, v, i in a.contents.get(rec, ()):
            if k is not None and is_const(k) and snake(str(k.args[0])) == name:
                out.append((v, i))
        return out

    def field(self, a, rec, name, pred, rule="span", must=True):
        vs = self.got(a, rec, name)
        if not self.ob(rule, name, bool(vs) and (not must or not self.skipped(a, [i for v, i in vs])), "", "the field is not filled for every span"):
            return
        for v, i in vs:
            bad = [l for l in a.leaves(v) if not pred(l)]
            self.ob(rule, name, not bad and a.leaves(v) != [], i.where, "is filled from %s" % (bad or ["nothing"])[0])

    def hexid(self, a, n, pred):
        fn = {16: "format_trace_id", 8: "format_span_id"}[n]

        def f(t):
            if self.proto:
                return ident(n, lambda x: all_leaves(a, x, pred))(t)
            if glob_call(t, "opentelemetry.trace." + fn, "opentelemetry.trace.span." + fn):
                return all_leaves(a, call_args(t)[0], pred)
            if glob_call(t, "builtins.format") and len(call_args(t)) == 2:
                return pred(call_args(t)[0]) and is_const(call_args(t)[1]) and call_args(t)[1].args[0] in ("0%dx" % (2 * n),)
            return False
        return f

    def fields(self, a, rec):
        SP = self.SP
        self.field(a, rec, "trace_id", self.hexid(a, 16, chain(self.ctx, "trace_id")))
        self.field(a, rec, "id", self.hexid(a, 8, chain(self.ctx, "span_id")))
        self.field(a, rec, "parent_id", self.hexid(a, 8, chain(SP, "parent.span_id")))
        self.field(a, rec, "name", chain(SP, "name"))
        start, end = chain(SP, "start_time"), chain(SP, "end_time")
        self.field(a, rec, "timestamp", lambda t: usec(a, t, start))
        self.field(a, rec, "duration", lambda t: usec(a, t, lambda x: x.op == "bin" and x.args[0] == "Sub" and end(x.args[1]) and start(x.args[2])))
        flag = chain(self.ctx, "trace_flags.sampled")
        self.field(a, rec, "debug", lambda t: flag(t) or is_const(t) and t.args[0] is True)
        if self.name != "json v1":
            self.field(a, rec, "local_endpoint", lambda t: t in self.ends(a))
        self.annotations(a, rec)

    def ends(self, a):
        """The endpoint records made of the given endpoint."""
        out = []
        if self.proto:
            return [r.dst for r in a.calls(fqn=PB2 + "Endpoint")]
        for r in a.events("new"):
            if any(k is not None and is_const(k) and k.args[0] == "serviceName" for k, v, i in a.contents.get(r.dst, ())):
                out.append(r.dst)
        return out

    def endpoint(self, a):
        es = self.ends(a)
        if not self.ob("endpoint", "record", len(es) == 1, "", "%d endpoint records are built" % len(es)):
            return
        E = es[0]

        def addr(n):
            def f(t):
                k = callee_of(t)
                if self.proto:
                    return is_attr("packed", part(self.local, n))(t)
                return k is not None and k.op == "glob" and k.args[0] == "builtins.str" and part(self.local, n)(call_args(t)[0])
            return f
        for n, p in (("service_name", part(self.local, "service_name")), ("ipv4", addr("ipv4")), ("ipv6", addr("ipv6")), ("port", part(self.local, "port"))):
            vs = self.got(a, E, n)
            bad = [l for v, i in vs for l in a.leaves(v) if not p(l)]
            self.ob("endpoint", n, bool(vs) and not bad, "", "is filled from %s" % (bad or ["nothing"])[0])
            mk = [r.instr for r in a.recs if r.dst is E and r.instr.kind in ("new", "call")]
            end = [r.instr for r in a.rets()]
            self.ob("endpoint", n + " always", bool(vs) and all(i.block in a.reach for v, i in vs) and (mk[0] in [i for v, i in vs] or not any(a.path_avoiding(mk[0], [i for v, i in vs], [e.block]) for e in end if e not in [i for v, i in vs])), "", "is left out although the endpoint has it")
        for n in ("ipv4", "ipv6", "port"):
            b = self.world(absent=(n,))
            vs = [1 for E in self.ends(b) for v, i in self.got(b, E, n) if any(not (is_const(l) and l.args[0] is None) for l in b.leaves(v))]
            self.ob("endpoint", n + " absent", not vs, "", "is sent although the endpoint has none")

    # -- tags ---------------------------------------------------------------------------
    def tag_places(self, a, rec):
        """Terms whose contents are the tags of the record."""
        if rec is None:
            return [], []
        if self.proto:
            out = [r.t["recv"] for r in a.calls() if r.t.get("recv") is not None and under(r.t["recv"], rec) == "tags"]
            return list(dict.fromkeys(out)), [i for h, v, i in fields(a, rec).get("tags", [])] + [r.instr for r in a.calls() if r.t.get("recv") is not None and under(r.t["recv"], rec) == "tags" and r.instr.name in ("update", "MergeFrom")]
        if self.name == "json v1":
            bs = self.got(a, rec, "binary_annotations")
            ins = [i for v, i in bs]
            out = []
            for v, i in bs:
                for l in a.leaves(v):
                    for k_, m, mi in a.contents.get(l, ()):
                        for d in a.leaves(m):
                            for kk, vv, ii in a.contents.get(d, ()):
                                if kk is not None and is_const(kk) and kk.args[0] == "key":
                                    out += [x for t in a.leaves(vv) if t.op == "keyof" for x in a.leaves(t.args[0])]
            return list(dict.fromkeys(out)), ins
        vs = self.got(a, rec, "tags")
        return list(dict.fromkeys(l for v, i in vs for l in a.leaves(v))), [i for v, i in vs]

    def entries(self, a, D, via=(), depth=0):
        """(key, value, instructions on the way) of a dictionary."""
        for k, v, i in a.contents.get(D, ()):
            r = next((r for r in a.calls() if r.instr is i), None)
            inner = []
            if r is not None and r.args and depth < 5 and r.instr.name in ("update", "MergeFrom"):
                for l in a.leaves(r.args[0]):
                    if any(v2 is v and k2 is k for k2, v2, i2 in a.contents.get(l, ())):
                        inner += list(self.entries(a, l, via + (i,), depth + 1))
            if inner:
                yield from (e for e in inner if e[0] is k and e[1] is v)
            else:
                yield k, v, via + (i,)

    def tags(self, a, rec):
        ds, ins = self.tag_places(a, rec)
        return [e for D in ds for e in self.entries(a, D)], ins

    def const_tag(self, a, rec, key, what, want):
        es, ins = self.tags(a, rec)
        es = [e for e in es if e[0] is not None and is_const(e[0]) and e[0].args[0] == key]
        if want is None:
            return self.ob("tags", what, not es, es[0][2][-1].where if es else "", "the tag %s is sent" % key)
        ok = es and all(not self.skipped(a, [x]) for e in es for x in e[2]) if len(es) == 1 else bool(es) and not self.skipped(a, [e[2][-1] for e in es])
        bad = [l for e in es for l in a.leaves(e[1]) if not want(l)]
        return self.ob("tags", what, bool(ok) and not bad, es[0][2][-1].where if es else "", "the tag %s is %s" % (key, bad[0] if bad else "not sent for every span"))

    def of_mapping(self, a, rec, src, text, what, rule="tags"):
        """Every pair of the mapping becomes a tag of the same key."""
        es, ins = self.tags(a, rec)
        es = [e for e in es if e[0] is not None and e[0].op == "keyof" and all_leaves(a, e[0].args[0], src)]
        dst = ins and not self.skipped(a, ins)
        ok = bool(es) and bool(dst)
        msg = "not every attribute becomes a tag"
        for k, v, way in es:
            lps = [lp for lp in a.events("loop") if ordered(a, lp.t["iter"], src) and way[-1].block in loop_body(a, lp) and lp not in self.loop(a)]
            rest = list(way[:-1])
            if lps:
                lp = lps[-1]
                ok = ok and loop_skips(a, lp, [e[2][-1] for e in es]) is None and not loop_breaks(a, lp)
                rest.append(lp.instr)
            else:
                rest.append(way[-1])
            ok = ok and all(not self.skipped(a, [x]) for x in rest)
            bad = [l for l in a.leaves(v) if not text(a, l)]
            if bad:
                msg = "the value becomes %s" % bad[0]
            ok = ok and not bad
        return self.ob(rule, what, ok, es[0][2][-1].where if es else "", msg)

    def texts(self, kind, limit, elem="str"):
        def simple(a, v, ty, t):
            t = fold(a, t)
            k = callee_of(t)
            if ty == "bool":
                if is_const(t) and t.args[0] in ("true", "false"):
                    return True
                if k is not None and k.op == "attr" and k.args[1] in ("lower", "casefold"):
                    s = k.args[0]
                    return glob_call(s, "builtins.str") and v(call_args(s)[0])
                return glob_call(t, "json.dumps") and v(call_args(t)[0])
            if ty == "str" and v(t):
                return True
            if ty == "none":
                return is_const(t) and t.args[0] is None
            return glob_call(t, "builtins.str", "builtins.repr" if ty != "str" else "builtins.str", "builtins.format") and len(call_args(t)) == 1 and v(call_args(t)[0])

        def seq(a, v, t):
            return glob_call(t, "json.dumps") and bool(call_args(t)) and (limit is not None or mapped(a, call_args(t)[0], v, lambda x: simple(a, elem_of(v), elem, x)) is None)

        def f(src):
            v = elem_of(src)

            def g(a, t):
                n = 0
                while True:
                    if t.op == "slice" and len(t.args) >= 3 and (t.args[1] is None or is_const(t.args[1]) and t.args[1].args[0] in (None, 0)) and is_attr(LIMIT)(t.args[2]):
                        t, n = t.args[0], n + 1
                        if t.op == "phi":
                            ls = a.leaves(t)
                            return limit is not None and all(ok1(a, x) for x in ls)
                    elif t.op == "elem" and a.leaves(t.args[0]) and t.args[0].op == "new":
                        return False
                    else:
                        break
                return (n > 0) == (limit is not None) and ok1(a, t)

            def ok1(a, t):
                return seq(a, v, t) if kind == "seq" else simple(a, v, kind, t)
            return g
        return f

    def values(self):
        """Attribute values by type and limit."""
        SP = self.SP
        for limit in (None, "some"):
            for kind in ("str", "bool", "int", "float", "seq"):
                for el in ("str", "bool", "int", "none") if kind == "seq" and limit is None else ("str",):
                    a = self.world(limit=limit, kind=kind, elem=el)
                    rec = self.records(a)
                    T = self.texts(kind, limit, el)
                    for n, src in (("attributes", chain(SP, "attributes")), ("resource", chain(SP, "resource.attributes"))):
                        self.of_mapping(a, rec, src, T(src), "%s %s%s%s" % (n, kind, "" if kind != "seq" else " of " + el, ", limited" if limit else ""))
                    if self.name == "json v1":
                        self.v1_values(a, rec, limit)

    def v1_values(self, a, rec, limit):
        """The value of a binary annotation is the tag's, cut at most."""
        ds, ins = self.tag_places(a, rec)
        ok, msg = True, ""
        for v, i in self.got(a, rec, "binary_annotations"):
            for l in a.leaves(v):
                e = mapped(a, l, lambda t: t in ds, lambda x: x.op == "new")
                if e:
                    ok, msg = False, e
                for k_, m, mi in a.contents.get(l, ()):
                    for d in a.leaves(m):
                        got = {kk.args[0]: vv for kk, vv, ii in a.contents.get(d, ()) if kk is not None and is_const(kk)}
                        if set(got) != {"key", "value", "endpoint"}:
                            ok, msg = False, "has the parts %s" % sorted(got)
                            continue
                        for x in a.leaves(got["value"]):
                            while x.op == "slice" and limit is not None:
                                x = x.args[0]
                            if not all(y.op == "elem" and y.args[0] in ds for y in a.leaves(x)):
                                ok, msg = False, "the value is %s" % x
                        if not all(x.op == "keyof" and x.args[0] in ds for x in a.leaves(got["key"])):
                            ok, msg = False, "the key is %s" % got["key"]
                        if not all_leaves(a, got["endpoint"], lambda x: x in self.ends(a)):
                            ok, msg = False, "the endpoint is %s" % got["endpoint"]
        self.ob("tags", "binary annotations" + (", limited" if limit else ""), ok and bool(ds), "", "a tag is not sent as it is: " + msg)

    def statuses(self):
        SP = self.SP
        code, desc = chain(SP, "status.status_code"), chain(SP, "status.description")
        for s in ("ERROR", "OK", "UNSET"):
            a = self.world(status=s)
            rec = self.records(a)
            name = lambda t: is_attr("name", code)(t) or is_const(t) and t.args[0] == s or is_attr("name")(t) and t.args[0].op == "glob" and t.args[0].args[0].endswith("." + s)
            self.const_tag(a, rec, "otel.status_code", "status %s" % s, None if s == "UNSET" else name)
            said = lambda t: desc(t) or is_const(t) and t.args[0] in ("", "true") or glob_call(t, "builtins.str") and desc(call_args(t)[0]) or t.op == "slice" and desc(t.args[0])
            self.const_tag(a, rec, "error", "error tag, %s" % s, said if s == "ERROR" else None)
            if s == "ERROR":
                es = [e for e in self.tags(a, rec)[0] if e[0] is not None and is_const(e[0]) and e[0].args[0] == "error"]
                self.ob("tags", "error description", any(mentions(l, desc) for e in es for l in a.leaves(e[1])), "", "the description is not in the error tag")
            sc = chain(SP, "instrumentation_scope")
            if s == "ERROR":
                for key, n in (("otel.scope.name", "name"), ("otel.scope.version", "version"), ("otel.library.name", "name"), ("otel.library.version", "version")):
                    self.const_tag(a, rec, key, "scope %s" % key, either(chain(sc, n), lambda t, n=n: t.op == "slice" and chain(sc, n)(t.args[0]), lambda t: is_const(t) and t.args[0] == ""))
                for n in ("attributes", "events", "links"):
                    d = chain(SP, "dropped_" + n)
                    self.const_tag(a, rec, "otel.dropped_%s_count" % n, "dropped " + n, lambda t, d=d: glob_call(t, "builtins.str") and d(call_args(t)[0]) or t.op == "fmt" and mentions(t, d))
        b = self.world(absent=("scope",))
        rec = self.records(b)
        for key in ("otel.scope.name", "otel.scope.version"):
            self.const_tag(b, rec, key, "no scope, " + key, None)

    # -- annotations ------------------------------------------------------------------------
    def annotations(self, a, rec):
        SP = self.SP
        evs = chain(SP, "events")
        EV = elem_of(evs)
        vs = self.got(a, rec, "annotations")
        ok = bool(vs) and not self.skipped(a, [i for v, i in vs])
        if not self.ob("annotations", "sent", ok, "", "the annotations are not sent for every span that has events"):
            return
        for limit in (None, "some"):
            for kind in ("str", "int"):
                b = a if limit is None and kind == "str" else self.world(limit=limit, kind=kind)
                r = self.records(b)
                for v, i in self.got(b, r, "annotations"):
                    ms = []
                    e = self.members(b, v, evs, ms)
                    self.ob("annotations", "every event", e is None, i.where, "not one annotation per event in order: %s" % e)
                    for m in ms:
                        self.annotation(b, m, EV, limit, kind)

    def members(self, a, v, src, ms, depth=0):
        """The annotations of the list, one per event; also through a second
        list made from the first."""
        for l in choices(a, v):
            cs = a.contents.get(l, ())
            if not cs:
                return "%s does not list them" % l
            lps = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for k_, x, i in cs) and lp not in self.loop(a)]
            inner = [lp for lp in lps if not ordered(a, lp.t["iter"], src)]
            if inner and depth < 3:
                its = [x for lp in inner for x in choices(a, lp.t["iter"])]
                e = mapped(a, l, lambda t: t in its, lambda x: True)
                if e:
                    return e
                for x in its:
                    e = self.members(a, x, src, [], depth + 1)
                    if e:
                        return e
            else:
                e = mapped(a, l, src, lambda x: True)
                if e:
                    return e
            ms += [x for k_, y, i in cs for x in a.leaves(y)]
        return None

    def look(self, a, t, depth=0):
        """Values of an entry of a dictionary that went through a list."""
        if t.op == "item" and t.args[0].op == "elem" and is_const(t.args[1]) and depth < 4:
            out = []
            for l in choices(a, t.args[0].args[0]):
                for k_, m, i in a.contents.get(l, ()):
                    for d in a.leaves(m):
                        for kk, vv, ii in a.contents.get(d, ()):
                            if kk is not None and is_const(kk) and kk.args[0] == t.args[1].args[0]:
                                out += a.leaves(vv)
            return out or [t]
        return [t]

    def annotation(self, a, m, EV, limit, kind):
        tag = " %s%s" % (kind, ", limited" if limit else "")
        ts = [x for v, i in self.got(a, m, "timestamp") for l in a.leaves(v) for x in self.look(a, l)]
        self.ob("annotations", "timestamp" + tag, bool(ts) and all(usec(a, t, chain(EV, "timestamp")) for t in ts), "", "the time is %s" % (ts or ["missing"])[0])
        vs = [x for v, i in self.got(a, m, "value") for l in a.leaves(v) for x in self.look(a, l)]
        src = chain(EV, "attributes")
        ok = bool(vs)
        msg = "missing"
        for t in vs:
            if not (glob_call(t, "json.dumps") and call_args(t)):
                ok, msg = False, str(t)
                continue
            for d in a.leaves(call_args(t)[0]):
                cs = list(a.contents.get(d, ()))
                if not cs or not all(k is not None and all_leaves(a, k, chain(EV, "name")) for k, v, i in cs):
                    ok, msg = False, "not named after the event"
                for k, v, i in cs:
                    for inner in a.leaves(v):
                        if src(inner) or glob_call(inner, "builtins.dict") and src(call_args(inner)[0]):
                            if limit is not None and kind == "str":
                                ok, msg = False, "the attribute values are not cut at the limit"
                            continue
                        ins = []
                        for kk, vv, ii in a.contents.get(inner, ()):
                            ins.append(ii)
                            if kk is None or not all_leaves(a, kk, lambda x: x.op == "keyof" and src(x.args[0])):
                                ok, msg = False, "an attribute is named %s" % kk
                            for x in a.leaves(vv):
                                cut = x.op == "slice" and is_attr(LIMIT)(x.args[2])
                                y = x.args[0] if cut else x
                                if not elem_of(src)(y) or cut != (limit is not None and kind == "str"):
                                    ok, msg = False, "an attribute is %s" % x
                        if not ins or inner.op != "new":
                            ok, msg = False, "the attributes are left out"
                            continue
                        e = once_each(a, ins, src)
                        if e:
                            ok, msg = False, e
        self.ob("annotations", "value" + tag, ok, "", "the value does not carry the event: %s" % msg)
        if self.name == "json v1":
            es = [l for v, i in self.got(a, m, "endpoint") for l in a.leaves(v)]
            # the endpoint is put into each annotation of the list afterwards
            for r in a.events("store_item"):
                if is_const(r.t["key"]) and r.t["key"].args[0] == "endpoint" and r.t["base"].op == "elem":
                    es += a.leaves(r.t["val"])
            self.ob("annotations", "endpoint" + tag, bool(es) and all(e in self.ends(a) for e in es), "", "has no endpoint")

    # -- absent parts --------------------------------------------------------------------------
    def absent(self):
        for part_, name in (("parent", "parent_id"), ("events", "annotations")):
            a = self.world(absent=(part_,))
            rec = self.records(a)
            vs = [l for v, i in self.got(a, rec, name) for l in choices(a, v) if not (is_const(l) and l.args[0] is None or l.op == "new" and not a.contents.get(l))]
            self.ob("absent", name, rec is not None and not vs, "", "is sent although the span has none: %s" % (vs or [""])[0])
        a = self.world(sampled=False)
        rec = self.records(a)
        flag = chain(self.ctx, "trace_flags.sampled")
        vs = [l for v, i in self.got(a, rec, "debug") for l in a.leaves(v) if not (flag(l) or is_const(l) and l.args[0] in (False, None))]
        self.ob("absent", "debug", rec is not None and not vs, "", "is sent for a span that is not sampled")
        # a span without its own attributes still has the tags of its resource
        a = self.world(absent=("attributes",))
        T = self.texts("str", None)
        src = chain(self.SP, "resource.attributes")
        self.of_mapping(a, self.records(a), src, T(src), "resource of a span without attributes")

    def alone(self):
        """A part is sent although every other one is absent."""
        groups = ("attributes", "resource", "scope", "parent", "events", "dropped")
        SP = self.SP
        ends = ("ipv4", "ipv6", "port")
        for g in groups:
            a = self.world(absent=tuple(x for x in groups if x != g) + ends, sampled=False, status="UNSET", kind="int")
            rec = self.records(a)
            if g in ("attributes", "resource"):
                src = chain(SP, "attributes" if g == "attributes" else "resource.attributes")
                self.of_mapping(a, rec, src, self.texts("int", None)(src), "only " + g)
            elif g == "scope":
                sc = chain(SP, "instrumentation_scope")
                for n in ("name", "version"):
                    self.const_tag(a, rec, "otel.scope." + n, "only scope, " + n, chain(sc, n))
            elif g == "dropped":
                for n in ("attributes", "events", "links"):
                    d = chain(SP, "dropped_" + n)
                    self.const_tag(a, rec, "otel.dropped_%s_count" % n, "only dropped " + n, lambda t, d=d: mentions(t, d))
            else:
                vs = self.got(a, rec, {"parent": "parent_id", "events": "annotations"}[g])
                self.ob("span", "only " + g, bool(vs) and not self.skipped(a, [i for v, i in vs]), "", "is left out when the span has nothing else")
        a = self.world(absent=groups + ends, sampled=True, status="ERROR")
        rec = self.records(a)
        vs = self.got(a, rec, "debug")
        self.ob("span", "only debug", bool(vs) and not self.skipped(a, [i for v, i in vs]), "", "is left out when the span has nothing else")
        self.const_tag(a, rec, "otel.status_code", "only status", lambda t: True)
        self.const_tag(a, rec, "error", "only error", lambda t: True)

    def kinds(self):
        if self.name == "json v1":
            return
        src = chain(self.SP, "kind")
        for n, want in KINDS.items():
            m = "opentelemetry.trace.SpanKind." + n
            eq = lambda a, t, st: (t.args[1].args[0].rpartition(".")[2] == n) if t.op == "eq" and src(t.args[0]) and t.args[1].op == "glob" else None
            a = self.world(extra=(eq,))
            rec = self.records(a)
            vs = self.got(a, rec, "kind")
            got = {self.entry(a, l, src, n) for v, i in vs for l in a.leaves(v)}
            ok = got == {want} or want is None and got in (set(), {"SPAN_KIND_UNSPECIFIED"}, {0})
            self.ob("kind", n, ok and (want is None or not self.skipped(a, [i for v, i in vs])), vs[0][1].where if vs else "", "becomes %s" % sorted(map(str, got)))

    def entry(self, a, l, src, n):
        if l.op == "glob":
            return l.args[0].rpartition(".")[2]
        if is_const(l):
            return l.args[0]
        b = k = None
        if l.op == "item":
            b, k = l.args
        elif callee_of(l) is not None and callee_of(l).op == "attr" and callee_of(l).args[1] == "get" and call_args(l):
            b, k = callee_of(l).args[0], call_args(l)[0]
        if b is not None and src(k):
            for kk, v in table(self.c, a, b, self.k) or ():
                if kk == n:
                    return v
            return None if l.op != "item" else "missing"
        return str(l)

    def nones(self):
        """Without a limit nothing is compared with it."""
        a = self.world(limit=None)
        bad = [r for r in a.recs if r.dst is not None and r.dst.op in ("lt", "not") and none_compared(r.dst)]
        self.ob("tags", "no limit", not bad, bad[0].where if bad else "", "compares None with a number when no limit is set")


def none_compared(t):
    while t.op == "not":
        t = t.args[0]
    return t.op == "lt" and any(is_const(x) and x.args[0] is None for x in t.args)


def filled(a, t, st):
    """What was collected from parts that are there is not empty."""
    if t.op == "istrue":
        t = t.args[0]
    return True if t.op == "new" and t.args[1] in ("dict", "list") or glob_call(t, "json.dumps") else None


def part(pred, n):
    return either(is_attr(n, pred), is_attr("_" + n, pred))


def ctx_of(sp):
    return either(chain(sp, "context"), chain(sp, "get_span_context()"))


def fold(a, t):
    if t.op == "phi":
        ls = a.leaves(t)
        return ls[0] if len(ls) == 1 else t
    return t


def table(c, a, b, k):
    """[(member name, text of the value)] of a dictionary in the class or module."""
    expr = mod = cls = None
    if b.op == "attr":
        got = next(((m, m.attrs[b.args[1]]) for m in c.prog.mro(k) if b.args[1] in m.attrs), None)
        if got:
            cls, expr, mod = got[0], got[1], got[0].mod
    elif b.op == "glob":
        d = a.global_display(b.args[0])
        if d is None and b.args[0].rpartition(".")[0]:
            kk = c.prog.cls(b.args[0].rpartition(".")[0])
            if kk is not None and b.args[0].rpartition(".")[2] in kk.attrs:
                cls, expr, mod = kk, kk.attrs[b.args[0].rpartition(".")[2]], kk.mod
        if d is not None:
            return [(x.args[0].rpartition(".")[2], v.args[0].rpartition(".")[2] if v.op == "glob" else v.args[0] if is_const(v) else str(v)) for x, v in d if x.op == "glob"]
    else:
        d = a.display(b)
        if d is not None:
            return [(x.args[0].rpartition(".")[2], v.args[0].rpartition(".")[2] if v.op == "glob" else v.args[0] if is_const(v) else str(v)) for x, v in d if x.op == "glob"]
    import ast
    if not isinstance(expr, ast.Dict):
        return None
    out = []
    for x, v in zip(expr.keys, expr.values):
        if isinstance(x, ast.Attribute):
            out.append((x.attr, v.value if isinstance(v, ast.Constant) else v.attr if isinstance(v, ast.Attribute) else None))
    return out


def limits(c):
    """An encoder keeps the limit it is given."""
    for name, fqn in ENCODERS.items():
        k = c.prog.cls(fqn)
        a = c.am(k, "__init__")
        f = c.method(k, "__init__")
        ps = [p for p in f.params()[0] if p != "self"]
        st = [r for r in a.events("store_attr") if is_self(r.t["base"]) and r.instr.name == LIMIT]
        ok = bool(st) and always(a, st, exc=False) is None and all(all_leaves(a, r.t["val"], is_param(ps[0])) for r in st)
        c.ob("limit", name, ok, f.where, "the limit given is not the one kept")


def exporters_(c):
    """The exporters encode every span with the encoder of their version."""
    from .xp import exporters
    n = 0
    for x in exporters(c):
        if not x.k.mod.name.startswith(Z):
            continue
        n += 1
        init, exp = x.methods["__init__"], x.methods["export"]
        pol = Policy(mods=(Z,))
        params = [p for p in init.params()[0] + list(init.params()[2] or ()) if p != "self"]
        versions = [None]
        if "version" in params:
            versions = ["V1", "V2"]
        for v in versions:
            def eq(a, t, st, v=v):
                if t.op == "eq":
                    for p, q in (t.args, t.args[::-1]):
                        if is_param("version")(p) and q.op == "glob":
                            return q.args[0].rpartition(".")[2] == v
                return None
            a = c.an(init, x.k, policy=pol, oracle=oracle(eq))
            want = ENCODERS["protobuf" if v is None else "json " + v.lower()]
            mk = [r for r in a.calls() if r.instr.fqn in ENCODERS.values()]
            con = x.k.name + (" " + v if v else "") + " " + x.k.mod.name.rpartition("zipkin.")[2]
            c.ob("exporter", con + " encoder", len(mk) >= 1 and all(r.instr.fqn == want for r in mk), mk[0].where if mk else init.where, "uses %s" % [r.instr.fqn for r in mk])
            for r in mk:
                g = c.method(c.prog.cls(want), "__init__")
                pn = [p for p in g.params()[0] if p != "self"][0]
                val = arg(r, 0, pn)
                c.ob("exporter", con + " limit", val is not None and all_leaves(a, val, is_param(LIMIT)), r.where, "the encoder is not given the limit")
            st = [r for r in a.events("store_attr") if is_self(r.t["base"]) and any(l in [m.dst for m in mk] for l in a.leaves(r.t["val"]))]
            c.ob("exporter", con + " kept", bool(st), init.where, "the encoder is not kept")
            enc = {r.instr.name for r in st}
            nodes = [r for r in a.calls(fqn=Z + ".node_endpoint.NodeEndpoint")]
            for r in nodes:
                for i, nm in enumerate(("ipv4", "ipv6", "port")):
                    val = arg(r, i, nm)
                    c.ob("exporter", con + " " + nm, val is not None and all_leaves(a, val, is_param("local_node_" + nm)), r.where, "the local node is given %s" % val)
            node_f = {r.instr.name for r in a.events("store_attr") if is_self(r.t["base"]) and any(l in [m.dst for m in nodes] for l in a.leaves(r.t["val"]))}
            c.ob("exporter", con + " node", bool(nodes) and bool(node_f), init.where, "no local endpoint is kept")
            ct = a.calls(name="content_type")
            c.ob("exporter", con + " content type", bool(ct) or any(r.instr.kind == "enter" and r.instr.name == "content_type" for r in a.recs), init.where, "the content type is not the encoder's")
        b = c.an(exp, x.k, policy=Policy(mods=(Z,), deny=("serialize",)))
        sp = [p for p in exp.params()[0] if p != "self"][0]
        ser = [r for r in b.calls(name="serialize")]
        ok = bool(ser)
        for r in ser:
            ok = ok and self_attr_in(r.t.get("recv"), enc) and len(r.args) >= 2 and ordered(b, r.args[0], is_param(sp)) and all(self_attr_in(l, node_f) for l in b.leaves(r.args[1]))
        c.ob("exporter", con + " serialize", ok, ser[0].where if ser else exp.where, "does not encode the given spans with its own endpoint")
        names = [r for r in b.events("store_attr") if r.instr.name == "service_name" and self_attr_in(r.t["base"], node_f)]
        good = lambda t: mentions(t, lambda y: is_attr("resource")(y) and mentions(y, is_param(sp)))
        c.ob("exporter", con + " service", bool(names) and all(all_leaves(b, r.t["val"], good) for r in names), names[0].where if names else exp.where, "the service name of the endpoint is not the resource's")
        sends_ = [r for r in b.calls() if any(any(l in [s.dst for s in ser] for l in b.leaves(v)) for v in list(r.args) + list(call_kwargs(r).values()))]
        c.ob("exporter", con + " sent", bool(sends_), exp.where, "what was encoded is not sent")
    c.ob("exporter", "exporters", n >= 2, "", "%d Zipkin exporters found" % n)


def self_attr_in(t, names):
    return t is not None and t.op == "attr" and is_self(t.args[0]) and t.args[1] in names
