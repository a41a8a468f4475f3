"""E02: OTLP metrics carry every field of the data point."""
from .e04 import o_type
from .ox import *

NOTE = "Field provenance of every wire message built by encode_metrics, once per point class and value type, with optional parts present and absent; exactly-once coverage of the loops over resources, scopes, metrics, points and exemplars; keys of the grouping dictionaries."

PM = PB + "metrics.v1.metrics_pb2."
REQ = PB + "collector.metrics.v1.metrics_service_pb2.ExportMetricsServiceRequest"
ENTRY = O.rpartition("._")[0] + ".metrics_encoder.encode_metrics"
EXP = "opentelemetry.sdk.metrics.export."
COMMONF = ("attributes", "start_time_unix_nano", "time_unix_nano")
POINTS = {
    "Gauge": ("gauge", "NumberDataPoint", ("attributes", "time_unix_nano")),
    "Sum": ("sum", "NumberDataPoint", COMMONF),
    "Histogram": ("histogram", "HistogramDataPoint", COMMONF + ("count", "sum", "bucket_counts", "explicit_bounds", "max", "min")),
    "ExponentialHistogram": ("exponential_histogram", "ExponentialHistogramDataPoint", COMMONF + ("count", "sum", "scale", "zero_count", "max", "min", "flags")),
}
TEMPORALITY = {"UNSPECIFIED": 0, "DELTA": 1, "CUMULATIVE": 2}


class Data:
    def __init__(self, f):
        self.all = chain(is_param(f.params()[0][0]), "resource_metrics")
        self.rm = elem_of(self.all)
        self.scopes = chain(self.rm, "scope_metrics")
        self.sm = elem_of(self.scopes)
        self.scope = chain(self.sm, "scope")
        self.metrics = chain(self.sm, "metrics")
        self.me = elem_of(self.metrics)
        self.data = chain(self.me, "data")
        self.points = chain(self.data, "data_points")
        self.dp = elem_of(self.points)
        self.exemplars = chain(self.dp, "exemplars")
        self.ex = elem_of(self.exemplars)


def run(c):
    f = c.prog.func(ENTRY)
    R = Roles(c)
    d = Data(f)
    for n in POINTS:
        for t in ("int", "float"):
            a = analyse(c, f, R, d, n, t)
            structure(c, a, f, R, d)
            metric(c, a, f, d, n, R)
            points(c, a, f, R, d, n, t)
        exemplars(c, a, f, R, d, n)
    absent(c, f, R, d)
    k = c.prog.cls(EXP + "AggregationTemporality")
    for n, v in TEMPORALITY.items():
        got = c.prog.const_expr(k.mod, k.attrs[n], k) if n in k.attrs else None
        c.ob("temporality", n, got is not None and got[1] == v, k.mod.path, "has the value %s" % (got,))
    c.floor("point", 20)
    c.floor("exemplar", 4)


def o_class(c, pred, n):
    mine = c.prog.canon(EXP + n)

    def cls(t):
        return t.op == "glob" and c.prog.canon(t.args[0])

    def f(a, x, st):
        if x.op == "isinst" and pred(x.args[0]):
            ks = x.args[1].args if x.args[1].op == "tup" else [x.args[1]]
            return any(cls(k) == mine for k in ks)
        if x.op in ("eq", "is"):
            for p, q in (x.args, x.args[::-1]):
                if q.op == "glob" and (is_call(fqn="builtins.type")(p) and pred(call_args(p)[0]) or p.op == "attr" and p.args[1] == "__class__" and pred(p.args[0])):
                    return cls(q) == mine
        return None
    return f


def optional(d):
    buckets = lambda t: is_attr("bucket_counts", either(chain(d.dp, "positive"), chain(d.dp, "negative")))(t)
    return {"buckets": buckets, "exemplar span": chain(d.ex, "span_id"), "exemplar trace": chain(d.ex, "trace_id"), "exemplars": d.exemplars, "points": d.points, "scope": d.scope}


def analyse(c, f, R, d, n, t, *first):
    opt = optional(d)
    opt.pop("points")
    number = either(chain(d.dp, "value"), chain(d.ex, "value"))
    return c.an(f, None, policy=R.policy(noraise=R.attrs), oracle=oracle(*first, o_type(number, t), o_class(c, d.data, n), o_present(*opt.values())))


def nested(a, obj, path):
    """Entries of a field inside a part of the message, however it is filled."""
    fs = fields(a, obj)
    out = list(fs.get(path, ()))
    head, _, rest = path.partition(".")
    if rest:
        for h, v, i in fs.get(head, ()):
            for l in a.leaves(v):
                if l.op == "call":
                    out += [(hh, vv, ii or i) for hh, vv, ii in nested(a, l, rest)]
    return out


def structure(c, a, f, R, d):
    """Resources, scopes and metrics each become one message."""
    direct = chain(d.rm, "resource")
    for r in a.calls(fqn=PM + "ResourceMetrics"):
        res = lambda t: direct(t) or t.op == "keyof" and keyed(a, t.args[0], direct)
        has(c, "structure", "resource", a, r.dst, r.where, schema_url=chain(res, "schema_url"), resource=resource_message(a, R, res))
        vs = fields(a, r.dst).get("scope_metrics", [])
        item = made_by(PM + "ScopeMetrics")
        e = "it is filled in %d ways" % len(vs) if len(vs) != 1 else None
        for h, v, i in vs if not e else ():
            for l in a.leaves(v):
                S = values_of(a, l)
                if S is None:
                    e = e or mapped(a, v, d.scopes, item, i)
                for s in S or ():
                    e = e or mapped_into(a, a.contents.get(s, ()), d.scopes, item, None, born(a, s)) or (None if keyed(a, s, d.scope) else "scopes are merged by %s" % [k for k, v, i in a.contents.get(s, ())])
        c.ob("structure", "resource.scope_metrics", e is None, r.where, "does not hold every scope: %s" % e)
    for r in a.calls(fqn=PM + "ScopeMetrics"):
        has(c, "structure", "scope", a, r.dst, r.where, schema_url=chain(d.scope, "schema_url"), scope=scope_message(c, a, R, d.scope))
        lists(c, "structure", "scope", a, r, "metrics", d.metrics, made_by(PM + "Metric"))
    for r in a.calls(fqn=REQ):
        vs = fields(a, r.dst).get("resource_metrics", [])
        e = "it is filled in %d ways" % len(vs) if len(vs) != 1 else None
        for h, v, i in vs if not e else ():
            src = lambda t: d.all(t) or t.op == "new" and keyed(a, t, direct) and once_each(a, [x for k, y, x in a.contents[t]], d.all) is None
            e = mapped(a, v, src, made_by(PM + "ResourceMetrics"), i)
        c.ob("structure", "request.resource_metrics", e is None, r.where, "does not hold every resource: %s" % e)
    for n in ("ResourceMetrics", "ScopeMetrics", "Metric"):
        c.ob("structure", n, len(a.calls(fqn=PM + n)) == 1, f.where, "%d %s messages are built" % (len(a.calls(fqn=PM + n)), n))
    returned(c, "structure", a, f, REQ)


def born(a, t):
    return [r.instr for r in a.events("new") if r.dst is t]


def keyed(a, t, pred):
    """A dictionary whose keys all satisfy pred."""
    cs = a.contents.get(t, ())
    return bool(cs) and all(k is not None and all_leaves(a, k, pred) for k, v, i in cs)


def values_of(a, l):
    """Dictionaries whose values are listed: d.values() of a dictionary or of
    each one inside another."""
    if not method_of("values", lambda t: True)(l):
        return None
    b = callee_of(l).args[0]
    if b.op == "elem":
        return [x for k, v, i in a.contents.get(b.args[0], ()) for x in a.leaves(v)] or None
    return [x for x in a.leaves(b)]


def metric(c, a, f, d, n, R):
    kind, point, _ = POINTS[n]
    for r in a.calls(fqn=PM + "Metric"):
        has(c, "metric", n, a, r.dst, r.where, name=chain(d.me, "name"), description=chain(d.me, "description"), unit=chain(d.me, "unit"))
        for other, (k, _, _) in POINTS.items():
            if other != n:
                bad = [p for p in fields(a, r.dst) if p == k or p.startswith(k + ".")]
                c.ob("kind", n, not bad, r.where, "is sent as %s" % bad)
        want = {"Sum": ("aggregation_temporality", "is_monotonic"), "Gauge": ()}.get(n, ("aggregation_temporality",))
        for w in want:
            vs = nested(a, r.dst, kind + "." + w)
            c.ob("metric", "%s.%s" % (n, w), len(vs) == 1 and all_leaves(a, vs[0][1], chain(d.data, w)), r.where, "is filled from %s" % [v for h, v, i in vs])
        vs = nested(a, r.dst, kind + ".data_points")
        e = listed(a, vs, d.points, made_by(PM + point), [r.instr])
        c.ob("metric", n + ".data_points", e is None, r.where, "does not list every point: %s" % e)


def listed(a, vs, src, item, at=None):
    sets = [(v, i) for h, v, i in vs if h == "set"]
    items = [(None, v, i) for h, v, i in vs if h == "item"]
    if len(sets) + len(items) != len(vs) or bool(sets) == bool(items) or len(sets) > 1:
        return "the field is filled in %d ways" % len(vs)
    return mapped(a, sets[0][0], src, item, sets[0][1]) if sets else mapped_into(a, items, src, item, None, at)


def points(c, a, f, R, d, n, t):
    kind, point, names = POINTS[n]
    made = a.calls(fqn=PM + point)
    c.ob("point", n, bool(made), f.where, "no point message is built")
    for r in made:
        spec = {w: chain(d.dp, w) for w in names}
        spec["attributes"] = attrs_of(a, R, chain(d.dp, "attributes"))
        has(c, "point", n, a, r.dst, r.where, **spec)
        e = listed(a, fields(a, r.dst).get("exemplars", []), d.exemplars, made_by(PM + "Exemplar"), [r.instr])
        c.ob("point", n + ".exemplars", e is None, r.where, "does not list every exemplar: %s" % e)
        if point == "NumberDataPoint":
            value(c, "point", n, a, r, chain(d.dp, "value"), t)
        if n == "Gauge" and "start_time_unix_nano" in fields(a, r.dst):
            has(c, "point", n, a, r.dst, r.where, start_time_unix_nano=chain(d.dp, "start_time_unix_nano"))
        if n == "ExponentialHistogram":
            for side in ("positive", "negative"):
                for w in ("offset", "bucket_counts"):
                    vs = nested(a, r.dst, side + "." + w)
                    bad = [l for h, v, i in vs for l in a.leaves(v) if not chain(d.dp, side + "." + w)(l)]
                    c.ob("point", "%s.%s.%s" % (n, side, w), bool(vs) and not bad, r.where, "is filled from %s" % bad)
                vs = fields(a, r.dst).get(side, [])
                bad = [l for h, v, i in vs for l in a.leaves(v) if not made_by(PM + "ExponentialHistogramDataPoint.Buckets")(l)]
                c.ob("point", "%s.%s" % (n, side), not bad, r.where, "may be %s" % bad)


def value(c, rule, n, a, r, pred, t):
    fs = fields(a, r.dst)
    mine, other = ("as_int", "as_double") if t == "int" else ("as_double", "as_int")
    vs = fs.get(mine, [])
    c.ob(rule, "%s %s" % (n, t), len(vs) >= 1 and all(all_leaves(a, v, pred) for h, v, i in vs) and other not in fs, r.where, "a value of type %s is sent as %s" % (t, [(k, str(v)) for k in (mine, other) for h, v, i in fs.get(k, ())]))
    if vs and vs[0][2] is not None and vs[0][2] is not r.instr:
        end = [x.instr for x in a.calls(name=("append", "extend")) if x.args and any(l is r.dst for l in a.leaves(x.args[0]))]
        p = [e for e in end if not a.dominated(e, [i for h, v, i in vs])]
        c.ob(rule + "-value", "%s %s" % (n, t), not p, r.where, "the value may not be set")


def exemplars(c, a, f, R, d, n):
    for t in ("int", "float"):
        a = analyse(c, f, R, d, n, t)
        made = a.calls(fqn=PM + "Exemplar")
        c.ob("exemplar", n, bool(made), f.where, "no exemplar message is built")
        for r in made:
            has(c, "exemplar", n, a, r.dst, r.where, time_unix_nano=chain(d.ex, "time_unix_nano"), span_id=ident(8, chain(d.ex, "span_id")), trace_id=ident(16, chain(d.ex, "trace_id")), filtered_attributes=attrs_of(a, R, chain(d.ex, "filtered_attributes")))
            value(c, "exemplar", n, a, r, chain(d.ex, "value"), t)


def absent(c, f, R, d):
    """A point without exemplars, an exemplar outside a span and an empty
    bucket range are still sent."""
    for con, src in optional(d).items():
        if con in ("points", "exemplars", "buckets"):
            continue
        for n in POINTS:
            a = analyse(c, f, R, d, n, "int", o_absent(src))
            if con == "scope":
                bad = [x for x in dereferences(a, src) if x.instr.name != "schema_url"]
                c.ob("absent", con, not bad, bad[0].where if bad else f.where, "is used although it may be missing")
                continue
            bad = dereferences(a, src)
            c.ob("absent", con, not bad, bad[0].where if bad else f.where, "is used although it may be missing")
            for r in a.calls(fqn=PM + "Exemplar"):
                has(c, "absent", con, a, r.dst, r.where, time_unix_nano=chain(d.ex, "time_unix_nano"), filtered_attributes=attrs_of(a, R, chain(d.ex, "filtered_attributes")))
                value(c, "absent", con, a, r, chain(d.ex, "value"), "int")
            for r in a.calls(fqn=PM + POINTS[n][1]):
                e = listed(a, fields(a, r.dst).get("exemplars", []), d.exemplars, made_by(PM + "Exemplar"), [r.instr])
                c.ob("absent", con, e is None, r.where, "the exemplar is lost: %s" % e)
    for side in ("positive", "negative"):
        src = is_attr("bucket_counts", chain(d.dp, side))
        other = "negative" if side == "positive" else "positive"
        a = analyse(c, f, R, d, "ExponentialHistogram", "int", o_truth(src, False))
        for r in a.calls(fqn=PM + "ExponentialHistogramDataPoint"):
            vs = nested(a, r.dst, other + ".bucket_counts")
            c.ob("absent", side + " buckets", bool(vs) and all(all_leaves(a, v, chain(d.dp, other + ".bucket_counts")) for h, v, i in vs), r.where, "the other range is lost too")
