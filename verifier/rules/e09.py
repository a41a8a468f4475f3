"""E09: a Prometheus scrape reflects every metric with its right type."""
import re
from .ox import *
from .bx import glob_call
from .mx import Policy  # noqa: F401

NOTE = "The scrape (the collector's collect with the translation inlined) is propagated once per data type: coverage of the nested loops from the resources down to the data points (parallel lists count when each gets one entry per point), the family class built, the provenance of its name, help, unit, labels and of the value of every sample, separation of families by name, label names and type; attributes read from a data point must exist on its class; the character classes of the sanitisers; one translation per scrape after the callback; the reader's requested temporalities and registration."

M = "opentelemetry.exporter.prometheus"
PC = "prometheus_client.core."
POL = Policy(mods=(M,))
SDK = "opentelemetry.sdk.metrics._internal.point."
TYPES = {
    # name: (data class, point class, monotonic, cumulative, family)
    "monotonic sum": ("Sum", "NumberDataPoint", True, "CounterMetricFamily"),
    "sum": ("Sum", "NumberDataPoint", False, "GaugeMetricFamily"),
    "gauge": ("Gauge", "NumberDataPoint", None, "GaugeMetricFamily"),
    "histogram": ("Histogram", "HistogramDataPoint", None, "HistogramMetricFamily"),
    "exponential histogram": ("ExponentialHistogram", "ExponentialHistogramDataPoint", None, None),
}
LEVELS = ("resource_metrics", "scope_metrics", "metrics", "data_points")


def run(c):
    ks = [k for k in c.prog.classes.values() if k.mod.name.startswith(M) and c.prog.find_method(k, "collect") is not None and "Collector" in k.name] or [k for k in c.prog.classes.values() if k.mod.name.startswith(M) and c.prog.find_method(k, "collect") and not c.prog.find_method(k, "_receive_metrics")]
    c.ob("collector", M, len(ks) == 1, "", "%d collectors found" % len(ks))
    k = ks[0]
    f = c.method(k, "collect")
    ids = {}
    for n, spec in TYPES.items():
        World(c, k, f, n, spec, ids)
    names = [v for v in ids.values() if v]
    c.ob("family", "types apart", len({frozenset(v) for v in (ids.get("monotonic sum"), ids.get("gauge"), ids.get("histogram")) if v}) == 3, f.where, "metrics of two types share one family")
    scrape(c, k, f)
    sanitizers(c)
    reader(c, k)
    c.floor("family", 20)
    c.floor("sample", 12)
    c.floor("labels", 8)
    c.floor("coverage", 12)


def data_is(cls, point, mono):
    is_data_ = is_attr("data")
    is_point = elem_of(is_attr("data_points"))

    def o(a, t, st):
        if t.op == "isinst":
            cs = t.args[1].args if t.args[1].op == "tup" else [t.args[1]]
            ns = [x.args[0].rpartition(".")[2] for x in cs if x.op == "glob"]
            if is_data_(t.args[0]):
                return cls in ns
            if is_point(t.args[0]):
                return point in ns
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if x.op == "attr" and x.args[1] == "__class__" or glob_call(x, "builtins.type"):
                    b = x.args[0] if x.op == "attr" else call_args(x)[0]
                    if y.op == "glob" and (is_data_(b) or is_point(b)):
                        return y.args[0].rpartition(".")[2] == (cls if is_data_(b) else point)
                if is_attr("is_monotonic")(x) and is_const(y) and isinstance(y.args[0], bool) and mono is not None:
                    return y.args[0] == mono
                if is_attr("aggregation_temporality")(x) and y.op == "glob":
                    return y.args[0].endswith(".CUMULATIVE")
        m = t.args[0] if t.op == "istrue" else t
        if is_attr("is_monotonic")(m) and mono is not None:
            return mono
        return None
    return o


class World:
    def __init__(self, c, k, f, name, spec, ids):
        self.c, self.f, self.name = c, f, name
        cls, point, mono, fam = spec
        self.cls, self.point = cls, point
        self.a = a = c.an(f, k, policy=POL, oracle=oracle(data_is(cls, point, mono)))
        self.pts = is_attr("data_points")
        self.PT = lambda t: any(elem_of(self.pts)(x) for x in self.deref(t))
        self.MT = lambda t: bool(self.deref(t)) and all(elem_of(is_attr("metrics"))(x) for x in self.deref(t))
        made = [r for r in a.calls() if (r.instr.fqn or "").startswith("prometheus_client") and r.instr.name.endswith("MetricFamily") and r.instr.name != "InfoMetricFamily"]
        if fam is None:
            self.skipped(made)
            return
        self.exists()
        ids[name] = self.families(made, fam)
        adds = [r for r in a.calls(name=("add_metric", "add_sample"))]
        adds = [r for r in adds if not all(glob_call(l, PC + "InfoMetricFamily") or l.op == "call" and l.args[1].op == "glob" and "InfoMetricFamily" in l.args[1].args[0] for l in a.leaves(r.t["recv"]))]
        self.adds = adds
        self.samples(adds, made, fam)
        self.coverage(adds)

    def ob(self, rule, what, ok, where, msg):
        return self.c.ob(rule, self.name + "/" + what, ok, where or self.f.where, msg)

    # -- following values through the intermediate lists -----------------------------
    def deref(self, t, seen=()):
        """Leaves of the value, entries of local lists replaced by what was put
        there."""
        a, out = self.a, []
        for l in a.leaves(t):
            if l in seen:
                continue
            if l.op == "elem":
                done = False
                for s in a.leaves(l.args[0]):
                    if s.op == "new" and a.contents.get(s):
                        done = True
                        for k_, v, i in a.contents[s]:
                            out += self.deref(v, tuple(seen) + (l,))
                if done:
                    continue
            if l.op == "item" and is_const(l.args[1]):
                bs = [x for x in self.deref(l.args[0], tuple(seen) + (l,))]
                got = [v for x in bs if x.op == "new" for k_, v, i in a.contents.get(x, ()) if k_ is not None and is_const(k_) and k_.args[0] == l.args[1].args[0]]
                if got:
                    for v in got:
                        out += self.deref(v, tuple(seen) + (l,))
                    continue
            out.append(l)
        return list(dict.fromkeys(out))

    def of(self, t, pred):
        ls = self.deref(t)
        return bool(ls) and all(pred(l) for l in ls)

    def metric(self, name):
        """Predicate: the attribute of the metric being translated."""
        return lambda t: is_attr(name)(t) and self.MT(t.args[0])

    def point_attr(self, name):
        return lambda t: is_attr(name)(t) and self.PT(t.args[0])

    # -- an unsupported type ----------------------------------------------------------
    def skipped(self, made):
        a = self.a
        self.ob("unsupported", "no family", not made, made[0].where if made else "", "a family is built for data that has no representation")
        logs = [r for r in logger_calls(a) if r.instr.name in ("warning", "error", "exception")]
        self.ob("unsupported", "logged", bool(logs), "", "nothing is logged for data that has no representation")
        lps = self.loops("metrics")
        mine = [lp for lp in lps if any(r.block in loop_body(a, lp) for r in logs)]
        stops = [r for lp in mine for r in a.recs if r.instr.kind == "raise" and r.block in loop_body(a, lp) and r.block in a.reach]
        self.ob("unsupported", "goes on", bool(mine) and not stops and not any(loop_breaks(a, lp) for lp in mine), mine[0].where if mine else "", "the other metrics are lost")
        self.exists()

    def exists(self):
        """Attributes read from a data point exist on its class."""
        a, c = self.a, self.c
        k = next((x for x in c.prog.classes.values() if x.name == self.point and x.mod.name.startswith("opentelemetry.sdk.metrics")), None)
        known = set()
        for m in c.prog.mro(k):
            known |= set(m.attrs) | set(m.ann if hasattr(m, "ann") else ()) | set(m.methods)
        known |= set(class_fields(k))
        bad = [r for r in a.recs if r.instr.kind == "attr" and r.block in a.reach and elem_of(self.pts)(r.t["base"]) and r.instr.name not in known and not r.instr.name.startswith("__")]
        self.ob("sample", "point", not bad, bad[0].where if bad else "", "reads %s of a %s, which has none" % (bad[0].instr.name if bad else "", self.point))

    # -- families ----------------------------------------------------------------------
    def families(self, made, fam):
        a = self.a
        self.ob("family", "type", bool(made) and all(r.instr.name == fam for r in made), made[0].where if made else "", "becomes %s" % [r.instr.name for r in made])
        sig = set()
        for r in made:
            name, doc, labels, unit = arg(r, 0, "name"), arg(r, 1, "documentation"), arg(r, None, "labels"), arg(r, None, "unit")
            self.ob("family", "name", name is not None and self.of(name, lambda t: self.cleaned(t, self.metric("name"))), r.where, "the name is %s" % name)
            self.ob("family", "help", doc is not None and self.of(doc, lambda t: self.metric("description")(t) or is_const(t) and t.args[0] == "") and any(self.metric("description")(x) for x in self.deref(doc)), r.where, "the help text is %s" % doc)
            self.ob("family", "unit", unit is not None and any(mentions(x, lambda y: is_attr("unit")(y) and self.MT(y.args[0])) for x in a.leaves(unit)), r.where, "the unit is %s" % unit)
            self.ob("labels", "names of the family", labels is not None and self.of(labels, self.label_list), r.where, "the label names are %s" % labels)
            # where it is kept
            for s in a.events("store_item"):
                if any(x is r.dst for x in a.leaves(s.t["val"])):
                    sig |= self.identity(s.t["key"], s)
            for s in a.calls(name="setdefault"):
                if len(s.args) > 1 and any(x is r.dst for x in a.leaves(s.args[1])):
                    sig |= self.identity(s.args[0], s)
        return sig

    def identity(self, key, r):
        a = self.a
        src = [x for t in a.sources(key) for x in [t]]
        more = list(src)
        for t in src:
            more += self.deref(t)
            if t.op == "tup":
                more += list(t.args)
        deep = set()
        for t in more:
            deep |= set(a.sources(t))
            for y in self.deref(t):
                deep |= set(a.sources(y))
        has_name = any(self.metric("name")(t) for t in deep)
        has_keys = any(t.op == "keyof" and self.point_attr("attributes")(t.args[0]) for t in deep)
        self.ob("family", "by name", has_name, r.where, "metrics of different names share a family")
        self.ob("family", "by labels", has_keys, r.where, "points with different label names share a family")
        return {repr((t.op,) + tuple(x for x in t.args if isinstance(x, str))) for t in deep if t.op in ("const", "glob", "attr") and (t.op != "attr" or t.args[1].startswith("__"))} | {str(x) for t in deep if t.op == "attr" and t.args[1].startswith("__") for x in [t.args[0].args]}

    def cleaned(self, t, pred):
        """The name with every character that is not allowed replaced."""
        k = callee_of(t)
        if k is None:
            return False
        if k.op == "attr" and k.args[1] == "sub":
            v = call_args(t)[1] if len(call_args(t)) > 1 else None
        elif k.op == "glob" and k.args[0] == "re.sub":
            v = call_args(t)[2]
        elif k.op == "glob" and "sanitize" in k.args[0]:
            v = call_args(t)[0]
        else:
            return False
        if v is None:
            return False
        return all(any(pred(y) for y in [x] + parts(x)) for x in self.a.leaves(v))

    # -- labels ---------------------------------------------------------------------------
    def label_list(self, l):
        """A list of the cleaned attribute names of the point."""
        a = self.a
        if l.op != "new" or not a.contents.get(l):
            return False
        e = mapped_any(a, l, self.point_attr("attributes"), lambda x: self.cleaned(x, lambda y: y.op == "keyof" and self.point_attr("attributes")(y.args[0])))
        return e is None

    def value_list(self, l):
        a = self.a
        if l.op != "new" or not a.contents.get(l):
            return False
        at = self.point_attr("attributes")
        v = lambda y: y.op == "elem" and at(y.args[0])

        def text(x):
            return v(x) or glob_call(x, "builtins.str", "json.dumps") and bool(call_args(x)) and v(call_args(x)[0])
        return mapped_any(a, l, at, text) is None

    # -- samples ---------------------------------------------------------------------------
    def samples(self, adds, made, fam):
        a = self.a
        self.ob("sample", "sent", bool(adds), "", "no sample is added")
        for r in adds:
            labels, value = arg(r, 0, "labels"), arg(r, 1, "value")
            ok = labels is not None and self.of(labels, self.value_list)
            self.ob("labels", "values", ok, r.where, "the label values are %s" % labels)
            fams = [m for m in made]
            names = [x for m in fams if arg(m, None, "labels") is not None for x in self.deref(arg(m, None, "labels"))]
            vals = self.deref(labels) if labels is not None else []
            self.ob("labels", "pairing", bool(names) and bool(vals) and all(same_order(a, x, y) for x in names for y in vals), r.where, "names and values of the labels are not listed in the same order")
            recv = [x for x in a.leaves(r.t["recv"])]
            ok = bool(recv) and all(self.is_family(x, made) for x in recv)
            self.ob("sample", "family", ok, r.where, "is added to %s" % (recv or ["nothing"])[0])
            if fam != "HistogramMetricFamily":
                self.ob("sample", "value", value is not None and self.of(value, self.point_attr("value")), r.where, "the value is %s" % value)
            else:
                b, s = arg(r, 1, "buckets"), arg(r, 2, "sum_value")
                self.ob("sample", "sum", s is not None and self.of(s, self.point_attr("sum")), r.where, "the sum is %s" % s)
                self.ob("sample", "buckets", b is not None, r.where, "has no buckets")
                if b is not None:
                    self.buckets(b, r)

    def is_family(self, x, made):
        a = self.a
        if any(x is m.dst for m in made):
            return True
        b = k = None
        if x.op == "item":
            b, k = x.args
        elif callee_of(x) is not None and callee_of(x).op == "attr" and callee_of(x).args[1] in ("get", "setdefault") and call_args(x):
            b, k = callee_of(x).args[0], call_args(x)[0]
        if b is None:
            return False
        for d in a.leaves(b):
            vs = [(kk, v) for kk, v, i in a.contents.get(d, ()) if kk is None or not is_const(kk)]
            if not vs or any(kk is not k for kk, v in vs) or not all(any(l is m.dst for m in made) for kk, v in vs for l in a.leaves(v)):
                return False
        return True

    def buckets(self, b, r):
        """Pairs (bound, running total), the last bound +Inf."""
        a = self.a
        counts, bounds = self.point_attr("bucket_counts"), self.point_attr("explicit_bounds")
        ok, msg = True, ""
        ls = [l for l in a.leaves(b)]
        for l in ls:
            cs = a.contents.get(l, ())
            if l.op != "new" or not cs:
                ok, msg = False, str(l)
                continue
            for k_, v, i in cs:
                for p in a.leaves(v):
                    if p.op != "tup" or len(p.args) != 2:
                        ok, msg = False, "an entry is %s" % p
                        continue
                    if not any(self.bound(x, bounds) for x in [p.args[0]]):
                        ok, msg = False, "a bound is %s" % p.args[0]
                    if not self.total(p.args[1], counts, i):
                        ok, msg = False, "a count is %s, not the running total" % p.args[1]
            ins = [i for k_, v, i in cs]
            lps = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for i in ins)]
            lp = lps[-1] if lps else None
            inner = [x for x in lps if not any(y is not x and y.block in loop_body(a, x) and any(i.block in loop_body(a, y) for i in ins) for y in lps)]
            if not inner or any(loop_skips(a, x, ins) is not None or loop_breaks(a, x) for x in inner):
                ok, msg = False, "a bucket may be left out"
            for x in inner:
                if not self.over_counts(x.t["iter"], counts, bounds):
                    ok, msg = False, "not every bucket is listed"
        self.ob("sample", "bucket counts", ok and bool(ls), r.where, "the buckets are not the cumulative counts: %s" % msg)

    def over_counts(self, it, counts, bounds):
        a = self.a
        full = lambda t: self.of(t, counts)

        def ends(t):
            for l in self.deref(t):
                k = callee_of(l)
                if k is not None and k.op == "glob" and k.args[0] == "itertools.chain":
                    x = call_args(l)
                    if len(x) == 2 and self.of(x[0], bounds) and all(inf(a, y) for y in a.leaves(x[1])):
                        continue
                if l.op in ("new", "tup") or l.op == "bin" and l.args[0] == "Add":
                    if l.op == "bin" and any(self.of(y, bounds) or mentions(y, bounds) for y in l.args[1:2]) and all(inf(a, z) for z in a.leaves(l.args[2])):
                        continue
                    vs = [v for k_, v, i in a.contents.get(l, ())] + [x for x in l.args if isinstance(x, Term)]
                    if any(x.op in ("star", "elem") and self.of(x.args[0], bounds) for x in vs) and any(is_const(x) and x.args[0] == "+Inf" for x in vs):
                        continue
                return False
            return True
        for l in a.leaves(it):
            k = callee_of(l)
            if k is not None and k.op == "glob" and k.args[0] == "builtins.zip":
                xs = call_args(l)
                if not (any(full(x) for x in xs) and any(ends(x) for x in xs) and len(xs) == 2):
                    return False
            elif k is not None and k.op == "glob" and k.args[0] == "builtins.enumerate":
                if not full(call_args(l)[0]):
                    return False
            elif not full(l):
                return False
        return True

    def bound(self, t, bounds):
        return mentions(t, bounds) or any(mentions(x, lambda y: any(bounds(z) for z in self.deref(y))) for x in self.a.sources(t))

    def total(self, t, counts, at):
        """The sum of the counts up to and with this one."""
        a = self.a
        for l in a.leaves(t):
            if l.op != "bin" or l.args[0] != "Add":
                k = callee_of(l)
                return k is not None and k.op == "glob" and k.args[0] == "builtins.sum" or l.op == "elem" and glob_call(l.args[0], "itertools.accumulate") and self.of(call_args(l.args[0])[0], counts)
            x, y = l.args[1:]
            one = [p for p, q in ((x, y), (y, x)) if self.of_elem(p, counts) and self.running(q, l)]
            if not one:
                return False
        return True

    def of_elem(self, t, counts):
        return t.op == "elem" and self.of(t.args[0], counts) or t.op == "item" and self.of(t.args[0], counts)

    def running(self, t, total):
        ls = self.a.leaves(t)
        return bool(ls) and all(is_const(x) and x.args[0] == 0 or x is total for x in ls)

    # -- coverage ------------------------------------------------------------------------------
    def loops(self, level):
        a = self.a
        out = []
        for lp in a.events("loop"):
            if ordered(a, lp.t["iter"], is_attr(level), perm=True):
                out.append(lp)
            elif level == "metrics":
                ls = a.leaves(lp.t["iter"])
                if ls and all(x.op == "new" and a.contents.get(x) and all(elem_of(is_attr("metrics"))(y) for k_, v, i in a.contents[x] for y in a.leaves(v)) for x in ls):
                    out.append(lp)
        return out

    def lists_of_points(self, lp):
        """The loop runs over lists that hold one entry per data point."""
        a = self.a
        for l in a.leaves(lp.t["iter"]):
            k = callee_of(l)
            xs = [y for x in call_args(l) for y in a.leaves(x)] if k is not None and k.op == "glob" and k.args[0] in ("builtins.zip", "builtins.enumerate") else [l]
            for x in xs:
                if self.pts(x):
                    continue
                if x.op != "new" or not a.contents.get(x):
                    return None
                ins = [i for k_, v, i in a.contents[x]]
                born = [r.instr for r in a.events("new") if r.dst is x]
                e = once_each(a, ins, self.pts, born=born)
                if e:
                    return e
        return True

    def coverage(self, adds):
        a = self.a
        ins = [r.instr for r in adds]
        for level, up in zip(LEVELS[1:], LEVELS):
            lps, ups = self.loops(level), self.loops(up)
            direct = [lp for lp in lps if ordered(a, lp.t["iter"], is_attr(level), perm=True)]
            ok = (bool(direct) or level == "metrics" and bool(lps)) and bool(ups)
            for u in ups:
                inner = [lp for lp in direct if lp.block in loop_body(a, u)]
                if level == "metrics":
                    inner += [r for r in a.calls(name=("extend", "__iadd__")) if r.block in loop_body(a, u) and any(r.t["recv"] is l for l in self.lists()) and all_leaves(a, r.args[0], is_attr("metrics"))]
                if not inner and up == "resource_metrics" and any(lp.block in loop_body(a, x) for x in ups for lp in direct):
                    continue  # reads the resources only
                if not inner and u in self.loops("metrics") and not self.via(u):
                    # this loop only collects the metrics into a list
                    own = [i for x in self.lists() for k_, v, i in a.contents[x] if i.block in loop_body(a, u)]
                    ok = ok and bool(own) and loop_skips(a, u, own) is None and not loop_breaks(a, u)
                    continue
                ok = ok and bool(inner) and loop_skips(a, u, inner) is None and not loop_breaks(a, u)
            self.ob("coverage", level, ok, ups[0].where if ups else "", "%s of some %s are not visited" % (level, up))
        # the samples
        points = self.loops("data_points")
        loops = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for i in ins)]
        inner = [x for x in loops if not any(y is not x and y.block in loop_body(a, x) for y in loops)]
        ok, msg = bool(inner), "no loop adds the samples"
        for lp in inner:
            if lp not in points:
                e = self.lists_of_points(lp)
                if e is not True:
                    ok, msg = False, e or "the samples are not added per data point"
                mloops = [m for m in self.loops("metrics") if lp.block in loop_body(a, m)]
                if not mloops or any(loop_skips(a, m, [lp]) is not None for m in mloops):
                    ok, msg = False, "the samples of a metric may be left out"
            if loop_skips(a, lp, ins) is not None or loop_breaks(a, lp):
                ok, msg = False, "the sample of a data point may be left out"
            for i in ins:
                for j in ins:
                    p = a.path_avoiding(i, [lp.instr], [j.block]) if i is not j else None
                    if p:
                        ok, msg = False, "a sample may be added twice"
        self.ob("coverage", "samples", ok, inner[0].where if inner else "", msg)

    def lists(self):
        a = self.a
        return [l for lp in self.loops("metrics") for l in a.leaves(lp.t["iter"]) if l.op == "new" and a.contents.get(l)]

    def via(self, u):
        a = self.a
        return any(l.op == "new" for l in a.leaves(u.t["iter"]))


def parts(x):
    """The text with its first characters replaced: `"_" + x[1:]`."""
    out = []
    if x.op == "bin" and x.args[0] == "Add":
        for y in x.args[1:]:
            out += [y] + parts(y)
    if x.op in ("slice", "fstr", "concat"):
        for y in x.args:
            if isinstance(y, Term):
                out += [y] + parts(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, Term):
                        out += [z] + parts(z)
    return out


def inf(a, l):
    vs = [v for k_, v, i in a.contents.get(l, ())] + [x for x in l.args if isinstance(x, Term)]
    return bool(vs) and all(is_const(v) and v.args[0] == "+Inf" or glob_call(v, "builtins.float") for v in vs)


def mapped_any(a, l, src, item):
    cs = a.contents[l]
    bad = [x for k_, v, i in cs for x in a.leaves(v) if not item(x)]
    if bad:
        return "an entry is %s" % bad[0]
    return once_each(a, [i for k_, v, i in cs], src, order=False, born=[r.instr for r in a.events("new") if r.dst is l])


def same_order(a, x, y):
    """Two lists are filled by the same loop, or by loops over equal orders."""
    if x.op != "new" or y.op != "new":
        return False

    def loop_of(l):
        ins = [i for k_, v, i in a.contents.get(l, ())]
        lps = [lp for lp in a.events("loop") if any(i.block in loop_body(a, lp) for i in ins)]
        return [p for p in lps if not any(q is not p and q.block in loop_body(a, p) and any(i.block in loop_body(a, q) for i in ins) for q in lps)]
    p, q = loop_of(x), loop_of(y)
    if not p or not q:
        return False
    if [r.instr for r in p] == [r.instr for r in q]:
        return True

    def shape(t):
        k = callee_of(t)
        if k is not None and k.op == "glob" and k.args[0] in ("builtins.sorted", "builtins.list", "builtins.tuple"):
            return (k.args[0],) + tuple(sorted(str(v) for v in kwof(t).items())) + shape(call_args(t)[0])
        if k is not None and k.op == "attr":
            return (k.args[1], str(k.args[0]))
        return (str(t),)
    return len(p) == len(q) == 1 and all(shape(u) == shape(v) for u in a.leaves(p[0].t["iter"]) for v in a.leaves(q[0].t["iter"]))


def class_fields(k):
    import ast
    out = []
    for m in [k]:
        for s in m.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.append(s.target.id)
            elif isinstance(s, ast.FunctionDef):
                out.append(s.name)
    return out


def scrape(c, k, f):
    """One translation per scrape, of data taken after the reader collected;
    every family is yielded."""
    a = c.an(f, k, policy=POL, oracle=lambda A, t, st: True if (t.args[0] if t.op == "istrue" else t).op == "new" and (t.args[0] if t.op == "istrue" else t).args[1] == "dict" else None)
    cb = [r for r in a.calls() if r.dst is not None and callee_of(r.dst) is not None and callee_of(r.dst).op == "attr" and is_self(callee_of(r.dst).args[0]) and c.prog.find_method(k, callee_of(r.dst).args[1]) is None]
    takes = [lp for lp in a.events("loop") if ordered(a, lp.t["iter"], is_attr("resource_metrics"), perm=True) and any(is_attr("scope_metrics")(x) for r in a.events("loop") for x in a.leaves(r.t["iter"]) if r.block in loop_body(a, lp))]
    c.ob("scrape", "collects", bool(cb), f.where, "the reader is not asked to collect")
    c.ob("scrape", "translated", bool(takes), f.where, "nothing is translated")
    again = [p for p in takes if repeats(a, p, takes)]
    c.ob("scrape", "once", not again, again[0].where if again else f.where, "one scrape may report two collections, every series twice")
    for p in takes:
        ok = all(not back(a, p, r) for r in cb)
        c.ob("scrape", "after the collection", ok and bool(cb), p.where, "data is translated before the reader collected")
        src = [x.args[0] for x in a.sources(p.t["iter"]) if is_attr("resource_metrics")(x)]
        reads = [r for r in a.recs if r.dst is not None and r.instr.kind in ("call", "attr", "item") and any(r.dst is l for x in src for l in a.leaves(x))]
        early = [r for r in reads for b in cb if a.path_avoiding(r.instr, [], [b.block]) or r.block is b.block and r.block.instrs.index(r.instr) < b.block.instrs.index(b.instr)]
        c.ob("scrape", "taken after the collection", bool(reads) and not early, early[0].where if early else p.where, "the data of an earlier collection is taken")
    ys = [r for r in a.events("yield") if r.block in a.reach] + [r for r in a.rets() if not all(is_const(l) and l.args[0] is None for l in a.leaves(r.t["val"]))]
    dicts = {d for s in a.events("store_item") for d in a.leaves(s.t["base"]) if any("MetricFamily" in str(l) for l in a.leaves(s.t["val"]))}
    good = []
    for y in ys:
        for l in a.leaves(y.t["val"]):
            x = l
            while x.op == "elem" or callee_of(x) is not None and (callee_of(x).op == "attr" and callee_of(x).args[1] == "values" or callee_of(x).op == "glob" and callee_of(x).args[0] in KEEP_ORDER):
                x = x.args[0] if x.op == "elem" else callee_of(x).args[0] if callee_of(x).op == "attr" else call_args(x)[0]
            if x in dicts:
                good.append(y)
    c.ob("scrape", "yields", bool(good), f.where, "the families are not reported")
    for y in good:
        before = [p for p in takes if not a.path_avoiding(p.instr, [], [y.block])]
        c.ob("scrape", "yields all", not before, y.where, "families are reported before they are complete")
    shown = [y.instr for y in good]
    shown += [lp.instr for lp in a.events("loop") if any(y.block in loop_body(a, lp) for y in good) and loop_skips(a, lp, good) is None and not any(p.block in loop_body(a, lp) for p in takes)]
    for p in takes:
        done = [e.dst for e in p.block.succs if e.label == "done"]
        for d in done:
            w = a.path_avoiding(d, shown, a.exit_blocks(exc=False), skip_first=False)
            c.ob("scrape", "reported", not w, p.where, "the families may be left out")
    # target info
    infos = [r for r in a.calls() if r.instr.name == "InfoMetricFamily"]
    flag = is_attr("_disable_target_info")
    on = c.an(f, k, policy=POL, oracle=oracle(o_truth(flag, False)))
    off = c.an(f, k, policy=POL, oracle=oracle(o_truth(flag, True)))
    rs = lambda x: [r for r in x.calls() if r.instr.name == "InfoMetricFamily" and r.block in x.reach]
    c.ob("target", "on", bool(rs(on)), f.where, "no target info is built")
    c.ob("target", "off", not rs(off), f.where, "target info is built although it is disabled")
    for r in rs(on):
        v = [x for m in on.calls(name="add_metric") if m.block in on.reach and r.dst in on.leaves(m.t["recv"]) for x in on.sources(arg(m, None, "value") or on.T.const(None))]
        c.ob("target", "attributes", any(is_attr("attributes")(x) and is_attr("resource")(x.args[0]) for x in v), r.where, "the target info is not the resource's")


def repeats(a, p, takes):
    for e in p.block.succs:
        if e.label == "done":
            if a.path_avoiding(e.dst, [], [q.block for q in takes], skip_first=False):
                return True
    return False


def back(a, p, r):
    """A way from the translation to the collection."""
    return any(e.label == "done" and a.path_avoiding(e.dst, [], [r.block], skip_first=False) for e in p.block.succs)


def sanitizers(c):
    """What the sanitisers let through, and leading digits."""
    from . import rx
    for n, ok_chars in (("sanitize_full_name", "_:"), ("sanitize_attribute", "_")):
        f = next((f for f in c.prog.funcs.values() if f.mod.name.startswith(M) and f.name == n), None)
        if f is None:
            c.ob("names", n, False, "", "not found")
            continue
        a = c.an(f, None, policy=POL)
        p = f.params()[0][0]
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                pat = pattern(c, l)
                cs = kept(pat)
                good = pat is not None and cs is not None and all(ch.isascii() and (ch.isalnum() or ch in ok_chars) for ch in cs)
                c.ob("names", n + " characters", good, r.where, "lets %r through" % "".join(sorted(ch for ch in cs or "?" if not (ch.isascii() and (ch.isalnum() or ch in ok_chars))))[:20])
                rep = repl(l)
                c.ob("names", n + " replacement", rep is not None and rep != "" and all(ch.isalnum() or ch == "_" for ch in rep), r.where, "replaces with %r" % rep)
        digit = lambda t: t.op == "call" and callee_of(t).op == "attr" and callee_of(t).args[1] in ("isdigit", "isdecimal", "isnumeric")
        b = c.an(f, None, policy=POL, oracle=oracle(o_truth(digit, True), o_truth(is_param(p), True)))
        for r in b.rets():
            for l in b.leaves(r.t["val"]):
                v = (call_args(l) or [None])[-1] if l.op == "call" else None
                ls = b.leaves(v) if v is not None else []
                ok = bool(ls) and all(starts_safe(x) for x in ls)
                c.ob("names", n + " digit", ok, r.where, "a leading digit stays: %s" % (ls or [l])[0])


def starts_safe(x):
    if x.op == "bin" and x.args[0] == "Add":
        return starts_safe(x.args[1])
    if x.op == "fstr":
        first = x.args[0]
        if isinstance(first, tuple):
            first = first[0]
        return starts_safe(first) if isinstance(first, Term) else isinstance(first, str) and first[:1] in "_:"
    return is_const(x) and isinstance(x.args[0], str) and x.args[0][:1] == "_"


def pattern(c, l):
    k = callee_of(l)
    if k is None or k.op != "attr" or k.args[1] != "sub" or k.args[0].op != "glob":
        if k is not None and k.op == "glob" and k.args[0] == "re.sub" and is_const(call_args(l)[0]):
            return call_args(l)[0].args[0]
        return None
    g = k.args[0].args[0]
    mod, _, n = g.rpartition(".")
    m = c.prog.modules.get(mod)
    e = m.assigns.get(n) if m is not None and hasattr(m, "assigns") else None
    if e is None:
        e = global_expr(c, g)
    import ast
    if isinstance(e, ast.Call) and e.args:
        v = c.prog.const_expr(m, e.args[0], None)
        return v[1] if v else None
    return None


def global_expr(c, g):
    mod, _, n = g.rpartition(".")
    m = c.prog.modules.get(mod)
    import ast
    for s in m.tree.body if m is not None else ():
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
            return s.value
    return None


def kept(pat):
    """The characters (of the first 0x250 code points) a substitution with the
    pattern leaves."""
    if pat is None:
        return None
    r = re.compile(pat)
    return {chr(i) for i in range(1, 0x250) if not r.fullmatch(chr(i))}


def repl(l):
    k = callee_of(l)
    xs = call_args(l)
    v = xs[1] if k.op == "glob" else xs[0]
    return v.args[0] if is_const(v) else None


def reader(c, k):
    """The reader asks for cumulative data and registers its collector."""
    R = next((x for x in c.prog.classes.values() if x.mod.name.startswith(M) and "_receive_metrics" in x.methods), None)
    if not c.ob("reader", "class", R is not None, "", "no Prometheus reader found"):
        return
    f = c.method(R, "__init__")
    a = c.an(f, R, policy=Policy(mods=(M,), deny=("start_http_server",)))
    n = 0
    for r in a.recs:
        if r.instr.kind in ("call", "enter") and r.instr.name == "__init__":
            d = (call_kwargs(r).get("preferred_temporality") if r.instr.kind == "call" else r.t.get("preferred_temporality"))
            for l in a.leaves(d) if d is not None else ():
                for kk, v, i in a.contents.get(l, ()):
                    n += 1
                    c.ob("reader", "temporality %s" % str(kk).rpartition(".")[2], all_leaves(a, v, lambda t: t.op == "glob" and t.args[0].endswith("AggregationTemporality.CUMULATIVE")), i.where, "asks for %s" % v)
    c.ob("reader", "temporalities", n >= 6, f.where, "asks for the temporality of %d instrument kinds" % n)
    made = [r.dst for r in a.calls(fqn=k.fqn)]
    regs = [r for r in a.calls(name="register") if any(l in made for x in r.args for l in a.leaves(x))]
    c.ob("reader", "registered", bool(regs) and always(a, regs, exc=False) is None, f.where, "the collector is not registered")
    cbs = [r for r in a.events("store_attr") if any(l in made for l in a.leaves(r.t["base"])) and any(is_attr("collect", is_self)(l) for l in a.leaves(r.t["val"]))]
    c.ob("reader", "collects", bool(cbs) and always(a, cbs, exc=False) is None, f.where, "a scrape does not collect")
    kept_ = {r.instr.name for r in a.events("store_attr") if is_self(r.t["base"]) and any(l in made for l in a.leaves(r.t["val"]))}
    g = c.method(R, "_receive_metrics")
    p = [x for x in g.params()[0] if x != "self"][0]
    b = c.an(g, R, policy=Policy(mods=()), oracle=oracle(o_isnone(is_param(p), False), o_truth(is_param(p), True)))
    gives = [r for r in b.calls() if any(l for x in r.args for l in b.leaves(x) if is_param(p)(l)) and r.t.get("recv") is not None and any(is_attr(n_, is_self)(r.t["recv"]) for n_ in kept_)]
    c.ob("reader", "received", bool(gives) and always(b, gives, exc=False) is None, g.where, "collected data does not reach the collector")
    s = c.am(R, "shutdown", policy=Policy(mods=()))
    un = [r for r in s.calls(name="unregister") if any(is_attr(n_, is_self)(l) for n_ in kept_ for x in r.args for l in s.leaves(x))]
    c.ob("reader", "unregistered", bool(un) and always(s, un, exc=False) is None, c.method(R, "shutdown").where, "the collector stays registered")
    # what the collector is given is kept until the scrape
    for m in [x for x in {r.instr.name for r in gives} if c.prog.find_method(k, x)]:
        e = c.am(k, m)
        q = [x for x in c.method(k, m).params()[0] if x != "self"][0]
        st = [r for r in e.recs if r.instr.kind == "call" and r.instr.name in ("append", "appendleft", "put", "add") and any(is_param(q)(l) for x in r.args for l in e.leaves(x)) or r.instr.kind in ("store_attr", "store_item") and any(is_param(q)(l) for l in e.leaves(r.t["val"]))]
        c.ob("reader", "kept", bool(st) and always(e, st, exc=False) is None, c.method(k, m).where, "collected data is dropped")
