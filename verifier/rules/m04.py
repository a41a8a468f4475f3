"""M04: instruments enforce their arithmetic and default aggregation."""
from .mx import *
from .m01 import isof
from .m02 import sign_of
from .lib import logger_calls

NOTE = "Decision tables by conditional constant propagation: recording operation x sign of the amount x explicit/implicit context, and instrument kind x aggregation factory."

RECORD = (("_Counter", "add", False), ("_UpDownCounter", "add", True), ("_Histogram", "record", False), ("_Gauge", "set", True))
KINDS = (
    # concrete class, sum?, monotonic, synchronous, default
    ("_Counter", True, True, "_SumAggregation"),
    ("_UpDownCounter", False, True, "_SumAggregation"),
    ("_ObservableCounter", True, False, "_SumAggregation"),
    ("_ObservableUpDownCounter", False, False, "_SumAggregation"),
    ("_Histogram", False, True, "_ExplicitBucketHistogramAggregation"),
    ("_Gauge", False, True, "_LastValueAggregation"),
    ("_ObservableGauge", False, False, "_LastValueAggregation"),
)
MEAS = MI + "measurement.Measurement"
CURRENT = "opentelemetry.context.get_current"


def run(c):
    for cls, op, neg in RECORD:
        record(c, c.prog.cls(INST + cls), op, neg)
    observed(c)
    checked(c)
    for cls, mono, sync, agg in KINDS:
        default(c, cls, mono, sync, agg)
    c.floor("recorded", 10)
    c.floor("refused", 4)
    c.floor("measurement", 30)
    c.floor("default-aggregation", 7)


def record(c, k, op, neg):
    m = c.method(k, op)
    p = m.params()[0]
    amount, attributes, context = p[1], "attributes", "context"
    amt = is_param(amount)
    con = "%s.%s" % (k.fqn, op)
    pol = Policy(mods=(k.mod.name,))
    for s, name in ((1, "positive"), (0, "zero"), (-1, "negative")):
        a = c.an(m, k, oracle=sign_of(amt, s), policy=pol)
        ev = [r for r in a.calls(name="consume_measurement")]
        if s < 0 and not neg:
            lg = [r for r in logger_calls(a) if r.instr.name in ("warning", "error")]
            c.ob("refused", con, not ev, ev[0].where if ev else m.where, "a negative amount is recorded")
            c.ob("refused", con + " logged", bool(lg) and always(a, lg, exc=False) is None and not raises(a), m.where, "a negative amount is not logged")
            continue
        ok = bool(ev) and always(a, ev, exc=False) is None and not any(a.can_reach(x.instr, y.instr) for x in ev for y in ev)
        c.ob("recorded", "%s %s" % (con, name), ok, m.where, "a %s amount may not be recorded exactly once" % name)
    for none in (True, False):
        ctx = is_param(context)
        a = c.an(m, k, oracle=oracle(sign_of(amt, 1), o_isnone(ctx, none)), policy=pol)
        ev = a.calls(name="consume_measurement")
        for r in ev:
            ok = r.t.get("recv") is not None and all_are(a, r.t["recv"], self_attr("_measurement_consumer")) and bool(r.args) and all_are(a, r.args[0], is_made(MEAS))
            c.ob("measurement", con, ok, r.where, "what is recorded is not a measurement handed to the provider's consumer")
        want = {
            "value": amt,
            "instrument": is_self,
            "attributes": is_param(attributes),
            "context": (lambda l: is_call(fqn=CURRENT)(l)) if none else ctx,
            "time_unix_nano": is_call(fqn="time.time_ns"),
        }
        for r in made(a, MEAS):
            for n, w in want.items():
                v = argof(c.prog, r, MEAS, n)
                c.ob("measurement", "%s %s %s" % (con, n, none), v is not None and all_are(a, v, w), r.where, "the measurement's %s is not that of the call: %s" % (n, v))
        c.ob("measurement", con, bool(made(a, MEAS)), m.where, "no measurement is made")


def raises(a):
    return [r for r in a.events("raise")]


def observed(c):
    """A measurement an asynchronous instrument reports carries the observation."""
    k = c.prog.cls(INST + "_ObservableCounter")
    m = c.prog.find_method(k, "callback")
    m = next((f for f in parts(c, k, m) if made(c.an(f, k), MEAS)), m)
    con = m.fqn
    ctxs = lambda t: t.op == "attr" and t.args[1] == "context" and t.args[0].op == "elem"
    for none in (True, False):
        a = c.an(m, k, oracle=o_isnone(ctxs, none))
        ms = made(a, MEAS)
        c.ob("measurement", con, bool(ms), m.where, "observations are not turned into measurements")
        ob = lambda n: (lambda t: t.op == "attr" and t.args[1] == n and t.args[0].op == "elem")
        want = {"value": ob("value"), "attributes": ob("attributes"), "instrument": is_self, "time_unix_nano": is_call(fqn="time.time_ns"), "context": is_call(fqn=CURRENT) if none else ctxs}
        for r in ms:
            for n, w in want.items():
                v = argof(c.prog, r, MEAS, n)
                c.ob("measurement", "%s %s %s" % (con, n, none), v is not None and all_are(a, v, w), r.where, "the measurement's %s is not that of the observation: %s" % (n, v))


def checked(c):
    """Names and units are checked; what was checked is what is used."""
    for cls in ("_Counter", "_ObservableCounter"):
        k = c.prog.cls(INST + cls)
        m = c.prog.find_method(k, "__init__")
        for f in ("name", "unit"):
            match = lambda t: is_call(name=("fullmatch", "match"))(t) and (mentions(call_args(t)[0], is_param(f)) or any(is_param(f)(l) for l in a_.leaves(call_args(t)[0])))
            a_ = c.an(m, k)
            bad = lambda t: match(t) or t.op == "item" and isconst(t.args[1], f) and t.args[0].op in ("new", "call")
            c.ob("refused", "%s %s checked" % (m.fqn, f), any(match(r.dst) for r in a_.recs if r.dst is not None), m.where, "the %s is not checked" % f)
            a = c.an(m, k, oracle=lambda an, t, st: True if t.op == "isnone" and (bad(t.args[0]) or is_call(name="fullmatch")(t.args[0]) and any(is_param(f)(l) for l in an.leaves(call_args(t.args[0])[0]))) else None)
            c.ob("refused", "%s %s" % (m.fqn, f), not a.rets(), m.where, "an instrument with an invalid %s is created" % f)


def temporality_of(v, a):
    out = set()
    for l in a.leaves(v):
        out.add(l.args[0].rsplit(".", 1)[-1] if l.op == "glob" else None)
    return out


def default(c, cls, mono, sync, agg):
    isi = isof(c, INST + cls)
    k = c.prog.cls(AGG + "DefaultAggregation")
    made_ok(c, k, cls, mono, sync, agg, isi, "default-aggregation")
    for n, g in (("SumAggregation", "_SumAggregation"), ("LastValueAggregation", "_LastValueAggregation"), ("ExplicitBucketHistogramAggregation", "_ExplicitBucketHistogramAggregation"), ("ExponentialBucketHistogramAggregation", "_ExponentialBucketHistogramAggregation"), ("DropAggregation", "_DropAggregation")):
        made_ok(c, c.prog.cls(AGG + n), cls, mono, sync, g, isi, "chosen-aggregation")


def made_ok(c, k, cls, mono, sync, agg, isi, rule):
    m = c.method(k, "_create_aggregation")
    a = c.an(m, k, oracle=isi)
    con = "%s of %s" % (k.fqn, cls)
    fq = AGG + agg
    rets = a.rets()
    ok = bool(rets) and all(all_are(a, r.t["val"], is_made(fq)) for r in rets) and not [x for x in raises(a) if x.instr.frame.fi is m]
    c.ob(rule, con, ok, m.where, "a %s does not get a %s" % (cls, agg))
    for r in made(a, fq):
        v = argof(c.prog, r, fq, "attributes")
        c.ob(rule, con + " attributes", v is not None and all_are(a, v, is_param("attributes")), r.where, "the aggregation is not that of the attributes")
        if agg == "_DropAggregation" or agg == "_LastValueAggregation":
            continue
        v = argof(c.prog, r, fq, "instrument_aggregation_temporality")
        c.ob(rule, con + " temporality", v is not None and temporality_of(v, a) == {"DELTA" if sync else "CUMULATIVE"}, r.where, "a %s is aggregated as if it reported %s" % (cls, v))
        v = argof(c.prog, r, fq, "start_time_unix_nano")
        c.ob(rule, con + " start", v is not None and all_are(a, v, is_param("start_time_unix_nano")), r.where, "the stream does not start when it is created")
        if agg == "_SumAggregation":
            v = argof(c.prog, r, fq, "instrument_is_monotonic")
            got = {bool(l.args[0]) if l.op == "const" else a.decide(l, state_of(r)) for l in a.leaves(v)} if v is not None else {None}
            c.ob(rule, con + " monotonic", got == {mono}, r.where, "the sum of a %s is %smonotonic" % (cls, "not " if mono else ""))
        if agg == "_ExplicitBucketHistogramAggregation":
            bounds(c, a, k, r, fq, con, rule, cls)
        if agg == "_ExponentialBucketHistogramAggregation":
            i = c.am(k, "__init__")
            for p in ("max_size", "max_scale"):
                v = argof(c.prog, r, fq, p)
                c.ob(rule, con + " " + p, v is not None and all_are(a, v, is_field(field_of_param(i, p))), r.where, "the configured %s is not used" % p)


def bounds(c, a, k, r, fq, con, rule, cls):
    v = argof(c.prog, r, fq, "boundaries")
    adv = lambda t: t.op == "attr" and t.args[1] == "explicit_bucket_boundaries"
    if k.name == "DefaultAggregation":
        c.ob(rule, con + " boundaries", v is not None and all_are(a, v, adv), r.where, "the boundaries the histogram advises are not used: %s" % v)
        return
    i = c.am(k, "__init__")
    f = field_of_param(i, "boundaries")
    isi = isof(c, INST + cls)
    m = c.method(k, "_create_aggregation")
    b = c.an(m, k, oracle=oracle(isi, o_isnone(is_field(f), False)))
    for x in made(b, fq):
        w = argof(c.prog, x, fq, "boundaries")
        c.ob(rule, con + " boundaries", w is not None and all_are(b, w, is_field(f)), x.where, "the configured boundaries are not used: %s" % w)
        w = argof(c.prog, x, fq, "record_min_max")
        c.ob(rule, con + " record_min_max", w is not None and all_are(b, w, is_field(field_of_param(i, "record_min_max"))), x.where, "the configured record_min_max is not used")
    b = c.an(m, k, oracle=oracle(isi, o_isnone(is_field(f), True), o_truth(is_field(f), False)))
    for x in made(b, fq):
        w = argof(c.prog, x, fq, "boundaries")
        c.ob(rule, con + " no boundaries", w is None or all(not is_field(f)(l) or True for l in b.leaves(w)), x.where, "")
