"""M01: fan-out of measurements to readers and views."""
from .mx import *

NOTE = "Loop coverage: the consumer builds one storage per configured reader and hands every measurement to every storage; the storage hands it to every stream of the instrument; streams are created for every view that matches (and is compatible) and for exactly one default view when none is; View._match is decided per criterion by conditional constant propagation; a stream keys its aggregation by exactly the attributes its view keeps; a collection reports every stream with data and nothing of dropped streams."


def run(c):
    k = c.prog.cls(CONSUMER)
    F = storages(c, k)
    fanout(c, k, F)
    collects(c, k, F)
    streams(c)
    criteria(c)
    stream(c)
    naming(c)
    stream_collect(c)
    report(c)
    c.floor("every-storage", 1)
    c.floor("view-criterion", 6)
    c.floor("stream-attributes", 4)


def storages(c, k):
    m = c.method(k, "__init__")
    a = c.an(m, k)
    F = holder(a, is_made(STORAGE))
    c.ob("storages-kept", k.fqn, len(F) == 1, m.where, "the storages of the readers are not kept in one field")
    readers = lambda t: t.op == "attr" and t.args[1] == "metric_readers"
    every_member(c, "storage-per-reader", k.fqn + ".__init__", a, readers, made(a, STORAGE), m, order=False)
    for r in a.recs:
        if r.instr.kind in ("content", "store_item") and any(is_made(STORAGE)(l) for l in a.leaves(r.t["val"])):
            kk = r.t.get("key")
            c.ob("storage-per-reader", k.fqn + ".__init__", kk is not None and all(l.op == "elem" and readers(l.args[0]) for l in a.leaves(kk)), r.where, "a storage is filed under something else than its reader: %s" % kk)
    for r in made(a, STORAGE):
        for p, f in (("instrument_class_temporality", "_instrument_class_temporality"), ("instrument_class_aggregation", "_instrument_class_aggregation")):
            v = argof(c.prog, r, STORAGE, p)
            c.ob("storage-preferences", "%s %s" % (k.fqn, p), v is not None and all(l.op == "attr" and l.args[1] == f and l.args[0].op == "elem" and readers(l.args[0].args[0]) for l in a.leaves(v)), r.where, "the storage does not use the preferences of its own reader: %s" % v)
    return F


def fanout(c, k, F):
    m = c.method(k, "consume_measurement")
    a = c.an(m, k)
    p = m.params()[0][1]
    ev = [r for r in a.calls(name="consume_measurement") if r.t.get("recv") is not None and a.derives(r.t["recv"], is_field(F))]
    every_member(c, "every-storage", k.fqn + ".consume_measurement", a, is_field(F), ev, m, order=False)
    for r in ev:
        c.ob("same-measurement", k.fqn + ".consume_measurement", bool(r.args) and all_are(a, r.args[0], is_param(p)), r.where, "another measurement is handed on")
        sampled(c, a, r, k.fqn + ".consume_measurement", is_param(p))


def sampled(c, a, r, con, meas):
    v = arg(r, 1, "should_sample_exemplar")
    ok = v is not None and all(is_call(name="should_sample")(l) for l in a.leaves(v))
    c.ob("exemplar-decision", con, ok, r.where, "the exemplar filter's decision is not what is handed on: %s" % v)
    if ok:
        for l in a.leaves(v):
            x = call_args(l)
            want = ("value", "time_unix_nano", "attributes", "context")
            c.ob("exemplar-decision", con, len(x) == 4 and all(y.op == "attr" and y.args[1] == w and all_are(a, y.args[0], meas) for y, w in zip(x, want)), r.where, "the exemplar filter is asked about something else than the measurement")


def collects(c, k, F):
    m = c.method(k, "collect")
    a = c.an(m, k)
    p = m.params()[0][1]
    mine = lambda l: (l.op == "item" and is_field(F)(l.args[0]) and is_param(p)(l.args[1])) or (is_call(name="get")(l) and is_field(F)(callee_of(l).args[0]) and is_param(p)(call_args(l)[0]))
    con = k.fqn + ".collect"
    ev = [r for r in a.calls(name="consume_measurement") if r.t.get("recv") is not None]
    for r in ev:
        c.ob("collect-own-storage", con, all_are(a, r.t["recv"], mine), r.where, "an observation goes to the storage of another reader")
        ok = bool(r.args) and all(l.op == "elem" and any(is_call(name="callback")(x) for x in subterms(l)) for l in a.leaves(r.args[0]))
        c.ob("collect-own-storage", con, ok, r.where, "what is recorded is not an observation")
        if ok:
            sampled(c, a, r, con, lambda t, o=r.args[0]: t in a.leaves(o))
    col = [r for r in a.calls(name="collect") if r.t.get("recv") is not None]
    c.ob("collect-own-storage", con, bool(ev) and bool(col) and always(a, col, exc=False) is None, m.where, "the storage is not collected")
    for r in col:
        c.ob("collect-own-storage", con, all_are(a, r.t["recv"], mine), r.where, "the storage of another reader is collected")
        lps = [lp for lp in a.events("loop") if any(x.instr.block in loop_body(a, lp.instr) for x in ev)]
        for lp in lps:
            if any(o is not lp and lp.instr.block in loop_body(a, o.instr) for o in lps):
                c.ob("collect-after-callbacks", con, not a.can_reach(r.instr, lp.instr), r.where, "the storage is collected before the callbacks have reported")
            else:
                c.ob("collect-after-callbacks", con, not a.can_reach(r.instr, lp.instr) and a.dominated(r.instr, [lp.instr]), r.where, "the storage is collected before the callbacks have reported")
    for r in a.rets():
        c.ob("collect-own-storage", con, all(is_call(name="collect")(l) for l in a.leaves(r.t["val"])), r.where, "what was collected is not returned")


def matches(a):
    return [r for r in a.calls(name="consume_measurement") if r.t.get("recv") is not None and not is_self(r.t["recv"])]


def streams(c):
    k = c.prog.cls(STORAGE)
    m = c.method(k, "consume_measurement")
    p = m.params()[0][1]
    con = STORAGE + ".consume_measurement"
    inst = lambda t: t.op == "attr" and t.args[1] == "instrument" and is_param(p)(t.args[0])
    a = c.an(m, k)
    dl = matches(a)
    filed = [r for r in a.events("store_item") if all_are(a, r.t["key"], inst)]
    F = {l.args[1] for r in filed for l in a.leaves(r.t["base"]) if is_self(root(l)) and l.op == "attr"}
    c.ob("streams-kept", con, len(F) == 1, m.where, "the streams of an instrument are not kept")
    lists = {l for r in filed for l in a.leaves(r.t["val"])}
    known = lambda l: (l.op == "item" and is_field(F)(l.args[0]) and inst(l.args[1])) or (is_call(name=("get", "setdefault"))(l) and is_field(F)(callee_of(l).args[0]))
    every_member(c, "every-stream", con, a, lambda t: known(t) or t in lists, dl, m, order=False)
    for r in dl:
        c.ob("same-measurement", con, bool(r.args) and all_are(a, r.args[0], is_param(p)), r.where, "another measurement is handed on")
        v = arg(r, 1, "should_sample_exemplar")
        c.ob("exemplar-decision", con, v is not None and all_are(a, v, is_param(m.params()[0][2])), r.where, "the exemplar decision is not handed on")
        for lp in a.events("loop"):
            if r.instr.block in loop_body(a, lp.instr):
                bad = [l for l in a.leaves(lp.t["iter"]) if not known(l) and l not in lists]
                c.ob("every-stream", con, not bad, lp.where, "the streams visited are not those of the instrument: %s" % (bad[0] if bad else ""))
    views = lambda t: t.op == "attr" and t.args[1] == "views"
    isv = lambda t: t.op == "elem" and views(t.args[0])
    m_ = is_call(name="_match")
    vagg = lambda t: t.op == "attr" and t.args[1] == "_aggregation"
    absent = lambda *more: oracle(o_in(F, inst), *more)
    for label, want, orc in (
        ("matching", True, absent(o_truth(m_, True), o_isinst(inst, False))),
        ("matching-asynchronous", True, absent(o_truth(m_, True), o_isinst(inst, True), o_isinst(vagg, False))),
        ("incompatible", False, absent(o_truth(m_, True), o_isinst(inst, True), o_isinst(vagg, True))),
        ("not-matching", False, absent(o_truth(m_, False))),
    ):
        b = c.an(m, k, oracle=orc)
        ap = appends(b, isv)
        # only the loops whose streams are the instrument's
        if not want:
            for lp in b.events("loop"):
                if b.derives(lp.t["iter"], views) :
                    c.ob("view-streams-complete", "%s %s" % (con, label), not loop_quits(b, lp), lp.where, "the views after one that is %s are not considered" % label)
            c.ob("view-streams", "%s %s" % (con, label), not ap, ap[0].where if ap else m.where, "a stream is created for a view that is %s" % label)
            continue
        every_member(c, "view-streams", "%s %s" % (con, label), b, views, ap, m)
        for r in ap:
            c.ob("view-streams", "%s %s" % (con, label), fits(c, b, r, isv, inst), r.where, "the stream is not made of this view and this instrument")
            c.ob("view-streams", "%s %s" % (con, label), set(b.leaves(r.t["recv"])) <= {l for x in b.events("store_item") for l in b.leaves(x.t["val"])} | set(), r.where, "the stream does not go to the list that is kept")
    # asked about this view and this instrument
    for r in a.calls(name="_match"):
        c.ob("view-asked", con, all_are(a, r.t["recv"], isv) and bool(r.args) and all_are(a, r.args[0], inst), r.where, "the match is not asked of the view about the instrument")
    c.ob("view-asked", con, bool(a.calls(name="_match")), m.where, "views are not matched")
    # exactly one default stream when there is none
    dv = lambda t: t.op == "glob" and t.args[0].endswith("_DEFAULT_VIEW")
    isl = lambda t: t in lists or (t.op in ("new", "obj"))
    e = c.an(m, k, oracle=absent(o_truth(m_, False), o_empty(True)))
    ap = appends(e, dv)
    q = entry_path(e, e.exit_blocks(exc=False), avoid=ap)
    c.ob("default-stream", con, bool(ap) and q is None, m.where, "an instrument without a view may end up without a stream: %s" % witness(e, q))
    for r in ap:
        c.ob("default-stream", con, fits(c, e, r, dv, inst), r.where, "the default stream is not one of this instrument")
        inl = any(r.instr.block in loop_body(e, lp.instr) for lp in e.events("loop"))
        more = [x for x in ap if x is not r and e.can_reach(r.instr, x.instr)]
        c.ob("default-stream-once", con, not inl and not more, r.where, "several default streams may be created")
    e = c.an(m, k, oracle=absent(o_truth(m_, True), o_isinst(inst, False), o_empty(False)))
    ap = appends(e, dv)
    c.ob("default-stream-only-then", con, not ap, ap[0].where if ap else m.where, "a default stream is created next to those of the views")
    default_view(c, k, dv)


def default_view(c, k, dv):
    mod = k.mod
    f = c.prog.resolve_dotted(mod, "_DEFAULT_VIEW")
    b, _, n = (f or "").rpartition(".")
    m2 = c.prog.modules.get(b)
    e = (m2.globals.get(n) or [None])[0] if m2 is not None else None
    import ast
    ok = isinstance(e, ast.Call) and not any(kw.arg in ("attribute_keys", "aggregation", "name", "description") and not (isinstance(kw.value, ast.Constant) and kw.value.value is None) for kw in e.keywords) and len(e.args) <= 2
    c.ob("default-view-neutral", STORAGE, ok, k.mod.path, "the default view changes what it is applied to")


def o_in(F, inst):
    """The instrument has no streams yet."""
    def f(a, t, st):
        if t.op == "in" and inst(t.args[0]) and is_field(F)(t.args[1]):
            return False
        if t.op == "isnone" and is_call(name="get")(t.args[0]) and is_field(F)(callee_of(t.args[0]).args[0]):
            return True
        return None
    return f


def o_empty(val):
    """Truth of lists created here."""
    isl = lambda t: t.op in ("new", "obj")

    def f(a, t, st):
        if isl(t):
            return not val
        v = cond_means(t, isl)
        return None if v is None or t.op in ("not",) else (v != val)
    return f


def appends(a, view):
    """Streams for such a view that are put into a list."""
    out = []
    for r in a.recs:
        if r.instr.kind == "call" and r.instr.name in ("append", "extend", "insert") and r.t.get("recv") is not None or r.instr.kind == "content":
            xs = list(r.args) if r.instr.kind == "call" else [r.t["val"]]
            for x in xs:
                for l in a.leaves(x):
                    if is_made(MATCH)(l) and any(view(y) for y in subterms(l)):
                        out.append(r)
    return out


def fits(c, a, r, view, inst):
    ok = False
    for x in made(a, MATCH):
        if x.dst is not None and any(x.dst in a.leaves(y) for y in (r.args if r.instr.kind == "call" else [r.t["val"]])):
            v, i = argof(c.prog, x, MATCH, "view"), argof(c.prog, x, MATCH, "instrument")
            g = argof(c.prog, x, MATCH, "instrument_class_aggregation")
            if not (v is not None and i is not None and all_are(a, v, view) and all_are(a, i, inst) and g is not None and all_are(a, g, self_attr("_instrument_class_aggregation"))):
                return False
            ok = True
    return ok


CRITERIA = (
    ("instrument_type", "isinst", None),
    ("instrument_name", "fnmatch", ("name",)),
    ("instrument_unit", "fnmatch", ("unit",)),
    ("meter_name", "eq", ("instrumentation_scope", "name")),
    ("meter_version", "eq", ("instrumentation_scope", "version")),
    ("meter_schema_url", "eq", ("instrumentation_scope", "schema_url")),
)


def criteria(c):
    k = c.prog.cls(VIEW)
    i = c.am(k, "__init__")
    m = c.method(k, "_match")
    p = m.params()[0][1]
    fs = {}
    for n, kind, path in CRITERIA:
        f = field_of_param(i, n)
        c.ob("view-criterion", n + " kept", len(f) == 1, i.fi.where, "the criterion is not kept")
        fs[n] = f

    def test(n, kind, path, val):
        isf = is_field(fs[n])

        def prop(t):
            for x in reversed(path):
                if t.op != "attr" or t.args[1] != x:
                    return False
                t = t.args[0]
            return is_param(p)(t)

        def f(a, t, st):
            if kind == "isinst" and t.op == "isinst" and is_param(p)(t.args[0]) and isf(t.args[1]):
                return val
            if kind == "fnmatch" and glob_call(t, "fnmatch.fnmatch", "fnmatch.fnmatchcase") and len(call_args(t)) == 2 and prop(call_args(t)[0]) and isf(call_args(t)[1]):
                return val
            if kind == "eq" and t.op == "eq" and any(isf(x) for x in t.args) and any(prop(x) for x in t.args):
                return val
            return None
        return f

    def none(n, val):
        isf = is_field(fs[n])
        return lambda a, t, st: val if t.op == "isnone" and isf(t.args[0]) else None

    for n, kind, path in CRITERIA:
        others = [o for o in CRITERIA if o[0] != n]
        # fails: no match, whatever the others say
        a = c.an(m, k, oracle=oracle(none(n, False), test(n, kind, path, False)))
        bl, ed = may_succeed(a)
        q = entry_path(a, bl, ed) if bl else None
        c.ob("view-criterion", n + " excludes", q is None, m.where, "a view matches although its %s does not: %s" % (n, witness(a, q)))
        # passes alone: match
        a = c.an(m, k, oracle=oracle(none(n, False), test(n, kind, path, True), *[none(o[0], True) for o in others]))
        bl, ed = may_fail(a)
        q = entry_path(a, bl, ed) if bl else None
        c.ob("view-criterion", n + " suffices", q is None, m.where, "a view does not match although its only criterion %s does: %s" % (n, witness(a, q)))
    a = c.an(m, k, oracle=oracle(*[x for o in CRITERIA for x in (none(o[0], False), test(o[0], o[1], o[2], True))]))
    bl, ed = may_fail(a)
    q = entry_path(a, bl, ed) if bl else None
    c.ob("view-criterion", "all pass", q is None, m.where, "a view does not match although every criterion does: %s" % witness(a, q))


def stream(c):
    k = c.prog.cls(MATCH)
    m = c.method(k, "consume_measurement")
    p = m.params()[0][1]
    con = MATCH + ".consume_measurement"
    keys = lambda t: t.op == "attr" and t.args[1] == "_attribute_keys"
    attrs = lambda t: t.op == "attr" and t.args[1] == "attributes" and is_param(p)(t.args[0])
    a = c.an(m, k)
    ag = [r for r in a.calls(name="aggregate")]
    c.ob("stream-aggregates", con, bool(ag) and always(a, ag, exc=False) is None, m.where, "a measurement is not aggregated")
    for r in ag:
        c.ob("stream-aggregates", con, bool(r.args) and all_are(a, r.args[0], is_param(p)), r.where, "another measurement is aggregated")
        c.ob("exemplar-decision", con, len(r.args) + len(r.kw) > 1 and any(all_are(a, x, is_param(m.params()[0][2])) for x in list(r.args[1:]) + list(r.kw.values())), r.where, "the exemplar decision is not handed on")
    for none, want in ((True, "all"), (False, "kept")):
        for isn in (False, True):
            b = c.an(m, k, oracle=oracle(o_isnone(keys, none), o_isnone(attrs, isn), o_truth(attrs, not isn)))
            cr = [r for r in b.recs if r.instr.kind in ("call", "enter") and r.instr.name == "_create_aggregation"]
            c.ob("stream-attributes", "%s %s %s" % (con, want, isn), bool(cr), m.where, "no aggregation is created")
            for r in cr:
                v = r.args[1] if len(r.args) > 1 else r.kw.get("attributes")
                if v is None:
                    v = r.t.get("attributes")
                ok = v is not None and all(attr_source(b, l, attrs, keys, none, isn) for l in b.leaves(v))
                c.ob("stream-attributes", "%s %s %s" % (con, want, isn), ok, r.where, "the stream does not have exactly the attributes its view keeps: %s" % v)
            fz = [r for r in b.calls(fqn="builtins.frozenset")]
            for r in fz:
                src = r.args[0]
                base = callee_of(src).args[0] if is_call(name="items")(src) else src
                ok = is_call(name="items")(src) and all(attr_source(b, l, attrs, keys, none, isn) for l in b.leaves(base))
                c.ob("stream-key", "%s %s %s" % (con, want, isn), ok, r.where, "streams are not told apart by exactly the attributes their view keeps")
    # filtering: kept exactly when the view names the key
    for val in (True, False):
        b = c.an(m, k, oracle=oracle(o_isnone(keys, False), o_isnone(attrs, False), o_truth(attrs, True), lambda a_, t, st: val if t.op == "in" and keys(t.args[1]) else None))
        puts = [r for r in b.recs if r.instr.kind in ("content", "store_item") and r.t.get("key") is not None and any(l.op in ("elem", "item", "kv", "keyof") and mentions(l, attrs) for l in b.leaves(r.t["key"]))]
        if val:
            lps = [lp for lp in b.events("loop") if b.derives(lp.t["iter"], attrs)]
            ok = bool(puts) and any(loop_skips(b, lp.instr, puts) is None and any(x.instr.block in loop_body(b, lp.instr) for x in puts) and not loop_breaks(b, lp) for lp in lps)
            c.ob("stream-attributes", con + " keeps", ok, m.where, "an attribute the view keeps may be lost")
            for r in puts:
                kk, vv = r.t["key"], r.t["val"]
                c.ob("stream-attributes", con + " keeps", paired(b, kk, vv, attrs), r.where, "a kept attribute gets another value: %s = %s" % (kk, vv))
        else:
            b0 = c.an(m, k, oracle=oracle(o_isnone(keys, False), o_isnone(attrs, False), o_truth(attrs, True)))
            for lp in b0.events("loop"):
                if b0.derives(lp.t["iter"], attrs):
                    c.ob("stream-attributes", con + " keeps", not loop_breaks(b0, lp), lp.where, "the attributes after one that is dropped are lost")
            c.ob("stream-attributes", con + " drops", not puts, puts[0].where if puts else m.where, "an attribute the view does not keep is kept")


def paired(a, k, v, attrs):
    for lk in a.leaves(k):
        for lv in a.leaves(v):
            if lv.op == "item" and lk is lv.args[1]:
                continue
            if lk.op == lv.op == "item" and lk.args[0] is lv.args[0] and isconst(lk.args[1], 0) and isconst(lv.args[1], 1):
                continue
            if lk.op == "keyof" and lv.op == "elem" and lk.args[0] is lv.args[0]:
                continue
            if lk.op == "keyof" and is_call(name="get")(lv) and call_args(lv)[0] is lk:
                continue
            if lk.op == "kv" or lv.op == "kv" or lk.op == "elem" and lv.op in ("elem", "item"):
                if root(lk) is root(lv):
                    continue
            return False
    return True


def attr_source(a, l, attrs, keys, none, isn):
    if callee_of(l) is not None and glob_call(l, "builtins.dict") and len(call_args(l)) == 1:
        return all(attr_source(a, x, attrs, keys, none, isn) for x in a.leaves(call_args(l)[0]))
    if is_call(name="copy")(l):
        src = callee_of(l).args[0] if callee_of(l).op == "attr" else call_args(l)[0]
        return all(attr_source(a, x, attrs, keys, none, isn) for x in a.leaves(src))
    if l.op in ("new", "obj"):
        # a fresh dictionary: filled above, or empty because there is nothing
        return not none or isn or any(mentions(v, attrs) for k_, v, i in a.contents.get(l, ()))
    if l.op == "const":
        return l.args[0] in ((), None, {}) and isn
    return none and not isn and attrs(l)


def naming(c):
    """A stream is named and described by its view, else by its instrument."""
    k = c.prog.cls(MATCH)
    m = c.method(k, "__init__")
    vp, ip = "view", "instrument"
    for f in ("name", "description"):
        own = lambda t: t.op == "attr" and t.args[1] == "_" + f and not is_self(t.args[0])
        for val in (True, False):
            a = c.an(m, k, oracle=oracle(o_truth(own, val), o_isnone(own, not val)))
            st = [r for r in self_stores(a) if r.instr.name == "_" + f]
            want = own if val else (lambda t: t.op == "attr" and t.args[1] == f)
            ok = bool(st) and always(a, st, exc=False) is None and all(all_are(a, r.t["val"], want) for r in st)
            c.ob("stream-identity", "%s %s" % (f, "of the view" if val else "of the instrument"), ok, m.where, "the stream's %s is not that of its %s" % (f, "view" if val else "instrument"))
    a = c.an(m, k)
    for f, p in (("_view", vp), ("_instrument", ip)):
        st = [r for r in self_stores(a) if r.instr.name == f]
        c.ob("stream-identity", f, bool(st) and all(all_are(a, r.t["val"], is_param(p)) for r in st), m.where, "the stream does not keep its %s" % p)


def stream_collect(c):
    k = c.prog.cls(MATCH)
    m = c.method(k, "collect")
    con = MATCH + ".collect"
    a = c.an(c.method(k, "consume_measurement"), k)
    F = {l.args[1] for r in a.events("store_item") for l in a.leaves(r.t["base"]) if l.op == "attr" and is_self(l.args[0]) and mentions_made(a, r.t["val"])}
    c.ob("stream-points", con + " kept", len(F) == 1, m.where, "the aggregations of a stream are not kept")
    dp = is_call(name="collect")
    a = c.an(m, k, oracle=oracle(o_isnone(dp, False), o_truth(dp, True)))
    col = [r for r in a.calls(name="collect") if r.t.get("recv") is not None]
    every_member(c, "stream-points", con, a, is_field(F), col, m, order=False)
    for r in col:
        ps = m.params()[0][1:3]
        c.ob("stream-points", con, len(r.args) == 2 and all(all_are(a, x, is_param(p)) for x, p in zip(r.args, ps)), r.where, "the aggregation is not collected with the temporality and time of this collection")
    got = collected_points(a, dp)
    if got:
        b = c.an(m, k, oracle=oracle(o_isnone(dp, False), o_truth(dp, True), o_empty(False)))
        got = bool(b.rets()) and all(any(l.op == "new" for l in b.leaves(r.t["val"])) and not any(l.op == "const" for l in b.leaves(r.t["val"])) for r in b.rets())
    a = c.an(m, k)
    for lp in a.events("loop"):
        if a.derives(lp.t["iter"], is_field(F)):
            c.ob("stream-points", con, not loop_breaks(a, lp), lp.where, "the loop may end before every point was collected")
    c.ob("stream-points", con + " returned", got, m.where, "a point that was collected may not be returned")


def mentions_made(a, v):
    return any(is_call(name="_create_aggregation")(l) for l in a.leaves(v))


def collected_points(a, dp):
    puts = [r for r in a.recs if (r.instr.kind == "call" and r.instr.name == "append" and r.args and all_are(a, r.args[0], dp)) or (r.instr.kind == "content" and all_are(a, r.t["val"], dp))]
    if not puts:
        return False
    for lp in a.events("loop"):
        if any(r.instr.block in loop_body(a, lp.instr) for r in puts) and (loop_skips(a, lp.instr, puts) is not None or loop_breaks(a, lp)):
            return False
    held = {l for r in puts for l in a.leaves(r.t["recv"] if r.instr.kind == "call" else r.t["base"])}
    return held


def report(c):
    k = c.prog.cls(STORAGE)
    m = c.method(k, "collect")
    con = STORAGE + ".collect"
    col = is_call(name="collect")
    MT = MI + "point.Metric"
    agg = lambda t: t.op == "attr" and t.args[1] == "_aggregation"

    def kind(n):
        def f(a, t, st):
            if t.op == "isinst" and agg(t.args[0]):
                g = t.args[1]
                names = [x.args[0] for x in subterms(g) if x.op == "glob"]
                return any(c.prog.is_sub(AGG + n, x) for x in names) if hasattr(c.prog, "is_sub") else any(x in {y.fqn for y in c.prog.mro(c.prog.classes[AGG + n])} for x in names)
            return None
        return f
    for n, point in (("_SumAggregation", "Sum"), ("_LastValueAggregation", "Gauge"), ("_ExplicitBucketHistogramAggregation", "Histogram"), ("_ExponentialBucketHistogramAggregation", "ExponentialHistogram")):
        a = c.an(m, k, oracle=oracle(o_isnone(col, False), o_truth(col, True), kind(n)))
        ap = [r for r in a.recs if r.instr.kind == "call" and r.instr.name == "append" and any(is_made(MT)(l) for x in r.args for l in a.leaves(x)) or r.instr.kind == "content" and any(is_made(MT)(l) for l in a.leaves(r.t["val"]))]
        reg = [r for r in a.events("loop") if any(x.instr.block in loop_body(a, r.instr) for x in ap)]
        c.ob("reported", "%s %s" % (con, point), bool(ap) and len(reg) >= 2, m.where, "a stream with data is not reported")
        for lp in reg:
            q = loop_skips(a, lp.instr, ap + [x for x in reg if x is not lp])
            c.ob("reported", "%s %s" % (con, point), q is None and not loop_breaks(a, lp), lp.where, "a stream with data may be left out: %s" % witness(a, q))
        for r in made(a, MT):
            d = argof(c.prog, r, MT, "data")
            c.ob("reported-as", "%s %s" % (con, point), d is not None and all(is_made(MI + "point." + point)(l) for l in a.leaves(d) if l.op != "unbound"), r.where, "the data of this aggregation is not reported as %s: %s" % (point, d))
            st = [x for x in made(a, MI + "point." + point)]
            for x in st:
                v = argof(c.prog, x, MI + "point." + point, "data_points")
                c.ob("reported-as", "%s %s points" % (con, point), v is not None and all_are(a, v, col), x.where, "the points reported are not those collected")
                if point != "Gauge":
                    v = argof(c.prog, x, MI + "point." + point, "aggregation_temporality")
                    c.ob("reported-temporality", "%s %s" % (con, point), v is not None and all(of_class(l) for l in a.leaves(v)), x.where, "the temporality reported is not the one the reader prefers")
            for f, src in (("name", "_name"), ("description", "_description"), ("unit", "unit")):
                v = argof(c.prog, r, MT, f)
                c.ob("reported-identity", "%s %s" % (con, f), v is not None and all(l.op == "attr" and l.args[1] == src for l in a.leaves(v)), r.where, "the metric does not carry the stream's %s" % f)
    for r in made(a, MI + "point.Sum"):
        pass
    a = c.an(m, k, oracle=oracle(kind("_SumAggregation")))
    for r in made(a, MI + "point.Sum"):
        v = argof(c.prog, r, MI + "point.Sum", "is_monotonic")
        for ins, want in (("Counter", True), ("ObservableCounter", True), ("UpDownCounter", False), ("ObservableUpDownCounter", False), ("Histogram", False), ("_Gauge", False)):
            b = c.an(m, k, oracle=oracle(kind("_SumAggregation"), isof(c, INST + ins)))
            for x in made(b, MI + "point.Sum"):
                w = argof(c.prog, x, MI + "point.Sum", "is_monotonic")
                got = {b.decide(l, state_of(x)) if l.op != "const" else bool(l.args[0]) for l in b.leaves(w)} if w is not None else {None}
                c.ob("reported-monotonic", "%s %s" % (con, ins), got == {want}, x.where, "a sum of a %s is reported as %s" % (ins, got))
    a = c.an(m, k)
    for lp in a.events("loop"):
        c.ob("reported", con, not loop_breaks(a, lp), lp.where, "the collection may end before every stream was reported")
    a = c.an(m, k, oracle=oracle(kind("_DropAggregation")))
    bad = [r for r in made(a, MT)]
    c.ob("dropped-not-reported", con, not bad, bad[0].where if bad else m.where, "a dropped stream is reported")
    d = c.prog.cls(AGG + "_DropAggregation")
    for n in ("aggregate", "collect"):
        x = c.an(c.method(d, n), d)
        c.ob("dropped-not-reported", d.fqn + "." + n, all(isconst(r.t["val"], None) for r in x.rets()) and not list(self_stores(x)), c.method(d, n).where, "a dropped stream keeps or reports data")
    # what was gathered is returned, for every instrumentation scope
    a = c.an(m, k, oracle=oracle(o_isnone(col, False), o_truth(col, True)))
    sm = MI + "point.ScopeMetrics"
    MD = MI + "point.MetricsData"
    c.ob("reported-scopes", con, bool(made(a, sm)) and bool(made(a, MI + "point.ResourceMetrics")) and bool(made(a, MD)), m.where, "the metrics of a scope are not reported")
    for r in made(a, sm):
        v = argof(c.prog, r, sm, "scope")
        c.ob("reported-scopes", con, v is not None and all(l.op == "attr" and l.args[1] == "instrumentation_scope" for l in a.leaves(v)), r.where, "metrics are filed under another scope")
    scopes(c, k, m, con, col, sm, MT, MD)
    for r in made(a, MI + "point.ResourceMetrics"):
        v = argof(c.prog, r, MI + "point.ResourceMetrics", "resource")
        c.ob("reported-resource", con, v is not None and all(l.op == "attr" and l.args[1] == "resource" and mentions(l, self_attr("_sdk_config")) for l in a.leaves(v)), r.where, "the metrics do not carry the provider's resource")


def of_class(l):
    """Looked up in the reader's preferences by the class of an instrument."""
    if l.op == "item":
        m, x = l.args[0], l.args[1]
    elif is_call(name="get")(l):
        m, x = callee_of(l).args[0], call_args(l)[0]
    else:
        return False
    return self_attr("_instrument_class_temporality")(m) and (x.op == "attr" and x.args[1] == "__class__" or glob_call(x, "builtins.type"))


def scopes(c, k, m, con, col, sm, MT, MD):
    scope = lambda t: t.op == "attr" and t.args[1] == "instrumentation_scope"
    for seen in (True, False):
        def known(a, t, st):
            if t.op == "in" and scope(t.args[0]):
                return seen
            if t.op == "isnone" and is_call(name="get")(t.args[0]) and scope(call_args(t.args[0])[0]):
                return not seen
            return None
        a = c.an(m, k, oracle=oracle(o_isnone(col, False), o_truth(col, True), o_empty(False), known))
        ms = {l for r in a.recs if r.instr.kind in ("call", "content") and (r.instr.kind == "content" or r.instr.name == "append") and any(is_made(MT)(l) for x in (r.args if r.instr.kind == "call" else [r.t["val"]]) for l in a.leaves(x)) for l in a.leaves(r.t["recv"] if r.instr.kind == "call" else r.t["base"])}
        mine = lambda x: x is not None and any(l in ms for l in a.leaves(x))
        at = lambda t: t.op == "attr" and t.args[1] == "metrics"
        ev = [r for r in a.recs if r.instr.kind == "call" and r.instr.name == "extend" and r.t.get("recv") is not None and at(r.t["recv"]) and r.args and mine(r.args[0])]
        ev += [r for r in a.recs if r.instr.kind == "aug" and any(at(x) or x.op == "attr" for x in a.leaves(r.t.get("base") or r.t.get("a") or r.dst)) and mine(r.t.get("val") or r.t.get("b"))] if not ev else []
        if not seen:
            ev += [r for r in made(a, sm) if mine(argof(c.prog, r, sm, "metrics"))]
        lps = [lp for lp in a.events("loop") if any(x.instr.block in loop_body(a, lp.instr) for x in ev)]
        ok = bool(lps) and all(loop_skips(a, lp.instr, ev) is None and not loop_breaks(a, lp) for lp in lps if not any(o is not lp and lp.instr.block in loop_body(a, o.instr) for o in lps))
        c.ob("reported-scopes", "%s %s" % (con, "another of the scope" if seen else "first of the scope"), ok, m.where, "the metrics of an instrument may not be added to those of its scope")
        c.ob("reported-scopes", con + " returned", bool(a.rets()) and all(all(is_made(MD)(l) for l in a.leaves(r.t["val"])) for r in a.rets()), m.where, "what was gathered may not be returned")


def isof(c, fqn):
    """isinstance tests of the instrument of a stream, decided for a class."""
    mro = {x.fqn for x in c.prog.mro(c.prog.classes[fqn])}

    def f(a, t, st):
        if t.op == "isinst" and not (t.args[0].op == "attr" and t.args[0].args[1] == "_aggregation"):
            names = [x.args[0] for x in subterms(t.args[1]) if x.op == "glob"]
            return any(n in mro for n in names) if names else None
        return None
    return f
