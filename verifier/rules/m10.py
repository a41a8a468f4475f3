"""M10: exemplars are chosen by the filter and say what the measurement said."""
from .mx import *
from . import m01

NOTE = "Per filter class the value of the decision under assumed span states; per aggregation a must-pass-through of the offer on every path of aggregate() when the filter accepted and its absence when not; field provenance from the offer to the exemplar under a valid and an invalid span; constant propagation of the bucket choice over all small sizes and fill levels; coverage of the loops that drain a reservoir."

EX = MI + "exemplar."
FILTER = EX + "exemplar_filter.ExemplarFilter"
RES = EX + "exemplar_reservoir.ExemplarReservoir"
EXEMPLAR = EX + "exemplar.Exemplar"
CUR = "opentelemetry.trace.propagation.get_current_span"
INVALID = "opentelemetry.trace.span.INVALID_SPAN"


def run(c):
    filters(c)
    m01.run(Only(c, "exemplar-decision"))
    contexts(c)
    offers(c)
    buckets(c)
    reservoirs(c)
    factory(c)
    for r, n in (("filter", 4), ("exemplar-decision", 3), ("offered", 8), ("kept", 8), ("place", 20), ("drained", 4), ("default", 6), ("context", 4)):
        c.floor(r, n)


class Only:
    """The context, but of the obligations only those of one rule count."""
    def __init__(self, c, rule):
        self.__dict__.update(c_=c, rule=rule)

    def __getattr__(self, n):
        return getattr(self.c_, n)

    def ob(self, rule, *a, **k):
        return self.c_.ob(rule, *a, **k) if rule == self.rule else bool(a[1])

    def floor(self, *a):
        pass


# -- filters -------------------------------------------------------------------------------------------
def of_context(t, p="context"):
    """get_current_span(context)"""
    return is_call(name="get_current_span")(t) and bool(call_args(t)) and is_param(p)(call_args(t)[0])


def span_ctx(t):
    return is_call(name="get_span_context")(t) and callee_of(t).op == "attr" and of_context(callee_of(t).args[0])


def flag(t):
    if t.op == "attr" and t.args[1] == "sampled":
        x = t.args[0]
        return x.op == "attr" and x.args[1] == "trace_flags" and span_ctx(x.args[0])
    return t.op == "bin" and t.args[0] in ("BitAnd", "And", "&") and any(x.op == "attr" and x.args[1] == "trace_flags" and span_ctx(x.args[0]) for x in t.args[1:] if hasattr(x, "op"))


def span_is(valid, sampled):
    def f(a, t, st):
        if flag(t):
            return sampled
        if t.op == "attr" and t.args[1] == "is_valid" and span_ctx(t.args[0]):
            return valid
        if t.op in ("eq", "is") and any(of_context(x) for x in t.args[:2]) and any(getattr(x, "op", "") == "glob" and x.args[0].endswith("INVALID_SPAN") for x in t.args[:2]):
            return not valid
        if t.op in ("eq", "is") and any(span_ctx(x) for x in t.args[:2]) and any(getattr(x, "op", "") == "glob" and x.args[0].endswith("INVALID_SPAN_CONTEXT") for x in t.args[:2]):
            return not valid
        return None
    return f


def truth(a, l):
    if l.op == "const":
        return bool(l.args[0])
    ca = callee_of(l)
    if ca is not None and ca.op == "glob" and ca.args[0] == "builtins.bool" and call_args(l):
        return truth(a, call_args(l)[0])
    return flagged(a, l)


def flagged(a, l):
    if l.op == "not":
        v = flagged(a, l.args[0])
        return None if v is None else not v
    return a.oracle(a, l, None) if a.oracle is not None else None


def filters(c):
    base = c.prog.cls(FILTER)
    for k in sorted([x for x in c.prog.subclasses(base) if x.fqn.startswith(EX)], key=lambda x: x.fqn):
        m = c.prog.find_method(k, "should_sample")
        short = k.fqn.rpartition(".")[2]
        cases = [(v, s) for v in (True, False) for s in (True, False) if v or not s]
        for valid, sampled in cases:
            if "AlwaysOn" in short:
                want = True
            elif "AlwaysOff" in short:
                want = False
            elif "TraceBased" in short:
                want = valid and sampled
            else:
                continue
            a = c.an(m, k, oracle=span_is(valid, sampled))
            ls = [truth(a, l) for r in a.rets() for l in a.leaves(r.t["val"])]
            c.ob("filter", "%s span %svalid, %ssampled" % (k.fqn, "" if valid else "in", "" if sampled else "not "), bool(ls) and set(ls) == {want} and bool(exits(a, True, False)), m.where, "the measurement is %s by the filter" % ("not taken" if want else "taken, or it is not clear whether it is"))


# -- the measurement's context ----------------------------------------------------------------------------
def contexts(c):
    """The context of a measurement is the one given, else the current one."""
    MEAS = MI + "measurement.Measurement"
    for q, k in sorted(c.prog.classes.items()):
        if not q.startswith(INST):
            continue
        for n, m in sorted(k.methods.items()):
            if "context" not in m.params()[0] + list(m.params()[2]) and n != "callback":
                continue
            given = lambda t: is_param("context")(t) or t.op == "attr" and t.args[1] == "context" and t.args[0].op == "elem"
            for there in (True, False):
                a = c.an(m, k, oracle=oracle(o_isnone(given, not there), *([] if there else [o_truth(given, False)])))
                for r in made(a, MEAS):
                    v = argof(c.prog, r, MEAS, "context")
                    want = given if there else is_call(name="get_current")
                    c.ob("context", "%s context %s" % (m.fqn, "given" if there else "not given"), v is not None and all_are(a, v, want), r.where, "the measurement's context is %s" % v)


# -- aggregations offer -------------------------------------------------------------------------------------
def aggregations(c):
    base = c.prog.cls(AGG + "_Aggregation")
    for k in sorted([x for x in c.prog.subclasses(base) if x.fqn.startswith(AGG)], key=lambda x: x.fqn):
        if k is base or k.fqn.endswith("_DropAggregation"):
            continue
        yield k


def offers(c):
    for k in aggregations(c):
        ini = c.am(k, "__init__")
        F = {r.instr.name for r in self_stores(ini) if any(x.op in ("call", "obj") and callee_of(x) is not None and any(is_param("reservoir_builder")(l) or "reservoir_builder" in str(l) for l in ini.leaves(callee_of(x))) for x in ini.leaves(r.t["val"]))}
        A = field_of_param(ini, "attributes")
        c.ob("offered", k.fqn + " reservoir", bool(F), k.mod.name, "the aggregation has no reservoir")
        m = c.method(k, "aggregate")
        ps = m.params()[0]
        meas, flg = ps[1], ps[2] if len(ps) > 2 else "should_sample_exemplar"
        for want in (True, False):
            a = c.an(m, k, oracle=o_truth(is_param(flg), want))
            evs = [r for r in a.calls(name="offer") if r.t.get("recv") is not None and all_are(a, r.t["recv"], is_field(F)) and reachable(a, r.instr)]
            con = "%s.aggregate" % k.fqn
            if not want:
                c.ob("offered", con + " not accepted", not evs, m.where, "a measurement the filter did not accept is offered")
                continue
            q = always(a, evs, exc=False)
            c.ob("offered", con, bool(evs) and q is None, m.where, "an accepted measurement may not be offered to the reservoir: %s" % (witness(a, q) if evs else ""))
            for r in evs:
                q = path_from(a, norm_edges(r), [], [x.instr.block for x in evs])
                c.ob("offered", con + " once", q is None, r.where, "a measurement may be offered twice")
                for i, n in enumerate(("value", "time_unix_nano", "attributes", "context")):
                    v = arg(r, i, n)
                    c.ob("offered", "%s %s" % (con, n), v is not None and all_are(a, v, lambda t: t.op == "attr" and t.args[1] == n and is_param(meas)(t.args[0])), r.where, "the reservoir is offered another %s: %s" % (n, v))
        handed(c, k, F, A)


def handed(c, k, F, A):
    from .m02 import points
    m = c.method(k, "collect")
    a = c.an(m, k)
    got = lambda t: is_call(name="collect")(t) and callee_of(t).op == "attr" and is_field(F)(callee_of(t).args[0]) and len(call_args(t)) == 1 and is_field(A)(call_args(t)[0])
    calls = [r for r in a.calls(name="collect") if r.t.get("recv") is not None and any(is_field(F)(l) for l in a.leaves(r.t["recv"]))]
    ps = points(a)
    c.ob("drained", m.fqn, bool(ps), m.where, "no point is made")
    for r in ps:
        v = argof(c.prog, r, r.instr.fqn, "exemplars")
        ok = v is not None and all(got(l) or ca_list(l) and got(ca_list(l)) for l in a.leaves(v))
        c.ob("drained", "%s %s" % (k.fqn, r.instr.fqn.rpartition(".")[2]), ok, r.where, "the point does not carry the exemplars of its stream: %s" % v)
    for r in calls:
        q = path_from(a, norm_edges(r), [], [x.instr.block for x in calls])
        c.ob("drained", k.fqn + " once", q is None, r.where, "the reservoir is emptied twice in one collection, the exemplars of the first time are lost")
        q = path_from(a, norm_edges(r), ps, exits(a, True, False))
        if q is not None and not (set(p.instr.block for p in ps) & {r.instr.block}):
            c.ob("drained", k.fqn + " reported", False, r.where, "exemplars are taken out of the reservoir but not reported: %s" % witness(a, q))


def ca_list(l):
    ca = callee_of(l)
    if ca is not None and ca.op == "glob" and ca.args[0] in ("builtins.list", "builtins.tuple") and len(call_args(l)) == 1:
        return call_args(l)[0]
    return None


# -- one kept measurement ---------------------------------------------------------------------------------
def last(a, f):
    """(values the field may hold at the normal end of the method, whether it may
    still hold what it held before)."""
    st = [r for r in self_stores(a) if r.instr.name == f]
    ends = exits(a, True, False)
    out = [r for r in st if path_from(a, norm_edges(r), [x for x in st if x is not r], ends) is not None]
    old = a.path_avoiding(a.b.entry, [r.instr for r in st], ends, skip_first=False) is not None
    return [l for r in out for l in a.leaves(r.t["val"])], old


def bucket_classes(c):
    base = c.prog.cls(RES)
    subs = {base.fqn} | {x.fqn for x in c.prog.subclasses(base)}
    return [k for q, k in sorted(c.prog.classes.items()) if q.startswith(EX) and q not in subs and "offer" in k.methods and "collect" in k.methods]


def buckets(c):
    ks = bucket_classes(c)
    c.ob("kept", EX, bool(ks), "", "no class keeps a measurement")
    for k in ks:
        of, co = c.method(k, "offer"), c.method(k, "collect")
        has = oracle(o_truth(is_param("attributes"), True), o_isnone(is_param("attributes"), False), o_isinst(is_param("attributes"), True))
        A = {v: c.an(of, k, oracle=oracle(span_is(v, True), has)) for v in (True, False)}
        a = A[True]
        # what collect() makes of the fields
        ini = c.am(k, "__init__")
        pre = {r.instr.name for r in self_stores(ini) if all_are(ini, r.t["val"], lambda l: isconst(l, False))}
        flags = {f for f in pre if any(r.instr.name == f for r in self_stores(a))}
        b = c.an(co, k, oracle=o_truth(is_field(flags), True))
        mk = [r for r in made(b, EXEMPLAR)]
        con = k.fqn
        c.ob("kept", con + " flag", bool(flags), of.where, "nothing says whether a measurement is kept")
        c.ob("kept", con + " exemplar", bool(mk) and always(b, mk, exc=False) is None and all(all(is_made(EXEMPLAR)(l) for l in b.leaves(r.t["val"])) for r in b.rets()), co.where, "a measurement that is kept is not handed out")
        n = c.an(co, k, oracle=o_truth(is_field(flags), False))
        c.ob("kept", con + " empty", not [r for r in made(n, EXEMPLAR) if reachable(n, r.instr)] and all(all(isconst(l, None) for l in n.leaves(r.t["val"])) for r in n.rets()), co.where, "an exemplar is made of no measurement")
        for f in flags:
            v, old = last(a, f)
            c.ob("kept", con + " offered", bool(v) and not old and all(isconst(l, True) for l in v), of.where, "a measurement offered is not marked as kept")
            v, old = last(b, f)
            c.ob("drained", con + " reset", bool(v) and not old and all(isconst(l, False) for l in v), co.where, "an exemplar that was handed out stays in the reservoir")
        for r in mk:
            for name, p in (("value", "value"), ("time_unix_nano", "time_unix_nano"), ("span_id", None), ("trace_id", None)):
                v = argof(c.prog, r, EXEMPLAR, name)
                fs = {l.args[1] for l in b.leaves(v) if l.op == "attr" and l.args[0].op == "self"} if v is not None else set()
                if not c.ob("kept", "%s %s" % (con, name), len(fs) == 1 and all_are(b, v, is_field(fs)), r.where, "the exemplar's %s is not the measurement's: %s" % (name, v)):
                    continue
                f = fs.pop()
                for valid in (True, False):
                    vals, old = last(A[valid], f)
                    if p:
                        ok = bool(vals) and not old and all(is_param(p)(l) for l in vals)
                    elif valid:
                        ok = bool(vals) and not old and all(l.op == "attr" and l.args[1] == name and span_ctx(l.args[0]) for l in vals)
                    else:
                        ok = bool(vals) and not old and all(isconst(l, None) for l in vals)
                    c.ob("kept", "%s %s span %s" % (con, name, "valid" if valid else "invalid"), ok, of.where, "the %s kept is %s%s" % (name, [str(x) for x in vals], ", or that of an earlier measurement" if old else ""))
            attributes(c, k, co, of, A[True], b, r, flags)


def attributes(c, k, co, of, a, b0, r0, flags):
    v = argof(c.prog, r0, EXEMPLAR, "filtered_attributes")
    con = k.fqn + " attributes"
    pa = co.params()[0][1]
    # kept attributes: the field the dictionary is made from
    F = set()
    for l in b0.leaves(v) if v is not None else []:
        for s in b0.sources(l):
            if s.op == "attr" and s.args[0].op == "self":
                F.add(s.args[1])
    for l, items in b0.contents.items():
        if l in (b0.leaves(v) if v is not None else []):
            for kk, vv, i in items:
                for x in list(subterms(vv)) + (list(subterms(kk)) if kk is not None else []):
                    if x.op == "attr" and x.args[0].op == "self":
                        F.add(x.args[1])
    if not c.ob("kept", con, len(F) == 1, r0.where, "the exemplar's attributes are not the measurement's: %s" % v):
        return
    f = next(iter(F))
    vals, old = last(a, f)
    cp = lambda l: is_param("attributes")(l) or callee_of(l) is not None and any(is_param("attributes")(x) for x in list(call_args(l)) + [callee_of(l).args[0] if callee_of(l).op == "attr" else l])
    c.ob("kept", con + " offered", bool(vals) and not old and all(cp(l) for l in vals), of.where, "the attributes kept are %s" % [str(x) for x in vals])
    inside = lambda t: t.op == "in" and is_param(pa)(t.args[1])
    full = oracle(o_truth(is_field(flags), True), o_truth(is_field(F), True), o_isnone(is_field(F), False))
    for there in (True, False):
        b = c.an(co, k, oracle=oracle(full, lambda a_, t, st: there if inside(t) else None))
        for r in made(b, EXEMPLAR):
            v = argof(c.prog, r, EXEMPLAR, "filtered_attributes")
            ls = b.leaves(v)
            ok = bool(ls)
            for l in ls:
                items = [x for x in b.contents.get(l, ()) if reachable(b, x[2])]
                if l.op != "new":
                    ok = False
                elif there:
                    ok = ok and not items
                else:
                    own = [x for x in items if x[0] is not None and x[0].op in ("keyof", "elem") and is_field(F)(x[0].args[0]) and x[1].op in ("elem", "item") and is_field(F)(x[1].args[0])]
                    lps = [lp for lp in b.events("loop") if any(x[2].block in loop_body(b, lp) for x in own)]
                    ok = ok and bool(own) and len(own) == len(items) and bool(lps) and all(loop_skips(b, lp.instr, by(b, own)) is None for lp in lps)
            c.ob("kept", "%s %s the stream" % (con, "of" if there else "not of"), ok, r.where, "an attribute of the stream is repeated in the exemplar" if there else "an attribute that is not the stream's is missing from the exemplar")


def by(b, items):
    return [r for r in b.recs if any(r.instr is x[2] for x in items)]


# -- reservoirs -------------------------------------------------------------------------------------------
def reservoirs(c):
    base = c.prog.cls(RES)
    for k in sorted(c.prog.subclasses(base), key=lambda x: x.fqn):
        if k is base or not k.fqn.startswith(EX) or k.fqn.endswith("ABC"):
            continue
        of, co = c.method(k, "offer"), c.method(k, "collect")
        drain(c, k, co)
        ini = c.am(k, "__init__")
        SZ = field_of_param(ini, "size")
        BD = field_of_param(ini, "boundaries")
        if BD:
            aligned(c, k, of, BD)
        elif SZ:
            sized(c, k, of, co, SZ)


def puts(a, S=None):
    """(record, index term) of the offers to a bucket."""
    out = []
    for r in a.calls(name="offer"):
        v = r.t.get("recv")
        for l in a.leaves(v) if v is not None else ():
            if l.op == "item":
                out.append((r, l))
    return out


def drain(c, k, co):
    a = c.an(co, k)
    con = k.fqn + ".collect"
    evs = [r for r in a.calls(name="collect") if r.t.get("recv") is not None and any(l.op in ("elem", "item") for l in a.leaves(r.t["recv"]))]
    S = {x.args[1] for r in evs for x in subterms(r.t["recv"]) if x.op == "attr" and x.args[0].op == "self"}
    c.ob("drained", con, bool(evs) and bool(S), co.where, "the kept measurements are not collected")
    if not evs:
        return
    every_member(c, "drained", con, a, is_field(S), evs, co, order=False)
    pa = co.params()[0][1]
    for r in evs:
        c.ob("drained", con + " attributes", bool(r.args) and all_are(a, r.args[0], is_param(pa)), r.where, "the stream's attributes are not handed on")
    # what is returned holds every exemplar
    one = lambda t: any(t is r.dst for r in evs)
    b = c.an(co, k, oracle=oracle(lambda a_, t, st: False if t.op == "isnone" and (t.args[0].op == "elem" or is_call(name="collect")(t.args[0])) else None, lambda a_, t, st: True if is_call(name="collect")(t) else None))
    for r in b.rets():
        for l in b.leaves(r.t["val"]):
            ok = flows(b, l, lambda t: is_call(name="collect")(t), set())
            c.ob("drained", con + " returned", ok, r.where, "an exemplar that was kept may not be handed out: %s" % l)


def flows(b, l, pred, seen):
    """Every member of the collection l stands for is a pred, none left out."""
    if l in seen:
        return False
    seen.add(l)
    if l.op == "elem":
        return flows(b, l.args[0], pred, seen)
    x = ca_list(l)
    if x is not None:
        return any(flows(b, y, pred, seen) for y in b.leaves(x))
    if l.op != "new":
        return False
    for kk, v, i in b.contents.get(l, ()):
        lps = [lp for lp in b.events("loop") if i.block in loop_body(b, lp)]
        inner = min(lps, key=lambda lp: len(loop_body(b, lp)), default=None)
        whole = inner is not None and not loop_breaks(b, inner) and loop_skips(b, inner.instr, [r for r in b.recs if r.instr is i]) is None
        if whole and any(pred(y) or y.op == "elem" and flows(b, y.args[0], pred, seen) for y in b.leaves(v)):
            return True
    return False


def aligned(c, k, of, BD):
    """The bucket of the histogram the value falls into."""
    con = k.fqn
    last_ = lambda t: is_call(fqn="builtins.len")(t) and bool(call_args(t)) and is_field(BD)(call_args(t)[0])
    first = lambda t: t.op in ("index", "idx") and is_field(BD)(t.args[0])
    bis = lambda t: is_call(name="bisect_left")(t) and len(call_args(t)) == 2 and is_field(BD)(call_args(t)[0]) and is_param("value")(call_args(t)[1])
    bound = lambda t: t.op == "elem" and is_field(BD)(t.args[0])
    def names(a, t, seen=()):
        """The indices the term may stand for; a loop counter over the
        boundaries is the index of the boundary the loop stopped at."""
        if t.op != "phi" or t not in a.phis or t in seen:
            return [t]
        if any(counts(a, t, lp) for lp in a.events("loop") if all_are(a, lp.t["iter"], is_field(BD))):
            return ["counter"]
        return [y for x, facts in a.phis[t].values() for y in names(a, x, seen + (t,))]

    for above in (True, False):
        def orc(a, t, st):
            if t.op == "lt" and bound(t.args[0]) and is_param("value")(t.args[1]):
                return above
            return None
        a = c.an(of, k, oracle=orc)
        ps = [(r, l) for r, l in puts(a) if reachable(a, r.instr)]
        q = always(a, [r for r, l in ps], exc=False)
        c.ob("place", con + " kept", bool(ps) and q is None, of.where, "a measurement may not be kept although its bucket is known")
        for r, l in ps:
            ls = names(a, l.args[1])
            if "counter" in ls:
                c.ob("place", con, ls == ["counter"], r.where, "the measurement goes to the bucket %s" % [str(x) for x in ls])
                ls = []
                lps = [lp for lp in a.events("loop") if all_are(a, lp.t["iter"], is_field(BD))]
                again = [lp for lp in lps if path_from(a, [e for e in lp.instr.block.succs if e.label == "next"], [], [lp.instr.block]) is not None]
                c.ob("place", "%s counter, value %s a boundary" % (con, "above" if above else "at or below"), bool(again) == above, r.where, "the measurement goes to another bucket")
                offered_args(c, con, a, r)
                continue
            lab = "%s value %s a boundary" % (con, "above" if above else "at or below")
            if above:
                ok = bool(ls) and all(last_(x) or bis(x) for x in ls)
            else:
                # with no boundary at all the last bucket is the only one
                lps = [lp for lp in a.events("loop") if mentions(lp.t["iter"], is_field(BD))]
                again = [lp for lp in lps if path_from(a, [e for e in lp.instr.block.succs if e.label == "next"], [], [lp.instr.block]) is not None]
                here = lambda x: bis(x) or first(x) or isconst(x, 0) and bool(lps)
                ok = bool(ls) and all(last_(x) or here(x) for x in ls) and any(here(x) for x in ls) and not again
            c.ob("place", lab, ok, r.where, "the measurement goes to the bucket %s" % [str(x) for x in ls])
            offered_args(c, con, a, r)


def counts(a, t, lp):
    """0 before the loop, one more after each iteration that goes on."""
    if t.args[0] != lp.instr.block.id:
        return False
    ok = set()
    for x, facts in a.phis[t].values():
        if isconst(x, 0):
            ok.add("start")
        elif lin_is(x, terms=[(1, lambda y: y is t)], const=1):
            ok.add("next")
        elif x is not t:
            return False
    return ok == {"start", "next"} or ok == {"start"}


def offered_args(c, con, a, r):
    for i, n in enumerate(("value", "time_unix_nano", "attributes", "context")):
        v = arg(r, i, n)
        c.ob("kept", "%s.offer %s" % (con, n), v is not None and all_are(a, v, is_param(n)), r.where, "another %s is kept" % n)


def sized(c, k, of, co, SZ):
    con = k.fqn
    a0 = c.an(of, k)
    CT = {r.instr.name for r in self_stores(a0) if lin_is(r.t["val"], terms=[(1, is_field(r.instr.name))], const=1)}
    if not c.ob("place", con + " counted", len(CT) == 1, of.where, "the measurements offered are not counted"):
        return
    ct = next(iter(CT))
    st = [r for r in self_stores(a0) if r.instr.name == ct]
    c.ob("place", con + " counted", always(a0, st, exc=False) is None, of.where, "a measurement may not be counted")
    a = c.an(co, k)
    v, old = last(a, ct)
    c.ob("drained", con + " count", bool(v) and not old and all(isconst(l, 0) for l in v), co.where, "after a collection the reservoir goes on as if it still were full")
    ini = c.am(k, "__init__")
    v, old = last(ini, ct)
    c.ob("place", con + " start", bool(v) and not old and all(isconst(l, 0) for l in v), k.mod.name, "a new reservoir does not start empty")
    for size in (1, 2, 3):
        for seen in range(size + 2):
            place(c, k, of, con, SZ, ct, size, seen)


def place(c, k, of, con, SZ, ct, size, seen):
    draw = lambda t: callee_of(t) is not None and callee_of(t).op == "glob" and callee_of(t).args[0].rpartition(".")[2] in ("randrange", "randint", "_randbelow") or callee_of(t) is not None and callee_of(t).op == "attr" and callee_of(t).args[1] in ("randrange", "randint")
    for kept in (True, False):
        drawn = size - 1 if kept else size

        def vals(a, t):
            if draw(t):
                return drawn
            if is_field(SZ)(t):
                return size
            if t.op == "attr" and t.args[1] == ct and t.args[0].op == "self":
                return seen
            return None

        def orc(a, t, st):
            if t.op in ("lt", "eq"):
                x, y = (number(s, vals, a) for s in t.args[:2])
                if x is not None and y is not None:
                    return x < y if t.op == "lt" else x == y
            return None
        a = c.an(of, k, oracle=orc)
        ps = [(r, l) for r, l in puts(a) if reachable(a, r.instr)]
        lab = "%s size %d after %d" % (con, size, seen)
        if seen < size:
            idx = [number(x, vals, a) if not draw(x) else str(x) for r, l in ps for x in a.leaves(l.args[1])]
            c.ob("place", lab, bool(ps) and set(idx) == {seen} and always(a, [r for r, l in ps], exc=False) is None, of.where, "with room left the measurement is put in place %s (an earlier one may be lost)" % [str(x) for r, l in ps for x in a.leaves(l.args[1])])
        elif kept:
            ls = [x for r, l in ps for x in a.leaves(l.args[1])]
            c.ob("place", lab, bool(ls) and all(draw(x) and uniform(x, vals, a, seen + 1) for x in ls), of.where, "a full reservoir puts the measurement in place %s" % [str(x) for x in ls])
        else:
            c.ob("place", lab + " not drawn", not ps, of.where, "the reservoir grows beyond its size")
        for r, l in ps:
            if seen == 0 and kept:
                offered_args(c, con, a, r)


def number(t, vals, a):
    if t.op == "const":
        v = t.args[0]
        return v if isinstance(v, int) and not isinstance(v, bool) else None
    v = vals(a, t)
    if v is not None:
        return v
    if t.op == "bin" and t.args[0] in ("Add", "Sub"):
        x, y = number(t.args[1], vals, a), number(t.args[2], vals, a)
        return None if x is None or y is None else x + y if t.args[0] == "Add" else x - y
    return None


def uniform(t, vals, a, n):
    x = [number(y, vals, a) for y in call_args(t)]
    if callee_of(t).args[-1].rpartition(".")[2] == "randint":
        return x == [0, n - 1]
    return x in ([0, n], [n])


# -- which reservoir ----------------------------------------------------------------------------------------
def factory(c):
    f = c.prog.funcs[MI + "view._default_reservoir_factory"] if MI + "view._default_reservoir_factory" in c.prog.funcs else None
    v = c.prog.cls(VIEW)
    ini = c.am(v, "__init__")
    P = "exemplar_reservoir_factory"
    for there in (True, False):
        a = c.an(c.method(v, "__init__"), v, oracle=oracle(o_truth(is_param(P), there), o_isnone(is_param(P), not there)))
        st = [r for r in self_stores(a) if P in r.instr.name]
        ls = [l for r in st for l in a.leaves(r.t["val"])]
        ok = bool(ls) and all(is_param(P)(l) if there else l.op in ("glob", "func") and not is_param(P)(l) for l in ls)
        c.ob("default", "View factory %s" % ("given" if there else "not given"), ok, v.mod.name, "the reservoirs of a view come from %s" % [str(x) for x in ls])
        if not there:
            for l in ls:
                f = c.prog.funcs.get(l.args[0], f)
    if f is None:
        return c.ob("default", VIEW, False, v.mod.name, "no default reservoirs")
    p = f.params()[0][0]
    for k in aggregations(c):
        short = k.fqn.rpartition(".")[2]

        def sub(a, t, st):
            ca = callee_of(t)
            if ca is not None and ca.op == "glob" and ca.args[0] == "builtins.issubclass" and is_param(p)(call_args(t)[0]) and call_args(t)[1].op == "glob":
                return call_args(t)[1].args[0] in {x.fqn for x in c.prog.mro(k)}
            if t.op in ("is", "eq") and any(is_param(p)(x) for x in t.args[:2]):
                return any(x.op == "glob" and x.args[0] == k.fqn for x in t.args[:2])
            return None
        a = c.an(f, None, oracle=sub)
        ls = {l.args[0].rpartition(".")[2] if l.op == "glob" else str(l) for r in a.rets() for l in a.leaves(r.t["val"])}
        want = "AlignedHistogramBucketExemplarReservoir" if "ExplicitBucket" in short else "SimpleFixedSizeExemplarReservoir"
        c.ob("default", short, ls == {want}, f.where, "the reservoir is %s by default" % sorted(ls))
        bound(c, k)
    creators(c)


def bound(c, k):
    """A histogram's reservoir has the histogram's own boundaries."""
    m = c.method(k, "__init__")
    if "boundaries" not in m.params()[0] + list(m.params()[2]):
        return
    for there in (True, False):
        a = c.an(m, k, oracle=oracle(o_isnone(is_param("boundaries"), not there)))
        own = [l for r in self_stores(a) if "boundaries" in r.instr.name for l in a.leaves(r.t["val"])]
        own = {str(x) for l in own for x in [ca_list(l) or l]}
        got = set()
        for r in a.recs:
            if r.instr.kind in ("call", "enter"):
                kw = dict(r.kw or {})
                if "boundaries" in kw and mentions_any(a, r, "reservoir_builder"):
                    got |= {str(ca_list(l) or l) for l in a.leaves(kw["boundaries"])}
        c.ob("default", "%s boundaries %s" % (k.fqn, "given" if there else "not given"), bool(got) and got == own, m.where, "the reservoir has the boundaries %s, the histogram %s" % (sorted(got), sorted(own)))


def mentions_any(a, r, p):
    return any(is_param(p)(l) for x in r.args for l in a.leaves(x)) or r.instr.name == p or callee_of(r.dst) is not None and mentions(callee_of(r.dst), is_param(p)) if r.dst is not None else False


def creators(c):
    """Each aggregation gets the reservoir for its own class from the view."""
    base = c.prog.cls(AGG + "_Aggregation")
    own = {x.fqn for x in c.prog.subclasses(base)}
    n = 0
    for q, k in sorted(c.prog.classes.items()):
        m = k.methods.get("_create_aggregation")
        if not q.startswith(AGG) or m is None:
            continue
        a = c.an(m, k)
        for r in a.recs:
            if r.instr.kind != "call" or r.instr.fqn not in own:
                continue
            v = argof(c.prog, r, r.instr.fqn, "reservoir_builder")
            ok = v is not None and all(callee_of(l) is not None and is_param("reservoir_factory")(callee_of(l)) and len(call_args(l)) == 1 and call_args(l)[0].op == "glob" and call_args(l)[0].args[0] == r.instr.fqn for l in a.leaves(v))
            n += 1
            c.ob("default", "%s %s" % (q, r.instr.fqn.rpartition(".")[2]), ok, r.where, "the reservoir is not the view's for this aggregation: %s" % v)
    c.ob("default", AGG + "creators", n >= 5, "", "aggregations are created without a reservoir")
