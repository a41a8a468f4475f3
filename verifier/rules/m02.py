"""M02: collection takes each measurement exactly once."""
from .mx import *
from .l01 import changes, helper_methods, held, own_locks, path_field

NOTE = "For every aggregation class: the state fields are those aggregate() changes; per field a common lock is held at every access of aggregate() and collect(); every state field a point is built from is reset in the critical section that reads it; per combination of temporalities (conditional constant propagation) the point's value is, as a linear expression over the fields, what was recorded since the last collection (delta) or that plus what was carried (cumulative), and the carried field is what was reported; interval starts are stored by delta collections only."

COLL = "collection_aggregation_temporality"
START = "collection_start_nano"
POINTS = ("NumberDataPoint", "HistogramDataPoint", "ExponentialHistogramDataPoint")


def run(c):
    base = c.prog.cls(AGG + "_Aggregation")
    helpers = helper_methods(c)
    n = 0
    for k in sorted(c.prog.subclasses(base, strict=True), key=lambda k: k.fqn):
        ag, co = c.prog.find_method(k, "aggregate"), c.prog.find_method(k, "collect")
        if ag is None or co is None or ag.cls is base:
            continue
        A, C = c.an(ag, k), c.an(co, k)
        S = {f for r, f in changes(c, A, helpers)}
        if not S:
            continue
        n += 1
        locking(c, k, A, C, S, helpers)
        rmw(c, A, k, S)
        values(c, k, ag, co, S, helpers)
    c.floor("locked", 15)
    c.floor("reset", 8)
    c.floor("carried", 6)
    c.floor("added", 6)
    if n < 4:
        c.anchor("aggregation classes with state")


def points(a):
    return made(a, *[k for k in a.prog.classes if k.rsplit(".", 1)[-1] in POINTS])


def locking(c, k, A, C, S, helpers):
    own = own_locks(c, k)
    common = {}
    for a in (A, C):
        acc = [(r, f) for r, f in changes(c, a, helpers)]
        acc += [(r, r.instr.name) for r in a.recs if r.instr.kind == "attr" and is_self(r.t["base"])]
        for r, f in acc:
            if f in S:
                ls = {l.args[1] for l in held(r, own)}
                if f in common and not common[f][0] & ls or not ls:
                    c.ob("locked", "%s %s" % (k.fqn, f), False, r.where, "%s is used without the lock the other uses hold" % f)
                common[f] = (common.get(f, (ls,))[0] & ls, r)
    for f in sorted(S):
        if f in common:
            c.ob("locked", "%s %s" % (k.fqn, f), bool(common[f][0]), common[f][1].where, "no common lock protects %s" % f)
    return common


def temporality(inst, coll):
    """Oracle: what the instrument reports and what the reader wants."""
    def side(t, who):
        return who(t)

    def member(t):
        n = t.args[0].rsplit(".", 1)[-1] if t.op == "glob" else None
        return n if n in ("DELTA", "CUMULATIVE", "UNSPECIFIED") else None

    def f(a, t, st):
        if t.op != "eq":
            return None
        x, y = t.args
        for p, q in ((x, y), (y, x)):
            if member(p) is None:
                continue
            if is_param(COLL)(q):
                return member(p) == coll
            if q.op == "attr" and is_self(q.args[0]) and "temporality" in q.args[1]:
                return member(p) == inst
        x_is = is_param(COLL)(x) or is_param(COLL)(y)
        i_is = any(z.op == "attr" and is_self(z.args[0]) and "temporality" in z.args[1] for z in (x, y))
        if x_is and i_is:
            return inst == coll
        return None
    return f


def fields_of(a, t, S):
    out = set()
    for x in a.sources(t):
        if x.op == "attr" and is_self(x.args[0]) and x.args[1] in S:
            out.add(x.args[1])
    return out


def values(c, k, ag, co, S, helpers):
    S = {f for f in S if "reservoir" not in f}
    con = co.fqn if co.cls is k else k.fqn + ".collect"
    some = lambda a, t, st: (False if t.op == "isnone" and is_field(S)(t.args[0]) else True if is_field(S)(t) and "value" in t.args[1] and not is_sum and not gauge else None)
    unset = lambda a, t, st: True if t.op == "isnone" and is_field(S)(t.args[0]) else None
    combos = [("DELTA", "DELTA"), ("DELTA", "CUMULATIVE")]
    init = c.am(k, "__init__")
    tf = field_of_param(init, "instrument_aggregation_temporality") if init is not None else set()
    is_sum = any(r.instr.fqn.endswith("NumberDataPoint") for r in points(c.an(co, k))) and bool(tf)
    gauge = not tf
    if is_sum:
        combos += [("CUMULATIVE", "CUMULATIVE"), ("CUMULATIVE", "DELTA")]
    starts = field_of_param(init, "start_time_unix_nano") if init is not None else set()
    arg_field = {}
    for inst, coll in combos:
        a = c.an(co, k, oracle=oracle(temporality(inst, coll), some))
        lab = "%s %s/%s" % (con, inst, coll)
        ps = points(a)
        c.ob("point", lab, bool(ps) and always_made(a, ps), co.where, "a collection with data may produce no point")
        for r in ps:
            fq = r.instr.fqn
            args = {n: argof(c.prog, r, fq, n) for n in ("value", "sum", "count", "min", "max", "zero_count", "bucket_counts", "positive", "negative", "scale")}
            args = {n: v for n, v in args.items() if v is not None}
            t = argof(c.prog, r, fq, "time_unix_nano")
            c.ob("interval", lab + " end", t is not None and all_are(a, t, is_param(START)), r.where, "the point does not end at the time of the collection")
            interval(c, a, k, r, fq, lab, coll, starts, gauge, co, unset if (inst, coll) == ("DELTA", "DELTA") else None)
            resets(c, a, k, r, args, S, lab, con)
            at = argof(c.prog, r, fq, "attributes")
            for n, v in args.items():
                fs = fields_of(a, v, S)
                if (inst, coll) == ("DELTA", "DELTA") or gauge:
                    c.ob("reported-value", "%s %s" % (lab, n), len(fs) == 1 and (n not in ("value", "sum", "min", "max", "zero_count", "scale") or all_are(a, v, is_field(S))), r.where, "the point's %s is not what was recorded since the last collection: %s" % (n, v))
                    if len(fs) == 1:
                        arg_field[n] = next(iter(fs))
                elif inst == "DELTA" and n != "scale":
                    carried(c, a, k, r, n, v, arg_field.get(n), S, lab, helpers)
                elif inst == "CUMULATIVE" and coll == "CUMULATIVE":
                    c.ob("reported-value", "%s %s" % (lab, n), all_are(a, v, is_field(S)), r.where, "the total the callback reported is not what is reported: %s" % v)
                elif inst == "CUMULATIVE" and coll == "DELTA":
                    F = arg_field.get(n)
                    prev = [f for x in subterms(v) if x.op == "attr" and is_self(x.args[0]) and x.args[1] not in S for f in [x.args[1]]]
                    ok = len(set(prev)) == 1 and lin_is(v, terms=[(1, is_field(F)), (-1, is_field(set(prev)))])
                    c.ob("reported-value", "%s %s" % (lab, n), ok, r.where, "the difference to the previous total is not what is reported: %s" % v)
                    if ok:
                        st = [x for x in self_stores(a) if x.instr.name in prev]
                        good = [x for x in st if all_are(a, x.t["val"], is_field(F))]
                        c.ob("carried", "%s %s" % (lab, n), bool(good) and len(good) == len(st) and a.dominated(r.instr, [x.instr for x in good]) or bool(good) and len(good) == len(st) and always(a, good, exc=False) is None, r.where, "the total is not remembered for the next difference")
        if coll == "CUMULATIVE" and inst == "DELTA":
            # nothing recorded: the totals stay as they are
            none = lambda a_, t, st: (t.args[0].args[1] in S) if t.op == "isnone" and t.args[0].op == "attr" and is_self(t.args[0].args[0]) else None
            for b in (c.an(co, k, oracle=oracle(temporality(inst, coll), none)), c.an(co, k, oracle=oracle(temporality(inst, coll), some, lambda a_, t, st: False if t.op == "isnone" and t.args[0].op == "attr" and is_self(t.args[0].args[0]) else None))):
                for x in self_stores(b):
                    if x.instr.name in S or x.instr.frame.fi.name == "__init__" or is_self(x.t["base"]) is False:
                        continue
                    ok = b.derives(x.t["val"], is_field(x.instr.name))
                    c.ob("carried", "%s %s" % (lab, x.instr.name), ok, x.where, "a cumulative collection resets %s" % x.instr.name)
    a = c.an(co, k)
    for x in self_stores(a):
        if x.instr.name in starts and x.instr.name not in {y.instr.name for y in self_stores(a) if all_are(a, y.t["val"], is_param(START))}:
            c.ob("interval", con, False, x.where, "the start of a stream is changed by a collection")
    added(c, k, ag, S, arg_field, helpers)


def always_made(a, ps):
    q = a.path_avoiding(a.b.entry, [p.instr for p in ps], a.exit_blocks(exc=False), skip_first=False)
    return q is None and all(all(is_made(*{p.instr.fqn for p in ps})(l) for l in a.leaves(r.t["val"])) for r in a.rets())


def interval(c, a, k, r, fq, lab, coll, starts, gauge, co=None, nothing=None):
    s = argof(c.prog, r, fq, "start_time_unix_nano")
    if gauge:
        return
    own = {l.args[1] for l in a.leaves(s) if l.op == "attr" and is_self(l.args[0])}
    st = [x for x in self_stores(a) if x.instr.name in own]
    fine = len(own) == 1 and all_are(a, s, is_field(own)) and own <= starts
    if coll == "DELTA":
        good = [x for x in st if all_are(a, x.t["val"], is_param(START))]
        c.ob("interval", lab + " start", fine and bool(good) and len(good) == len(st) and always(a, good, exc=False) is None, r.where, "a delta point does not start where the previous collection ended: %s" % s)
        if nothing is not None:
            b = c.an(co, k, oracle=oracle(temporality("DELTA", coll), nothing))
            good = [x for x in self_stores(b) if x.instr.name in own and all_are(b, x.t["val"], is_param(START))]
            c.ob("interval", lab + " start", bool(good) and always(b, good, exc=False) is None, r.where, "after a collection in which nothing was recorded the next delta point starts before that collection")
    else:
        c.ob("interval", lab + " start", fine and not st, r.where, "a cumulative point does not start where its stream began: %s" % s)
        for n in starts:
            stn = [x for x in self_stores(a) if x.instr.name == n]
            c.ob("interval", "%s %s" % (lab, n), not stn, stn[0].where if stn else r.where, "a cumulative collection moves the start of an interval")


def resets(c, a, k, r, args, S, lab, con):
    own = own_locks(c, k)
    for f in sorted({f for n, v in args.items() for f in fields_of(a, v, S)}):
        if not any(x.instr.name == f for x in c_init(c, k)):
            continue
        st = [x for x in self_stores(a) if x.instr.name == f]
        first = [x for x in st if x.t["val"].op == "const" or is_number(x.t["val"])]
        rd = [x for x in a.recs if x.instr.kind == "attr" and x.instr.name == f and is_self(x.t["base"]) and mentions_field(x)]
        q = always(a, first, exc=False)
        c.ob("reset", "%s %s" % (lab, f), bool(first) and q is None, r.where, "%s is reported and not reset" % f)
        for x in first:
            i = initial(c, k, f)
            c.ob("reset", "%s %s" % (lab, f), any(str(v) == str(x.t["val"]) for v in i), x.where, "%s is reset to %s, a new stream starts with %s" % (f, x.t["val"], [str(v) for v in i]))
            for y in rd:
                if a.can_reach(x.instr, y.instr):
                    continue
                for l in {z for z in held(x, own)} or {None}:
                    same = l is not None and any(z is l for z in held(y, own)) and not split(a, y, x, l)
                    c.ob("reset", "%s %s" % (lab, f), same, x.where, "%s is read and reset in two critical sections: what is recorded between them is lost" % f)
        for x in st:
            if x not in first and a.can_reach(first[0].instr, x.instr) if first else False:
                c.ob("reset", "%s %s" % (lab, f), False, x.where, "%s is changed after it was reset" % f)


def rmw(c, a, k, S):
    """What a measurement is added to is read in the critical section that
    stores the result."""
    own = own_locks(c, k)
    for x in self_stores(a):
        if x.instr.name not in S:
            continue
        rd = [y for y in a.recs if y.instr.kind == "attr" and y.instr.name == x.instr.name and is_self(y.t["base"]) and a.can_reach(y.instr, x.instr) and a.derives(x.t["val"], lambda t, y=y: t is y.dst)]
        for l in held(x, own):
            ok = not rd or any(any(z is l for z in held(y, own)) and not split(a, y, x, l) for y in rd)
            c.ob("locked", "%s %s updated" % (k.fqn, x.instr.name), ok, x.where, "%s is read and stored in two critical sections" % x.instr.name)


def mentions_field(x):
    return True


def split(a, y, x, l):
    """The lock is given up between y and x."""
    for z in a.events("release"):
        if z.t["lock"] is l and z.locks.get(l, 0) <= 1 and a.can_reach(y.instr, z.instr) and a.can_reach(z.instr, x.instr):
            return True
    return False


def is_number(t):
    return t.op == "glob" and t.args[0].rsplit(".", 1)[-1] in ("inf", "nan") or t.op in ("neg", "un") and is_number(t.args[-1])


def c_init(c, k):
    a = c.am(k, "__init__")
    return list(self_stores(a)) if a is not None else []


def initial(c, k, f):
    a = c.am(k, "__init__")
    return [l for x in self_stores(a) if x.instr.name == f for l in a.leaves(x.t["val"])]


def carried(c, a, k, r, n, v, F, S, lab, helpers):
    """Cumulative: what is reported is what was carried plus what is new."""
    if F is None:
        return
    from .c02 import mutations
    # fields outside S whose stored value is reported
    cand = {}
    for x in self_stores(a):
        if x.instr.name in S:
            continue
        if any(a.derives(x.t["val"], is_field(F)) for _ in (1,)):
            cand.setdefault(x.instr.name, []).append(x)
    ok = False
    why = "nothing carries it over"
    whole = lambda w, p: lin_is(w, terms=[(1, lambda t: all(is_field(F)(l) or isconst(l, 0) for l in a.leaves(t)) and any(is_field(F)(l) for l in a.leaves(t))), (1, is_field(p))])
    for p, xs in sorted(cand.items()):
        good = []
        for x in xs:
            w = x.t["val"]
            if n in ("min", "max"):
                g = glob_call(w, "builtins." + n) and {y.args[1] for y in call_args(w) if y.op == "attr" and is_self(y.args[0])} == {F, p}
            elif n in ("bucket_counts", "count") and w.op != "bin":
                g = elementwise(a, w, F, p)
            else:
                g = whole(w, p)
            if g:
                good.append(x)
        reported = any(v is x.t["val"] or any(l is x.t["val"] for l in a.sources(v)) or x.t["val"] in set(subterms(v)) for x in good) or bool(good) and is_field(p)(v)
        if good and reported:
            if len(good) == 1 and always(a, good, exc=False) is None and all(x in good or isempty(a, x) for x in xs):
                ok = True
            else:
                why = "it is not carried over exactly once on every path"
    if n in ("positive", "negative"):
        # buckets are merged in place into the carried ones
        roots = {path_field(a, x) for x in bases(a, v)}
        merged = [(x, path_field(a, x.t["recv"])) for x in a.recs if x.instr.kind == "call" and x.instr.name in helpers and x.t.get("recv") is not None and any(a.derives(y, is_field(F)) for y in list(x.args) + list(x.kw.values()))]
        merged = [(x, p) for x, p in merged if p and p not in S]
        ok = bool(merged) and all(p in roots for x, p in merged)
        if not merged:
            why = "the new buckets are not merged into the carried ones"
        else:
            why = "the carried buckets are not those reported"
    c.ob("carried", "%s %s" % (lab, n), ok, r.where, "the point's %s is not what was recorded in total: %s (%s)" % (n, v, why))


def bases(a, v):
    """Objects of self a reported point is made of."""
    for x in a.sources(v):
        if x.op in ("attr", "phi"):
            yield x


def isempty(a, x):
    """An initial value for something not carried yet."""
    return x.t["val"].op != "const" and not any(y.op == "attr" and is_self(y.args[0]) for y in subterms(x.t["val"]) if y.args[1:] and "value" in str(y.args[1]))


def elementwise(a, w, F, p):
    """[x + y for x, y in zip(F, p)]"""
    cont = [v for l in a.leaves(w) for k_, v, i in a.contents.get(l, ())]
    cont += [call_args(w)[0]] if glob_call(w, "builtins.list", "builtins.tuple") and not cont else []
    for v in cont:
        l = {x: n for x, n in linear(v).items() if n}
        if sorted(l.values(), key=str) != [1, 1] or None in l:
            return False
        fs = [frozenset(y.args[1] for y in a.sources(x) if y.op == "attr" and is_self(y.args[0])) for x in l]
        if not (any(F in s for s in fs) and any(p in s for s in fs)):
            return False
        # one element of each, not twice the same
        if len({str(x) for x in l}) != 2:
            return False
    return bool(cont)


def added(c, k, ag, S, arg_field, helpers):
    m = ag.params()[0][1]
    mv = lambda t: t.op == "attr" and t.args[1] == "value" and is_param(m)(t.args[0])
    con = k.fqn + ".aggregate"
    a = c.an(ag, k)
    init = c.am(k, "__init__")
    mm = field_of_param(init, "record_min_max")
    for n, F in sorted(arg_field.items()):
        st = [x for x in self_stores(a) if x.instr.name == F]
        if n in ("value", "sum", "count") and n != "count" or n == "count" and F not in (arg_field.get("bucket_counts"),):
            gauge = n == "value" and st and all_are(a, st[-1].t["val"], mv)
            tf = field_of_param(init, "instrument_aggregation_temporality")
            old = lambda t: all(is_field(F)(l) or isconst(l, 0) for l in a.leaves(t))
            inc = [(1, mv)] if n != "count" else []
            b = c.an(ag, k, oracle=lambda a_, t, s_: False if t.op == "isnone" and is_field(F)(t.args[0]) else None)
            first = [] if any(y.instr.name == F and all_are(b, y.t["val"], mv) for y in self_stores(b)) else [x for x in st if all_are(a, x.t["val"], mv)]
            good = [x for x in st if x in first or (not tf and all_are(a, x.t["val"], mv)) or tf and lin_is(x.t["val"], terms=[(1, old)] + inc, const=1 if n == "count" else 0)]
            rest = [x for x in st if x not in good and not isconst(x.t["val"], 0)]
            ok = bool(good) and always(a, good, exc=False) is None and not rest and not any(a.can_reach(x.instr, y.instr) for x in good for y in good)
            c.ob("added", "%s %s" % (con, n), ok, (st or [a.rets()[0]])[0].where, "a measurement is not taken into %s exactly once" % n)
            for x in st:
                if isconst(x.t["val"], 0):
                    c.ob("added", "%s %s" % (con, n), not any(y.instr.name == F and isconst(y.t["val"], 0) for y in self_stores(b)), x.where, "what was recorded before may be thrown away")
        elif n in ("min", "max"):
            b = c.an(ag, k, oracle=oracle(o_truth(is_field(mm), True))) if mm else a
            sb = [x for x in self_stores(b) if x.instr.name == F]
            lo = [x for x in sb if glob_call(x.t["val"], "builtins." + n) and any(mv(y) for y in call_args(x.t["val"])) and any(is_field(F)(y) for y in call_args(x.t["val"]))]
            cmp_ = [x for x in sb if mv(x.t["val"])]
            ok = bool(sb) and (len(lo) == len(sb) and always(b, lo, exc=False) is None or len(cmp_) == len(sb) and all(x.facts for x in sb))
            c.ob("added", "%s %s" % (con, n), ok, (sb or b.rets())[0].where, "the %s does not take the measurement into account" % n)
        elif n == "zero_count":
            isz = lambda val: (lambda a_, t, s_: val if t.op == "eq" and any(mv(x) for x in t.args) and any(isconst(x, 0) or isconst(x, 0.0) for x in t.args) else None)
            z, nz = c.an(ag, k, oracle=isz(True)), c.an(ag, k, oracle=isz(False))
            s1 = [x for x in self_stores(z) if x.instr.name == F and lin_is(x.t["val"], terms=[(1, is_field(F))], const=1)]
            s2 = [x for x in self_stores(nz) if x.instr.name == F]
            c.ob("added", "%s %s" % (con, n), bool(s1) and always(z, s1, exc=False) is None and not s2, (s2 or s1 or z.rets())[0].where, "zeros are not counted exactly")
        elif n == "bucket_counts":
            it = [x for x in a.events("store_item") if path_field(a, x.t["base"]) == F]
            good = [x for x in it if lin_is(x.t["val"], terms=[(1, lambda t, x=x: t.op == "item" and t.args[1] is x.t["key"])], const=1) and bucket_of(c, a, k, x.t["key"], mv)]
            ok = len(it) == 1 and len(good) == 1 and always(a, good, exc=False) is None
            c.ob("added", "%s %s" % (con, n), ok, (it or a.rets())[0].where, "a measurement is not counted in exactly the bucket it belongs to")
        elif n in ("positive", "negative"):
            for sign in (1, 0, -1):
                b = c.an(ag, k, oracle=sign_of(mv, sign))
                inc = [x for x in b.recs if x.instr.kind == "call" and x.instr.name == "increment_bucket" and path_field(b, x.t["recv"]) is not None]
                here = [x for x in inc if set_fields(b, x.t["recv"]) == {F}]
                want = sign == (1 if n == "positive" else -1)
                ok = len(here) == 1 and always(b, here, exc=False) is None and len(inc) == 1 and not here[0].kw and len(here[0].args) == 1 if want else not here
                c.ob("added", "%s %s %s" % (con, n, sign), ok, (inc or b.rets())[0].where, "a measurement is not counted in exactly one bucket of its sign")


def set_fields(a, t):
    out = set()
    for l in a.sources(t):
        if l.op == "attr" and is_self(l.args[0]):
            out.add(l.args[1])
    return out


def bucket_of(c, a, k, key, mv):
    if not glob_call(key, "bisect.bisect_left"):
        return False
    x = call_args(key)
    b = c.am(k, "__init__")
    fs = {r.instr.name for r in self_stores(b) if b.derives(r.t["val"], is_param("boundaries")) and "reservoir" not in r.instr.name}
    return len(x) == 2 and mv(x[1]) and x[0].op == "attr" and is_self(x[0].args[0]) and x[0].args[1] in fs


def sign_of(mv, s):
    def f(a, t, st):
        if t.op in ("eq", "lt", "le", "gt", "ge", "cmp") and len(t.args) >= 2:
            x, y = t.args[-2], t.args[-1]
            op = t.op if t.op != "cmp" else str(t.args[0]).lower()
            zero = lambda z: isconst(z, 0) or isconst(z, 0.0)
            for p, q, v in ((x, y, s), (y, x, -s)):
                if mv(p) and zero(q):
                    return {"eq": v == 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0, "lte": v <= 0, "gte": v >= 0}.get(op)
        return None
    return f
