"""M03: registering the same instrument twice yields one instrument."""
from .mx import *
from .lib import logger_calls

NOTE = "For each of the seven create operations and for get_meter: the returned object is the one found under the request's identity, or a new object of the operation's kind stored under that identity, lookup and store being in one lock region; asynchronous instruments are registered for collection exactly on creation; conflicts are logged; the identity is built injectively from kind, name, unit and description."

OPS = (
    ("create_counter", "Counter"),
    ("create_up_down_counter", "UpDownCounter"),
    ("create_observable_counter", "ObservableCounter"),
    ("create_histogram", "Histogram"),
    ("create_gauge", "_Gauge"),
    ("create_observable_gauge", "ObservableGauge"),
    ("create_observable_up_down_counter", "ObservableUpDownCounter"),
)
API_METER = "opentelemetry.metrics._internal.Meter"


def run(c):
    k = c.prog.cls(METER)
    for op, cls in OPS:
        create(c, k, op, cls)
    identity(c, k)
    meters(c)
    registered(c)
    c.floor("one-instrument", 14)
    c.floor("own-arguments", 7)
    c.floor("callbacks-registered", 3)
    c.floor("conflict-logged", 7)


def lookup(reg):
    """Terms that read the registry: registry[k] or registry.get(k)."""
    def f(t):
        return t.op == "item" and is_field(reg)(t.args[0]) or is_call(name=("get", "setdefault"))(t) and is_field(reg)(callee_of(t).args[0])
    return f


def key_of(t):
    return t.args[1] if t.op == "item" else call_args(t)[0]


def o_found(reg, val):
    lk = lookup(reg)

    def f(a, t, st):
        if t.op == "isnone" and lk(t.args[0]):
            return not val
        if lk(t):
            return val
        if t.op == "in" and is_field(reg)(t.args[1]):
            return val
        return None
    return f


def once(c, con, a0, k, m, reg, isnew, oid):
    """Found: handed out, nothing created. Not found: created, stored under the
    same identity and handed out. All in one lock region."""
    lk = lookup(reg)
    a = c.an(m, k, oracle=o_found(reg, True))
    mk = [r for r in a.recs if r.instr.kind in ("call", "enter") and r.dst is not None and isnew(r.dst)]
    rets = a.rets()
    c.ob("one-instrument", con + " found", bool(rets) and all(all_are(a, r.t["val"], lk) for r in rets), m.where, "an existing instrument is not the one returned")
    c.ob("one-instrument", con + " found", not [r for r in a.recs if r.instr.kind == "store_item" and all_are(a, r.t["base"], is_field(reg))], m.where, "an existing instrument is replaced")
    c.ob("one-instrument", con + " found", not mk, mk[0].where if mk else m.where, "another instrument is created although there is one")
    a = c.an(m, k, oracle=o_found(reg, False))
    st = [r for r in a.recs if r.instr.kind == "store_item" and all_are(a, r.t["base"], is_field(reg))]
    ok = bool(st) and all(all_are(a, r.t["val"], isnew) for r in st) and always(a, st, exc=False) is None
    c.ob("one-instrument", con + " new", ok, m.where, "a new instrument may not be kept")
    kept = {l for r in st for l in a.leaves(r.t["val"])}
    back = lambda l: l in kept or lk(l) and any(key_of(l) is r.t["key"] for r in st)
    c.ob("one-instrument", con + " new", all(all(back(l) for l in a.leaves(r.t["val"])) for r in a.rets()), m.where, "what is returned is not what was kept")
    # same identity at lookup and store, all of it from the request
    looks = [t for r in a.recs for t in [r.dst] if t is not None and lk(t)]
    tests = [r for r in a.recs if r.dst is not None and r.dst.op == "in" and is_field(reg)(r.dst.args[1])]
    keys = {key_of(t) for t in looks} | {r.t["key"] for r in st} | {r.dst.args[0] for r in tests}
    c.ob("one-identity", con, len(keys) == 1, m.where, "an instrument is looked up under another identity than it is kept under: %s" % ", ".join(sorted(str(x)[:80] for x in keys)))
    for kk in keys:
        c.ob("one-identity", con, oid(a, kk), m.where, "the identity of the request is not what the instrument is kept under: %s" % kk)
    # one region
    rd = [r for r in a.recs if r.dst is not None and (lk(r.dst) or r in tests)]
    for s in st:
        good = [r for r in rd if a.can_reach(r.instr, s.instr) and any(l in s.locks and not gap(a, r, s, l) for l in r.locks)]
        c.ob("one-region", con, bool(good), s.where, "between looking for an instrument and keeping a new one another thread may do the same")
    for r in a.rets():
        pass
    return a, st, kept


def gap(a, y, x, l):
    for z in a.events("release"):
        if z.t["lock"] is l and z.locks.get(l, 0) <= 1 and a.can_reach(y.instr, z.instr) and a.can_reach(z.instr, x.instr) and again(a, z, y, x):
            return True
    return False


def again(a, z, y, x):
    """After the release x can come without another y."""
    if y.instr.block is x.instr.block and y.instr.block.instrs.index(y.instr) < y.instr.block.instrs.index(x.instr):
        return z.instr.block is x.instr.block and y.instr.block.instrs.index(y.instr) < z.instr.block.instrs.index(z.instr)
    return a.path_avoiding(z.instr, [y.instr], [x.instr.block]) is not None


def registry(a, isnew):
    return {l.args[1] for r in a.events("store_item") if any(isnew(x) for x in a.leaves(r.t["val"])) for l in a.leaves(r.t["base"]) if l.op == "attr" and is_self(l.args[0])}


def create(c, k, op, cls):
    m = c.method(k, op)
    con = METER + "." + op
    names = {x.fqn for x in c.prog.subclasses(c.prog.cls(INST + cls))} | {INST + cls}
    others = {x.fqn for o, n in OPS if n != cls for x in c.prog.subclasses(c.prog.cls(INST + n))}
    isnew = is_made(*names)
    a0 = c.an(m, k)
    wrong = made(a0, *(others - names))
    c.ob("own-kind", con, not wrong and bool(made(a0, *names)), wrong[0].where if wrong else m.where, "an instrument of another kind is created")
    reg = registry(a0, isnew)
    if not c.ob("one-instrument", con, len(reg) == 1, m.where, "the instruments are not kept"):
        return
    fqns = sorted(names)

    def oid(a, kk):
        ks = [x for x in a.sources(kk)]
        txt = list(subterms_deep(a, kk))
        return all(any(is_param(p)(x) for x in txt) for p in ("name", "unit", "description")) and any(x.op == "glob" and any(x.args[0].startswith(n) for n in fqns) for x in txt)
    a, st, kept = once(c, con, a0, k, m, reg, isnew, oid)
    for r in made(a, *names):
        fq = next(n for n in fqns if r.instr.fqn in (n, n + ".__init__"))
        want = {"name": is_param("name"), "unit": is_param("unit"), "description": is_param("description"), "instrumentation_scope": self_attr("_instrumentation_scope"), "measurement_consumer": self_attr("_measurement_consumer")}
        if "callbacks" in m.params()[0]:
            want["callbacks"] = is_param("callbacks")
        if "explicit_bucket_boundaries_advisory" in m.params()[0] + [x for x in m.params()[2]] if len(m.params()) > 2 else False:
            want["explicit_bucket_boundaries_advisory"] = lambda t: is_param("explicit_bucket_boundaries_advisory")(t) or isconst(t, None)
        for p, w in want.items():
            v = argof(c.prog, r, fq, p)
            c.ob("own-arguments", "%s %s" % (con, p), v is not None and all_are(a, v, w), r.where, "the instrument is created with another %s than asked for" % p)
    # callbacks are collected
    if "callbacks" in m.params()[0]:
        ev = [r for r in a.calls(name="register_asynchronous_instrument") if r.args and all_are(a, r.args[0], lambda t: t in kept)]
        c.ob("callbacks-registered", con, bool(ev) and always(a, ev, exc=False) is None, m.where, "the callbacks of a new asynchronous instrument may never be collected")
        c.ob("callbacks-registered", con, not any(a.can_reach(x.instr, y.instr) for x in ev for y in ev), m.where, "an instrument is registered for collection several times")
        b = c.an(m, k, oracle=o_found(reg, True))
        c.ob("callbacks-registered", con, not b.calls(name="register_asynchronous_instrument"), m.where, "an existing instrument is registered for collection again")
    # conflicts
    for val in (True, False):
        b = c.an(m, k, oracle=oracle(o_truth(lambda t: t.op == "attr" and t.args[1] == "conflict", val)))
        lg = [r for r in logger_calls(b) if r.instr.name in ("warning", "error", "exception")]
        if val:
            c.ob("conflict-logged", con, bool(lg) and always(b, lg, exc=False) is None, m.where, "a conflicting request is not logged")


def subterms_deep(a, t, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return
    seen.add(t)
    for x in subterms(t):
        yield x
        if x is not t and x.op in ("phi", "new"):
            pass
        for l in a.leaves(x) if x.op == "phi" else ():
            yield from subterms_deep(a, l, seen)
        for k_, v, i in a.contents.get(x, ()):
            yield from subterms_deep(a, v, seen)


def identity(c, k):
    """Kind, name, unit and description, and nothing that could make two
    different requests look alike."""
    m = c.prog.find_method(k, "_register_instrument")
    if m is None:
        return
    con = m.fqn
    a = c.an(m, k)
    ST = m.mod.name + "._InstrumentRegistrationStatus"
    rs = made(a, *[x for x in c.prog.classes if x.rsplit(".", 1)[-1] == "_InstrumentRegistrationStatus"])
    ps = m.params()[0][1:]
    for r in rs:
        v = r.kw.get("instrument_id") or (r.args[0] if r.args else None)
        for l in a.leaves(v):
            parts, ok = injective(a, l)
            c.ob("identity", con, ok, r.where, "different requests may get the same identity: %s" % l)
            for p in ("name", "unit", "description"):
                c.ob("identity", "%s %s" % (con, p), any(mentions(x, is_param(p)) for x in parts), r.where, "the %s is no part of the identity" % p)
            for p in ("unit", "description"):
                c.ob("identity", "%s %s" % (con, p), any(all_are(a, x, is_param(p)) for x in parts), r.where, "only something of the %s is a part of the identity" % p)
            c.ob("identity", con + " kind", any(x.op == "attr" and x.args[1] in ("__name__", "__qualname__") and is_param(ps[1])(x.args[0]) or is_param(ps[1])(x) for x in parts), r.where, "the kind is no part of the identity")
            c.ob("identity", con, not any(mentions(x, lambda t: is_param("advisory")(t)) for x in parts), r.where, "the advisory is a part of the identity")
            # the store under the same identity, in the region of the test
            st = [x for x in a.events("store_item") if all_are(a, x.t["key"], lambda t: t is l)]
            ts = [x for x in a.recs if x.dst is not None and x.dst.op == "in" and x.dst.args[0] is l]
            c.ob("identity", con + " kept", bool(st) and all(any(y in x.locks for y in z.locks) for x in st for z in ts), r.where, "the request is not registered atomically")
            b = c.an(m, k, oracle=lambda a_, t, s: True if t.op == "in" and str(t.args[0]) == str(l) else None)
            for x in made(b, r.instr.fqn):
                w = x.kw.get("conflict")
                if w is not None:
                    ok = all(mentions(y, is_param("advisory")) and any(z.op in ("item", "call") or is_call(name="get")(z) for z in subterms(y)) for y in b.leaves(w))
                    c.ob("conflict", con, ok, x.where, "a conflict is not what differs in the advisory: %s" % w)
            b = c.an(m, k, oracle=lambda a_, t, s: False if t.op == "in" and str(t.args[0]) == str(l) else None)
            for x in made(b, r.instr.fqn):
                w = x.kw.get("conflict")
                if w is not None:
                    c.ob("conflict", con, all(isconst(y, False) for y in b.leaves(w)), x.where, "a first request is reported as a conflict")


def injective(a, l):
    """(parts, no two different part lists look alike)"""
    if l.op == "tup":
        return parts_of(a, l), True
    if glob_call(l, "builtins.repr", "builtins.tuple", "builtins.frozenset"):
        x = call_args(l)[0]
        return parts_of(a, x), x.op in ("tup", "new", "obj") and not glob_call(l, "builtins.frozenset")
    if glob_call(l, "builtins.str"):
        x = call_args(l)[0]
        return parts_of(a, x), x.op in ("tup", "new")
    if is_call(name="join")(l):
        x = call_args(l)[0]
        xs = parts_of(a, x)
        return xs, False
    return [x for x in subterms(l)], False


def parts_of(a, x):
    out = [y for y in x.args if isinstance(y, Term)] + [z for y in x.args if isinstance(y, tuple) for z in y if isinstance(z, Term)]
    return out + [v for k_, v, i in a.contents.get(x, ())]


def meters(c):
    k = c.prog.cls(PROVIDER)
    m = c.method(k, "get_meter")
    isnew = is_made(METER)
    on = oracle(o_truth(is_param("name"), True), lambda a, t, s: False if t.op == "attr" and is_self(t.args[0]) and t.args[1] in ("_disabled", "_shutdown") else None)
    a0 = c.an(m, k, oracle=on)
    reg = registry(a0, isnew)
    con = m.fqn
    if not c.ob("one-meter", con, len(reg) == 1, m.where, "the meters are not kept"):
        return
    lk = lookup(reg)
    SC = "opentelemetry.sdk.util.instrumentation.InstrumentationScope"
    for val in (True, False):
        a = c.an(m, k, oracle=oracle(on, o_found(reg, val)))
        st = [r for r in a.events("store_item") if all_are(a, r.t["base"], is_field(reg))]
        keys = {key_of(r.dst) for r in a.recs if r.dst is not None and lk(r.dst)} | {r.t["key"] for r in st} | {r.dst.args[0] for r in a.recs if r.dst is not None and r.dst.op == "in" and is_field(reg)(r.dst.args[1])}
        c.ob("one-meter", con, len(keys) == 1, m.where, "a meter is looked up under another identity than it is kept under")
        if val:
            c.ob("one-meter", con, not st and not made(a, METER), m.where, "another meter is created although there is one")
            c.ob("one-meter", con, bool(a.rets()) and all(all_are(a, r.t["val"], lk) for r in a.rets()), m.where, "the existing meter is not returned")
            continue
        c.ob("one-meter", con, bool(st) and always(a, st, exc=False) is None and all(all_are(a, r.t["val"], isnew) for r in st), m.where, "a new meter may not be kept")
        kept = {l for r in st for l in a.leaves(r.t["val"])}
        c.ob("one-meter", con, all(all(l in kept or lk(l) for l in a.leaves(r.t["val"])) for r in a.rets()), m.where, "what is returned is not the meter that was kept")
        for s in st:
            rd = [r for r in a.recs if r.dst is not None and (lk(r.dst) or r.dst.op == "in" and is_field(reg)(r.dst.args[1]))]
            good = [r for r in rd if a.can_reach(r.instr, s.instr) and any(l in s.locks and not gap(a, r, s, l) for l in r.locks)]
            c.ob("one-meter", con, bool(good), s.where, "between looking for a meter and keeping a new one another thread may do the same")
        for r in made(a, METER):
            v = argof(c.prog, r, METER, "instrumentation_scope")
            c.ob("one-meter", con + " scope", v is not None and all(l in keys for l in a.leaves(v)), r.where, "the meter is not made for the scope it is kept under")
            v = argof(c.prog, r, METER, "measurement_consumer")
            c.ob("one-meter", con + " consumer", v is not None and all_are(a, v, self_attr("_measurement_consumer")), r.where, "the meter does not record into its provider")
        for r in made(a, SC):
            for p in ("name", "version", "schema_url", "attributes"):
                v = argof(c.prog, r, SC, p)
                c.ob("one-meter", "%s %s" % (con, p), v is not None and all_are(a, v, is_param(p)), r.where, "the %s asked for is no part of the meter's identity" % p)


def registered(c):
    """Registered asynchronous instruments are what a collection visits."""
    k = c.prog.cls(CONSUMER)
    m = c.method(k, "register_asynchronous_instrument")
    p = m.params()[0][1]
    a = c.an(m, k)
    put = [r for r in a.recs if r.instr.kind == "call" and r.instr.name in ("append", "add") and r.args and all_are(a, r.args[0], is_param(p))]
    put += [r for r in a.recs if r.instr.kind == "store_item" and (all_are(a, r.t["val"], is_param(p)) or all_are(a, r.t["key"], is_param(p)))]
    F = {l.args[1] for r in put for l in a.leaves(r.t.get("recv") or r.t["base"]) if l.op == "attr"}
    c.ob("callbacks-registered", m.fqn, bool(put) and always(a, put, exc=False) is None and len(F) == 1, m.where, "a registered instrument is not kept")
    m = c.method(k, "collect")
    a = c.an(m, k)
    cb = [r for r in a.calls(name="callback")]
    every_member(c, "callbacks-called", m.fqn, a, is_field(F), cb, m, order=False)
