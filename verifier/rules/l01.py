"""L01: shared state is changed under its lock, decisions included."""
from .bx import *
from .c02 import mutations
from .t01 import unwrap

NOTE = "Must-held lockset analysis of every method other code can enter, private helpers inlined, for every class of the library that owns a lock. For the classes of the guarded-by table each change of state reachable from self must hold a lock of the class; for the others each field changed under a lock anywhere must be changed under it everywhere. All changes of one field share a lock. A stored value or a branch that decides over a change must come from reads inside the lock region of the change (or be repeated inside it); guarded containers are iterated under the lock or over a copy; accumulated values are also read under it."
LOCKS = ("threading.Lock", "threading.RLock", "threading.Condition")
M = "opentelemetry.sdk.metrics._internal."
# classes whose whole state is guarded ("w": every change; "rw": reads too)
TABLE = {
    "opentelemetry.attributes.BoundedAttributes": "w",
    "opentelemetry.sdk.util.BoundedList": "w",
    "opentelemetry.sdk.util.BoundedDict": "w",
    "opentelemetry.util._once.Once": "w",
    "opentelemetry.sdk.trace.Span": "w",
    "opentelemetry.sdk.trace.SynchronousMultiSpanProcessor": "w",
    "opentelemetry.sdk.trace.ConcurrentMultiSpanProcessor": "w",
    "opentelemetry.sdk.trace.export.in_memory_span_exporter.InMemorySpanExporter": "w",
    "opentelemetry.sdk._logs._internal.SynchronousMultiLogRecordProcessor": "w",
    "opentelemetry.sdk._logs._internal.ConcurrentMultiLogRecordProcessor": "w",
    "opentelemetry.sdk._logs._internal.LoggerProvider": "w",
    "opentelemetry.sdk._logs._internal.export.in_memory_log_exporter.InMemoryLogExporter": "w",
    "opentelemetry.metrics._internal.NoOpMeter": "w",
    "opentelemetry.metrics._internal._ProxyMeter": "w",
    "opentelemetry.metrics._internal._ProxyMeterProvider": "w",
    M + "Meter": "w",
    M + "MeterProvider": "w",
    M + "measurement_consumer.SynchronousMeasurementConsumer": "w",
    M + "metric_reader_storage.MetricReaderStorage": "w",
    M + "_view_instrument_match._ViewInstrumentMatch": "w",
    M + "aggregation._SumAggregation": "rw",
    M + "aggregation._LastValueAggregation": "rw",
    M + "aggregation._ExplicitBucketHistogramAggregation": "rw",
    M + "aggregation._ExponentialBucketHistogramAggregation": "rw",
    M + "export.InMemoryMetricReader": "w",
}
SETUP = ("__init__", "__new__", "__init_subclass__", "_set_collect_callback", "_common_configuration", "__post_init__", "__getstate__", "__setstate__", "__del__")


def own_locks(c, k):
    """Attributes holding a lock: set on self by a constructor, or class-level."""
    out = set()
    for kk in c.prog.mro(k):
        i = kk.methods.get("__init__")
        if i is None or not kk.mod.name.startswith("opentelemetry"):
            continue
        a = c.an(i, k)
        for r in self_stores(a):
            if any(glob_call(l, *LOCKS) for l in a.leaves(r.t["val"])):
                out.add(r.instr.name)
    import ast
    for kk in c.prog.mro(k):
        if not kk.mod.name.startswith("opentelemetry"):
            continue
        for st in kk.node.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, ast.Call):
                f = c.prog.resolve_expr(kk.mod, st.value.func)
                if f in LOCKS:
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        if isinstance(t, ast.Name):
                            out.add(t.id)
    return out


def methods_of(c, k):
    """Methods other code enters: public ones, and private ones not reached
    through self (they are inlined where they are called)."""
    import ast
    prog = c.prog
    ms, called = {}, set()
    for kk in prog.mro(k):
        if not kk.mod.name.startswith("opentelemetry"):
            continue
        for n, m in kk.methods.items():
            ms.setdefault(n, m)
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ("self", "cls"):
                    called.add(x.func.attr)
    for n, m in sorted(ms.items()):
        if n in SETUP or m.is_static or "classmethod" in decos(m):
            continue
        if n.startswith("_") and not n.startswith("__") and n in called:
            continue
        yield n, m


def decos(m):
    import ast
    return [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in m.node.decorator_list]


def is_fork_handler(a):
    return any(r.instr.fqn == "threading.Thread" or r.t.get("callee") is not None and r.t["callee"].op == "glob" and r.t["callee"].args[0] == "threading.Thread" for r in a.calls())


def held(r, own):
    return [l for l in r.locks if l.op == "attr" and l.args[1] in own and l.args[0].op in ("self", "glob", "attr", "call")]


def path_field(a, t):
    """Field of self the object t belongs to, or None."""
    out = set()
    for l in a.leaves(t):
        x, f = l, None
        n = 0
        while n < 30:
            n += 1
            if x.op == "attr":
                f, x = x.args[1], x.args[0]
                continue
            if x.op in ("item", "elem", "keyof", "kv", "slice"):
                x = x.args[0]
                continue
            if x.op == "phi":
                # an alias chosen between several objects
                y = [path_field(a, z) for z in a.leaves(x) if z is not x]
                fs = {z for z in y if z}
                return next(iter(fs)) if fs else None
            k = callee_of(x)
            if k is not None and k.op == "attr" and k.args[1] in ("setdefault", "get", "values", "items", "keys"):
                x = k.args[0]
                continue
            break
        if x.op == "self" and f is not None:
            out.add(f)
    return next(iter(sorted(out))) if out else None


def changes(c, a, helpers):
    """(rec, field) of each change of state that belongs to self."""
    for r, t in mutations(a):
        if r.instr.kind in ("store_attr", "del_attr") and any(is_self(l) for l in a.leaves(t)):
            yield r, r.instr.name
            continue
        f = path_field(a, t)
        if f is not None:
            yield r, f
    for r in a.recs:
        if r.instr.kind == "call" and r.instr.name in helpers and r.t.get("recv") is not None:
            f = path_field(a, r.t["recv"])
            if f is not None:
                yield r, f



HELPERS = (M + "exemplar.exemplar_reservoir.ExemplarReservoir", M + "exponential_histogram.buckets.Buckets")


def helper_methods(c):
    """Mutating methods of the lock-free helper objects aggregations own."""
    out = {}
    for b in HELPERS:
        k = c.prog.classes.get(b)
        if k is None:
            continue
        for kk in c.prog.subclasses(k):
            for n, m in kk.methods.items():
                if n.startswith("__"):
                    continue
                a = c.an(m, kk)
                if any(path_field(a, t) or any(is_self(l) for l in a.leaves(t)) for r, t in mutations(a)) or n in ("offer", "collect"):
                    out.setdefault(n, set()).add(kk.fqn)
    return out


def guarded_classes(c):
    """(class, locks, mode) for every lock-owning class."""
    prog = c.prog
    seen = set()
    for fqn, mode in TABLE.items():
        k = prog.classes.get(fqn)
        if k is None:
            continue
        own = own_locks(c, k)
        c.ob("owns-lock", fqn, bool(own), k.mod.name, "the class no longer owns a lock for its state")
        seen.add(fqn)
        if own:
            yield k, own, mode
        if fqn != "opentelemetry.attributes.BoundedAttributes":
            for s in prog.subclasses(k):
                if s.fqn in TABLE or s.fqn in seen or not s.mod.name.startswith("opentelemetry"):
                    continue
                seen.add(s.fqn)
                if own:
                    yield s, own_locks(c, s), mode
    for k in sorted(prog.classes.values(), key=lambda k: k.fqn):
        if k.fqn in seen or not k.fqn.startswith("opentelemetry") or k.mod.name.startswith("opentelemetry.semconv") or ".<locals>" in k.fqn:
            continue
        if not any("__init__" in kk.methods for kk in prog.mro(k)):
            continue
        own = own_locks(c, k)
        if own:
            yield k, own, None


def run(c):
    helpers = helper_methods(c)
    n = 0
    for k, own, mode in guarded_classes(c):
        n += 1
        one(c, k, own, mode, helpers if mode == "rw" else {})
    c.floor("owns-lock", 20)
    c.floor("changed-under-lock", 60)


def flag_store(a, r):
    return r.instr.kind == "store_attr" and all(l.op == "const" and (l.args[0] is True or l.args[0] is None) for l in a.leaves(r.t["val"]))


def one(c, k, own, mode, helpers):
    ans = {}
    first = {}
    for n, m in methods_of(c, k):
        a = c.an(m, k)
        if is_fork_handler(a):
            continue
        ans[n] = (m, a)
        for r, f in changes(c, a, helpers):
            if f in own:
                continue
            first.setdefault(f, []).append((n, a, r, held(r, own)))
    G = {}
    for f, xs in first.items():
        if mode is not None:
            if all(not h and flag_store(a, r) for _, a, r, h in xs):
                continue
            G[f] = True
        elif any(h for _, a, r, h in xs):
            G[f] = True
    for f in sorted(G):
        common = None
        for n, a, r, h in first[f]:
            con = "%s.%s %s" % (k.fqn, n, f)
            if not h and mode is not None and r.instr.kind == "store_attr" and flag_store(a, r) and not rebuilt(first[f]):
                continue
            c.ob("changed-under-lock", con, bool(h), r.where, "%s is changed without holding %s" % (f, "/".join(sorted(own))))
            if h:
                s = {lock_name(l) for l in h}
                common = s if common is None else common & s
        if common is not None:
            G[f] = common
            c.ob("one-lock", "%s %s" % (k.fqn, f), bool(common), first[f][0][2].where, "%s is changed under different locks" % f)
    if not G:
        return
    vol = {f: "lock" for f in G}
    for n, (m, a0) in ans.items():
        a = c.an(m, k, volatile=vol)
        con = "%s.%s" % (k.fqn, n)
        chs = [(r, f) for r, f in changes(c, a, helpers) if f in G]
        for r, f in chs:
            h = held(r, own)
            if not h:
                continue
            decisions(c, k, con, a, r, f, h[0], own, G)
        iterations(c, con, a, {f for f in G if not self_guarded(c, k, f)}, first, own)
        if mode == "rw":
            for r in a.events("attr"):
                if r.instr.name in G and is_self(r.t["base"]):
                    c.ob("read-under-lock", "%s %s" % (con, r.instr.name), bool(held(r, own)), r.where, "%s is read without holding the lock" % r.instr.name)


def self_guarded(c, k, f):
    """The field holds an object that guards itself."""
    ts = {t for kk in c.prog.mro(k) if kk.mod.name.startswith("opentelemetry") for t in c.prog.attr_types(kk).get(f, ())}
    a = c.an(c.prog.find_method(k, "__init__"), k)
    for r in self_stores(a):
        if r.instr.name == f:
            for l in a.leaves(r.t["val"]):
                if l.op == "obj":
                    ts.add(l.args[1])
        if r.instr.name != f:
            continue
        for l in a.leaves(r.t["val"]):
            if glob_call(l, "threading.local", "contextvars.ContextVar"):
                return True
    return any(TABLE.get(t) for t in ts)


def rebuilt(xs):
    """The field is more than a flag: some change is not a constant store."""
    return any(not flag_store(a, r) for _, a, r, h in xs)


def lock_name(l):
    return l.args[1]


def region_ok(a, uid, r, lock):
    """The read at/after instruction uid belongs to the lock region of r."""
    ins = next((x for x in a.recs if x.instr.uid == uid), None)
    if ins is None:
        return False
    if ins.instr.kind != "acquire":
        return any(l is lock for l in ins.locks)
    if not (ins.t["lock"] is lock or any(l is lock for l in ins.locks)):
        return False
    # the lock was not given up since
    for x in a.events("release"):
        if x.t["lock"] is not lock or x.locks.get(lock, 0) > 1:
            continue
        if a.can_reach(ins.instr, x.instr):
            p = a.path_avoiding(x.instr, [ins.instr], [r.instr.block], skip_first=x.instr.block is not r.instr.block or x.instr.block.instrs.index(x.instr) > x.instr.block.instrs.index(r.instr))
            if p is not None and not (ins.instr.block is r.instr.block and p[-1] is r.instr.block and False):
                return False
    return True


def reads(a, t, G):
    """(field, uid) of the guarded reads a value is built from."""
    for x in a.sources(t):
        if x.op == "attr" and x.args[0].op == "self" and x.args[1] in G:
            yield x.args[1], (x.args[2] if len(x.args) > 2 else None), x


def same_lock(G, g, f):
    """State under another lock is decided upon on its own."""
    return not (isinstance(G[g], set) and isinstance(G[f], set) and G[g] and G[f] and not G[g] & G[f])


def values(r):
    for n in ("val", "key"):
        if isinstance(r.t.get(n), Term):
            yield r.t[n]
    if r.instr.kind == "call":
        yield from r.args
        yield from r.kw.values()


def decisions(c, k, con, a, r, f, lock, own, G):
    stale = set()
    for v in values(r):
        for g, uid, x in reads(a, v, G):
            if g == f and (uid is None or not region_ok(a, uid, r, lock)):
                stale.add(g)
    c.ob("updated-from-current", "%s %s" % (con, f), not stale, r.where, "the new value of %s is computed from one read outside the lock region of the update" % f)
    t = taken_outside(a, r, f, lock)
    c.ob("taken-in-region", "%s %s" % (con, f), t is None, t.where if t else r.where, "%s is read outside the lock region that replaces it" % f)
    # branches that decide over the change
    bs = []
    for b in a.events("branch"):
        if b.t.get("cond") is None:
            continue
        gs = {(g, uid) for g, uid, x in reads(a, b.t["cond"], G) if (g == f or r.instr.kind != "call" or r.instr.name not in ("offer", "collect")) and same_lock(G, g, f)}
        if not gs or not decides(a, b, r):
            continue
        ok = any(uid is not None and region_ok(a, uid, r, lock) for g, uid in gs) or looked_up(a, b, r, lock, G)
        bs.append((b, ok, {g for g, _ in gs}))
    bad = [(b, gs) for b, ok, gs in bs if not ok and not any(ok2 and gs & gs2 for b2, ok2, gs2 in bs)]
    c.ob("decided-in-region", "%s %s" % (con, f), not bad, r.where, "whether %s is changed is decided%s outside the lock region of the change" % (f, " at line %s" % bad[0][0].instr.line if bad else ""))



def looked_up(a, b, r, lock, G):
    """The container was named outside but is looked into inside the region."""
    for t in a.sources(b.t["cond"]):
        hit = [x for x in t.args if isinstance(x, Term) and x.op == "attr" and len(x.args) > 2 and x.args[0].op == "self" and x.args[1] in G]
        if t.op in ("isnone", "istrue", "not", "eq", "phi") or not hit:
            continue
        if any(y.dst is t and any(l is lock for l in y.locks) and region_ok(a, y.instr.uid, r, lock) for y in a.recs):
            return True
    return False


def taken_outside(a, r, f, lock):
    """A value of the field read without the lock is handed on although the
    same method replaces the field under it."""
    if r.instr.kind != "store_attr" or any(x[0] == f for v in values(r) for x in reads(a, v, {f: 1})):
        return None
    if not all(l.op in ("const", "new", "tup", "obj") for l in a.leaves(r.t["val"])):
        return None
    for x in a.events("attr", name=f):
        if not is_self(x.t["base"]) or any(l is lock for l in x.locks) or not (a.can_reach(x.instr, r.instr)):
            continue
        v = x.dst
        for y in a.recs:
            if y.instr.kind in ("ret", "store_attr", "yield") and isinstance(y.t.get("val"), Term) and v is not None and any(z is v for z in a.sources(y.t["val"])):
                return x
    return None


def decides(a, b, r):
    """Only one way out of the branch leads to the change."""
    outs = [e for e in b.instr.block.succs if e.label in ("T", "F") and a.edge_out.get(e)]
    hit = [e for e in outs if e.dst is r.instr.block or a.path_avoiding(e.dst, [b.instr], [r.instr.block], skip_first=False)]
    return len(outs) == 2 and len(hit) == 1


def iterations(c, con, a, G, first, own):
    for r in a.events("loop"):
        for l in a.leaves(r.t["iter"]):
            f = direct(a, l, G)
            if f is None:
                continue
            inplace = [x for x in first[f] if x[2].instr.kind != "store_attr"]
            if not inplace:
                continue
            c.ob("iterated-under-lock", "%s %s" % (con, f), bool(held(r, own)), r.where, "%s is iterated without the lock while other threads change it" % f)


def direct(a, t, G):
    """The guarded container t enumerates, unless it is a copy."""
    k = callee_of(t)
    if k is not None:
        if k.op == "attr" and k.args[1] in ("values", "items", "keys"):
            return direct(a, k.args[0], G)
        if k.op == "glob" and k.args[0] in ("builtins.enumerate", "builtins.zip", "builtins.reversed", "builtins.iter", "builtins.map", "builtins.filter"):
            for x in call_args(t):
                f = direct(a, x, G)
                if f:
                    return f
        return None
    if t.op == "attr" and t.args[0].op == "self" and t.args[1] in G:
        return t.args[1]
    return None
