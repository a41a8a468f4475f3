"""L02: locks are released on every exit and cannot deadlock."""
import ast
import re

from .bx import *
from .l01 import LOCKS, own_locks, methods_of, held

NOTE = "Typestate of explicit acquire/release calls over the exceptional CFG (each successful acquire reaches a release on every exit; each release is preceded by a successful acquire on every path); a lock-order graph over the call graph (inlined private helpers, summaries of resolved calls, class-hierarchy analysis with arity for the others) that must be acyclic, self edges included for locks that are not re-entrant; no logging, callback, exporter or processor call is reachable while a lock that is not re-entrant is held, apart from the confirmed locks whose purpose is to serialise exactly that call."
# locks whose documented purpose is to serialise a call of user code
SERIAL = {
    # lock-owning class -> calls it serialises
    "opentelemetry.sdk.metrics._internal.export.PeriodicExportingMetricReader": {"user:export", "log"},
    "opentelemetry.sdk.metrics._internal.measurement_consumer.SynchronousMeasurementConsumer": {"user:callback", "user:should_sample", "log"},
    "opentelemetry.util._once.Once": {"user:func"},
}
USER = {"export", "on_start", "on_end", "emit", "should_sample", "generate_span_id", "generate_trace_id", "callback", "force_flush", "shutdown"}
CONTAINER = {"get", "pop", "append", "extend", "add", "items", "values", "keys", "copy", "clear", "update", "remove", "insert", "popitem", "setdefault", "appendleft", "popleft", "union", "discard", "index", "count", "sort", "format", "join", "split", "strip", "encode", "decode", "lower", "upper", "notify", "notify_all", "wait", "set", "is_set", "start", "acquire", "release", "startswith", "endswith", "debug", "info"}


class Locks:
    def __init__(self, c):
        self.c = c
        self.kind = {}
        self.owner = {}
        prog = c.prog
        for k in prog.classes.values():
            if not k.fqn.startswith("opentelemetry") or k.mod.name.startswith("opentelemetry.semconv"):
                continue
            i = k.methods.get("__init__")
            if i is not None:
                a = c.an(i, k)
                for r in self_stores(a):
                    if r.instr.frame.fi.cls is not None and r.instr.frame.fi.cls is not k:
                        continue
                    for l in a.leaves(r.t["val"]):
                        if glob_call(l, *LOCKS):
                            self.put(k, r.instr.name, l)
            for st in k.node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and isinstance(st.value, ast.Call) and prog.resolve_expr(k.mod, st.value.func) in LOCKS:
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        if isinstance(t, ast.Name):
                            self.kind[(k.fqn, t.id)] = prog.resolve_expr(k.mod, st.value.func) == "threading.RLock"

    def put(self, k, n, l):
        f = callee_of(l).args[0]
        re = f == "threading.RLock"
        if f == "threading.Condition":
            xs = call_args(l)
            re = not xs or any(glob_call(y, "threading.RLock") for y in xs)
        old = self.kind.get((k.fqn, n))
        self.kind[(k.fqn, n)] = re if old is None else old and re

    def ident(self, a, l):
        """(class, attribute) of a lock term of analysis a, or None."""
        if l.op != "attr":
            return None
        n = l.args[1]
        b = l.args[0]
        ks = []
        if b.op == "self" and a.selfcls is not None:
            ks = self.c.prog.mro(a.selfcls)
        elif b.op == "glob" and b.args[0] in self.c.prog.classes:
            ks = self.c.prog.mro(self.c.prog.classes[b.args[0]])
        elif b.op == "obj":
            ks = self.c.prog.mro(self.c.prog.classes[b.args[1]]) if b.args[1] in self.c.prog.classes else []
        else:
            cand = [x for x in self.kind if x[1] == n]
            return cand[0] if len(cand) == 1 else None
        for k in ks:
            if (k.fqn, n) in self.kind:
                return (k.fqn, n)
        return None


class Effects:
    """Locks taken and user code run by a function, callees included."""

    def __init__(self, c, locks):
        self.c, self.locks = c, locks
        self.memo = {}
        self.fields = {}
        self.byname = {}
        for k in c.prog.classes.values():
            if k.fqn.startswith("opentelemetry") and not k.mod.name.startswith("opentelemetry.semconv") and ".test." not in k.fqn:
                for n, m in k.methods.items():
                    self.byname.setdefault(n, []).append((k, m))

    def of(self, f, cls, depth=0):
        key = (f.fqn, cls.fqn if cls is not None else None)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        if depth > 6:
            return set()
        out = set()
        a = self.c.an(f, cls)
        for r in a.recs:
            if r.instr.kind == "acquire":
                i = self.locks.ident(a, r.t["lock"])
                if i is not None:
                    out.add(("lock", i))
            elif r.instr.kind == "call":
                out |= self.call(a, r, depth + 1)
        self.memo[key] = out
        return out

    def call(self, a, r, depth=0):
        n, fqn = r.instr.name, r.instr.fqn
        recv = r.t.get("recv")
        cal = r.t.get("callee")
        if n in LOGM and recv is not None and is_logger(a, recv):
            return {("log", "log")}
        fi = r.instr.a.get("fi")
        out = set()
        if fi is None and cal is not None and n is None:
            # a plain value is called: something handed in
            for l in a.leaves(cal):
                if l.op in ("elem", "item", "kv"):
                    out.add(("user", "user:callback"))
                elif l.op in ("param", "attr") and not re.search("factory|builder|cls|class|type", str(l.args[l.op == "attr"])):
                    out.add(("user", "user:" + str(l.args[l.op == "attr"]).lstrip("_")))
            return out
        if n in USER and recv is not None:
            out.add(("user", "user:" + n))
        ts = []
        if fi is not None:
            ts = [(fi.cls, fi)]
            if fi.cls is not None and recv is not None and not (recv.op == "self" and a.selfcls is not None):
                for k in self.c.prog.subclasses(fi.cls):
                    m = k.methods.get(fi.name)
                    if m is not None and m is not fi:
                        ts.append((k, m))
        elif recv is not None and n is not None and n not in CONTAINER and not n.startswith("__") and fqn is None and cal is not None and cal.op == "attr" and external(a, recv) is False:
            ts = [(k, m) for k, m in self.byname.get(n, ()) if arity(m, r)]
            said = self.said(a, recv)
            typed = [(k, m) for k, m in ts if said & {y.fqn for y in self.c.prog.mro(k)}]
            ts = typed or [(k, m) for k, m in ts if near(a, k)]
        for k, m in ts:
            if m.is_gen():
                continue
            out |= self.of(m, k, depth)
        return out

    def said(self, a, t, depth=0):
        """Library classes the source names as the type (or the element
        type) of a value: annotations and constructor calls of its field."""
        if depth > 6:
            return set()
        out = set()
        for l in a.leaves(t):
            if l.op == "attr" and l.args[0].op == "self" and a.selfcls is not None:
                out |= self.field(a.selfcls, l.args[1])
            elif l.op == "attr":
                for f in self.said(a, l.args[0], depth + 1):
                    out |= self.field(self.c.prog.classes[f], l.args[1])
            elif l.op == "param":
                an = a.fi.annotations().get(l.args[0])
                out |= self.named(a.fi.mod, an)
            elif l.op in ("elem", "item", "kv", "iter"):
                out |= self.said(a, l.args[0], depth + 1)
            else:
                k = callee_of(l)
                if k is not None and k.op == "attr":
                    out |= self.said(a, k.args[0], depth + 1)
                elif k is not None and k.op == "glob" and k.args[0] in self.c.prog.classes:
                    out.add(k.args[0])
                elif k is not None and k.op == "glob" and call_args(l):
                    out |= self.said(a, call_args(l)[0], depth + 1)
        return out

    def named(self, mod, an, depth=0):
        out = set()
        if an is None or depth > 4:
            return out
        if isinstance(an, ast.Constant) and isinstance(an.value, str):
            try:
                an = ast.parse(an.value, mode="eval").body
            except SyntaxError:
                return out
        for n in ast.walk(an):
            if isinstance(n, (ast.Name, ast.Attribute)):
                f = self.c.prog.resolve_expr(mod, n)
                if f in self.c.prog.classes and f.startswith("opentelemetry"):
                    out.add(f)
                elif f and f.startswith("opentelemetry"):
                    b, _, g = f.rpartition(".")
                    m2 = self.c.prog.modules.get(b)
                    for e in m2.globals.get(g, []) if m2 is not None else []:
                        out |= self.named(m2, e, depth + 1)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not an:
                out |= self.named(mod, n, depth + 1)
        return out

    def field(self, k, name):
        key = (k.fqn, name)
        if key not in self.fields:
            out = set()
            self.fields[key] = out
            for kk in self.c.prog.mro(k):
                for f in kk.methods.values():
                    ann = f.annotations()
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Assign):
                            tg, val, an = n.targets, n.value, None
                        elif isinstance(n, ast.AnnAssign):
                            tg, val, an = [n.target], n.value, n.annotation
                        else:
                            continue
                        if not any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id == "self" for x in tg):
                            continue
                        out |= self.named(kk.mod, an)
                        for v in ast.walk(val) if val is not None else ():
                            if isinstance(v, ast.Call):
                                out |= {f2 for f2 in [self.c.prog.resolve_expr(kk.mod, v.func)] if f2 in self.c.prog.classes and f2.startswith("opentelemetry")}
                            if isinstance(v, ast.Name) and v.id in ann:
                                out |= self.named(kk.mod, ann[v.id])
        return self.fields[key]


def near(a, k):
    """Class-hierarchy candidates live in the distribution of the caller."""
    p = lambda m: ".".join(m.split(".")[:3])
    return p(a.fi.mod.name) == p(k.mod.name)


def external(a, t):
    """The receiver comes from outside the library (or is a builtin value)."""
    for l in a.leaves(t):
        if l.op in ("new", "const", "fstr", "tup", "exc", "unk"):
            return True
        k = callee_of(l)
        if k is not None and k.op == "glob" and not k.args[0].startswith("opentelemetry"):
            return True
        if callee_of(l) is not None and is_call(fqn="builtins.super")(l):
            return True
        if l.op == "glob" and not l.args[0].startswith("opentelemetry"):
            return True
    return False


def arity(m, r):
    p, va, ko, kw = m.params()
    if not m.is_static:
        p = p[1:]
    d = m.defaults()
    names = {x for x in r.kw if isinstance(x, str)}
    if any(not isinstance(x, str) for x in r.kw) or r.instr.a.get("star"):
        return True
    pos = len(r.args)
    if pos > len(p) and not va:
        return False
    if not kw and names - set(p) - set(ko):
        return False
    return all(x in d or x in names for x in p[pos:] + ko)


def is_logger(a, t):
    for l in a.leaves(t):
        if l.op == "glob" and "log" in l.args[0].rpartition(".")[2].lower():
            return True
        if glob_call(l, "logging.getLogger") or l.op == "glob" and l.args[0] == "logging":
            return True
        if l.op == "attr" and "log" in l.args[1].lower() and l.args[0].op != "attr":
            return True
    return False


def run(c):
    locks = Locks(c)
    eff = Effects(c, locks)
    prog = c.prog
    edges = {}
    seen = set()
    for k in sorted(prog.classes.values(), key=lambda k: k.fqn):
        if not k.fqn.startswith("opentelemetry") or k.mod.name.startswith("opentelemetry.semconv") or ".test." in k.fqn:
            continue
        own = {n for kk in prog.mro(k) for (f, n) in locks.kind if f == kk.fqn}
        if not own:
            continue
        for n, m in methods_of(c, k):
            one(c, locks, eff, edges, m, k)
        for n in ("__init__", "__new__"):
            if n in k.methods:
                one(c, locks, eff, edges, k.methods[n], k)
    cycles(c, locks, edges)
    c.floor("no-user-code-under-lock", 60)
    c.floor("lock-order", 8)


def one(c, locks, eff, edges, m, k):
    a = c.an(m, k)
    con = "%s.%s" % (k.fqn, m.name) if k is not None else m.fqn
    pairing(c, a, con)
    for r in a.recs:
        hs = [(l, locks.ident(a, l)) for l in r.locks]
        hs = [(l, i) for l, i in hs if i is not None]
        if not hs:
            continue
        if r.instr.kind == "acquire":
            i = locks.ident(a, r.t["lock"])
            for l, h in hs:
                if i is not None:
                    same = l is r.t["lock"]
                    if same and locks.kind[i]:
                        continue
                    edges.setdefault((h, i), []).append((con, r.where))
        elif r.instr.kind == "call":
            es = eff.call(a, r)
            for l, h in hs:
                for kind, x in es:
                    if kind == "lock":
                        edges.setdefault((h, x), []).append((con, r.where))
                if locks.kind[h]:
                    continue
                bad = sorted(x for kind, x in es if kind != "lock" and x not in serial(c, h[0]))
                c.ob("no-user-code-under-lock", "%s.%s/%s" % (h[0], h[1], "/".join(bad) or "%s/%s" % (m.name, r.instr.name)), not bad, r.where, "while %s (not re-entrant) is held this may run user code (%s), which may need the same lock" % (h[1], ", ".join(bad)))


def serial(c, fqn):
    out = set()
    for kk in c.prog.mro(c.prog.classes[fqn]):
        out |= SERIAL.get(kk.fqn, set())
    return out


def cycles(c, locks, edges):
    succ = {}
    for (h, i) in edges:
        if h == i and locks.kind[h]:
            continue
        succ.setdefault(h, set()).add(i)

    def reach(x):
        seen, todo = set(), list(succ.get(x, ()))
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo.extend(succ.get(y, ()))
        return seen

    for (h, i), ws in sorted(edges.items()):
        if h == i and locks.kind[h]:
            continue
        ok = h not in reach(i) and h != i
        c.ob("lock-order", "%s.%s before %s.%s" % (h + i), ok, ws[0][1], "%s takes %s while holding %s, and elsewhere the order is the opposite%s" % (ws[0][0], i[1], h[1], " (the lock is not re-entrant)" if h == i else ""))


def pairing(c, a, con):
    """Explicit acquire()/release() calls."""
    acq = [r for r in a.events("acquire") if r.instr.a.get("how") != "with"]
    rel = [r for r in a.events("release") if r.instr.a.get("how") != "with"]
    for r in acq:
        mine = [x.instr for x in rel if x.t["lock"] is r.t["lock"]]
        # paths on which the lock was obtained
        ok = lambda e: not failed_edge(a, e, r)
        p = a.path_avoiding(r.instr, mine, a.exit_blocks(), edges=ok)
        c.ob("released-on-every-exit", con, p is None, r.where, "the lock may stay held: %s" % witness(a, p))
        for x in a.recs:
            # calls that seldom raise need the release in a finally as well
            if x.instr.kind == "call" and any(l is r.t["lock"] for l in x.locks) and not (x.instr.name in ("notify", "notify_all", "time", "perf_counter") or x.instr.kind == "release"):
                q = exc_edges(x)
                c.ob("released-on-every-exit", con, bool(q) or finally_releases(x), x.where, "an exception here leaves the lock held")
    for x in rel:
        mine = [r for r in acq if r.t["lock"] is x.t["lock"]]
        c.ob("released-only-when-held", con, bool(mine) and a.dominated(x.instr, [r.instr for r in mine]), x.where, "the lock is released although it was not taken on every path here")
        for r in mine:
            if r.instr.a.get("blocking"):
                continue
            p = a.path_avoiding(r.instr, [], [x.instr.block], edges=lambda e: not success_edge(a, e, r)) if a.can_reach(r.instr, x.instr) else None
            c.ob("released-only-when-held", con, p is None, x.where, "the lock is released although taking it may have timed out: %s" % witness(a, p))


def finally_releases(x):
    for n in ast.walk(x.instr.frame.fi.node):
        if isinstance(n, ast.Try) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == "release" for z in n.finalbody for y in ast.walk(z)):
            if any(y is x.instr.node for z in n.body for y in ast.walk(z)):
                return True
    return False


def cond_of(a, e):
    b = e.src
    if b.instrs and b.instrs[-1].kind == "branch" and b.instrs[-1].rec is not None:
        return b.instrs[-1].rec.t.get("cond")
    return None


def acq_val(r):
    return lambda t: r.dst is not None and t is r.dst


def failed_edge(a, e, r):
    t = cond_of(a, e)
    if t is None or e.label not in ("T", "F"):
        return False
    v = cond_means(t, acq_val(r))
    return v is not None and (e.label == "T") != v


def success_edge(a, e, r):
    t = cond_of(a, e)
    if t is None or e.label not in ("T", "F"):
        return False
    v = cond_means(t, acq_val(r))
    return v is not None and (e.label == "T") == v

