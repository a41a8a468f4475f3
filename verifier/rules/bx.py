"""Roles inside the export pipelines (found by what they do, not by name)."""
from .lib import *

SUPPRESS = "opentelemetry.context._SUPPRESS_INSTRUMENTATION_KEY"
BASES = ("opentelemetry.sdk.trace.SpanProcessor", "opentelemetry.sdk._logs._internal.LogRecordProcessor", "opentelemetry.sdk.metrics._internal.export.MetricReader")
QMAKE = "collections.deque"


def glob_call(t, *names):
    k = callee_of(t)
    return k is not None and k.op == "glob" and k.args[0] in names


def self_stores(a):
    for r in a.events("store_attr"):
        if is_self(r.t["base"]):
            yield r


class Pipe:
    """A class that hands telemetry to an exporter it was given."""

    def __init__(self, c, k):
        self.k, self.fqn = k, k.fqn
        self.exporter = set()
        self.thread = self.queue = self.cond = None
        self.done = set()
        self.targets = []
        self.sync = {}
        prog = c.prog
        self.methods = {}
        for kk in reversed(prog.mro(k)):
            if kk.mod.name.startswith("opentelemetry"):
                self.methods.update(kk.methods)
        ini = self.methods.get("__init__")
        self.ini = a = c.an(ini, k) if ini is not None else None
        if a is None:
            return
        for r in self_stores(a):
            v, n = r.t["val"], r.instr.name
            ls = a.leaves(v)
            if any(is_param("exporter")(l) or l.op == "param" and "exporter" in l.args[0] for l in ls):
                self.exporter.add(n)
            for l in ls:
                if glob_call(l, QMAKE):
                    self.queue = n
                if glob_call(l, "threading.Thread"):
                    self.thread = n
                    kw = dict(l.args[3]) if l.op == "call" and len(l.args) > 3 and l.args[3] else {}
                    t = kw.get("target")
                    if t is not None and t.op == "attr" and t.args[0].op == "self":
                        self.targets.append(t.args[1])
                if glob_call(l, "threading.Condition"):
                    self.cond = n
                for s in ("Lock", "RLock", "Condition", "Event", "Semaphore", "BoundedSemaphore", "Barrier"):
                    if glob_call(l, "threading." + s):
                        self.sync[n] = s
            if any(isconst(l, False) for l in ls):
                self.done.add(n)

    def is_exporter(self, t):
        return t.op == "attr" and t.args[0].op == "self" and t.args[1] in self.exporter

    def exports(self, a):
        return [r for r in a.calls(name="export") if r.t.get("recv") is not None and any(self.is_exporter(l) for l in a.leaves(r.t["recv"]))]


def isconst(t, v):
    return t.op == "const" and t.args[0] is v


def pipes(c):
    """Every pipeline class of the SDK, found from the base classes."""
    out = []
    prog = c.prog
    seen = set()
    for b in BASES:
        for k in prog.subclasses(prog.cls(b)):
            if k.fqn in seen or k.fqn in BASES or not k.mod.name.startswith("opentelemetry.sdk"):
                continue
            seen.add(k.fqn)
            p = Pipe(c, k)
            if p.exporter:
                out.append(p)
    return out


def entries(c, p):
    """Methods that code outside the class (or a thread) calls."""
    import ast
    called = set()
    for m in p.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", p.k.name):
                called.add(n.func.attr)
    out = []
    for n, m in sorted(p.methods.items()):
        if n.startswith("__") or m.cls is not None and m.cls.fqn in BASES and n not in ("collect", "shutdown", "force_flush"):
            continue
        if n.startswith("_") and n in called and n not in p.targets:
            continue
        out.append(m)
    return out


def analysis(c, p, m, **kw):
    return c.an(m, p.k, policy=Policy(mods=(p.k.mod.name,)), **kw)


def exc_edges(rec, *kinds):
    return [e for e in rec.instr.block.succs if isinstance(e.label, tuple) and e.label[0] == "exc" and (not kinds or e.label[1] in kinds)]


def norm_edges(rec):
    return [e for e in rec.instr.block.succs if not (isinstance(e.label, tuple) and e.label[0] == "exc")]


def path_from(a, edges, avoid, targets, follow=None):
    """Feasible path that starts on one of the edges and avoids the records."""
    av = [x.instr for x in avoid]
    for e in edges:
        if not a.edge_out.get(e):
            continue
        if any(x.block is e.dst for x in av):
            continue
        p = a.path_avoiding(e.dst, av, targets, skip_first=False, edges=follow)
        if p:
            return p
    return None


def batch(c):
    return [p for p in pipes(c) if p.queue is not None and p.thread is not None]


def done_field(c, p):
    """The flag shutdown raises."""
    m = p.methods["shutdown"]
    a = analysis(c, p, m)
    out = [r for r in self_stores(a) if isconst(r.t["val"], True) and r.instr.name in p.done]
    return {r.instr.name for r in out}, a, out


def is_field(name):
    names = (name,) if isinstance(name, str) else tuple(name)
    return lambda t: t.op == "attr" and t.args[0].op == "self" and t.args[1] in names


def vol(p, done=(), flush=None):
    v = {p.queue: "always"}
    for d in done:
        v[d] = "always"
    if flush:
        v[flush] = "lock"
    return v


PUTS = ("append", "appendleft", "extend", "extendleft", "insert")
TAKES = ("pop", "popleft")


def on_queue(a, p, names):
    return [r for r in a.recs if r.instr.kind == "call" and r.instr.name in names and r.t.get("recv") is not None and any(is_field(p.queue)(l) for l in a.leaves(r.t["recv"]))]


def truth_edge(a, rec, pred, val):
    """The edges out of a branch on which pred(term) is known to be `val`.
    Understands x, not x, len(x), len(x) == 0 and len(x) > 0."""
    t = rec.t["cond"]
    v = cond_means(t, pred)
    if v is None:
        return []
    return [e for e in rec.instr.block.succs if e.label in ("T", "F") and ((e.label == "T") == v) == val]


def cond_means(t, pred):
    """True: the condition holds iff pred's term is truthy; False: iff falsy."""
    if t.op == "not":
        v = cond_means(t.args[0], pred)
        return None if v is None else not v
    if pred(t):
        return True
    k = callee_of(t)
    if k is not None and k.op == "glob" and k.args[0] in ("builtins.len", "builtins.bool") and call_args(t) and cond_means(call_args(t)[0], pred):
        return True
    if t.op == "eq" and any(x.op == "const" and x.args[0] in (0, False) for x in t.args):
        o = [x for x in t.args if x.op != "const"]
        if len(o) == 1:
            v = cond_means(o[0], pred)
            return None if v is None else not v
    if t.op == "lt" and t.args[0].op == "const" and t.args[0].args[0] == 0:
        return cond_means(t.args[1], pred)
    if t.op == "lt" and t.args[1].op == "const" and t.args[1].args[0] == 1:
        v = cond_means(t.args[0], pred)
        return None if v is None else not v
    return None


def post(entry, succ):
    seen, out, st = {entry}, [], [(entry, iter(succ.get(entry, ())))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ.get(s, ()))))
                break
        else:
            out.append(b)
            st.pop()
    return out
