"""Roles of push exporters: which calls send, which results are returned on
which paths, when an exporter counts as closed."""
import ast

from .bx import *

BASES = ("opentelemetry.sdk.trace.export.SpanExporter", "opentelemetry.sdk._logs._internal.export.LogExporter", "opentelemetry.sdk.metrics._internal.export.MetricExporter")
SENDS = ("post", "put", "request", "send", "Export", "urlopen")


def exporters(c, prefix="opentelemetry.exporter"):
    """(class, send kind) for each exporter that hands its data to a receiver."""
    out, seen = [], set()
    for b in BASES:
        for k in c.prog.subclasses(c.prog.cls(b)):
            if k.fqn in seen or not k.mod.name.startswith(prefix):
                continue
            m = c.prog.find_method(k, "export")
            if m is None or m.cls is None or not m.cls.mod.name.startswith("opentelemetry") or m.cls.fqn in BASES:
                continue
            a = c.an(m, k)
            s = sends(a)
            if s:
                seen.add(k.fqn)
                out.append(Exporter(c, k, s))
    return out


def sends(a):
    out = []
    for r in a.recs:
        if r.instr.kind == "call" and r.instr.name in SENDS and r.instr.a.get("fi") is None and r.t.get("recv") is not None and any(root(l).op == "self" for l in a.leaves(r.t["recv"])):
            out.append(r)
    return out


class Exporter:
    def __init__(self, c, k, s):
        self.c, self.k = c, k
        self.grpc = all(r.instr.name == "Export" for r in s)
        self.methods = {}
        for kk in reversed(c.prog.mro(k)):
            if kk.mod.name.startswith("opentelemetry"):
                self.methods.update(kk.methods)
        self.retries = k.mod.name.startswith("opentelemetry.exporter.otlp")
        self.stream = k.mod.name.startswith("opentelemetry.exporter.opencensus")
        # the innermost method that sends and decides the result
        host = self.methods["export"]
        while True:
            a = c.an(host, k)
            sub = {r.instr.a["fi"].fqn: r.instr.a["fi"] for r in a.recs if r.instr.kind == "enter" and r.instr.a.get("fi") is not None}
            nxt = None
            for f in sub.values():
                if f.cls is None or f is host or f not in self.methods.values() or f.is_static:
                    continue
                b = c.an(f, k)
                if sends(b) and any(is_result(l) for r in b.rets() for l in b.leaves(r.t["val"])):
                    nxt = f
            if nxt is None:
                break
            host = nxt
        self.host = host

    def flags(self):
        """Fields shutdown raises."""
        a = self.c.an(self.methods["shutdown"], self.k)
        return {r.instr.name for r in self_stores(a) if isconst(r.t["val"], True)}


def is_result(t, which=("SUCCESS", "FAILURE")):
    if t.op == "glob":
        return t.args[0].rpartition(".")[2] in which and "Result" in t.args[0]
    return t.op == "attr" and t.args[1] in which


def result_of(t):
    if is_result(t):
        return (t.args[0] if t.op == "glob" else t.args[1]).rpartition(".")[2]
    return "other"


class Along:
    """What can be reached from some edges without executing given calls."""

    def __init__(self, a, edges, avoid=(), drop=None):
        self.a = a
        self.av = {x.instr.block for x in avoid}
        self.edges, self.blocks, self.hit, self.keys, self.starts = set(), set(), set(), set(), set()
        n = -1
        while n != len(self.edges):
            n = len(self.edges)
            self.grow(edges, drop)

    def grow(self, edges, drop):
        a, done = self.a, set()
        todo = [e for e in edges if a.edge_out.get(e) and not (drop and drop(e))]
        while todo:
            e = todo.pop()
            if e in done or not self.open(e):
                continue
            done.add(e)
            self.edges.add(e)
            self.keys.add((e.src.id, str(e.label), e.dst.id))
            if e.dst in self.av:
                self.hit.add(e.dst)
                continue
            self.blocks.add(e.dst)
            self.starts.add(e.dst.id)
            todo.extend(x for x in e.dst.succs if a.edge_out.get(x) and not (drop and drop(x)))

    def open(self, e):
        """The values known along the way allow this branch."""
        if e.label not in ("T", "F") or e.src not in self.blocks:
            return True
        i = next((i for i in reversed(e.src.instrs) if i.kind == "branch"), None)
        r = getattr(i, "rec", None) if i is not None else None
        if r is None or "cond" not in r.t:
            return True
        return (e.label == "T") in self.truths(r.t["cond"])

    def truths(self, t):
        if t.op == "not":
            return {not x for x in self.truths(t.args[0])}
        if t.op == "phi":
            out = set()
            for v in self.values(t):
                out |= {bool(v.args[0])} if v.op == "const" else {True, False} if v.op == "phi" else self.truths(v)
            return out
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if x.op == "phi" and self.a.literal(y) or x.op == "phi" and is_result(y):
                    out = set()
                    for v in self.values(x):
                        same = v is y or is_result(v) and is_result(y) and result_of(v) == result_of(y)
                        lit = self.a.literal(v) or is_result(v)
                        out |= {True} if same else {False} if lit else {True, False}
                    return out
        if t.op == "in":
            cs = self.a.contents.get(t.args[1])
            if cs and all(v is t.args[0] or is_result(v) and is_result(t.args[0]) and result_of(v) == result_of(t.args[0]) for k, v, i in cs):
                return {True}
        return {True, False}

    def values(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return set()
        seen.add(t)
        if t.op != "phi" or t not in self.a.phis:
            return {t}
        ops = self.a.phis[t]
        mine = [v for (src, lab), (v, f) in ops.items() if (src, lab, t.args[0]) in self.keys]
        out = set()
        for v in mine if mine or t.args[0] in self.starts else [v for v, f in ops.values()]:
            out |= self.values(v, seen)
        return out

    def returns(self):
        """(record, value) of each return of the entry reached."""
        out = []
        for r in self.a.rets():
            if r.instr.block in self.blocks:
                for v in self.values(r.t["val"]):
                    out.append((r, v))
        return out


def members(a, t):
    """Elements of a collection of literals, or None."""
    if t.op == "tup":
        return [x for x in t.args]
    if t.op == "const" and isinstance(t.args[0], (tuple, frozenset, set, list)):
        return [a.T.const(x) for x in t.args[0]]
    if t.op == "new":
        for r in a.events("new"):
            if r.dst is t and "layout" in r.t:
                return [x for k_, x in r.t["layout"]]
        cs = a.contents.get(t)
        return [k if t.args[1] == "dict" else v for k, v, i in cs] if cs else None
    if callee_of(t) is not None and glob_call(t, "builtins.tuple", "builtins.list", "builtins.set", "builtins.frozenset") and call_args(t):
        return members(a, call_args(t)[0])
    if t.op == "glob":
        e = a.prog.display_expr(t.args[0])
        if e is None:
            m, _, n = t.args[0].rpartition(".")
            mod = a.prog.modules.get(m)
            e = next(((mod, st.value) for st in (mod.tree.body if mod else ()) if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and any(isinstance(x, ast.Name) and x.id == n for x in (st.targets if isinstance(st, ast.Assign) else [st.target]))), None)
        return lits(a, *e) if e is not None else None
    return None


def lits(a, m, e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "tuple", "list") and len(e.args) == 1:
        return lits(a, m, e.args[0])
    if isinstance(e, (ast.Set, ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in e.elts):
        return [a.expr_term(m, x) for x in e.elts]
    if isinstance(e, ast.Dict) and all(x is not None for x in e.keys):
        return [a.expr_term(m, x) for x in e.keys]
    return None


def o_status(name):
    """grpc status: the code of every RpcError is the named one."""
    def is_code(t):
        return method_name(t) == "code"

    def same(t):
        return t.op == "glob" and ".StatusCode." in t.args[0]

    def f(a, t, st):
        if t.op == "eq":
            x, y = t.args
            for p, q in ((x, y), (y, x)):
                if is_code(p) and same(q):
                    return q.args[0].endswith("." + name)
        if t.op == "in" and is_code(t.args[0]):
            ms = members(a, t.args[1])
            if ms is not None and all(same(m) for m in ms):
                return any(m.args[0].endswith("." + name) for m in ms)
        return None
    return f


def method_name(t):
    k = callee_of(t)
    return k.args[1] if k is not None and k.op == "attr" else None


def with_code(code):
    """HTTP: the response of every request has this status code."""
    def sub(a, t):
        if t.op == "attr" and t.args[1] in ("status_code", "ok") and t.args[0].op != "self" and (t.args[0].op in ("call", "phi", "param")):
            return a.T.const(code) if t.args[1] == "status_code" else a.T.const(code < 400)
        return None

    def orc(a, t, st):
        if t.op == "in" and t.args[0].op == "const":
            ms = members(a, t.args[1])
            if ms is not None and all(m.op == "const" for m in ms):
                return any(m.args[0] == t.args[0].args[0] for m in ms)
            k = callee_of(t.args[1])
            if k is not None and glob_call(t.args[1], "builtins.range") and all(x.op == "const" for x in call_args(t.args[1])):
                return t.args[0].args[0] in range(*[x.args[0] for x in call_args(t.args[1])])
        return None
    return sub, orc


def flag_edge(a, names, val):
    """Edges on which a fresh read of a flag is known to have the value."""
    out = set()
    for r in a.events("branch"):
        for e in truth_edge(a, r, is_field(names), val):
            out.add(e)
    return out
