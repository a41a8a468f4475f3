"""Lowering of an entry point to an interprocedural control-flow graph."""
import ast
import builtins

from .model import AnalysisError, ClassInfo, FuncInfo, dotted, walk_local

ANY = "Exception*"  # an arbitrary Exception
ANYB = "BaseException*"  # an arbitrary BaseException that is no Exception

LOCK_CTORS = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore", "_thread.allocate_lock", "_thread.RLock", "multiprocessing.Lock", "multiprocessing.RLock"}
LOCK_ANN = LOCK_CTORS | {"threading._RLock"}

NORAISE_BUILTIN = {
    "isinstance", "issubclass", "len", "type", "id", "callable", "hasattr", "super", "bool", "repr", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "min", "max", "sum", "abs", "print", "object", "property", "any", "all", "map", "filter", "str", "hash", "bytes", "iter", "round", "getattr", "format", "slice", "vars", "hex",
}
NORAISE_FQN = {
    "threading.Lock", "threading.RLock", "threading.Condition", "threading.Event", "threading.Thread", "collections.deque", "time.time_ns", "time.time", "time.perf_counter", "time.monotonic", "weakref.WeakMethod", "weakref.ref", "weakref.WeakSet", "collections.OrderedDict", "collections.defaultdict", "types.MappingProxyType", "logging.getLogger", "warnings.warn", "functools.partial", "typing.cast", "copy.copy", "copy.deepcopy", "os.getpid", "os.environ.get", "os.getenv", "math.isnan", "math.isinf", "atexit.register", "atexit.unregister", "os.register_at_fork", "hasattr", "traceback.format_exception", "traceback.format_exc", "functools.wraps", "sys.exc_info", "threading.current_thread", "random.uniform",
    "opentelemetry.context.attach", "opentelemetry.context.detach", "opentelemetry.context.set_value", "opentelemetry.context.get_value", "opentelemetry.context.get_current", "opentelemetry.context.create_key", "opentelemetry.context.context.Context",
    "opentelemetry.trace.propagation.get_current_span", "opentelemetry.trace.propagation.set_span_in_context",
    "opentelemetry.trace.span.format_trace_id", "opentelemetry.trace.span.format_span_id",
    "opentelemetry.baggage.get_all", "opentelemetry.baggage.set_baggage", "opentelemetry.baggage.get_baggage",
    "opentelemetry.sdk.util.ns_to_iso_str", "opentelemetry.util._time._time_ns",
}
NORAISE_METHODS = {
    "append", "appendleft", "add", "extend", "items", "keys", "values", "get", "copy", "setdefault", "update", "clear", "discard", "acquire", "release", "set", "is_set", "wait", "notify", "notify_all", "debug", "info", "warning", "error", "exception", "critical", "log", "warn", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "join", "partition", "rpartition", "replace", "format", "count", "locked", "_log_warning", "isEnabledFor", "title", "is_alive", "total_seconds", "__setattr__", "groups", "group", "insert", "startswith", "hexdigest",
}
LOGGER_METHODS = {"debug", "info", "warning", "error", "exception", "critical", "log", "warn"}

_exc_cache = {}


def exc_supers(prog, name):
    k = (id(prog), name)
    if k in _exc_cache:
        return _exc_cache[k]
    out = {name}
    if name in (ANY, "builtins.Exception"):
        out |= {"builtins.Exception", "builtins.BaseException"}
    elif name in (ANYB, "builtins.BaseException"):
        out |= {"builtins.BaseException"}
    elif name.startswith("builtins."):
        c = getattr(builtins, name[9:], None)
        if isinstance(c, type):
            out |= {"builtins." + b.__name__ for b in c.__mro__}
            if c is OSError:
                out |= {"builtins.OSError"}
        else:
            out |= {"builtins.Exception", "builtins.BaseException"}
    elif name in prog.classes:
        for b in prog.mro(prog.classes[name]):
            out.add(b.fqn)
        for b in prog.bases_ext(prog.classes[name]):
            out |= exc_supers(prog, b if "." in b else "builtins." + b)
        out |= {"builtins.BaseException"}
    else:
        out |= {"builtins.Exception", "builtins.BaseException"}
        if name.startswith("requests."):
            out |= {"requests.exceptions.RequestException", "builtins.OSError"}
        if name.startswith("requests.exceptions.") and name.endswith("Timeout"):
            out.add("requests.exceptions.Timeout")
    _exc_cache[k] = out
    return out


def norm_exc(n):
    return {"requests.ConnectionError": "requests.exceptions.ConnectionError", "builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError"}.get(n, n)


def exc_rel(prog, r, h):
    """Does a handler for h catch a raised r?  'yes' | 'maybe' | 'no'."""
    h = norm_exc(h)
    inexact = r.endswith("*")
    if r == ANY:
        if h in ("builtins.Exception", "builtins.BaseException"):
            return "yes"
        return "maybe" if "builtins.Exception" in exc_supers(prog, h) else "no"
    if r == ANYB:
        if h == "builtins.BaseException":
            return "yes"
        return "maybe" if h in ("builtins.KeyboardInterrupt", "builtins.SystemExit", "builtins.GeneratorExit") else "no"
    rr = norm_exc(r[:-1] if inexact else r)
    if h in exc_supers(prog, rr):
        return "yes"
    if inexact and rr in exc_supers(prog, h):
        return "maybe"
    return "no"


class Opd:
    """An operand: a variable key or a constant term, plus static knowledge."""
    __slots__ = ("key", "term", "sv")

    def __init__(self, key=None, term=None, sv=None):
        self.key, self.term, self.sv = key, term, sv

    def __repr__(self):
        return "Opd(%s)" % (self.key if self.key is not None else self.term,)


class Instr:
    __slots__ = ("uid", "kind", "node", "frame", "dst", "a", "block", "name", "fqn", "rec")

    def __init__(self, uid, kind, node, frame, dst=None, name=None, fqn=None, **a):
        self.uid, self.kind, self.node, self.frame, self.dst, self.name, self.fqn, self.a = uid, kind, node, frame, dst, name, fqn, a
        self.block = None
        self.rec = None

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return "%s:%s" % (self.frame.mod.path, self.line)

    def stack(self):
        out, f = [], self.frame
        while f is not None:
            out.append(f.fi.fqn)
            f = f.caller
        return list(reversed(out))

    def __repr__(self):
        return "<%s %s %s @%s>" % (self.kind, self.name or "", self.fqn or "", self.where)


class Block:
    __slots__ = ("id", "instrs", "succs", "preds", "note")

    def __init__(self, id):
        self.id, self.instrs, self.succs, self.preds, self.note = id, [], [], [], None

    def __repr__(self):
        return "B%d" % self.id


class Edge:
    __slots__ = ("src", "dst", "label")

    def __init__(self, src, dst, label):
        self.src, self.dst, self.label = src, dst, label


class Frame:
    __slots__ = ("id", "fi", "mod", "cls", "selfcls", "parent", "caller", "locals", "sv", "ret", "rettarget", "yield_cb", "depth", "globals", "nonlocals", "callnode", "multi", "nested")

    def __init__(self, id, fi, selfcls, parent, caller):
        self.id, self.fi, self.mod, self.cls, self.selfcls = id, fi, fi.mod, fi.cls, selfcls
        self.parent, self.caller = parent, caller
        self.depth = 0 if caller is None else caller.depth + 1
        self.sv = {}
        self.ret = None
        self.rettarget = None
        self.yield_cb = None
        self.globals, self.nonlocals = set(), set()
        self.nested = {}
        self.locals, self.multi = local_names(fi)
        for n in walk_local(fi.node):
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
        self.locals = self.locals - self.globals - self.nonlocals


def local_names(fi):
    if fi._locals is not None:
        return fi._locals
    s, cnt = set(), {}

    def add(n):
        s.add(n)
        cnt[n] = cnt.get(n, 0) + 1

    p, va, ko, kw = fi.params()
    for x in p + ko + [y for y in (va, kw) if y]:
        add(x)
    if not isinstance(fi.node, ast.Lambda):
        for n in walk_local(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    add((a.asname or a.name).split(".")[0])
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                add(n.name)
    else:
        for n in ast.walk(fi.node.body):
            if isinstance(n, ast.NamedExpr):
                add(n.target.id)
    # comprehension targets are handled through walk_local (same scope approx.)
    fi._locals = (s, {n for n, c in cnt.items() if c > 1})
    return fi._locals


class Ctx:
    __slots__ = ("kind", "data", "handlers", "landing", "rs", "target", "target2", "frame", "origins")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.data = None
        self.handlers = None
        self.landing = None
        self.rs = set()
        self.origins = {}
        self.target = self.target2 = None
        self.frame = None
        for k, v in kw.items():
            setattr(self, k, v)


MAXBLOCKS = 60000


class Builder:
    def __init__(self, prog, terms, policy, maxdepth=9, want_attr_raise=False):
        self.prog, self.T, self.policy = prog, terms, policy
        self.blocks = []
        self.n = 0
        self.nt = 0
        self.nf = 0
        self.ctx = []
        self.cur = None
        self.maxdepth = maxdepth
        self.exits = {}
        self.inlined = []
        self.skipped = []
        self.stack = []
        self.unrolled = 0
        self.frames = []
        self.escapes = []

    # -- graph primitives -----------------------------------------------------
    def block(self, note=None):
        b = Block(len(self.blocks))
        b.note = note
        self.blocks.append(b)
        if len(self.blocks) > MAXBLOCKS:
            raise AnalysisError("graph too large")
        return b

    def edge(self, src, dst, label=""):
        e = Edge(src, dst, label)
        src.succs.append(e)
        dst.preds.append(e)
        return e

    def goto(self, dst):
        if self.cur is not None:
            self.edge(self.cur, dst)
        self.cur = None

    def uid(self):
        self.n += 1
        return self.n

    def tmp(self):
        self.nt += 1
        return ("t", self.nt)

    EVENTS = {"call", "store_attr", "store_item", "del_attr", "del_item", "store_glob", "acquire", "release", "with_enter", "with_exit", "ret", "raise", "yield", "enter", "leave", "content"}

    def emit(self, kind, node, dst=None, raises=(), name=None, fqn=None, **a):
        if self.cur is None:
            # unreachable code: lower into a detached block
            self.cur = self.block("dead")
        i = Instr(self.uid(), kind, node, self.frame, dst, name, fqn, **a)
        ev = kind in self.EVENTS or raises
        i.block = self.cur
        self.cur.instrs.append(i)
        if ev:
            b = self.cur
            for r in raises:
                self.raise_edges(b, r, self.ctx)
            nb = self.block()
            self.edge(b, nb)
            self.cur = nb
        return i

    def raise_edges(self, b, r, ctx, origins=None):
        """Add exceptional edges for a raised r out of block b."""
        origins = origins or {b}
        i = len(ctx) - 1
        while i >= 0:
            c = ctx[i]
            if c.kind == "try":
                done = False
                for h in c.handlers:
                    best = "no"
                    caught = None
                    for t in h["types"]:
                        rel = exc_rel(self.prog, r, t)
                        if rel == "yes":
                            best, caught = "yes", r
                            break
                        if rel == "maybe":
                            best, caught = "maybe", norm_exc(t) + "*"
                    if best != "no":
                        if h["entry"] is None:
                            h["entry"] = self.block("handler")
                        self.exc_edge(b, h["entry"], r)
                        h["rs"].add(caught)
                        if best == "yes":
                            done = True
                            break
                if done:
                    return
            elif c.kind in ("finally", "with"):
                if c.landing is None:
                    c.landing = self.block("landing")
                self.exc_edge(b, c.landing, r)
                c.rs.add(r)
                c.origins.setdefault(r, set()).update(origins)
                return
            i -= 1
        k = "B" if r == ANYB or "builtins.Exception" not in exc_supers(self.prog, r.rstrip("*") if r not in (ANY, ANYB) else r) else "E"
        if ("exc", k) not in self.exits:
            self.exits[("exc", k)] = self.block("exit-exc-" + k)
        self.exc_edge(b, self.exits[("exc", k)], r)
        self.escapes.append((k, r, origins))

    def exc_edge(self, b, dst, r):
        for e in b.succs:
            if e.dst is dst and e.label == ("exc", r):
                return
        self.edge(b, dst, ("exc", r))

    # -- entry ------------------------------------------------------------------
    def build(self, fi, selfcls, params=None):
        T = self.T
        self.entry = self.cur = self.block("entry")
        self.exits["ret"] = self.block("exit-ret")
        fr = self.new_frame(fi, selfcls, None, None)
        self.frame = fr
        self.stack = [fi]
        pos, va, ko, kw = fi.params()
        allp = pos + ko + [x for x in (va, kw) if x]
        bound = {}
        for i, p in enumerate(allp):
            sv = None
            if i == 0 and fi.cls is not None and fi.kind not in ("static", "classmethod") and p in pos:
                t = T.mk("self")
                sv = ("self", selfcls or fi.cls)
            elif i == 0 and fi.kind == "classmethod":
                t = T.mk("cls")
                sv = ("class", selfcls or fi.cls)
            else:
                t = T.mk("param", p)
                ann = fi.annotations().get(p)
                sv = self.ann_sv(fi.mod, ann)
            bound[p] = Opd(term=(params or {}).get(p, t), sv=sv)
        decos = self.inline_decos(fi)
        if decos:
            # enter through the decorators, like a caller of the public name
            ops = []
            for p in pos:
                self.emit("mov", fi.node, ("v", fr.id, p), src=bound[p])
                ops.append(Opd(key=("v", fr.id, p), sv=bound[p].sv))
            kws = {}
            for p in ko:
                self.emit("mov", fi.node, ("v", fr.id, p), src=bound[p])
                kws[p] = Opd(key=("v", fr.id, p), sv=bound[p].sv)
            outer = Ctx("func", frame=fr)
            outer.target = self.exits["ret"]
            self.ctx.append(outer)
            self.stack = []
            res = self.call_function(fi, ops, kws, None, None, fi.node, selfcls=selfcls)
            self.emit("ret", fi.node, val=res)
            self.ctx.pop()
            self.goto(self.exits["ret"])
            self.note_anns = None
            return self
        for p in allp:
            self.assign_name(p, bound[p], fi.node)
        c = Ctx("func", frame=fr)
        c.target = self.exits["ret"]
        fr.ret = self.tmp()
        fr.rettarget = self.exits["ret"]
        self.ctx.append(c)
        self.body_of(fi)
        self.ctx.pop()
        return self

    def body_of(self, fi):
        if isinstance(fi.node, ast.Lambda):
            v = self.ex(fi.node.body)
            self.do_return(fi.node, v)
        else:
            self.stmts(fi.node.body)
            if self.cur is not None:
                self.do_return(fi.node, Opd(term=self.T.const(None)))

    def ann_sv(self, mod, ann):
        if ann is None:
            return None
        ts = [t for t in self.prog.ann_types(mod, ann) if t in self.prog.classes]
        if len(ts) == 1:
            return ("type", self.prog.classes[ts[0]])
        return None

    def new_frame(self, fi, selfcls, parent, caller):
        self.nf += 1
        f = Frame(self.nf, fi, selfcls, parent, caller)
        self.frames.append(f)
        return f

    # -- names ------------------------------------------------------------------
    def lookup(self, name):
        f = self.frame
        while f is not None:
            if name in f.globals:
                return ("g", f)
            if name in f.locals:
                return ("v", f)
            f = f.parent
        return ("g", self.frame)

    def glob_operand(self, mod, name):
        fqn = self.prog.resolve_dotted(mod, name)
        return self.fqn_operand(fqn or (mod.name + "." + name))

    def fqn_operand(self, fqn):
        p = self.prog
        if fqn in p.classes:
            return Opd(term=self.T.mk("glob", fqn), sv=("class", p.classes[fqn]))
        if fqn in p.funcs:
            f = p.funcs[fqn]
            return Opd(term=self.T.mk("glob", fqn), sv=("func", f, None))
        if fqn in p.modules:
            return Opd(term=self.T.mk("glob", fqn), sv=("mod", fqn))
        if fqn.startswith("builtins."):
            return Opd(term=self.T.mk("glob", fqn), sv=("ext", fqn))
        c = p.const_global(fqn)
        if c is not None:
            return Opd(term=self.T.const(c[1]))
        # module-level variable or external
        b, _, n = fqn.rpartition(".")
        m = p.modules.get(b)
        if m is not None and n in m.globals:
            sv = None
            if len(m.globals[n]) == 1 and n not in m.global_decl:
                v = m.globals[n][0]
                if isinstance(v, (ast.Tuple, ast.List, ast.Set)) :
                    sv = ("display", v, m)
                elif isinstance(v, ast.Lambda):
                    sv = None
                elif isinstance(v, ast.Call):
                    r = p.resolve_expr(m, v.func)
                    if r in p.classes:
                        sv = ("type", p.classes[r])
                    elif r:
                        sv = ("ctor", r)
            return Opd(key=("g", fqn), sv=sv)
        return Opd(term=self.T.mk("glob", fqn), sv=("ext", fqn))

    def name_load(self, e):
        k, f = self.lookup(e.id)
        if k == "v":
            key = ("v", f.id, e.id)
            return Opd(key=key, sv=f.sv.get(e.id))
        return self.glob_operand(f.mod, e.id)

    def assign_name(self, name, opd, node):
        k, f = self.lookup(name)
        if k == "g":
            fqn = f.mod.name + "." + name
            self.emit("store_glob", node, None, name=name, fqn=fqn, val=opd)
            return
        self.emit("mov", node, ("v", f.id, name), src=opd)
        if name in f.multi and not (opd.sv and f.sv.get(name) == opd.sv):
            if name in f.sv or not opd.sv or opd.sv[0] not in ("self", "class", "func", "type"):
                f.sv[name] = None
            else:
                f.sv[name] = None if self.assigned_more(f, name) else opd.sv
        else:
            f.sv[name] = opd.sv

    def holds_split(self, name, node):
        """The local name is bound (somewhere in the function) to the pieces
        of a split, of which there may be too many or too few to unpack."""
        fi = getattr(self.frame, "fi", None)
        for n in walk_local(fi.node) if fi is not None else ():
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("split", "rsplit") and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                return True
        return False

    def assigned_more(self, f, name):
        return name in f.multi

    # -- statements ---------------------------------------------------------------
    def stmts(self, body):
        for s in body:
            if self.cur is None:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("unsupported statement %s at %s:%s" % (type(s).__name__, self.frame.mod.path, s.lineno))
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ex(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            n = (a.asname or a.name).split(".")[0]
            o = self.fqn_operand(self.prog.canon(a.name if a.asname else n))
            self.assign_name(n, o, s)

    def s_ImportFrom(self, s):
        base = self.prog._from_base(self.frame.mod, s)
        for a in s.names:
            o = self.fqn_operand(self.prog.canon(base + "." + a.name))
            self.assign_name(a.asname or a.name, o, s)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, s):
        t, f = self.block(), self.block()
        self.cond(s.test, t, f)
        self.cur = f
        self.raise_(s, "builtins.AssertionError")
        self.cur = t

    def raise_(self, node, r):
        self.emit("raise", node, None, name=r, val=None, types=[r], raises=[r])
        # the normal successor of a raise does not exist
        self.kill_normal()

    def kill_normal(self):
        nb = self.cur
        if nb is not None:
            for e in list(nb.preds):
                e.src.succs.remove(e)
            nb.preds = []
        self.cur = None

    def s_Raise(self, s):
        if s.exc is None:
            rs = None
            for c in reversed(self.ctx):
                if c.kind == "handling":
                    rs = c.rs
                    break
            rs = sorted(rs) if rs else [ANY]
            self.emit("raise", s, None, name="reraise", val=None, types=rs, raises=rs)
            self.kill_normal()
            return
        e = s.exc
        r = None
        tgt = e.func if isinstance(e, ast.Call) else e
        fq = self.prog.resolve_expr(self.frame.mod, tgt) if dotted(tgt) and self.lookup(dotted(tgt).split(".")[0])[0] == "g" else None
        v = self.ex(e) if not (fq and fq.startswith("builtins.") and isinstance(e, ast.Name)) else Opd(term=self.T.mk("glob", fq))
        if s.cause is not None:
            self.ex(s.cause)
        if fq and (fq.startswith("builtins.") or fq in self.prog.classes or "." in fq):
            r = fq
        rs = [r] if r else None
        if rs is None and isinstance(e, ast.Name):
            for c in reversed(self.ctx):
                if c.kind == "handling" and c.data == e.id:
                    rs = sorted(c.rs)
                    break
        rs = rs or [ANY]
        self.emit("raise", s, None, name=r or "?", val=v, types=rs, raises=rs)
        self.kill_normal()

    def s_Return(self, s):
        v = self.ex(s.value) if s.value is not None else Opd(term=self.T.const(None))
        self.do_return(s, v)

    def do_return(self, s, v):
        fr = self.frame
        # stabilise the value before finally code runs
        t = self.tmp()
        self.emit("mov", s, t, src=v)
        self.emit("ret", s, None, val=Opd(key=t, sv=v.sv))
        self.emit("mov", s, fr.ret, src=Opd(key=t, sv=v.sv))
        if v.sv is not None:
            fr.sv.setdefault("<ret>", []).append(v.sv)
        else:
            fr.sv.setdefault("<ret>", []).append(None)
        self.unwind(lambda c: c.kind == "func" and c.frame is fr, ("return", fr))

    def s_Break(self, s):
        fr = self.frame
        self.unwind(lambda c: c.kind == "loop" and c.frame is fr, ("break",))

    def s_Continue(self, s):
        fr = self.frame
        self.unwind(lambda c: c.kind == "loop" and c.frame is fr, ("continue",))

    def unwind(self, stop, what):
        saved = list(self.ctx)
        i = len(saved) - 1
        while i >= 0:
            c = saved[i]
            if stop(c):
                if what[0] == "break":
                    self.goto(c.target)
                else:
                    self.goto(c.target if what[0] == "return" else c.target2)
                break
            if c.kind == "finally":
                self.ctx = saved[:i]
                fsave = self.frame
                self.frame = c.frame
                self.stmts(c.data)
                self.frame = fsave
                if self.cur is None:
                    break
            elif c.kind == "with":
                self.ctx = saved[:i]
                c.data(None)
            elif c.kind == "genbody":
                # leave the body of an inlined generator context manager:
                # the generator resumes after its yield, then the exit goes on
                info = c.data
                idx = len(info["pending"]) + 1
                info["pending"].append((idx, stop, what))
                self.emit("mov", info["node"], info["var"], src=Opd(term=self.T.const(idx)))
                self.goto(info["after"])
                break
            i -= 1
        else:
            self.cur = None
        self.ctx = saved
        self.cur = None

    def s_If(self, s):
        t, f, j = self.block(), self.block(), None
        self.cond(s.test, t, f)
        ends = []
        self.cur = t if t.preds else None
        if self.cur is not None:
            self.stmts(s.body)
            if self.cur is not None:
                ends.append(self.cur)
        self.cur = f if f.preds else None
        if self.cur is not None:
            self.stmts(s.orelse)
            if self.cur is not None:
                ends.append(self.cur)
        if not ends:
            self.cur = None
        elif len(ends) == 1:
            self.cur = ends[0]
        else:
            j = self.block()
            for e in ends:
                self.edge(e, j)
            self.cur = j

    def s_While(self, s):
        head, body, after, els = self.block("loop"), self.block(), self.block(), self.block()
        self.goto(head)
        self.cur = head
        self.cond(s.test, body, els)
        c = Ctx("loop", frame=self.frame, target=after, target2=head)
        self.ctx.append(c)
        self.cur = body if body.preds else None
        if self.cur is not None:
            self.stmts(s.body)
            self.goto(head)
        self.ctx.pop()
        self.cur = els if els.preds else None
        if self.cur is not None:
            self.stmts(s.orelse)
            self.goto(after)
        self.cur = after if after.preds else None

    def display_elts(self, opd):
        """Elements if the operand is a statically known display."""
        sv = opd.sv
        if sv and sv[0] == "tuple":
            return sv[1]
        if sv and sv[0] == "display":
            if len(sv[1].elts) > 12 or any(isinstance(x, ast.Starred) for x in sv[1].elts):
                return None
            out = []
            for x in sv[1].elts:
                sf = self.frame
                d = dotted(x)
                if isinstance(x, ast.Constant):
                    out.append(Opd(term=self.T.const(x.value)))
                elif d:
                    fq = self.prog.resolve_dotted(sv[2], d)
                    if fq is None:
                        return None
                    out.append(self.fqn_operand(fq))
                else:
                    return None
                self.frame = sf
            return out
        return None

    def s_For(self, s):
        it = self.ex(s.iter)
        elts = self.display_elts(it)
        if elts is not None and len(elts) <= 12:
            after = self.block()
            for e in elts:
                if self.cur is None:
                    break
                nxt = self.block()
                self.unrolled += 1
                self.assign_target(s.target, e, s)
                c = Ctx("loop", frame=self.frame, target=after, target2=nxt)
                self.ctx.append(c)
                self.stmts(s.body)
                self.ctx.pop()
                self.goto(nxt)
                self.cur = nxt if nxt.preds else None
            if self.cur is not None:
                self.stmts(s.orelse)
                self.goto(after)
            self.cur = after if after.preds else None
            return
        head, body, after, els = self.block("loop"), self.block(), self.block(), self.block()
        itv = self.tmp()
        self.emit("mov", s, itv, src=it)
        self.goto(head)
        self.cur = head
        li = self.emit("loop", s, self.tmp(), iter=Opd(key=itv, sv=it.sv))
        hb = self.cur
        # advancing the iterator may raise when it is an unknown iterable
        self.edge(hb, body, "next")
        self.edge(hb, els, "done")
        if getattr(self.policy, "iter_raises", False):
            self.raise_edges(hb, ANY, self.ctx)
        self.cur = body
        et = Opd(key=li.dst, sv=self.elem_sv(it))
        self.assign_target(s.target, et, s)
        c = Ctx("loop", frame=self.frame, target=after, target2=head)
        self.ctx.append(c)
        self.stmts(s.body)
        self.goto(head)
        self.ctx.pop()
        self.cur = els
        self.stmts(s.orelse)
        self.goto(after)
        self.cur = after if after.preds else None

    s_AsyncFor = s_For

    def elem_sv(self, it):
        return None

    def assign_target(self, t, opd, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, opd, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if opd.sv and opd.sv[0] == "tuple" and len(opd.sv[1]) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                tmps = []
                for o in opd.sv[1]:
                    k = self.tmp()
                    self.emit("mov", node, k, src=o)
                    tmps.append(Opd(key=k, sv=o.sv))
                for x, o in zip(t.elts, tmps):
                    self.assign_target(x, o, node)
                return
            if not (opd.sv and opd.sv[0] == "tuple") and isinstance(node, ast.Assign) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute) and node.value.func.attr in ("split", "rsplit", "groups", "splitlines", "findall"):
                self.emit("op", node, self.tmp(), name="unpack", args=[opd], raises=["builtins.ValueError"] if node.value.func.attr != "groups" else (), n=len(t.elts))
            elif not (opd.sv and opd.sv[0] == "tuple") and isinstance(node, ast.Assign) and isinstance(node.value, ast.Name) and self.holds_split(node.value.id, node):
                self.emit("op", node, self.tmp(), name="unpack", args=[opd], raises=["builtins.ValueError"], n=len(t.elts))
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    k = self.tmp()
                    self.emit("op", node, k, name="slice", args=[opd])
                    self.assign_target(x.value, Opd(key=k), node)
                else:
                    k = self.tmp()
                    self.emit("item", node, k, base=opd, key=Opd(term=self.T.const(i)), unpack=True)
                    self.assign_target(x, Opd(key=k), node)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value)
            if b.sv and b.sv[0] == "self":
                for k in self.prog.mro(b.sv[1]):
                    if t.attr in k.setters and self.may_inline(k.setters[t.attr], True):
                        self.call_function(k.setters[t.attr], [b, opd], {}, None, None, node, selfcls=b.sv[1])
                        return
                    if t.attr in k.methods or t.attr in k.attrs:
                        break
            if b.sv and b.sv[0] in ("class", "mod"):
                fqn = (b.sv[1].fqn if b.sv[0] == "class" else b.sv[1]) + "." + t.attr
                self.emit("store_glob", node, None, name=t.attr, fqn=self.prog.canon(fqn), val=opd)
                return
            self.emit("store_attr", node, None, name=t.attr, base=b, val=opd)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            k = self.ex_slice(t.slice)
            self.emit("store_item", node, None, base=b, key=k, val=opd, raises=self.item_raises())
        elif isinstance(t, ast.Starred):
            self.assign_target(t.value, opd, node)
        else:
            raise AnalysisError("unsupported target %s" % type(t).__name__)

    def item_raises(self):
        return ()

    def s_Assign(self, s):
        v = self.ex(s.value)
        if len(s.targets) > 1 and v.key is None:
            pass
        for t in s.targets:
            self.assign_target(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.ex(s.value)
            self.assign_target(s.target, v, s)

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name_load(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            v = self.ex(s.value)
            d = self.tmp()
            self.emit("op", s, d, name="aug" + op, args=[cur, v])
            self.assign_name(t.id, Opd(key=d), s)
        elif isinstance(t, ast.Attribute):
            b = self.ex(t.value)
            cur = self.attr_load(b, t.attr, s)
            v = self.ex(s.value)
            d = self.tmp()
            self.emit("op", s, d, name="aug" + op, args=[cur, v])
            self.emit("store_attr", s, None, name=t.attr, base=b, val=Opd(key=d), aug=op)
        elif isinstance(t, ast.Subscript):
            b = self.ex(t.value)
            k = self.ex_slice(t.slice)
            d0 = self.tmp()
            self.emit("item", s, d0, base=b, key=k)
            v = self.ex(s.value)
            d = self.tmp()
            self.emit("op", s, d, name="aug" + op, args=[Opd(key=d0), v])
            self.emit("store_item", s, None, base=b, key=k, val=Opd(key=d), aug=op)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                b = self.ex(t.value)
                self.emit("del_attr", s, None, name=t.attr, base=b)
            elif isinstance(t, ast.Subscript):
                b = self.ex(t.value)
                k = self.ex_slice(t.slice)
                self.emit("del_item", s, None, base=b, key=k, raises=["builtins.LookupError*"])
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    self.s_Delete(ast.copy_location(ast.Delete([x]), s))

    def s_FunctionDef(self, s):
        fi = self.nested_func(s)
        t = self.T.mk("func", fi.fqn, self.frame.id)
        self.assign_name(s.name, Opd(term=t, sv=("func", fi, self.frame)), s)

    s_AsyncFunctionDef = s_FunctionDef

    def nested_func(self, node):
        k = id(node)
        if k not in self.frame.nested:
            nm = getattr(node, "name", "<lambda>")
            fi = FuncInfo(self.frame.fi.fqn + ".<locals>." + nm, node, self.frame.mod, self.frame.cls, self.frame.fi)
            self.frame.nested[k] = fi
        return self.frame.nested[k]

    def s_ClassDef(self, s):
        self.assign_name(s.name, Opd(term=self.T.mk("unk", self.uid())), s)

    def s_Try(self, s):
        fin = None
        if s.finalbody:
            fin = Ctx("finally", data=s.finalbody, frame=self.frame)
            self.ctx.append(fin)
        if s.handlers:
            hs = []
            for h in s.handlers:
                hs.append({"types": self.handler_types(h), "entry": None, "rs": set(), "node": h})
            tc = Ctx("try", handlers=hs, frame=self.frame)
            self.ctx.append(tc)
            self.trybody(s.body, hs)
            self.ctx.pop()
            ends = []
            if self.cur is not None:
                self.stmts(s.orelse)
                if self.cur is not None:
                    ends.append(self.cur)
            for h in hs:
                if h["entry"] is None:
                    continue
                self.cur = h["entry"]
                hc = Ctx("handling", rs=set(h["rs"]), data=h["node"].name, frame=self.frame)
                self.ctx.append(hc)
                self.emit("op", h["node"], self.tmp(), name="caught", args=[])
                if h["node"].name:
                    self.assign_name(h["node"].name, Opd(term=self.T.mk("exc", self.uid()), sv=None), h["node"])
                self.stmts(h["node"].body)
                self.ctx.pop()
                if self.cur is not None:
                    ends.append(self.cur)
            self.join(ends)
        else:
            self.stmts(s.body)
            if self.cur is not None:
                self.stmts(s.orelse)
        if fin is not None:
            self.ctx.pop()
            end = None
            if self.cur is not None:
                self.stmts(s.finalbody)
                end = self.cur
            if fin.landing is not None:
                self.cur = fin.landing
                self.stmts(s.finalbody)
                if self.cur is not None:
                    for r in sorted(fin.rs):
                        self.raise_edges(self.cur, r, self.ctx, fin.origins.get(r))
                    self.cur = None
            self.cur = end

    s_TryStar = s_Try

    def join(self, ends):
        if not ends:
            self.cur = None
        elif len(ends) == 1:
            self.cur = ends[0]
        else:
            j = self.block()
            for e in ends:
                self.edge(e, j)
            self.cur = j

    def trybody(self, body, hs):
        self.stmts(body)

    def handler_types(self, h):
        if h.type is None:
            return ["builtins.BaseException"]
        es = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for e in es:
            if isinstance(e, ast.Name) and self.lookup(e.id)[0] == "v":
                out.append("builtins.Exception")
                continue
            r = self.prog.resolve_expr(self.frame.mod, e)
            if r is None:
                out.append("builtins.Exception")
                continue
            b, _, n = r.rpartition(".")
            m = self.prog.modules.get(b)
            if m and n in m.globals and isinstance(m.globals[n][0], ast.Tuple):
                for x in m.globals[n][0].elts:
                    out.append(self.prog.resolve_expr(m, x) or "builtins.Exception")
            else:
                out.append(r)
        return out

    def s_With(self, s):
        self.with_items(s, 0)

    s_AsyncWith = s_With

    def with_items(self, s, i):
        if i == len(s.items):
            self.stmts(s.body)
            return
        it = s.items[i]
        e = it.context_expr

        def body():
            self.with_items(s, i + 1)

        self.with_one(s, e, it.optional_vars, body)

    def is_lock_expr(self, e, opd):
        sv = opd.sv
        if sv and sv[0] == "ctor" and sv[1] in LOCK_CTORS:
            return True
        if isinstance(e, ast.Attribute):
            b = e.value
            cls = None
            if isinstance(b, ast.Name):
                k, f = self.lookup(b.id)
                if k == "v" and f.sv.get(b.id) and f.sv[b.id][0] in ("self", "type"):
                    cls = f.sv[b.id][1]
            if cls is not None:
                ts = self.prog.attr_types(cls).get(e.attr, set())
                if ts & LOCK_ANN:
                    return True
                if ts and not ts & LOCK_ANN and not ("lock" in e.attr.lower() or "condition" in e.attr.lower()):
                    return False
            return "lock" in e.attr.lower() or "condition" in e.attr.lower() or e.attr.lower().endswith("cond") or "mutex" in e.attr.lower()
        if isinstance(e, ast.Name):
            return "lock" in e.id.lower() or "condition" in e.id.lower() or "mutex" in e.id.lower()
        return False

    def with_one(self, s, e, target, body):
        # contextlib.suppress(...)
        if isinstance(e, ast.Call):
            fq = None
            d = dotted(e.func)
            if d and self.lookup(d.split(".")[0])[0] == "g":
                fq = self.prog.resolve_dotted(self.frame.mod, d)
            if fq == "contextlib.suppress":
                types = []
                for a in e.args:
                    types.append(self.prog.resolve_expr(self.frame.mod, a) or "builtins.Exception")
                h = {"types": types, "entry": None, "rs": set(), "node": s}
                self.ctx.append(Ctx("try", handlers=[h], frame=self.frame))
                body()
                self.ctx.pop()
                ends = [self.cur] if self.cur is not None else []
                if h["entry"] is not None:
                    ends.append(h["entry"])
                self.join(ends)
                return
            # inlined generator context manager
            cm = self.cm_target(e)
            if cm is not None:
                fi, recv = cm
                if self.may_inline(fi, recv is not None and recv.sv and recv.sv[0] == "self", cm=True):
                    self.inline_cm(s, e, fi, recv, target, body)
                    return
        mgr = self.ex(e)
        if self.is_lock_expr(e, mgr):
            self.emit("acquire", s, None, lock=mgr, how="with")

            def rel(_):
                self.emit("release", s, None, lock=mgr, how="with")
        else:
            dst = self.tmp()
            self.emit("with_enter", s, dst, mgr=mgr, raises=[ANY])
            if target is not None:
                self.assign_target(target, Opd(key=dst, sv=mgr.sv if mgr.sv and mgr.sv[0] == "type" else None), s)

            def rel(_):
                self.emit("with_exit", s, None, mgr=mgr)
        c = Ctx("with", data=rel, frame=self.frame)
        fsave = self.frame

        def rel2(x, rel=rel):
            cur = self.frame
            self.frame = fsave
            rel(x)
            self.frame = cur
        c.data = rel2
        self.ctx.append(c)
        body()
        self.ctx.pop()
        if self.cur is not None:
            rel2(None)
        end = self.cur
        if c.landing is not None:
            self.cur = c.landing
            rel2("exc")
            for r in sorted(c.rs):
                self.raise_edges(self.cur, r, self.ctx, c.origins.get(r))
            self.cur = None
        self.cur = end

    def cm_target(self, call):
        """Resolve a call to a @contextmanager generator function."""
        f = call.func
        fi = recv = None
        if isinstance(f, ast.Name):
            k, fr = self.lookup(f.id)
            if k == "v":
                sv = fr.sv.get(f.id)
                if sv and sv[0] == "func":
                    fi = sv[1]
            else:
                fq = self.prog.resolve_dotted(self.frame.mod, f.id)
                fi = self.prog.funcs.get(fq)
        elif isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name):
                k, fr = self.lookup(f.value.id)
                if k == "v":
                    sv = fr.sv.get(f.value.id)
                    if sv and sv[0] in ("self", "type"):
                        fi = self.prog.find_method(sv[1], f.attr)
                        recv = self.name_load(f.value)
                else:
                    d = dotted(f)
                    fq = self.prog.resolve_dotted(self.frame.mod, d)
                    fi = self.prog.funcs.get(fq)
        if fi is None or not fi.is_gen():
            return None
        for d in fi.decos:
            n = ast.unparse(d)
            if "contextmanager" in n:
                return fi, recv
        return None

    def inline_cm(self, s, call, fi, recv, target, body):
        args, kw, sa, sk = self.call_args(call)
        outer = self.frame
        if recv is not None:
            args = [recv] + args
        var = self.tmp()
        info = {"pending": [], "after": None, "var": var, "node": s}
        self.emit("mov", s, var, src=Opd(term=self.T.const(0)))
        done = self.block()

        def yield_cb(val, node):
            info["after"] = self.block()
            gframe = self.frame
            mark = Ctx("genbody", data=info, frame=gframe)
            self.ctx.append(mark)
            self.frame = outer
            if target is not None:
                self.assign_target(target, val, s)
            body()
            self.frame = gframe
            assert self.ctx[-1] is mark
            self.ctx.pop()
            self.goto(info["after"])
            self.cur = info["after"] if info["after"].preds else None
            return Opd(term=self.T.const(None))

        self.call_inline(fi, args, kw, sa, sk, call, recv.sv[1] if recv is not None and recv.sv else None, None, yield_cb)
        if self.cur is None:
            return
        for idx, stop, what in info["pending"]:
            t, f = self.block(), self.block()
            d = self.tmp()
            self.emit("op", s, d, name="cmp==", args=[Opd(key=var), Opd(term=self.T.const(idx))])
            self.branch(s, Opd(key=d), t, f)
            self.cur = t
            self.unwind(stop, what)
            self.cur = f

    def s_Match(self, s):
        subj = self.ex(s.subject)
        k = self.tmp()
        self.emit("mov", s, k, src=subj)
        subj = Opd(key=k, sv=subj.sv)
        ends = []
        for c in s.cases:
            if self.cur is None:
                break
            t, f = self.block(), self.block()
            self.pattern(c.pattern, subj, t, f, s)
            self.cur = t if t.preds else None
            if self.cur is not None and c.guard is not None:
                t2 = self.block()
                self.cond(c.guard, t2, f)
                self.cur = t2
            if self.cur is not None:
                self.stmts(c.body)
                if self.cur is not None:
                    ends.append(self.cur)
            self.cur = f if f.preds else None
        if self.cur is not None:
            ends.append(self.cur)
        self.join(ends)

    def pattern(self, p, subj, t, f, node):
        if isinstance(p, ast.MatchValue):
            v = self.ex(p.value)
            d = self.tmp()
            self.emit("op", node, d, name="cmp==", args=[subj, v])
            self.branch(node, Opd(key=d), t, f)
        elif isinstance(p, ast.MatchSingleton):
            d = self.tmp()
            self.emit("op", node, d, name="cmpis", args=[subj, Opd(term=self.T.const(p.value))])
            self.branch(node, Opd(key=d), t, f)
        elif isinstance(p, ast.MatchOr):
            for x in p.patterns:
                n = self.block()
                self.pattern(x, subj, t, n, node)
                self.cur = n if n.preds else None
                if self.cur is None:
                    return
            self.goto(f)
        elif isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                t2 = self.block()
                self.pattern(p.pattern, subj, t2, f, node)
                self.cur = t2
            if p.name:
                self.assign_name(p.name, subj, node)
            self.goto(t)
        elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            v = self.ex(p.cls)
            d = self.tmp()
            self.emit("op", node, d, name="isinstance", args=[subj, v])
            self.branch(node, Opd(key=d), t, f)
        elif isinstance(p, ast.MatchClass):
            v = self.ex(p.cls)
            d = self.tmp()
            self.emit("op", node, d, name="isinstance", args=[subj, v])
            t2 = self.block()
            self.branch(node, Opd(key=d), t2, f)
            self.cur = t2
            for x in p.patterns:
                t3 = self.block()
                self.pattern(x, subj, t3, f, node)
                self.cur = t3
            for nme, x in zip(p.kwd_attrs, p.kwd_patterns):
                o = self.attr_load(subj, nme, node)
                t3 = self.block()
                self.pattern(x, o, t3, f, node)
                self.cur = t3
            self.goto(t)
        else:
            d = self.tmp()
            self.emit("op", node, d, name="unknown", args=[subj])
            for x in ast.walk(p):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    self.assign_name(x.name, Opd(term=self.T.mk("unk", self.uid())), node)
            self.branch(node, Opd(key=d), t, f)

    # -- conditions -----------------------------------------------------------
    def cond(self, e, t, f):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                if self.cur is None:
                    return
                last = i == len(e.values) - 1
                if last:
                    self.cond(v, t, f)
                else:
                    n = self.block()
                    if isand:
                        self.cond(v, n, f)
                    else:
                        self.cond(v, t, n)
                    self.cur = n if n.preds else None
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.cond(e.operand, f, t)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            left = self.ex(e.left)
            for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
                r = self.ex(c)
                d = self.tmp()
                self.emit("op", e, d, name="cmp" + CMP[type(op)], args=[left, r])
                n = t if i == len(e.ops) - 1 else self.block()
                self.branch(e, Opd(key=d), n, f)
                self.cur = n
                left = r
            self.cur = None
            return
        if isinstance(e, ast.IfExp):
            a, b = self.block(), self.block()
            self.cond(e.test, a, b)
            self.cur = a if a.preds else None
            if self.cur is not None:
                self.cond(e.body, t, f)
            self.cur = b if b.preds else None
            if self.cur is not None:
                self.cond(e.orelse, t, f)
            return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return self.cond(e.args[0], t, f)
        o = self.ex(e)
        self.branch(e, o, t, f)

    def branch(self, node, o, t, f):
        if self.cur is None:
            return
        if o.key is None and o.term is not None and o.term.op == "const":
            self.goto(t if o.term.args[0] else f)
            return
        self.emit("branch", node, None, cond=o)
        b = self.cur
        self.edge(b, t, "T")
        self.edge(b, f, "F")
        self.cur = None

    # -- expressions -----------------------------------------------------------
    def ex(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("unsupported expression %s at %s:%s" % (type(e).__name__, self.frame.mod.path, getattr(e, "lineno", 0)))
        return m(e)

    def e_Constant(self, e):
        return Opd(term=self.T.const(e.value))

    def e_Name(self, e):
        return self.name_load(e)

    def e_NamedExpr(self, e):
        v = self.ex(e.value)
        self.assign_name(e.target.id, v, e)
        return v

    def e_Attribute(self, e):
        d = dotted(e)
        if d:
            head = d.split(".")[0]
            k, f = self.lookup(head)
            if k == "g":
                fqn = self.prog.resolve_dotted(f.mod, d)
                if fqn is not None:
                    b = fqn.rpartition(".")[0]
                    hf = self.prog.resolve_dotted(f.mod, head)
                    hb, _, hn = (hf or "").rpartition(".")
                    hm = self.prog.modules.get(hb)
                    # a module-level *object* is not a namespace
                    if not (hm is not None and hn in hm.globals and hf not in self.prog.classes):
                        return self.fqn_operand(fqn)
        b = self.ex(e.value)
        return self.attr_load(b, e.attr, e)

    def attr_load(self, b, name, node):
        sv = b.sv
        if sv:
            if sv[0] == "class":
                return self.fqn_operand(self.prog.canon(sv[1].fqn + "." + name))
            if sv[0] == "mod":
                return self.fqn_operand(self.prog.canon(sv[1] + "." + name))
            if sv[0] == "ext":
                return self.fqn_operand(self.prog.canon(sv[1] + "." + name))
            if sv[0] in ("self", "type"):
                c = sv[1]
                if self.prog.is_prop(c, name):
                    m = self.prog.find_method(c, name)
                    if (sv[0] == "self" or self.exact(c, name)) and self.may_inline(m, sv[0] == "self"):
                        return self.call_function(m, [b], {}, None, None, node, selfcls=c if sv[0] == "self" else None)
                    d = self.tmp()
                    self.emit("attr", node, d, name=name, base=b, prop=m)
                    return Opd(key=d, sv=self.ann_sv(m.mod, m.node.returns))
                if sv[0] == "self" and name == "__class__":
                    return Opd(term=self.T.mk("glob", c.fqn), sv=("class", c))
                m = self.prog.find_method(c, name)
                if m is not None:
                    d = self.tmp()
                    self.emit("attr", node, d, name=name, base=b)
                    if m.kind == "static":
                        return Opd(key=d, sv=("func", m, None))
                    return Opd(key=d, sv=("method", m, b))
                # class-level constant never stored on instances
                for k in self.prog.mro(c):
                    if name in k.attrs:
                        if not self.stored_on_self(c, name):
                            cv = self.prog.const_global(k.fqn + "." + name)
                            if cv is not None:
                                return Opd(term=self.T.const(cv[1]))
                            v = k.attrs[name]
                            if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
                                d = self.tmp()
                                self.emit("attr", node, d, name=name, base=b)
                                return Opd(key=d, sv=("display", v, k.mod))
                        break
                d = self.tmp()
                self.emit("attr", node, d, name=name, base=b)
                return Opd(key=d, sv=self.attr_sv(c, name))
        d = self.tmp()
        self.emit("attr", node, d, name=name, base=b)
        return Opd(key=d)

    def exact(self, c, name):
        """A method of a statically typed receiver cannot be overridden."""
        m = self.prog.find_method(c, name)
        return all(self.prog.find_method(k, name) is m for k in self.prog.subclasses(c))

    def stored_on_self(self, c, name):
        for k in self.prog.mro(c):
            # a dataclass field: the class attribute is only its default
            if name in k.annots and "ClassVar" not in ast.dump(k.annots[name]) and any("dataclass" in ast.dump(d) for d in k.node.decorator_list):
                return True
        for k in self.prog.mro(c) + self.prog.subclasses(c):
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                    return True
        return False

    def attr_sv(self, c, name):
        ts = self.prog.attr_types(c).get(name, set())
        if ts & LOCK_CTORS:
            return ("ctor", sorted(ts & LOCK_CTORS)[0])
        pcs = [self.prog.classes[t] for t in ts if t in self.prog.classes]
        if len(pcs) == 1 and len(ts) == 1:
            return ("type", pcs[0])
        if len(ts) == 1:
            return ("ctor", next(iter(ts)))
        return None

    def ex_slice(self, s):
        if isinstance(s, ast.Slice):
            ops = [self.ex(x) if x is not None else Opd(term=self.T.const(None)) for x in (s.lower, s.upper, s.step)]
            d = self.tmp()
            self.emit("op", s, d, name="sliceobj", args=ops)
            return Opd(key=d, sv=("slice",))
        return self.ex(s)

    def e_Subscript(self, e):
        b = self.ex(e.value)
        k = self.ex_slice(e.slice)
        if b.sv and b.sv[0] == "tuple" and k.term is not None and k.term.op == "const" and isinstance(k.term.args[0], int) and abs(k.term.args[0]) < len(b.sv[1]):
            return b.sv[1][k.term.args[0]]
        if b.sv and b.sv[0] == "class":
            return b
        d = self.tmp()
        raises = () if (k.sv and k.sv[0] == "slice") else ["builtins.LookupError*"]
        if isinstance(e.ctx, ast.Load) and not self.in_try():
            pass
        self.emit("item", e, d, base=b, key=k, raises=raises)
        return Opd(key=d)

    def in_try(self):
        return any(c.kind in ("try", "finally") for c in self.ctx)

    def e_Tuple(self, e):
        return self.display(e, "tuple")

    def e_List(self, e):
        return self.display(e, "list")

    def e_Set(self, e):
        return self.display(e, "set")

    def display(self, e, kind):
        ops, star = [], []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                o = self.ex(x.value)
                el = self.display_elts(o) if kind == "tuple" else None
                if el is not None:
                    ops += el
                else:
                    star.append(o)
            else:
                ops.append(self.ex(x))
        d = self.tmp()
        if kind == "tuple" and not star:
            self.emit("op", e, d, name="tup", args=ops)
            return Opd(key=d, sv=("tuple", ops))
        self.emit("new", e, d, name=kind, args=ops, stars=star, layout="".join("s" if isinstance(x, ast.Starred) else "e" for x in e.elts) if len(ops) + len(star) == len(e.elts) else None)
        return Opd(key=d, sv=("tuple", ops) if kind == "list" and not star and len(ops) <= 12 and False else None)

    def e_Dict(self, e):
        items, star = [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ex(v)
                star.append(x)
                items.append((None, x))
            else:
                items.append((self.ex(k), self.ex(v)))
        d = self.tmp()
        self.emit("new", e, d, name="dict", args=[], items=items, stars=star)
        return Opd(key=d)

    def e_JoinedStr(self, e):
        ops = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                o = self.ex(v.value)
                if v.format_spec is not None and v.format_spec.values:
                    sp = v.format_spec.values
                    if len(sp) == 1 and isinstance(sp[0], ast.Constant):
                        d = self.tmp()
                        self.emit("op", e, d, name="format", args=[o, Opd(term=self.T.const(sp[0].value))])
                        o = Opd(key=d)
                ops.append(o)
            else:
                ops.append(Opd(term=self.T.const(v.value)))
        d = self.tmp()
        self.emit("op", e, d, name="fstr", args=ops)
        return Opd(key=d)

    def e_FormattedValue(self, e):
        return self.ex(e.value)

    def e_BinOp(self, e):
        a, b = self.ex(e.left), self.ex(e.right)
        d = self.tmp()
        self.emit("op", e, d, name="bin" + type(e.op).__name__, args=[a, b])
        return Opd(key=d)

    def e_UnaryOp(self, e):
        a = self.ex(e.operand)
        d = self.tmp()
        n = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(e.op)]
        self.emit("op", e, d, name=n, args=[a])
        return Opd(key=d)

    def e_Compare(self, e):
        if len(e.ops) > 1:
            return self.bool_value(e)
        a = self.ex(e.left)
        rc = e.comparators[0]
        if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(rc, (ast.List, ast.Set)) and not any(isinstance(x, ast.Starred) for x in rc.elts):
            b = self.display(rc, "tuple")
        else:
            b = self.ex(rc)
            if isinstance(e.ops[0], (ast.In, ast.NotIn)):
                el = self.display_elts(b)
                if el is not None and b.sv[0] == "display":
                    d = self.tmp()
                    self.emit("op", e, d, name="tup", args=el)
                    b = Opd(key=d)
        d = self.tmp()
        self.emit("op", e, d, name="cmp" + CMP[type(e.ops[0])], args=[a, b])
        return Opd(key=d)

    def bool_value(self, e):
        t, f, j = self.block(), self.block(), self.block()
        d = self.tmp()
        self.cond(e, t, f)
        for b, v in ((t, True), (f, False)):
            if b.preds:
                self.cur = b
                self.emit("mov", e, d, src=Opd(term=self.T.const(v)))
                self.goto(j)
        self.cur = j
        return Opd(key=d)

    def e_BoolOp(self, e):
        d = self.tmp()
        j = self.block()
        isand = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            o = self.ex(v)
            if i == len(e.values) - 1:
                self.emit("mov", e, d, src=o)
                self.goto(j)
                break
            n, s = self.block(), self.block()
            k = self.tmp()
            self.emit("mov", e, k, src=o)
            if isand:
                self.branch(v, Opd(key=k), n, s)
            else:
                self.branch(v, Opd(key=k), s, n)
            self.cur = s
            if s.preds or o.key is not None:
                self.emit("mov", e, d, src=Opd(key=k))
                if s.preds:
                    self.goto(j)
                else:
                    self.cur = None
            self.cur = n
            if not n.preds:
                self.cur = None
                break
        self.cur = j
        return Opd(key=d)

    def e_IfExp(self, e):
        t, f, j = self.block(), self.block(), self.block()
        d = self.tmp()
        self.cond(e.test, t, f)
        svs = []
        for b, v in ((t, e.body), (f, e.orelse)):
            if not b.preds:
                continue
            self.cur = b
            o = self.ex(v)
            svs.append(o.sv)
            self.emit("mov", e, d, src=o)
            self.goto(j)
        self.cur = j
        sv = svs[0] if svs and all(x == svs[0] for x in svs) else None
        return Opd(key=d, sv=sv)

    def e_Starred(self, e):
        return self.ex(e.value)

    def e_Lambda(self, e):
        fi = self.nested_func(e)
        return Opd(term=self.T.mk("func", fi.fqn, self.frame.id), sv=("func", fi, self.frame))

    def e_Await(self, e):
        return self.ex(e.value)

    def e_Yield(self, e):
        v = self.ex(e.value) if e.value is not None else Opd(term=self.T.const(None))
        if self.frame.yield_cb is not None:
            cb = self.frame.yield_cb
            return cb(v, e)
        d = self.tmp()
        self.emit("yield", e, d, val=v, raises=[ANY, ANYB])
        return Opd(key=d)

    def e_YieldFrom(self, e):
        v = self.ex(e.value)
        d = self.tmp()
        self.emit("yield", e, d, val=v, raises=[ANY, ANYB], frm=True)
        return Opd(key=d)

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    def comp(self, e, kind, each=None):
        d = self.tmp()
        self.emit("new", e, d, name=kind, args=[], stars=[], comp=True)
        out = Opd(key=d)

        def body():
            if each is not None:
                each()
                return
            if kind == "dict":
                k, v = self.ex(e.key), self.ex(e.value)
                self.emit("content", e, None, base=out, val=v, key=k)
            else:
                self.emit("content", e, None, base=out, val=self.ex(e.elt), key=None)

        self.comp_loops(e, 0, body)
        return out

    def comp_loops(self, e, i, body):
        if i == len(e.generators):
            body()
            return
        g = e.generators[i]
        # comprehension variables live in the enclosing frame (approximation)
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                self.frame.locals.add(n.id)
                self.frame.sv.pop(n.id, None)
        it = self.ex(g.iter)
        elts = self.display_elts(it)
        if elts is not None and len(elts) <= 12:
            for x in elts:
                self.assign_target(g.target, x, e)
                nxt = self.block()
                for c in g.ifs:
                    t = self.block()
                    self.cond(c, t, nxt)
                    self.cur = t
                self.comp_loops(e, i + 1, body)
                self.goto(nxt)
                self.cur = nxt
            return
        head, bb, after = self.block("loop"), self.block(), self.block()
        itv = self.tmp()
        self.emit("mov", e, itv, src=it)
        self.goto(head)
        self.cur = head
        li = self.emit("loop", e, self.tmp(), iter=Opd(key=itv, sv=it.sv))
        self.edge(self.cur, bb, "next")
        self.edge(self.cur, after, "done")
        self.cur = bb
        self.assign_target(g.target, Opd(key=li.dst), e)
        for c in g.ifs:
            t = self.block()
            self.cond(c, t, head)
            self.cur = t
        self.ctx.append(Ctx("loop", frame=None, target=after, target2=head))
        self.comp_loops(e, i + 1, body)
        self.ctx.pop()
        self.goto(head)
        self.cur = after

    def anyall(self, e, gen, isany):
        d = self.tmp()
        done = self.block()
        self.emit("mov", e, d, src=Opd(term=self.T.const(not isany)))

        def body():
            t, f = self.block(), self.block()
            self.cond(gen.elt, t, f)
            hit, miss = (t, f) if isany else (f, t)
            self.cur = hit if hit.preds else None
            if self.cur is not None:
                self.emit("mov", e, d, src=Opd(term=self.T.const(isany)))
                self.goto(done)
            self.cur = miss if miss.preds else None

        self.comp_loops(gen, 0, body)
        self.goto(done)
        self.cur = done
        return Opd(key=d)

    def mapcall(self, e, isfilter):
        f = self.ex(e.args[0])
        its = [self.ex(a) for a in e.args[1:]]
        d = self.tmp()
        self.emit("new", e, d, name="list", args=[], stars=[], comp=True)
        out = Opd(key=d)
        head, bb, after = self.block("loop"), self.block(), self.block()
        keys = []
        for it in its:
            k = self.tmp()
            self.emit("mov", e, k, src=it)
            keys.append(Opd(key=k, sv=it.sv))
        self.goto(head)
        self.cur = head
        els = []
        for k in keys:
            li = self.emit("loop", e, self.tmp(), iter=k)
            els.append(Opd(key=li.dst))
        self.edge(self.cur, bb, "next")
        self.edge(self.cur, after, "done")
        self.cur = bb
        if isfilter and f.term is not None and f.term.op == "const":
            r = els[0]
        else:
            r = self.call_value(f, els, {}, None, None, e)
        if isfilter:
            t = self.block()
            self.branch(e, r, t, head)
            self.cur = t
            self.emit("content", e, None, base=out, val=els[0], key=None)
        else:
            self.emit("content", e, None, base=out, val=r, key=None)
        self.goto(head)
        self.cur = after
        return out

    # -- calls ------------------------------------------------------------------
    def call_args(self, e):
        args, kw, sa, sk = [], {}, None, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                o = self.ex(a.value)
                el = self.display_elts(o)
                if el is not None and sa is None:
                    args += el
                else:
                    sa = o
            else:
                args.append(self.ex(a))
        for k in e.keywords:
            if k.arg is None:
                v = k.value
                if isinstance(v, ast.Dict) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in v.keys):
                    for n, x in zip(v.keys, v.values):
                        kw[n.value] = self.ex(x)
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and all(x.arg for x in v.keywords):
                    for x in v.keywords:
                        kw[x.arg] = self.ex(x.value)
                    continue
            o = self.ex(k.value)
            if k.arg is None:
                if o.sv and o.sv[0] == "kwdict":
                    for n, v in o.sv[1].items():
                        kw.setdefault(n, v)
                else:
                    sk = o
            else:
                kw[k.arg] = o
        return args, kw, sa, sk

    def e_Call(self, e):
        f = e.func
        # any()/all() over a generator, map/filter with a function
        if isinstance(f, ast.Name) and self.lookup(f.id)[0] == "g":
            if f.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.anyall(e, e.args[0], f.id == "any")
            if f.id in ("map", "filter") and len(e.args) >= 2 and not e.keywords and not any(isinstance(a, ast.Starred) for a in e.args):
                return self.mapcall(e, f.id == "filter")
            if f.id == "isinstance" and len(e.args) == 2:
                a = self.ex(e.args[0])
                b = self.ex(e.args[1])
                el = self.display_elts(b)
                if el is not None and b.sv[0] == "display":
                    dd = self.tmp()
                    self.emit("op", e, dd, name="tup", args=el)
                    b = Opd(key=dd)
                d = self.tmp()
                self.emit("op", e, d, name="isinstance", args=[a, b])
                return Opd(key=d)
            if f.id == "super":
                for a in e.args:
                    self.ex(a)
                return Opd(term=self.T.mk("super"), sv=("super",))
            if f.id == "type" and len(e.args) == 1:
                a = self.ex(e.args[0])
                if a.sv and a.sv[0] == "self":
                    return Opd(term=self.T.mk("glob", a.sv[1].fqn), sv=("class", a.sv[1]))
                d = self.tmp()
                self.emit("op", e, d, name="typeof", args=[a])
                return Opd(key=d)
        if isinstance(f, ast.Attribute):
            # super().method
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                fr = self.self_frame()
                if fr is not None:
                    args, kw, sa, sk = self.call_args(e)
                    sname = fr.fi.params()[0][0] if fr.fi.params()[0] else None
                    me = Opd(key=("v", fr.id, sname), sv=fr.sv.get(sname))
                    sc = fr.sv.get(sname)[1] if fr.sv.get(sname) and fr.sv[sname][0] in ("self", "class") else fr.cls
                    m = self.prog.find_method(sc, f.attr, after=fr.cls)
                    if m is not None and self.may_inline(m, True):
                        a0 = [] if m.kind == "static" else [me]
                        return self.call_function(m, a0 + args, kw, sa, sk, e, selfcls=sc)
                    return self.opaque(e, None, Opd(term=self.T.mk("super")), f.attr, args, kw, sa, sk, fi=m, fqn=m.fqn if m else None)
            callee = self.ex_callee_attr(f)
        else:
            callee = (self.ex(f), None, None)
        args, kw, sa, sk = self.call_args(e)
        return self.dispatch(callee, args, kw, sa, sk, e)

    def self_frame(self):
        f = self.frame
        while f is not None and (f.cls is None or f.fi.parent is not None):
            f = f.parent
        return f

    def ex_callee_attr(self, f):
        """(operand or None, receiver operand, method name)."""
        d = dotted(f)
        if d:
            head = d.split(".")[0]
            k, fr = self.lookup(head)
            if k == "g":
                o = self.e_Attribute(f)
                if o.sv and o.sv[0] in ("func", "class", "ext", "mod"):
                    return (o, None, None)
                if o.key is None and o.term is not None and o.term.op == "glob":
                    return (o, None, None)
        b = self.ex(f.value)
        sv = b.sv
        if sv and sv[0] in ("class", "mod", "ext"):
            return (self.attr_load(b, f.attr, f), None, None)
        if sv and sv[0] in ("self", "type"):
            if not self.prog.is_prop(sv[1], f.attr) and self.prog.find_method(sv[1], f.attr) is not None:
                return (None, b, f.attr)
            if sv[0] == "self":
                o = self.attr_load(b, f.attr, f)
                return (o, b, f.attr)
        return (None, b, f.attr)

    def dispatch(self, callee, args, kw, sa, sk, e):
        o, recv, name = callee
        if recv is not None:
            sv = recv.sv
            if sv and sv[0] == "self":
                m = self.prog.find_method(sv[1], name)
                if m is not None and not self.prog.is_prop(sv[1], name):
                    if self.may_inline(m, True):
                        a0 = [] if m.kind == "static" else ([Opd(term=self.T.mk("glob", sv[1].fqn), sv=("class", sv[1]))] if m.kind == "classmethod" else [recv])
                        return self.call_function(m, a0 + args, kw, sa, sk, e, selfcls=sv[1])
                    return self.opaque(e, None, recv, name, args, kw, sa, sk, fi=m, fqn=m.fqn)
                return self.call_value(o, args, kw, sa, sk, e, recv=recv, name=name)
            if sv and sv[0] == "type":
                m = self.prog.find_method(sv[1], name)
                if m is not None and not self.prog.is_prop(sv[1], name):
                    if self.exact(sv[1], name) and self.may_inline(m, False):
                        a0 = [] if m.kind == "static" else [recv]
                        return self.call_function(m, a0 + args, kw, sa, sk, e, selfcls=None, recvtype=sv[1])
                    return self.opaque(e, None, recv, name, args, kw, sa, sk, fi=m, fqn=m.fqn)
            if sv and sv[0] == "func" and name == "__get__":
                pass
            return self.opaque(e, None, recv, name, args, kw, sa, sk)
        return self.call_value(o, args, kw, sa, sk, e)

    def call_value(self, o, args, kw, sa, sk, e, recv=None, name=None):
        sv = o.sv if o is not None else None
        if sv:
            if sv[0] == "func":
                m = sv[1]
                a = args
                sc = None
                if m.cls is not None and m.parent is None:
                    if m.kind == "classmethod":
                        a = [Opd(term=self.T.mk("glob", m.cls.fqn), sv=("class", m.cls))] + args
                    elif m.kind != "static" and args and args[0].sv and args[0].sv[0] == "self":
                        sc = args[0].sv[1]
                if self.may_inline(m, sc is not None or sv[2] is not None):
                    return self.call_function(m, a, kw, sa, sk, e, selfcls=sc, parent=sv[2])
                return self.opaque(e, o, None, m.name, args, kw, sa, sk, fi=m, fqn=m.fqn)
            if sv[0] == "method":
                m, b = sv[1], sv[2]
                isself = bool(b.sv and b.sv[0] == "self")
                if (isself or (b.sv and b.sv[0] == "type" and self.exact(b.sv[1], m.name))) and self.may_inline(m, isself):
                    a0 = [] if m.kind == "static" else [b]
                    return self.call_function(m, a0 + args, kw, sa, sk, e, selfcls=b.sv[1] if isself else None)
                return self.opaque(e, o, b, m.name, args, kw, sa, sk, fi=m, fqn=m.fqn)
            if sv[0] == "class":
                return self.construct(sv[1], o, args, kw, sa, sk, e)
            if sv[0] == "ext":
                return self.opaque(e, o, None, sv[1].rsplit(".", 1)[-1], args, kw, sa, sk, fqn=sv[1])
            if sv[0] == "partial":
                return self.call_value(sv[1], sv[2] + args, dict(sv[3], **kw), sa, sk, e)
        if o is not None and o.key is not None and o.key[0] == "g":
            return self.opaque(e, o, None, o.key[1].rsplit(".", 1)[-1], args, kw, sa, sk, fqn=o.key[1])
        if o is not None and o.term is not None and o.term.op == "glob":
            fq = o.term.args[0]
            return self.opaque(e, o, None, fq.rsplit(".", 1)[-1], args, kw, sa, sk, fqn=fq)
        return self.opaque(e, o, recv, name, args, kw, sa, sk)

    def construct(self, c, o, args, kw, sa, sk, e):
        init = self.prog.find_method(c, "__init__")
        raises = [ANY, ANYB]
        if init is None:
            raises = []
        d = self.tmp()
        pol = self.policy
        if init is not None and getattr(pol, "construct", None) and pol.construct(c) and self.may_inline(init, True):
            self.emit("new", e, d, name="obj", args=[], stars=[], cls=c)
            me = Opd(key=d, sv=("self", c))
            self.call_function(init, [me] + args, kw, sa, sk, e, selfcls=c)
            return me
        i = self.emit("call", e, d, raises=raises, name=c.name, fqn=c.fqn, recv=None, callee=o, args=args, kw=kw, sa=sa, sk=sk, fi=init, cls=c)
        return Opd(key=d, sv=("type", c))

    def opaque(self, e, callee, recv, name, args, kw, sa, sk, fi=None, fqn=None):
        raises = self.raises_of(name, fqn, recv, fi, args, kw, e)
        if recv is not None and name in ("acquire", "release") and isinstance(e.func, ast.Attribute) and (self.is_lock_expr(e.func.value, recv)):
            d = self.tmp()
            if name == "acquire":
                blocking = not args and not kw
                self.emit("acquire", e, d, lock=recv, how="call", args=args, kw=kw, blocking=blocking)
            else:
                self.emit("release", e, None, lock=recv, how="call")
                return Opd(term=self.T.const(None))
            return Opd(key=d)
        d = self.tmp()
        if fqn == "functools.partial" and args:
            self.emit("call", e, d, raises=raises, name=name, fqn=fqn, recv=recv, callee=callee, args=args, kw=kw, sa=sa, sk=sk, fi=fi, cls=None)
            return Opd(key=d, sv=("partial", args[0], args[1:], kw))
        if fqn in ("builtins.tuple", "builtins.list", "builtins.iter") and len(args) == 1 and args[0].sv and args[0].sv[0] in ("tuple", "display"):
            sv = args[0].sv
        elif fqn == "typing.cast" and len(args) == 2:
            return args[1]
        elif fqn == "dataclasses.field":
            sv = None
        else:
            sv = None
            if fi is not None and not fi.is_gen() and not isinstance(fi.node, ast.Lambda) and fi.node.returns is not None:
                sv = self.ann_sv(fi.mod, fi.node.returns)
            elif fqn in LOCK_CTORS:
                sv = ("ctor", fqn)
        self.emit("call", e, d, raises=raises, name=name, fqn=fqn, recv=recv, callee=callee, args=args, kw=kw, sa=sa, sk=sk, fi=fi, cls=None)
        if fqn and fqn in getattr(self.policy, "runs", ()):
            # the callee is known to call its callable arguments some time later
            for x in list(args) + list((kw or {}).values()):
                if x is not None and x.sv and x.sv[0] in ("func", "method", "partial"):
                    self.call_value(x, [], {}, None, None, e)
        return Opd(key=d, sv=sv)

    def raises_of(self, name, fqn, recv, fi, args, kw, e):
        pol = getattr(self.policy, "raises", None)
        if pol is not None:
            r = pol(name, fqn, recv, fi, e)
            if r is not None:
                return r
        if fqn:
            if fqn.startswith("builtins."):
                n = fqn[9:]
                if n in NORAISE_BUILTIN:
                    return []
                if n in ("int", "float"):
                    return [] if args and args[0].term is not None and args[0].term.op == "const" else ["builtins.ValueError", "builtins.TypeError"]
                if n == "next":
                    return ["builtins.StopIteration"] if len(args) < 2 else []
                c = getattr(builtins, n, None)
                if isinstance(c, type) and issubclass(c, BaseException):
                    return []
            if fqn in NORAISE_FQN:
                return []
            mod = fqn.rsplit(".", 1)
            if len(mod) == 2 and mod[1] in LOGGER_METHODS and ("logger" in mod[0].lower() or "logging" in mod[0]):
                return []
        if fi is None and name in NORAISE_METHODS:
            return []
        if fi is None and recv is not None and name == "pop":
            return [] if len(args) > 1 else ["builtins.LookupError*"]
        if fi is None and recv is not None and name in ("popleft", "popitem", "index", "remove"):
            return ["builtins.LookupError*"] if name != "remove" and name != "index" else ["builtins.ValueError"]
        if fi is not None and fi.fqn in self.policy_noraise():
            return []
        return [ANY, ANYB]

    def policy_noraise(self):
        return getattr(self.policy, "noraise", ()) or ()

    # inlining ------------------------------------------------------------------
    def may_inline(self, fi, isself, cm=False):
        if fi is None or isinstance(fi.node, ast.AsyncFunctionDef):
            return False
        if fi.is_gen() and not cm:
            return False
        if any(f.fqn == fi.fqn for f in self.stack):
            return False
        if len(self.stack) > self.maxdepth:
            return False
        for d in fi.decos:
            n = ast.unparse(d)
            if "abstractmethod" in n and not isself:
                return False
            if "contextmanager" in n and not cm:
                return False
        return self.policy(fi, isself)

    def inline_decos(self, fi):
        out = []
        for d in fi.decos:
            target = d.func if isinstance(d, ast.Call) else d
            fq = self.prog.resolve_expr(fi.mod, target)
            f = self.prog.funcs.get(fq)
            if f is None and isinstance(target, ast.Name) and fi.cls is not None and target.id in fi.cls.methods:
                f = fi.cls.methods[target.id]
            if f is not None and not f.is_gen() and "contextmanager" not in f.name and isinstance(d, (ast.Name, ast.Attribute)):
                if any(isinstance(x, (ast.FunctionDef,)) for x in f.node.body):
                    out.append(f)
        return out

    def call_function(self, fi, args, kw, sa, sk, node, selfcls=None, parent=None, recvtype=None):
        decos = self.inline_decos(fi)
        if decos and not any(f.fqn == fi.fqn for f in self.stack):
            d = decos[0]
            raw = Opd(term=self.T.mk("func", fi.fqn, 0), sv=("func", RawFunc(fi), parent))
            r = self.call_inline(d, [raw], {}, None, None, node, None, None, None)
            if r.sv and r.sv[0] == "func":
                return self.call_inline(r.sv[1], args, kw, sa, sk, node, selfcls, r.sv[2], None)
            return self.opaque(node, r, None, fi.name, args, kw, sa, sk, fi=fi, fqn=fi.fqn)
        return self.call_inline(fi, args, kw, sa, sk, node, selfcls, parent, None)

    def call_inline(self, fi, args, kw, sa, sk, node, selfcls, parent, yield_cb):
        caller = self.frame
        if self.cur is None:
            self.cur = self.block("dead")
        fr = self.new_frame(fi, selfcls, parent, caller)
        fr.yield_cb = yield_cb
        fr.callnode = node
        fr.ret = self.tmp()
        pos, va, ko, kwn = fi.params()
        defaults = fi.defaults()
        bound = {}
        extra = list(args[len(pos):])
        for p, a in zip(pos, args):
            bound[p] = a
        kws = dict(kw)
        for p in pos + ko:
            if p in kws and p not in bound:
                bound[p] = kws.pop(p)
        for p in pos + ko:
            if p not in bound:
                if sa is not None or sk is not None:
                    bound[p] = Opd(term=self.T.mk("unk", self.uid()))
                elif p in defaults:
                    self.frame_eval_default(fr, bound, p, defaults[p], fi)
                else:
                    bound[p] = Opd(term=self.T.mk("unk", self.uid()))
        if va:
            if sa is None:
                d = self.tmp()
                self.emit("op", node, d, name="tup", args=extra)
                bound[va] = Opd(key=d, sv=("tuple", extra))
            else:
                bound[va] = sa
        if kwn:
            if sk is None:
                d = self.tmp()
                self.emit("new", node, d, name="dict", args=[], stars=[], items=[(Opd(term=self.T.const(k)), v) for k, v in kws.items()])
                bound[kwn] = Opd(key=d, sv=("kwdict", kws))
            else:
                bound[kwn] = sk
        self.emit("enter", node, None, name=fi.name, fqn=fi.fqn, fi=fi, bound=bound, args=args, kw=kw)
        self.inlined.append(fi.fqn)
        self.frame = fr
        self.stack.append(fi)
        ann = fi.annotations()
        for p, o in bound.items():
            sv = o.sv
            if sv is None and p in ann:
                sv = self.ann_sv(fi.mod, ann[p])
            self.emit("mov", node, ("v", fr.id, p), src=o)
            fr.sv[p] = sv if p not in fr.multi else (sv if sv and sv[0] == "self" else None)
        ret = self.block("ret")
        c = Ctx("func", frame=fr, target=ret)
        self.ctx.append(c)
        self.body_of(fi)
        self.ctx.pop()
        self.stack.pop()
        self.frame = caller
        self.cur = ret if ret.preds else None
        svs = fr.sv.get("<ret>") or []
        nn = [s for s in svs if s is not None]
        sv = nn[0] if nn and all(s == nn[0] for s in svs) else None
        if sv is None and len(nn) == 1 and len(svs) > 1 and nn[0][0] == "type":
            sv = None
        if sv is None and not isinstance(fi.node, ast.Lambda) and fi.node.returns is not None and yield_cb is None:
            sv = self.ann_sv(fi.mod, fi.node.returns)
        if self.cur is not None:
            self.emit("leave", node, None, name=fi.name, fqn=fi.fqn, fi=fi, val=Opd(key=fr.ret))
        return Opd(key=fr.ret, sv=sv)

    def frame_eval_default(self, fr, bound, p, expr, fi):
        sf = self.frame
        self.frame = _ModFrame(fi, fr)
        try:
            o = self.ex(expr)
        finally:
            self.frame = sf
        bound[p] = o


class RawFunc(FuncInfo):
    """A function without its decorators (the argument of its decorator)."""
    __slots__ = ()

    def __init__(self, fi):
        FuncInfo.__init__(self, fi.fqn, fi.node, fi.mod, fi.cls, fi.parent)
        self.decos = []
        self.kind = fi.kind
        self.fqn = fi.fqn + "<raw>"


class _ModFrame:
    """A frame in which names resolve at module level (for default values)."""

    def __init__(self, fi, fr):
        self.id = fr.id
        self.fi, self.mod, self.cls = fi, fi.mod, fi.cls
        self.selfcls = None
        self.parent = None
        self.caller = fr.caller
        self.locals, self.multi = set(), set()
        self.globals, self.nonlocals = set(), set()
        self.sv = {}
        self.nested = {}
        self.ret = None
        self.yield_cb = None
        self.depth = fr.depth


CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
