import ast
"""Value terms and the forward dataflow (constant propagation, facts, locks)."""
import builtins

from . import cfg
from .model import AnalysisError

PURE_METHODS = {"is_set", "get", "items", "keys", "values", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "total_seconds", "is_recording", "get_span_context", "locked", "bit_length"}
PURE_FQN = {"builtins.len", "builtins.isinstance", "builtins.callable", "builtins.hasattr", "builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.bytes", "builtins.abs", "builtins.getattr", "builtins.repr", "builtins.issubclass", "builtins.min", "builtins.max", "builtins.round", "builtins.format", "builtins.id", "builtins.hash", "builtins.iter", "builtins.any", "builtins.all", "builtins.sum",
            "opentelemetry.trace.span.format_trace_id", "opentelemetry.trace.span.format_span_id", "os.environ.get", "os.getenv", "typing.cast"}
FRESH = {"builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.frozenset", "builtins.sorted", "copy.copy", "copy.deepcopy", "collections.deque", "collections.OrderedDict", "types.MappingProxyType"}
WRAP_ITER = {"builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.set", "builtins.frozenset", "copy.copy", "collections.deque"}


class Term:
    __slots__ = ("op", "args", "id", "attrs", "depth")

    def __repr__(self):
        return show(self)


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 6:
        return "…"
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0])
    if o == "self":
        return "self"
    if o == "cls":
        return "cls"
    if o == "param":
        return a[0]
    if o == "glob":
        return a[0].split(".")[-1] if not a[0].startswith("builtins.") else a[0][9:]
    if o == "attr":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "item":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "elem":
        return "each(%s)" % show(a[0], d + 1)
    if o == "keyof":
        return "key(%s)" % show(a[0], d + 1)
    if o == "call":
        return "%s(%s)#%s" % (show(a[1], d + 1), ", ".join([show(x, d + 1) for x in a[2]] + ["%s=%s" % (k, show(v, d + 1)) for k, v in a[3]]), a[0])
    if o == "pure":
        return "%s(%s)" % (show(a[0], d + 1) if isinstance(a[0], Term) else a[0], ", ".join(show(x, d + 1) for x in a[1]))
    if o == "phi":
        return "phi%s" % (a,)
    if o == "new":
        return "new %s#%s" % (a[1], a[0])
    if o == "obj":
        return "%s(%s)#%s" % (a[1].split(".")[-1], ", ".join([show(x, d + 1) for x in a[2]] + ["%s=%s" % (k, show(v, d + 1)) for k, v in a[3]]), a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a))


MUTATORS = {"append", "appendleft", "extend", "extendleft", "insert", "pop", "popleft", "popitem", "clear", "remove", "discard", "add", "update", "setdefault"}


class Terms:
    def __init__(self):
        self.tab = {}
        self.n = 0

    def mk(self, op, *args):
        key = (op,) + tuple((("T", a.id) if isinstance(a, Term) else (tuple(("T", x.id) if isinstance(x, Term) else (x[0], ("T", x[1].id)) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Term) else x for x in a) if isinstance(a, tuple) else (type(a).__name__, a))) for a in args)
        t = self.tab.get(key)
        if t is None:
            t = Term()
            t.op, t.args = op, args
            self.n += 1
            t.id = self.n
            at = set()
            dp = 0
            for a in args:
                for x in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Term):
                        x = x[1]
                    if isinstance(x, Term):
                        at |= x.attrs
                        dp = max(dp, x.depth + 1)
            if op == "attr":
                at.add(args[1])
            t.attrs = frozenset(at)
            t.depth = dp
            if dp > 60:
                # widen overly deep terms
                t2 = self.mk("deep", op)
                self.tab[key] = t2
                return t2
            self.tab[key] = t
        return t

    def const(self, v):
        try:
            hash(v)
        except TypeError:
            return self.mk("unk", repr(v))
        return self.mk("const", v)


def isconst(t, v=Ellipsis):
    if t is None or t.op != "const":
        return False
    if v is Ellipsis:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo.extend(x.args)


class State:
    __slots__ = ("env", "heap", "facts", "locks")

    def __init__(self, env=None, heap=None, facts=None, locks=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.locks = locks if locks is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), dict(self.locks))

    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, State) and self.env == o.env and self.heap == o.heap and self.facts == o.facts and self.locks == o.locks


class Rec:
    """Evaluated view of one instruction in the final state."""
    __slots__ = ("instr", "t", "args", "kw", "facts", "locks", "dst", "sk", "sa", "env", "heap")

    def __init__(self, instr):
        self.instr = instr
        self.t = {}
        self.args = []
        self.kw = {}
        self.dst = None
        self.sk = self.sa = None

    @property
    def where(self):
        return self.instr.where

    @property
    def block(self):
        return self.instr.block

    def __repr__(self):
        return "Rec(%r %s)" % (self.instr, self.dst)


class Analysis:
    """Builds and solves the graph of one entry point."""

    def __init__(self, prog, fi, selfcls=None, policy=None, oracle=None, subst=None, params=None, maxdepth=9, locks_rlock=None, volatile=None, heap0=None):
        self.prog, self.fi, self.selfcls = prog, fi, selfcls
        self.T = Terms()
        self.oracle, self.subst = oracle, subst
        # self attributes other threads write: name -> "always" (each read is a
        # new value) or "lock" (stable while a lock is held)
        self.volatile = dict(volatile or {})
        T = self.T
        pt = {}
        for k, v in (params or {}).items():
            pt[k] = v(T) if callable(v) else v
        self.b = cfg.Builder(prog, T, policy or default_policy(fi), maxdepth)
        self.b.build(fi, selfcls, pt)
        self.phis = {}  # phi term -> list of (edge, operand term, facts)
        self.contents = {}  # base term -> list of (key term|None, val term, instr)
        self.truth_cache = {}
        self.heap0 = {}
        for k, v in (heap0 or {}).items():
            self.heap0[(T.mk("self"), k)] = v(T) if callable(v) else v
        self.solve()

    # -- term construction -------------------------------------------------------
    def sub(self, t):
        if self.subst is not None:
            r = self.subst(self, t)
            if r is not None:
                return r
        return t

    def mk_attr(self, base, name, st):
        h = st.heap.get((base, name))
        if h is not None:
            return h
        if base.op == "obj" and not base.args[2]:
            pass
        if base.op == "glob":
            c = self.prog.const_global(self.prog.canon(base.args[0] + "." + name))
            if c is not None:
                return self.T.const(c[1])
            return self.sub(self.T.mk("glob", self.prog.canon(base.args[0] + "." + name)))
        return self.sub(self.T.mk("attr", base, name))

    def mk_item(self, base, key):
        T = self.T
        if base.op == "tup" and isconst(key) and isinstance(key.args[0], int) and -len(base.args) <= key.args[0] < len(base.args):
            return base.args[key.args[0]]
        if base.op == "kv" and isconst(key):
            if key.args[0] == 0:
                return self.sub(T.mk("keyof", base.args[0]))
            if key.args[0] == 1:
                return self.sub(T.mk("elem", base.args[0]))
        if key.op == "sliceobj":
            return T.mk("slice", base, *key.args)
        if key.op in ("keyof", "elem") and key.args[0] is base:
            return self.sub(T.mk("elem", base))
        if base.op == "const" and key.op == "const":
            try:
                return T.const(base.args[0][key.args[0]])
            except Exception:
                pass
        if base.op == "new" and base.args[1] == "dict" and key.op == "const":
            vs = [v for k, v, i in self.contents.get(base, []) if k is not None and isconst(k, key.args[0])]
            others = [1 for k, v, i in self.contents.get(base, []) if k is None or k.op != "const"]
            if len(vs) == 1 and not others:
                return vs[0]
        v = self.looked_up(base, key)
        if v is not None:
            return v
        return self.sub(T.mk("item", base, key))

    # -- literal tables ----------------------------------------------------------
    def literal(self, t):
        """Constants, classes, functions and enumeration members: two different
        such terms are different values."""
        if t is None:
            return False
        if t.op == "const":
            return True
        if t.op != "glob":
            return False
        f = t.args[0]
        if f in self.prog.classes or f in self.prog.funcs:
            return True
        b, _, n = f.rpartition(".")
        c = self.prog.classes.get(b)
        return c is not None and n in c.attrs and self.prog.is_enum(c)

    def display(self, t):
        """[(key, value)] of a dictionary display with literal keys only (a
        local one, or a module-level one nothing modifies)."""
        if t.op == "new" and t.args[1] == "dict":
            cs = [(k, v) for k, v, i in self.contents.get(t, [])]
        elif t.op == "glob":
            cs = self.global_display(t.args[0])
        else:
            return None
        if cs is None or not cs or not all(self.literal(k) for k, v in cs):
            return None
        return cs

    def looked_up(self, base, key):
        if base.op not in ("new", "glob") or not self.literal(key):
            return None
        cs = self.display(base)
        vs = [v for k, v in cs if k is key] if cs else []
        return vs[0] if len(vs) == 1 else None

    def global_display(self, fqn):
        cache = self.__dict__.setdefault("_displays", {})
        if fqn not in cache:
            cache[fqn] = None
            e = self.prog.display_expr(fqn)
            if e is not None and isinstance(e[1], ast.Dict):
                m, d = e
                if all(k is not None for k in d.keys):
                    cache[fqn] = [(self.expr_term(m, k), self.expr_term(m, v)) for k, v in zip(d.keys, d.values)]
        return cache[fqn]

    def expr_term(self, m, e):
        T = self.T
        c = self.prog.const_expr(m, e)
        if c is not None:
            return T.const(c[1])
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(m, e)
            if r:
                return T.mk("glob", r)
        if isinstance(e, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return T.mk("tup", *[self.expr_term(m, x) for x in e.elts])
        if isinstance(e, ast.Call) and not any(isinstance(x, ast.Starred) for x in e.args) and not any(k.arg is None for k in e.keywords):
            f = self.expr_term(m, e.func)
            if f.op == "glob":
                return T.mk("call", "%s:%d:%d" % (m.name, e.lineno, e.col_offset), f, tuple(self.expr_term(m, x) for x in e.args), tuple(sorted((k.arg, self.expr_term(m, k.value)) for k in e.keywords)))
        return T.mk("unk", "%s:%d:%d" % (m.name, getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))

    def mk_elem(self, it):
        T = self.T
        if it.op in ("call", "pure"):
            cal, args = (it.args[1], it.args[2]) if it.op == "call" else (it.args[0], it.args[1])
            if cal.op == "glob":
                f = cal.args[0]
                if f in WRAP_ITER and args:
                    return self.mk_elem(args[0])
                if f == "builtins.enumerate" and args:
                    return T.mk("tup", T.mk("index", args[0]), self.mk_elem(args[0]))
                if f == "builtins.zip" and args:
                    return T.mk("tup", *[self.mk_elem(a) for a in args])
            elif cal.op == "attr" and not args:
                if cal.args[1] == "items":
                    return T.mk("kv", cal.args[0])
                if cal.args[1] == "values":
                    return self.sub(T.mk("elem", cal.args[0]))
                if cal.args[1] == "keys":
                    return self.sub(T.mk("keyof", cal.args[0]))
                if cal.args[1] == "copy":
                    return self.mk_elem(cal.args[0])
        if it.op == "slice":
            return self.mk_elem(it.args[0])
        if it.op == "tup" and len(it.args) == 1:
            return it.args[0]
        return self.sub(T.mk("elem", it))

    def mk_not(self, t):
        if t.op == "not":
            return t.args[0]
        if t.op == "const":
            return self.T.const(not t.args[0])
        return self.T.mk("not", t)

    def mk_cmp(self, op, a, b, st):
        T = self.T
        if op == "isnot":
            return self.mk_not(self.mk_cmp("is", a, b, st))
        if op == "!=":
            return self.mk_not(self.mk_cmp("==", a, b, st))
        if op == "notin":
            return self.mk_not(self.mk_cmp("in", a, b, st))
        if op == ">":
            return self.mk_cmp("<", b, a, st)
        if op == ">=":
            return self.mk_not(self.mk_cmp("<", a, b, st))
        if op == "<=":
            return self.mk_not(self.mk_cmp("<", b, a, st))
        if a.op == "const" and b.op == "const":
            x, y = a.args[0], b.args[0]
            try:
                if op == "==":
                    return T.const(x == y)
                if op == "is":
                    return T.const(x is y or (type(x) is type(y) and x == y and isinstance(x, (bool, int, str, type(None)))))
                if op == "<":
                    return T.const(x < y)
                if op == "in":
                    return T.const(x in y)
            except Exception:
                pass
        if op == "is" and a is b:
            return T.const(True)
        if op in ("is", "=="):
            if isconst(b, None):
                return self.mk_isnone(a)
            if isconst(a, None):
                return self.mk_isnone(b)
            if isconst(b, True) and op == "is":
                return T.mk("istrue", a)
            if a.op == "const" or (b.op != "const" and a.id > b.id):
                a, b = b, a
            if op == "==" and a is b and a.op in ("param", "attr", "glob", "self"):
                return T.const(True)
            if a is not b and self.literal(a) and self.literal(b):
                return T.const(False)
            return T.mk("eq", a, b)
        if op == "<":
            return T.mk("lt", a, b)
        if op == "in":
            if b.op == "tup" and a.op == "const" and all(x.op == "const" for x in b.args):
                return T.const(any(isconst(x, a.args[0]) for x in b.args))
            if b.op == "tup" and len(b.args) == 1:
                return self.mk_cmp("==", a, b.args[0], st)
            if b.op in ("pure", "call"):
                c = b.args[1] if b.op == "call" else b.args[0]
                ar = b.args[2] if b.op == "call" else b.args[1]
                if c.op == "attr" and c.args[1] == "keys" and not ar:
                    b = c.args[0]
            if b.op in ("new", "glob") and self.literal(a):
                cs = self.display(b)
                if cs and any(k is a for k, v in cs):
                    return T.const(True)
                if cs and b.op == "glob":
                    return T.const(False)
            return T.mk("in", a, b)
        return T.mk("cmp", op, a, b)

    def mk_isnone(self, a):
        T = self.T
        if a.op == "const":
            return T.const(a.args[0] is None)
        if a.op in ("new", "tup", "fstr", "func", "self", "obj", "bin", "kv", "slice", "exc", "eq", "lt", "in", "not", "isnone", "isinst", "istrue"):
            return T.const(False)
        if a.op == "glob" and (a.args[0] in self.prog.classes or a.args[0] in self.prog.funcs):
            return T.const(False)
        if a.op == "glob" and a.args[0].rpartition(".")[0] in self.prog.classes:
            return T.const(False)
        if a.op == "glob" and self.prog.made_once(a.args[0]):
            return T.const(False)
        if a.op in ("item", "elem") and a.args[0].op in ("call", "pure"):
            c = a.args[0].args[1] if a.args[0].op == "call" else a.args[0].args[0]
            if c.op == "attr" and c.args[1] in ("split", "rsplit", "partition", "rpartition", "splitlines"):
                return T.const(False)
        if a.op in ("call", "pure"):
            c = a.args[1] if a.op == "call" else a.args[0]
            if c.op == "attr" and c.args[1] in ("split", "rsplit", "strip", "lower", "upper", "format", "join", "encode", "decode", "copy", "items", "keys", "values", "startswith", "endswith"):
                return T.const(False)
            if c.op == "glob" and (c.args[0] in self.prog.classes or c.args[0] in FRESH or c.args[0] in ("opentelemetry.context.attach", "opentelemetry.context.get_current", "opentelemetry.context.set_value", "builtins.int", "builtins.str", "builtins.float", "builtins.len", "builtins.bool", "time.time_ns", "time.time")):
                return T.const(False)
        return T.mk("isnone", a)

    def mk_isinst(self, a, b):
        T = self.T
        if a.op == "const" and b.op == "glob" and b.args[0].startswith("builtins."):
            c = getattr(builtins, b.args[0][9:], None)
            if isinstance(c, type):
                return T.const(isinstance(a.args[0], c))
        if isconst(a, None) and b.op in ("glob", "tup"):
            return T.const(False)
        if a.op == "obj" and b.op == "glob" and a.args[1] in self.prog.classes and b.args[0] in self.prog.classes:
            return T.const(self.prog.classes[b.args[0]] in self.prog.mro(self.prog.classes[a.args[1]]))
        return T.mk("isinst", a, b)

    # -- decisions ------------------------------------------------------------------
    def decide(self, t, st, depth=0):
        """Truth value of a condition term in a state: True/False/None."""
        if t.op == "const":
            return bool(t.args[0])
        if t.op == "not":
            r = self.decide(t.args[0], st, depth)
            return None if r is None else not r
        f = st.facts.get(t)
        if f is not None:
            return f
        if self.oracle is not None:
            r = self.oracle(self, t, st)
            if r is not None:
                return r
        o = t.op
        facts = st.facts
        if o == "isnone":
            a = t.args[0]
            if a.op == "const":
                return a.args[0] is None
            f = facts.get(a)  # truthiness fact of the value itself
            if f:
                return False
            if self.oracle is not None and f is None and a.op not in ("isnone",):
                r = self.oracle(self, a, st)
                if r:
                    return False
            if a.op == "phi" and depth < 8:
                return self.decide_phi(a, lambda x, s: self.decide(self.mk_isnone(x), s, depth + 1), st)
            for k, v in facts.items():
                if v and k.op in ("isinst",) and k.args[0] is a:
                    return False
            return None
        if o == "isinst":
            a, b = t.args
            if facts.get(self.T.mk("isnone", a)):
                return False
            if b.op == "tup":
                rs = [self.decide(self.mk_isinst(a, x), st, depth + 1) for x in b.args]
                if any(r is True for r in rs):
                    return True
                if rs and all(r is False for r in rs):
                    return False
                return None
            for k, v in facts.items():
                if k.op == "isinst" and k.args[0] is a and k.args[1].op == "glob" and b.op == "glob":
                    sup = self.is_sub(k.args[1].args[0], b.args[0])
                    if v and sup:
                        return True
                    if not v and self.is_sub(b.args[0], k.args[1].args[0]):
                        return False
            if a.op == "phi" and depth < 8:
                return self.decide_phi(a, lambda x, s: self.decide(self.mk_isinst(x, b), s, depth + 1), st)
            return None
        if o == "eq":
            a, b = t.args
            if b.op in ("const", "glob"):
                for k, v in facts.items():
                    if v and k.op == "eq" and k.args[0] is a and k.args[1] is not b and k.args[1].op in ("const", "glob") and k.args[1].op == b.op:
                        return False
                    if k.op == "in" and k.args[0] is a and k.args[1].op == "tup":
                        if not v and b in k.args[1].args:
                            return False
                        if v and all(x.op == "const" for x in k.args[1].args) and b.op == "const" and b not in k.args[1].args:
                            return False
            if a.op == "glob" and b.op == "glob" and a is not b and self.enum_member(a) and self.enum_member(b):
                return False
            if a.op == "const" and b.op == "const":
                return a.args[0] == b.args[0]
            if facts.get(self.T.mk("isnone", a)) and b.op == "const" and b.args[0] is not None:
                return False
            if a.op == "phi" and depth < 8:
                r = self.decide_phi(a, lambda x, s: self.decide(self.mk_cmp("==", x, b, s), s, depth + 1), st)
                if r is not None:
                    return r
            return None
        if o == "in":
            a, b = t.args
            if b.op == "tup":
                rs = [self.decide(self.mk_cmp("==", a, x, st), st, depth + 1) for x in b.args]
                if any(r is True for r in rs):
                    return True
                if rs and all(r is False for r in rs):
                    return False
            return None
        if o == "istrue":
            a = t.args[0]
            if a.op == "const":
                return a.args[0] is True
            r = self.decide(a, st, depth + 1) if depth < 6 else None
            return False if r is False else (r if r is not None else None)
        if o == "lt":
            a, b = t.args
            r = facts.get(self.T.mk("lt", b, a))
            if r:
                return False
            if facts.get(self.T.mk("eq", a, b)) or facts.get(self.T.mk("eq", b, a)):
                return False
            if b.op == "const" and a.op != "const":
                for k, v in facts.items():
                    if k.op == "lt" and k.args[0] is a and k.args[1].op == "const":
                        try:
                            if v and k.args[1].args[0] <= b.args[0]:
                                return True
                            if not v and k.args[1].args[0] >= b.args[0]:
                                return False
                        except TypeError:
                            pass
            return None
        if o in ("new",):
            return None
        if o in ("self", "func", "obj"):
            return True
        if o == "glob" and (t.args[0] in self.prog.classes or t.args[0] in self.prog.funcs):
            return True
        if o == "tup":
            return len(t.args) > 0
        if o == "phi":
            if depth < 8:
                return self.decide_phi(t, lambda x, s: self.decide(x, s, depth + 1), st)
            return None
        # truthiness of an arbitrary value
        if facts.get(self.T.mk("isnone", t)):
            return False
        if self.oracle is not None and o not in ("isnone", "isinst", "eq", "lt", "in", "not", "const"):
            if self.oracle(self, self.T.mk("isnone", t), st):
                return False
        if o == "pure" and t.args[0].op == "glob" and t.args[0].args[0] == "builtins.bool" and t.args[1]:
            return self.decide(t.args[1][0], st, depth + 1)
        return None

    def enum_member(self, g):
        c = self.prog.classes.get(g.args[0].rpartition(".")[0])
        return c is not None and self.prog.is_enum(c)

    def is_sub(self, a, b):
        if a == b:
            return True
        if a.startswith("builtins.") and b.startswith("builtins."):
            x, y = getattr(builtins, a[9:], None), getattr(builtins, b[9:], None)
            return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)
        if a in self.prog.classes:
            c = self.prog.classes[a]
            return any(k.fqn == b for k in self.prog.mro(c)) or b in self.prog.bases_ext(c)
        return False

    def decide_phi(self, phi, f, st):
        ops = self.phis.get(phi)
        if not ops:
            return None
        res = set()
        for term, facts in ops.values():
            if term is phi:
                continue
            s = State(st.env, st.heap, facts, st.locks)
            res.add(f(term, s))
            if None in res or len(res) > 1:
                return None
        return next(iter(res)) if len(res) == 1 else None

    def assume(self, t, val, st, depth=0):
        """Refine st.facts by t == val; returns False when contradictory."""
        if t.op == "not":
            return self.assume(t.args[0], not val, st, depth)
        if t.op == "const":
            return bool(t.args[0]) == val
        d = self.decide(t, st)
        if d is not None and d != val:
            return False
        st.facts[t] = val
        o = t.op
        if o not in ("isnone", "isinst", "eq", "lt", "in", "cmp", "istrue"):
            # truthiness of a value
            if val:
                st.facts[self.T.mk("isnone", t)] = False
            if t.op == "pure" and t.args[0].op == "glob" and t.args[0].args[0] == "builtins.bool" and t.args[1]:
                self.assume(t.args[1][0], val, st, depth)
        if o == "isnone" and val:
            a = t.args[0]
            if a.op not in ("isnone",):
                st.facts[a] = False
        if o == "isinst" and val:
            st.facts[self.T.mk("isnone", t.args[0])] = False
        if o == "istrue" and val:
            st.facts[t.args[0]] = True
        if o == "eq" and val and t.args[1].op == "const" and t.args[1].args[0] is not None:
            st.facts[self.T.mk("isnone", t.args[0])] = False
        # phi refinement: if exactly one operand is compatible, import its facts
        if depth < 3:
            tgt = t
            if o in ("isnone", "isinst", "eq", "istrue") and t.args[0].op == "phi":
                tgt = t.args[0]
            if tgt.op == "phi" and tgt in self.phis:
                comp = []
                for ek, (term, facts) in self.phis[tgt].items():
                    s = State(st.env, st.heap, facts, st.locks)
                    if tgt is t:
                        q = term
                    elif o == "isnone":
                        q = self.mk_isnone(term)
                    elif o == "isinst":
                        q = self.mk_isinst(term, t.args[1])
                    elif o == "istrue":
                        q = self.mk_cmp("is", term, self.T.const(True), s)
                    else:
                        q = self.mk_cmp("==", term, t.args[1], s)
                    r = self.decide(q, s)
                    if r is None or r == val:
                        comp.append((term, facts, q))
                if len(comp) == 1:
                    term, facts, q = comp[0]
                    for k, v in facts.items():
                        st.facts.setdefault(k, v)
                    if q.op != "const" and q is not t:
                        self.assume(q, val, st, depth + 1)
                elif comp:
                    common = None
                    for term, facts, q in comp:
                        s = State(st.env, st.heap, dict(facts), {})
                        if q.op != "const":
                            self.assume(q, val, s, depth + 1)
                        items = set(s.facts.items())
                        common = items if common is None else common & items
                    for k, v in common or ():
                        st.facts.setdefault(k, v)
        return True

    # -- evaluation ------------------------------------------------------------------
    def val(self, o, st):
        if o is None:
            return None
        if o.key is None:
            return o.term
        k = o.key
        if k[0] == "g":
            v = st.env.get(k)
            if v is not None:
                return v
            return self.sub(self.T.mk("glob", k[1]))
        v = st.env.get(k)
        if v is None:
            return self.T.mk("undef", str(k))
        return v

    def step(self, i, st, rec=None):
        """Execute instruction i on st (in place). Fills rec when given."""
        T = self.T
        k = i.kind
        a = i.a
        if k == "mov":
            v = self.val(a["src"], st)
            st.env[i.dst] = v
        elif k == "attr":
            b = self.val(a["base"], st)
            if i.name in self.volatile and b.op in ("self", "glob") and (self.volatile[i.name] == "always" or not st.locks):
                v = self.renew(b, i.name, i, st)
            else:
                v = self.mk_attr(b, i.name, st)
            st.env[i.dst] = v
            if rec is not None:
                rec.t["base"] = b
        elif k == "item":
            b, key = self.val(a["base"], st), self.val(a["key"], st)
            v = self.mk_item(b, key)
            st.env[i.dst] = v
            if rec is not None:
                rec.t["base"], rec.t["key"] = b, key
        elif k == "loop":
            it = self.val(a["iter"], st)
            v = self.mk_elem(it)
            st.env[i.dst] = v
            if rec is not None:
                rec.t["iter"] = it
        elif k == "op":
            v = self.eval_op(i, st, rec)
            st.env[i.dst] = v
        elif k == "new":
            v = T.mk("new", i.uid, i.name) if i.name != "obj" else T.mk("obj", i.uid, a["cls"].fqn, (), ())
            st.env[i.dst] = v
            cont = []
            for x in a.get("args") or ():
                cont.append((None, self.val(x, st), i))
            if i.name != "dict":
                for x in a.get("stars") or ():
                    cont.append((None, self.mk_elem(self.val(x, st)), i))
            for kk, vv in a.get("items") or ():
                if kk is None:
                    x = self.val(vv, st)
                    if x.op == "new" and x.args[1] == "dict" and x in self.contents:
                        cont += [(c[0], c[1], i) for c in self.contents[x]]
                    else:
                        cont.append((T.mk("keyof", x), T.mk("elem", x), i))
                    continue
                cont.append((self.val(kk, st), self.val(vv, st), i))
            self.set_contents(v, i, cont)
            if rec is not None and a.get("layout"):
                es, ss = list(a["args"]), list(a["stars"])
                rec.t["layout"] = [(x, self.val((es if x == "e" else ss).pop(0), st)) for x in a["layout"]]
        elif k == "content":
            b = self.val(a["base"], st)
            kk = self.val(a["key"], st) if a.get("key") is not None else None
            vv = self.val(a["val"], st)
            self.set_contents(b, i, [(kk, vv, i)])
            if rec is not None:
                rec.t.update(base=b, key=kk, val=vv)
        elif k == "call":
            self.eval_call(i, st, rec)
        elif k == "store_attr":
            b, v = self.val(a["base"], st), self.val(a["val"], st)
            if rec is not None:
                rec.t.update(base=b, val=v)
            self.do_store(b, i.name, v, st)
        elif k == "del_attr":
            b = self.val(a["base"], st)
            if rec is not None:
                rec.t.update(base=b)
            self.do_store(b, i.name, T.mk("unk", i.uid), st)
        elif k == "store_item":
            b, kk, v = self.val(a["base"], st), self.val(a["key"], st), self.val(a["val"], st)
            if rec is not None:
                rec.t.update(base=b, key=kk, val=v)
            self.set_contents(b, i, [(kk, v, i)])
        elif k == "del_item":
            b, kk = self.val(a["base"], st), self.val(a["key"], st)
            if rec is not None:
                rec.t.update(base=b, key=kk)
        elif k == "store_glob":
            v = self.val(a["val"], st)
            if rec is not None:
                rec.t.update(val=v)
            st.env[("g", i.fqn)] = v
            g = T.mk("glob", i.fqn)
            for f in list(st.facts):
                if any(x is g for x in subterms(f)):
                    del st.facts[f]
        elif k in ("acquire", "release"):
            l = self.val(a["lock"], st)
            if rec is not None:
                rec.t["lock"] = l
                rec.args = [self.val(x, st) for x in a.get("args") or ()]
                rec.kw = {n: self.val(x, st) for n, x in (a.get("kw") or {}).items()}
            if k == "acquire":
                self.renew_all(i, st)
                if not st.locks:
                    # another thread may have assigned a global meanwhile
                    for f in list(st.facts):
                        if any(x.op == "glob" and self.assigned(x.args[0]) for x in subterms(f)):
                            del st.facts[f]
                if i.dst is not None:
                    st.env[i.dst] = T.mk("acq", i.uid, l)
                if a.get("how") == "with" or a.get("blocking"):
                    st.locks[l] = st.locks.get(l, 0) + 1
            else:
                n = st.locks.get(l, 0)
                if n <= 1:
                    st.locks.pop(l, None)
                else:
                    st.locks[l] = n - 1
        elif k in ("with_enter", "with_exit"):
            m = self.val(a["mgr"], st)
            if rec is not None:
                rec.t["mgr"] = m
            if i.dst is not None:
                v = T.mk("entered", m)
                if m.op == "obj":
                    v = m
                st.env[i.dst] = v
        elif k in ("ret", "raise", "yield"):
            v = self.val(a.get("val"), st)
            if rec is not None:
                rec.t["val"] = v
            if k == "yield" and i.dst is not None:
                st.env[i.dst] = T.mk("sent", i.uid)
        elif k == "enter":
            if rec is not None:
                for n, o in a["bound"].items():
                    rec.t[n] = self.val(o, st)
                rec.args = [self.val(x, st) for x in a["args"]]
                rec.kw = {n: self.val(o, st) for n, o in a["kw"].items()}
        elif k == "leave":
            if rec is not None:
                rec.t["val"] = self.val(a["val"], st)
        elif k == "branch":
            if rec is not None:
                rec.t["cond"] = self.val(a["cond"], st)
        if rec is not None and i.dst is not None:
            rec.dst = st.env.get(i.dst)

    def renew(self, b, name, i, st):
        """A value another thread may have written since."""
        v = self.T.mk("attr", b, name, i.uid)
        for f in list(st.facts):
            if name in f.attrs and any(x is v for x in subterms(f)):
                del st.facts[f]
        st.heap[(b, name)] = v
        return v

    def assigned(self, fqn):
        b, _, n = fqn.rpartition(".")
        m = self.prog.modules.get(b)
        return m is not None and n in m.global_decl

    def renew_all(self, i, st):
        for n in self.volatile:
            if self.volatile[n] == "lock":
                self.renew(self.T.mk("self"), n, i, st)

    def set_contents(self, base, i, cont):
        if base.op == "phi":
            for t in self.phi_leaves(base):
                if t is not base:
                    self.set_contents(t, i, cont)
        lst = self.contents.setdefault(base, [])
        lst[:] = [c for c in lst if c[2] is not i] + cont

    def phi_leaves(self, t, seen=None):
        seen = set() if seen is None else seen
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == "phi" and t in self.phis:
            for term, facts in list(self.phis[t].values()):
                yield from self.phi_leaves(term, seen)
        else:
            yield t

    def do_store(self, b, name, v, st):
        for f in list(st.facts):
            if name in f.attrs:
                del st.facts[f]
        for (hb, hn) in list(st.heap):
            if hn == name and hb is not b:
                if not (hb.op in ("new", "obj") and b.op in ("new", "obj", "self")) and not (hb.op == "self" and b.op in ("new", "obj")):
                    del st.heap[(hb, hn)]
        st.heap[(b, name)] = v

    def eval_op(self, i, st, rec):
        T = self.T
        args = [self.val(x, st) for x in i.a["args"]]
        if rec is not None:
            rec.args = args
        n = i.name
        if n == "not":
            return self.mk_not(args[0])
        if n.startswith("cmp"):
            return self.mk_cmp(n[3:], args[0], args[1], st)
        if n == "typeof":
            return self.mk_attr(args[0], "__class__", st)
        if n == "isinstance":
            return self.mk_isinst(args[0], args[1])
        if n == "tup":
            return T.mk("tup", *args)
        if n == "caught":
            return T.mk("unk", i.uid)
        if n == "sliceobj":
            return T.mk("sliceobj", *args)
        if n == "slice":
            return T.mk("slice", args[0])
        if n in ("neg",) and args[0].op == "const" and isinstance(args[0].args[0], (int, float)):
            return T.const(-args[0].args[0])
        if n.startswith("bin") or n.startswith("aug"):
            if all(x.op == "const" for x in args):
                f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "FloorDiv": lambda x, y: x // y, "Div": lambda x, y: x / y, "BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y, "LShift": lambda x, y: x << y if y < 500 else None, "Mod": lambda x, y: x % y}.get(n[3:])
                if f:
                    try:
                        r = f(args[0].args[0], args[1].args[0])
                        if r is not None and len(repr(r)) < 2000:
                            return T.const(r)
                    except Exception:
                        pass
            if n.startswith("aug") and n == "augAdd" and args[0].op == "new":
                self.set_contents(args[0], i, [(None, self.mk_elem(args[1]), i)])
                return args[0]
            return T.mk("bin", n[3:], *args)
        if n == "fstr":
            if all(x.op == "const" for x in args):
                return T.const("".join(str(x.args[0]) for x in args))
            if len(args) == 1 and args[0].op == "pure":
                return args[0]
            return T.mk("fstr", *args)
        if n == "format":
            return T.mk("pure", T.mk("glob", "builtins.format"), tuple(args))
        if n in ("unknown", "unpack"):
            return T.mk("unk", i.uid)
        return T.mk(n, *args)

    def eval_call(self, i, st, rec):
        T = self.T
        a = i.a
        recv = self.val(a.get("recv"), st)
        args = [self.val(x, st) for x in a["args"]]
        kw = {n: self.val(x, st) for n, x in a["kw"].items()}
        sa, sk = self.val(a.get("sa"), st), self.val(a.get("sk"), st)
        if sk is not None and sk.op == "new" and sk.args[1] == "dict":
            ok = True
            for kk, vv, ii in self.contents.get(sk, []):
                if kk is not None and isconst(kk) and isinstance(kk.args[0], str):
                    kw.setdefault(kk.args[0], vv)
                else:
                    ok = False
            if ok:
                sk = None
        if sa is not None and sa.op == "tup":
            args = args + list(sa.args)
            sa = None
        if recv is not None:
            callee = T.mk("attr", recv, i.name)
            cv = self.val(a.get("callee"), st) if a.get("callee") is not None else None
            if cv is not None and cv.op in ("glob", "func"):
                callee = cv
        elif i.fqn is not None:
            callee = T.mk("glob", i.fqn)
        else:
            callee = self.val(a.get("callee"), st)
            if callee is None:
                callee = T.mk("unk", i.uid)
        fq = i.fqn
        if callee.op == "glob":
            fq = callee.args[0]
        kwt = tuple(sorted(kw.items()))
        if sk is not None:
            kwt = kwt + (("**", sk),)
        if sa is not None:
            args2 = tuple(args) + (T.mk("star", sa),)
        else:
            args2 = tuple(args)
        if rec is not None:
            rec.t["recv"], rec.t["callee"] = recv, callee
            rec.args, rec.kw, rec.sa, rec.sk = args, kw, sa, sk
        v = None
        if recv is not None and i.name == "get" and 1 <= len(args) <= 2 and recv.op == "new" and recv.args[1] == "dict" and isconst(args[0]):
            vs = [vv for kk, vv, ii in self.contents.get(recv, []) if kk is not None and isconst(kk, args[0].args[0])]
            if len(vs) == 1:
                v = vs[0]
        if v is None and recv is not None and i.name == "get" and 1 <= len(args) <= 2 and recv.op in ("new", "glob") and self.literal(args[0]):
            v = self.looked_up(recv, args[0])
            if v is None and recv.op == "glob" and self.display(recv):
                v = args[1] if len(args) == 2 else T.const(None)
        if i.a.get("cls") is not None:
            v = T.mk("obj", i.uid, i.a["cls"].fqn, args2, kwt)
        elif v is not None:
            pass
        elif fq in PURE_FQN or (recv is not None and i.name in PURE_METHODS and i.a.get("fi") is None):
            if fq in ("builtins.bool",) and len(args) == 1 and args[0].op in ("isnone", "isinst", "eq", "lt", "in", "not", "const"):
                v = args[0] if args[0].op != "const" else T.const(bool(args[0].args[0]))
            elif fq == "builtins.len" and len(args) == 1 and args[0].op == "tup":
                v = T.const(len(args[0].args))
            elif fq == "typing.cast" and len(args) == 2:
                v = args[1]
            elif fq == "builtins.getattr" and len(args) >= 2 and isconst(args[1]) and isinstance(args[1].args[0], str):
                v = self.mk_attr(args[0], args[1].args[0], st)
            elif recv is not None and recv.op == "const" and isinstance(recv.args[0], str) and i.name in ("lower", "upper", "strip") and not args:
                v = T.const(getattr(recv.args[0], i.name)())
            elif fq in ("builtins.int", "builtins.str", "builtins.float") and len(args) == 1 and args[0].op == "const":
                try:
                    v = T.const(getattr(builtins, fq[9:])(args[0].args[0]))
                except Exception:
                    v = T.mk("pure", callee, args2 + tuple(x for p in kwt for x in (T.const(p[0]), p[1])))
            else:
                v = T.mk("pure", callee, args2 + tuple(x for p in kwt for x in (T.const(p[0]), p[1])))
            v = self.sub(v)
        else:
            if fq == "builtins.getattr" and len(args) >= 2 and isconst(args[1]) and isinstance(args[1].args[0], str):
                v = self.mk_attr(args[0], args[1].args[0], st)
            else:
                v = self.sub(T.mk("call", i.uid, callee, args2, kwt))
        st.env[i.dst] = v
        if self.volatile and i.name in ("wait", "wait_for") and recv is not None:
            self.renew_all(i, st)
        if recv is not None and i.name in MUTATORS and i.a.get("fi") is None:
            for f in list(st.facts):
                if any(x is recv for x in subterms(f)):
                    del st.facts[f]
        # content tracking of mutators
        if recv is not None and i.a.get("fi") is None:
            n = i.name
            if n in ("append", "appendleft", "add") and len(args) == 1:
                self.set_contents(recv, i, [(None, args[0], i)])
            elif n == "insert" and len(args) == 2:
                self.set_contents(recv, i, [(None, args[1], i)])
            elif n == "setdefault" and len(args) == 2:
                self.set_contents(recv, i, [(args[0], args[1], i)])
            elif n == "extend" and len(args) == 1:
                cs = self.contents.get(args[0])
                if args[0].op == "new" and cs:
                    self.set_contents(recv, i, [(None, c[1], i) for c in cs])
                else:
                    self.set_contents(recv, i, [(None, self.mk_elem(args[0]), i)])
            elif n == "update":
                cont = []
                for x in args:
                    if x.op == "new" and x.args[1] == "dict" and x in self.contents:
                        cont += [(c[0], c[1], i) for c in self.contents[x]]
                    else:
                        cont.append((T.mk("keyof", x), T.mk("elem", x), i))
                cont += [(T.const(kk), vv, i) for kk, vv in kw.items()]
                if sk is not None:
                    cont.append((T.mk("keyof", sk), T.mk("elem", sk), i))
                self.set_contents(recv, i, cont)

    # -- fixpoint ---------------------------------------------------------------------
    def solve(self):
        blocks = self.b.blocks
        order = rpo(self.b.entry)
        pos = {b: n for n, b in enumerate(order)}
        self.edge_out = {}
        self.in_state = {}
        import heapq
        work = [(0, self.b.entry.id)]
        inq = {self.b.entry.id}
        st0 = State()
        st0.heap = dict(self.heap0)
        self.in_state[self.b.entry] = st0
        count = {}
        iters = 0
        while work:
            _, bid = heapq.heappop(work)
            inq.discard(bid)
            b = blocks[bid]
            iters += 1
            count[bid] = count.get(bid, 0) + 1
            if count[bid] > 60:
                raise AnalysisError("no fixpoint for %s" % self.fi.fqn)
            if b is self.b.entry:
                st = self.in_state[b].copy()
            else:
                st = self.join(b)
                if st is None:
                    continue
                self.in_state[b] = st
                st = st.copy()
            pre = None
            for n, i in enumerate(b.instrs):
                if n == len(b.instrs) - 1:
                    pre = st.copy()
                self.step(i, st)
            last = b.instrs[-1] if b.instrs else None
            conv = self.conversion(last, st) if last is not None and last.kind == "call" and last.fqn in ("builtins.int", "builtins.float") else None
            for e in b.succs:
                if e.label in ("T", "F") and last is not None and last.kind == "branch":
                    c = self.val(last.a["cond"], st)
                    s2 = st.copy()
                    out = s2 if self.assume(c, e.label == "T", s2) else None
                elif isinstance(e.label, tuple) or conv:
                    out = (pre if pre is not None else st) if isinstance(e.label, tuple) else st
                    if conv and not conv(e.label):
                        out = None
                    if last is not None and last.kind in ("acquire",):
                        out = pre
                elif e.label in ("next", "done") and last is not None and last.kind == "loop":
                    it = self.val(last.a["iter"], st)
                    out = st
                    if it.op == "tup" and not it.args and e.label == "next":
                        out = None
                else:
                    out = st
                key = e
                old = self.edge_out.get(key, 0)
                if out is None:
                    if not isinstance(old, State) and old is not None:
                        self.edge_out[key] = None
                        continue
                    if old is None:
                        continue
                    self.edge_out[key] = None
                else:
                    if isinstance(old, State) and old == out:
                        continue
                    self.edge_out[key] = out
                if e.dst.id not in inq:
                    inq.add(e.dst.id)
                    heapq.heappush(work, (pos.get(e.dst, 1 << 30), e.dst.id))
        self.iters = iters
        self.finish(order)

    def conversion(self, i, st):
        """Which out-edges of int(x) / float(x) are feasible."""
        if not i.a["args"]:
            return None
        x = self.val(i.a["args"][0], st)
        bad = None
        if x.op == "const" and len(i.a["args"]) == 1 and not i.a["kw"]:
            try:
                getattr(builtins, i.fqn[9:])(x.args[0])
            except (ValueError, TypeError, OverflowError) as ex:
                bad = "builtins." + type(ex).__name__
            return lambda l: (l[1] == bad if bad else False) if isinstance(l, tuple) else not bad
        missing = False
        k = x.args[1] if x.op == "call" else x.args[0] if x.op == "pure" else None
        if k is not None and (k.op == "glob" and k.args[0] == "os.getenv" or k.op == "attr" and k.args[1] == "get"):
            missing = len(x.args[2] if x.op == "call" else x.args[1]) == 1 and self.decide(self.mk_isnone(x), st) is not False
        return lambda l: not isinstance(l, tuple) or l[1] != "builtins.TypeError" or missing

    def join(self, b):
        ins = [(n, e, self.edge_out[e]) for n, e in enumerate(b.preds) if self.edge_out.get(e)]
        if not ins:
            return None
        old = self.in_state.get(b)
        if len(ins) == 1 and len(b.preds) == 1:
            return ins[0][2].copy()
        T = self.T
        st = State()
        states = [s for _, _, s in ins]
        # env
        keys = set(states[0].env)
        for s in states[1:]:
            keys &= set(s.env)
        for k in keys:
            st.env[k] = self.join_val(b, k, [(e, s.env[k], s.facts) for _, e, s in ins], old.env.get(k) if old else None)
        for s in states:
            for k in s.env:
                if k not in keys and k[0] == "v":
                    # possibly unbound local: join of the bound ones
                    if k not in st.env:
                        st.env[k] = self.join_val(b, k, [(e, x.env[k], x.facts) for _, e, x in ins if k in x.env], old.env.get(k) if old else None)
                elif k not in keys and k[0] == "g" and k not in st.env:
                    g = T.mk("glob", k[1])
                    st.env[k] = self.join_val(b, k, [(e, x.env.get(k, g), x.facts) for _, e, x in ins], old.env.get(k) if old else None)
        hk = set()
        for s in states:
            hk |= set(s.heap)
        for k in hk:
            vals = []
            for _, e, s in ins:
                v = s.heap.get(k)
                if v is None:
                    v = self.mk_attr(k[0], k[1], State())
                vals.append((e, v, s.facts))
            st.heap[k] = self.join_val(b, ("h", k[0].id, k[1]), vals, old.heap.get(k) if old else None)
        f0 = min(states, key=lambda s: len(s.facts)).facts
        for k, v in f0.items():
            if all(s.facts.get(k) == v for s in states):
                st.facts[k] = v
        # facts decided (rather than recorded) in some predecessors
        cand = {}
        for s in states:
            for k, v in s.facts.items():
                if k not in st.facts:
                    cand.setdefault(k, v)
        for k, v in cand.items():
            if k.op in ("isnone",) or k.op in ("isinst", "eq"):
                if k.args[0].op in ("call", "obj", "param", "attr", "phi", "elem", "item", "pure") and all((s.facts.get(k) if k in s.facts else self.decide(k, s)) == v for s in states):
                    st.facts[k] = v
        ls = set(states[0].locks)
        for s in states[1:]:
            ls &= set(s.locks)
        for l in ls:
            st.locks[l] = min(s.locks[l] for s in states)
        return st

    def join_val(self, b, k, vals, old):
        T = self.T
        first = vals[0][1]
        same = all(v is first for _, v, _ in vals)
        phi = T.mk("phi", b.id, str(k))
        if same and old is not phi:
            return first
        ops = self.phis.setdefault(phi, {})
        for e, v, facts in vals:
            ops[(e.src.id, str(e.label))] = (v, facts)
        others = {v for v, _ in ops.values() if v is not phi}
        return phi

    def finish(self, order):
        """Final pass: record evaluated operands of every reachable instruction."""
        self.recs = []
        self.reach = set()
        for b in order:
            if b is not self.b.entry and self.in_state.get(b) is None:
                continue
            if b is not self.b.entry and not any(self.edge_out.get(e) for e in b.preds):
                continue
            self.reach.add(b)
            st = self.in_state[b].copy()
            for i in b.instrs:
                r = Rec(i)
                r.facts = dict(st.facts)
                r.locks = dict(st.locks)
                self.step(i, st, r)
                i.rec = r
                self.recs.append(r)
        self.recset = {id(r.instr): r for r in self.recs}

    # -- queries --------------------------------------------------------------------
    def events(self, kind=None, name=None, fqn=None):
        out = []
        for r in self.recs:
            i = r.instr
            if kind is not None and (i.kind != kind if isinstance(kind, str) else i.kind not in kind):
                continue
            if name is not None and (i.name != name if isinstance(name, str) else i.name not in name):
                continue
            if fqn is not None and (i.fqn != fqn if isinstance(fqn, str) else i.fqn not in fqn):
                continue
            out.append(r)
        return out

    def calls(self, name=None, fqn=None):
        """Opaque calls and entered (inlined) functions."""
        return self.events(("call", "enter"), name, fqn)

    def rets(self):
        """Returns of the entry function itself (not of inlined callees)."""
        fr = self.b.frames[0]
        return [r for r in self.recs if r.instr.kind == "ret" and r.instr.frame is fr]

    def live_succs(self, b):
        for e in b.succs:
            if self.edge_out.get(e):
                yield e

    def leaves(self, t, seen=None):
        """Expand phis (and tuples stay) to the set of leaf terms."""
        return list(self.phi_leaves(t))

    def sources(self, t, deep=True):
        """All terms the value may be built from (through phis, contents, calls)."""
        seen, todo, out = set(), [t], []
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not isinstance(x, Term) or x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            if x.op == "phi":
                for term, _ in self.phis.get(x, {}).values():
                    todo.append(term)
                continue
            for k, v, i in self.contents.get(x, ()):
                todo.append(v)
                if k is not None:
                    todo.append(k)
            if deep:
                todo.extend(x.args)
        return out

    def derives(self, t, pred):
        return any(pred(x) for x in self.sources(t))

    def has_attr(self, t, name, base=None):
        """Some source of t is an attribute read `.name` (optionally on base)."""
        return any(x.op == "attr" and x.args[1] == name and (base is None or x.args[0] is base) for x in self.sources(t))

    def escaping(self, kind="E"):
        """(instruction, exception) pairs whose exception leaves the entry."""
        out, seen = [], set()
        for k, r, origins in self.b.escapes:
            if k != kind:
                continue
            for b in origins:
                if b in self.reach and (b.id, r) not in seen and any(e.label == ("exc", r) and self.edge_out.get(e) for e in b.succs):
                    seen.add((b.id, r))
                    out.append((b.instrs[-1], r))
        return out

    # path queries ---------------------------------------------------------------
    def path_avoiding(self, start, avoid, targets, skip_first=True, edges=None):
        """Is there a feasible path from instruction `start` to a block in
        `targets` that executes no instruction in `avoid` (a set of instrs)?
        Returns the list of blocks or None.  `start` may be a Block."""
        av = {}
        for x in avoid:
            av.setdefault(x.block, []).append(x)
        tb = set(targets)
        from collections import deque
        q = deque()
        prev = {}
        if isinstance(start, cfg.Block):
            sb = start
            if sb in av:
                return None
            q.append(sb)
            prev[sb] = None
        else:
            sb = start.block
            idx = sb.instrs.index(start)
            for x in av.get(sb, ()):
                if sb.instrs.index(x) > idx:
                    return None
            prev[sb] = None
            q.append(sb)
        first = True
        while q:
            b = q.popleft()
            if b in tb and not (first and skip_first):
                p = []
                while b is not None:
                    p.append(b)
                    b = prev[b]
                return list(reversed(p))
            isfirst, first = first, False
            for e in b.succs:
                if not self.edge_out.get(e):
                    continue
                if edges is not None and not edges(e):
                    continue
                # avoided instruction at the end of this block and edge normal?
                d = e.dst
                if d in prev:
                    continue
                if d in av and self.blocks_path(d, av[d]):
                    # the avoided event itself may raise before taking effect:
                    # treat it as executed on every out-edge
                    continue
                prev[d] = b
                q.append(d)
        return None

    def blocks_path(self, b, xs):
        return True

    def exit_blocks(self, exc=True, ret=True):
        out = []
        for k, b in self.b.exits.items():
            if k == "ret":
                if ret:
                    out.append(b)
            elif exc:
                out.append(b)
        return [b for b in out if b in self.reach]

    def dominated(self, target, by):
        """Every feasible path from entry to `target` executes one of `by` first."""
        by = set(by)
        if target.block == self.b.entry:
            idx = target.block.instrs.index(target)
            return any(x.block is target.block and x.block.instrs.index(x) < idx for x in by)
        for x in by:
            if x.block is target.block and x.block.instrs.index(x) < target.block.instrs.index(target):
                return True
        blocked = {x.block for x in by if x.block is not target.block}
        seen, todo = set(), [self.b.entry]
        if self.b.entry in blocked:
            return True
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if b is target.block:
                return False
            for e in b.succs:
                if self.edge_out.get(e) and e.dst not in blocked and e.dst not in seen:
                    todo.append(e.dst)
        return True

    def can_reach(self, a, b):
        """Instruction a can be followed by instruction b on some feasible path."""
        if a.block is b.block and a.block.instrs.index(a) < b.block.instrs.index(b):
            return True
        seen, todo = set(), [e.dst for e in self.live_succs(a.block)]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is b.block:
                return True
            todo.extend(e.dst for e in self.live_succs(x))
        return False

    def path_str(self, path):
        out, last = [], None
        for b in path:
            for i in b.instrs:
                if i.line and i.where != last and i.kind in ("call", "branch", "store_attr", "ret", "raise", "acquire", "release", "yield", "with_enter", "loop"):
                    last = i.where
                    out.append(last)
        return " -> ".join(out[-12:])


def rpo(entry):
    seen, out = set(), []
    stack = [(entry, iter(entry.succs))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for e in it:
            if e.dst not in seen:
                seen.add(e.dst)
                stack.append((e.dst, iter(e.dst.succs)))
                break
        else:
            out.append(b)
            stack.pop()
    out.reverse()
    return out


class Policy:
    """Which resolved callees are inlined."""

    def __init__(self, mods=(), deny=(), allow=(), selfonly=False, fn=None, construct=None, raises=None, noraise=(), runs=()):
        self.mods, self.deny, self.allow, self.selfonly, self.fn = tuple(mods), set(deny), set(allow), selfonly, fn
        self.construct = construct
        self.raises = raises
        self.noraise = set(noraise)
        self.runs = set(runs)

    def __call__(self, fi, isself):
        if fi.fqn in self.deny or fi.name in self.deny:
            return False
        if fi.fqn in self.allow or fi.name in self.allow:
            return True
        if self.fn is not None:
            r = self.fn(fi, isself)
            if r is not None:
                return r
        if isself:
            return True
        return any(fi.mod.name == m or fi.mod.name.startswith(m + ".") for m in self.mods)


def default_policy(fi, **kw):
    return Policy(mods=(fi.mod.name,), **kw)
