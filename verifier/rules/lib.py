"""Helpers shared by the rules: condition oracles, term predicates, path and
loop queries.  Everything here works on evaluated terms, never on text."""
from ..cfg import ANY, ANYB
from ..flow import Policy, Term, default_policy, isconst, subterms
from ..model import AnalysisError

ATTACH = "opentelemetry.context.attach"
DETACH = "opentelemetry.context.detach"
GET_CURRENT = "opentelemetry.context.get_current"
SET_VALUE = "opentelemetry.context.set_value"
GET_VALUE = "opentelemetry.context.get_value"
SPAN = "opentelemetry.sdk.trace.Span"
LOGM = ("debug", "info", "warning", "error", "exception", "critical", "log", "warn")


# -- functions of interest ---------------------------------------------------
def program_funcs(prog, prefix=None, skip_semconv=True):
    for f in prog.funcs.values():
        if skip_semconv and f.mod.name.startswith("opentelemetry.semconv"):
            continue
        if prefix and not any(f.mod.name == p or f.mod.name.startswith(p + ".") for p in ([prefix] if isinstance(prefix, str) else prefix)):
            continue
        yield f


# -- oracles --------------------------------------------------------------------
def oracle(*rules):
    """rules: functions (a, t, st) -> bool|None; the first answer wins."""
    def f(a, t, st):
        for r in rules:
            v = r(a, t, st)
            if v is not None:
                return v
        return None
    return f


def o_isnone(pred, val=False):
    """isnone(x) is `val` for every x satisfying pred (and x truthy if False
    is not implied elsewhere)."""
    def f(a, t, st):
        if t.op == "isnone" and pred(t.args[0]):
            return val
        if val and t.op != "isnone" and pred(t):
            return False
        return None
    return f


def o_truth(pred, val):
    def f(a, t, st):
        if t.op in ("isnone", "isinst", "eq", "lt", "in", "not"):
            return None
        if t.op == "istrue":
            return val if pred(t.args[0]) else None
        return val if pred(t) else None
    return f


def o_isinst(pred, val, cls=None):
    def f(a, t, st):
        if t.op == "isinst" and pred(t.args[0]) and (cls is None or cls(t.args[1])):
            return val
        return None
    return f


def o_eq(pred, value, val):
    def f(a, t, st):
        if t.op == "eq":
            x, y = t.args
            for p, q in ((x, y), (y, x)):
                if pred(p) and q.op == "const":
                    return val if q.args[0] == value else ((not val) if val else None)
        return None
    return f


# -- term predicates --------------------------------------------------------------
def is_param(name):
    return lambda t: t.op == "param" and t.args[0] == name


def is_attr(name, base=None):
    names = (name,) if isinstance(name, str) else tuple(name)
    return lambda t: t.op == "attr" and t.args[1] in names and (base is None or base(t.args[0]))


def is_self(t):
    return t.op == "self"


def self_attr(name):
    return is_attr(name, is_self)


def callee_of(t):
    if t.op == "call":
        return t.args[1]
    if t.op == "pure":
        return t.args[0]
    return None


def call_args(t):
    return t.args[2] if t.op == "call" else t.args[1]


def is_call(name=None, fqn=None):
    def f(t):
        c = callee_of(t)
        if c is None:
            return False
        if fqn is not None and not (c.op == "glob" and c.args[0] in ((fqn,) if isinstance(fqn, str) else fqn)):
            return False
        if name is not None:
            n = c.args[1] if c.op == "attr" else (c.args[0].rpartition(".")[2] if c.op == "glob" else None)
            if n not in ((name,) if isinstance(name, str) else name):
                return False
        return True
    return f


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def root(t):
    """Base object of an access path."""
    while t.op in ("attr", "item", "elem", "keyof", "kv", "slice"):
        t = t.args[0]
    return t


def fresh(a, t, extra=(), seen=None):
    """The object denoted by t was created during this execution."""
    for l in a.leaves(t):
        if l.op in ("new", "obj", "tup", "const", "fstr", "bin"):
            continue
        c = callee_of(l)
        if c is not None:
            if c.op == "glob" and (c.args[0] in FRESH_CALLS or c.args[0] in a.prog.classes or c.args[0] in extra):
                continue
            if c.op == "attr" and c.args[1] in ("copy", "union", "deepcopy"):
                continue
        return False
    return True


FRESH_CALLS = {"builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.frozenset", "builtins.sorted", "copy.copy", "copy.deepcopy", "collections.deque", "collections.OrderedDict", "types.MappingProxyType", "builtins.str"}


# -- exits ------------------------------------------------------------------------
def exits(a, ret=True, exc=True):
    return a.exit_blocks(exc=exc, ret=ret)


def missing_path(a, start, events, ret=True, exc=True):
    """A feasible path from `start` to an exit avoiding all events, or None."""
    return a.path_avoiding(start, [e.instr if hasattr(e, "instr") else e for e in events], exits(a, ret, exc))


def always(a, events, ret=True, exc=True):
    """Every path from entry to an exit passes one of the events."""
    if not exits(a, ret, exc):
        return None
    return missing_path(a, a.b.entry, events, ret, exc)


def witness(a, path):
    return a.path_str(path) if path else ""


def reachable(a, instr):
    return instr.block in a.reach


def after_exc_handler(a, rec):
    pass


def logger_calls(a):
    return [r for r in a.calls(name=LOGM) if not any(r.instr.a.get("fi") is not None and 0 for _ in (0,))]


def call_kwargs(rec):
    """All bound arguments of a call by name when the callee is known."""
    fi = rec.instr.a.get("fi")
    out = dict(rec.kw)
    if rec.instr.kind == "enter":
        for k, v in rec.t.items():
            if isinstance(v, Term):
                out.setdefault(k, v)
        return out
    if fi is not None:
        p, va, ko, kw = fi.params()
        names = list(p)
        if fi.cls is not None and names and not fi.is_static:
            names = names[1:]
        for n, v in zip(names, rec.args):
            out.setdefault(n, v)
    return out


def arg(rec, pos, name):
    """Argument by position or keyword."""
    kw = call_kwargs(rec)
    if name is not None and name in kw:
        return kw[name]
    if pos is not None and pos < len(rec.args):
        return rec.args[pos]
    return None


# -- loops --------------------------------------------------------------------------
def loops_over(a, pred):
    """Loop instructions whose iterable (through list()/items() etc.) satisfies
    pred on some source term."""
    for r in a.events("loop"):
        if any(pred(x) for x in a.sources(r.t["iter"])):
            yield r


def loop_body_start(loop):
    for e in loop.block.succs:
        if e.label == "next":
            return e.dst
    return None


def loop_skips(a, loop, events, breaks=True):
    """Path through one iteration of the loop avoiding events: back to the loop
    header, or leaving the loop normally. None when each iteration passes one."""
    d = loop_body_start(loop)
    if d is None or d not in a.reach:
        return None
    ev = [e.instr if hasattr(e, "instr") else e for e in events]
    if any(x.block is d for x in ev):
        return None
    return a.path_avoiding(d, ev, [loop.block] + a.exit_blocks(exc=False), skip_first=False)


def loop_breaks(a, loop, ok_exc=True):
    """Normal ways of leaving the loop other than exhaustion: list of blocks
    (edges out of the loop body)."""
    body = loop_body(a, loop)
    out = []
    for b in body:
        for e in b.succs:
            if not a.edge_out.get(e):
                continue
            if e.dst in body or e.dst is loop.block:
                continue
            if b is loop.block:
                continue
            if ok_exc and not returns_from(a, e.dst):
                continue  # raises
            out.append(e)
    return out


def loop_quits(a, loop):
    """A started iteration may return (or leave the loop) without the loop
    being asked for the next member."""
    ends = set(a.exit_blocks(exc=False))
    todo = [e.dst for e in loop.instr.block.succs if e.label == "next" and a.edge_out.get(e)]
    seen = set()
    while todo:
        b = todo.pop()
        if b in seen or b is loop.instr.block:
            continue
        seen.add(b)
        if b in ends:
            return True
        todo += [e.dst for e in b.succs if a.edge_out.get(e)]
    return False


def returns_from(a, blk):
    """Some way from here returns."""
    ends = set(a.exit_blocks(exc=False))
    seen, todo = set(), [blk]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in ends:
            return True
        todo += [e.dst for e in b.succs if a.edge_out.get(e)]
    return False


def loop_body(a, loop):
    """Blocks of the loop: on a cycle through the header, reached only through it."""
    cache = a.__dict__.setdefault("_bodies", {})
    if loop.block in cache:
        return cache[loop.block]
    out, todo = set(), [a.b.entry]
    while todo:
        b = todo.pop()
        if b in out or b is loop.block or b not in a.reach:
            continue
        out.add(b)
        todo.extend(e.dst for e in b.succs if a.edge_out.get(e))
    fwd, todo = set(), [loop_body_start(loop)]
    while todo:
        b = todo.pop()
        if b is None or b in fwd or b not in a.reach:
            continue
        fwd.add(b)
        if b is loop.block:
            continue
        todo.extend(e.dst for e in b.succs if a.edge_out.get(e))
    back, todo = set(), [loop.block]
    while todo:
        b = todo.pop()
        if b in back:
            continue
        back.add(b)
        todo.extend(e.src for e in b.preds if a.edge_out.get(e) and e.src in fwd)
    cache[loop.block] = (fwd & back) - out
    return cache[loop.block]


def in_loop(a, rec, loop):
    return rec.instr.block in loop_body(a, loop)


def loop_phis(a, t, lp):
    """(phi, back-edge leaves) for the loop-carried values t is built from; the
    phi itself is a leaf when an iteration may leave the value unchanged."""
    body = {b.id for b in loop_body(a, lp)} | {lp.instr.block.id}
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, Term) or x.op != "phi":
            continue
        seen.add(x)
        ops = a.phis.get(x, {})
        todo.extend(v for v, _ in ops.values())
        if x.args[0] not in body:
            continue
        blk = next((b for b in a.reach if b.id == x.args[0]), None)
        if blk is None or x.args[0] != lp.instr.block.id and not header_of(a, blk, lp):
            continue
        out = set()
        for (src, _), (v, _) in ops.items():
            if src in body:
                expand_to(a, v, x, out)
        if out:
            yield x, out


def header_of(a, blk, lp):
    """blk only leads straight to the loop instruction (a merge before it)."""
    for _ in range(4):
        if blk is lp.instr.block:
            return True
        ss = [e.dst for e in blk.succs if a.edge_out.get(e)]
        if len(ss) != 1:
            return False
        blk = ss[0]
    return False


def expand_to(a, v, stop, out, seen=None):
    seen = seen if seen is not None else set()
    if v in seen:
        return
    seen.add(v)
    if v is stop or v.op != "phi" or not a.phis.get(v):
        out.add(v)
        return
    for w, _ in a.phis[v].values():
        expand_to(a, w, stop, out, seen)


def lock_attr(t):
    return t.args[1] if t.op == "attr" else None


# -- fan-out --------------------------------------------------------------------------
KEEP_ORDER = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.zip"}
LOSE_ORDER = {"builtins.reversed", "builtins.sorted", "builtins.set", "builtins.frozenset"}


def unfiltered(a, v, i):
    """An element put into a fresh list by instruction i is put there for every
    element of what it comes from."""
    for lp in a.events("loop"):
        if i.block in loop_body(a, lp) and any(lp.t["iter"] is x for x in v.args if isinstance(x, Term)):
            if loop_skips(a, lp, [i]) is not None or loop_breaks(a, lp):
                return False
    return True


def ordered(a, t, pred, depth=0, perm=False):
    """The value enumerates exactly the members of `pred`, in order (in any
    order with perm): built from it through copies only."""
    ls = a.leaves(t)
    if not ls or depth > 6:
        return False
    for l in ls:
        if pred(l):
            continue
        cal = callee_of(l)
        if cal is not None and cal.op == "glob" and (cal.args[0] in KEEP_ORDER or perm and cal.args[0] in LOSE_ORDER) and call_args(l):
            if any(ordered(a, x, pred, depth + 1, perm) for x in call_args(l)):
                continue
            return False
        if cal is not None and cal.op == "glob" and cal.args[0] == "builtins.range" and len(call_args(l)) == 1:
            x = call_args(l)[0]
            if is_call(fqn="builtins.len")(x) and ordered(a, call_args(x)[0], pred, depth + 1, perm):
                continue
            return False
        if cal is not None and cal.op == "attr" and cal.args[1] in ("copy", "values", "items", "keys") and ordered(a, cal.args[0], pred, depth + 1, perm):
            continue
        if l.op in ("tup", "new"):
            if not all(unfiltered(a, v, i) for k_, v, i in a.contents.get(l, ())):
                return False
            xs = [v for k_, v, i in a.contents.get(l, ())] + [x for x in l.args if isinstance(x, Term)] + [y for x in l.args if isinstance(x, tuple) for y in x if isinstance(y, Term)]
            if xs and all(ordered(a, x.args[0] if x.op in ("star", "elem") else x, pred, depth + 1, perm) for x in xs):
                continue
        return False
    return True


def every_member(c, rule, con, a, member, events, f, order=True, exc=False):
    """The events happen for every member, in order (with exc, even when one
    of them raises and the method goes on)."""
    lps = [lp for lp in a.events("loop") if a.derives(lp.t["iter"], member)]
    body = {}
    good = []
    for lp in lps:
        b = loop_body(a, lp)
        ev = [r for r in events if r.instr.block in b]
        if ev:
            good.append((lp, ev))
    if not good:
        return c.ob(rule, con, False, f.where, "no loop over the members does this")
    ok = True
    for lp, ev in good:
        p = loop_skips(a, lp, ev)
        ok = c.ob(rule, con, p is None, lp.where, "an iteration skips the member: %s" % witness(a, p)) and ok
        br = loop_breaks(a, lp)
        if exc:
            br = br + [e for e in loop_breaks(a, lp, ok_exc=False) if isinstance(e.label, tuple) and e.label[1] in ("Exception", "Exception*", "*") and returns_from(a, e.dst)]
        ok = c.ob(rule + "-complete", con, not br, lp.where, "the loop may end before all members were reached") and ok
        if order:
            ok = c.ob(rule + "-order", con, ordered(a, lp.t["iter"], member), lp.where, "the members are not visited in their order: %s" % lp.t["iter"]) and ok
        else:
            ok = c.ob(rule + "-all", con, ordered(a, lp.t["iter"], member, perm=True), lp.where, "not every member is visited: %s" % lp.t["iter"]) and ok
    heads = [lp.instr for lp, _ in good]
    p = a.path_avoiding(a.b.entry, heads, a.exit_blocks(exc=False), skip_first=False) if not any(h.block is a.b.entry for h in heads) else None
    if p is not None:
        # an early return for an empty member list is harmless
        p2 = [b for b in p]
        ok = c.ob(rule + "-reached", con, empty_guard(a, p2, member), f.where, "a path returns without visiting the members: %s" % witness(a, p)) and ok
    return ok


def empty_guard(a, path, member):
    for b in path:
        if b.instrs and b.instrs[-1].kind == "branch" and b.instrs[-1].rec is not None:
            t = b.instrs[-1].rec.t.get("cond")
            if t is not None and any(member(x) for x in subterms(t)):
                return True
    return False


# -- environment -------------------------------------------------------------------------
def is_environ(t):
    return t.op == "glob" and t.args[0] in ("os.environ",)


def env_read(t):
    """Name term of an environment read: environ.get(N), environ[N], getenv(N)."""
    if t.op == "item" and is_environ(t.args[0]):
        return t.args[1]
    cal = callee_of(t)
    if cal is None or not call_args(t):
        return None
    if cal.op == "attr" and cal.args[1] in ("get", "pop") and is_environ(cal.args[0]):
        return call_args(t)[0]
    if cal.op == "glob" and cal.args[0] in ("os.getenv", "os.environ.get"):
        return call_args(t)[0]
    return None


def o_env(present, name=None, truthy=True):
    """Environment variables (whose name term satisfies `name`) are present/absent."""
    sel = name or (lambda t: True)

    def f(a, t, st):
        if t.op == "in" and is_environ(t.args[1]) and sel(t.args[0]):
            return present
        x = t.args[0] if t.op in ("isnone", "istrue") else t
        n = env_read(x) if isinstance(x, Term) else None
        if n is not None and sel(n):
            if t.op == "isnone":
                return not present
            if not present:
                # a default given to get() decides
                dv = call_args(x)[1] if callee_of(x) is not None and len(call_args(x)) > 1 else None
                return bool(dv.args[0]) if dv is not None and dv.op == "const" else (False if dv is None else None)
            return True if truthy else None
        return None
    return f


# -- arithmetic -----------------------------------------------------------------------------
def linear(t, sign=1, out=None):
    """Sum/difference as {term: coefficient, None: constant}."""
    out = {} if out is None else out
    if t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        out[None] = out.get(None, 0) + sign * t.args[0]
    elif t.op == "bin" and t.args[0] == "Add":
        linear(t.args[1], sign, out)
        linear(t.args[2], sign, out)
    elif t.op == "bin" and t.args[0] == "Sub":
        linear(t.args[1], sign, out)
        linear(t.args[2], -sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return out


def lin_is(t, **spec):
    """t == sum of coeff*pred-term (+const): spec const=int, terms=[(coeff, pred)]."""
    l = {k: v for k, v in linear(t).items() if v != 0}
    if l.pop(None, 0) != spec.get("const", 0):
        return False
    todo = list(spec.get("terms", ()))
    for k, v in l.items():
        hit = next((x for x in todo if x[0] == v and x[1](k)), None)
        if hit is None:
            return False
        todo.remove(hit)
    return not todo


def all_are(a, t, pred):
    ls = a.leaves(t) if t is not None else ()
    return bool(ls) and all(pred(l) for l in ls)
