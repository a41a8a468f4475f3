"""C04: extraction is total and only stores valid parents."""
import ast

from . import rx
from .lib import *

NOTE = "Exception-escape analysis of every propagator's extract (None dereferences, integer parsing, unpacking, nested program calls), with regular-expression literals evaluated statically to prove widths and hexadecimal alphabets; dominance of each store of a span by a validity test."
TMP = "opentelemetry.propagators.textmap.TextMapPropagator"
SETSPAN = "opentelemetry.trace.propagation.set_span_in_context"
SC = "opentelemetry.trace.span.SpanContext"
RE_FUNCS = {"re.search": 0, "re.match": 0, "re.fullmatch": 0, "re.compile": 0}
TOTAL = {"re.search", "re.match", "re.fullmatch", "re.split", "re.compile", "re.findall", "re.sub", "urllib.parse.unquote", "urllib.parse.unquote_plus", "urllib.parse.quote", "urllib.parse.quote_plus", "builtins.next", "builtins.iter", "builtins.tuple.__new__"}
TOTAL_METH = {"fullmatch", "match", "search", "group", "groups", "findall", "sub", "lower", "encode"}
NEEDS_VALUE = {"builtins.iter", "urllib.parse.unquote", "urllib.parse.unquote_plus", "re.split", "builtins.int", "builtins.len", "re.search", "re.match", "re.fullmatch"}


def propagators(prog):
    base = prog.cls(TMP)
    out = []
    for k in prog.subclasses(base):
        if any(x.name == "CompositePropagator" for x in prog.mro(k)) or k is base:
            continue
        if prog.find_method(k, "extract") is not None and prog.find_method(k, "extract").cls is not base:
            out.append(k)
    return out


def pattern_of(a, t):
    """Regular-expression source denoted by a term, or None."""
    prog = a.prog
    if t.op == "const" and isinstance(t.args[0], str):
        return t.args[0]
    if t.op == "attr" and t.args[0].op in ("self", "cls", "obj"):
        for k in prog.mro(a.selfcls) if a.selfcls is not None else ():
            if t.args[1] in k.attrs:
                return expr_pattern(prog, k.mod, k.attrs[t.args[1]], k)
    if t.op == "glob":
        m, _, n = t.args[0].rpartition(".")
        cg = prog.const_global(t.args[0])
        if cg is not None and isinstance(cg[1], str):
            return cg[1]
        if m in prog.classes and n in prog.classes[m].attrs:
            return expr_pattern(prog, prog.classes[m].mod, prog.classes[m].attrs[n], prog.classes[m])
        if m in prog.modules:
            g = prog.modules[m].globals.get(n) if hasattr(prog.modules[m], "globals") else None
            if g is not None:
                return expr_pattern(prog, prog.modules[m], g, None)
    c = callee_of(t)
    if c is not None and is_call(name="compile")(t) and call_args(t):
        return pattern_of(a, call_args(t)[0])
    return None


def expr_pattern(prog, mod, e, cls):
    if isinstance(e, (list, tuple)):
        e = e[-1] if e else None
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        l, r = expr_pattern(prog, mod, e.left, cls), expr_pattern(prog, mod, e.right, cls)
        return l + r if l is not None and r is not None else None
    if isinstance(e, ast.Call) and e.args:
        return expr_pattern(prog, mod, e.args[0], cls)
    if isinstance(e, ast.Name):
        v = (cls.attrs.get(e.id) if cls is not None else None)
        if v is not None:
            return expr_pattern(prog, mod, v, cls)
        c = prog.const_global(prog.canon(mod.name + "." + e.id))
        if c is not None and isinstance(c[1], str):
            return c[1]
    return None


def nonnone(a, t, r):
    from ..flow import State
    return a.decide(a.mk_isnone(t), State(r.env if hasattr(r, "env") else {}, {}, r.facts, {})) is False


def maybe_none(a, t):
    """Leaves that can be None: next(.., None), re matches, getter results."""
    out = []
    for l in a.leaves(t):
        if isconst(l, None):
            out.append(l)
        elif is_call(fqn="builtins.next")(l) and len(call_args(l)) > 1 and isconst(call_args(l)[1], None):
            out.append(l)
        elif is_call(fqn=("re.search", "re.match", "re.fullmatch"))(l):
            out.append(l)
        elif is_call(name=("fullmatch", "match", "search"))(l):
            out.append(l)
        elif is_call(name="get")(l) and callee_of(l).op == "attr" and is_param("getter")(callee_of(l).args[0]):
            out.append(l)
    return out


def hex_proved(a, t, facts):
    """int(t, 16) cannot fail: t matched a hexadecimal-only pattern.
    Returns (lo, hi) width or None."""
    for l in a.leaves(t):
        # a capturing group of a match
        if is_call(name="group")(l) and callee_of(l).op == "attr" and call_args(l) and call_args(l)[0].op == "const":
            m = callee_of(l).args[0]
            p, subj = match_parts(a, m)
            if p is not None:
                g = rx.group(p, call_args(l)[0].args[0])
                if rx.is_hex(g):
                    return rx.width(g)
        # the whole value matched (fact)
        for k, v in facts.items():
            if k.op == "isnone" and v is False or (k.op in ("call", "pure") and v is True):
                m = k.args[0] if k.op == "isnone" else k
                p, subj = match_parts(a, m)
                if p is not None and subj is t or p is not None and subj is l:
                    full = is_call(name="fullmatch")(m) or rx.anchored(p)
                    g = rx.group(p, 0)
                    if full and rx.is_hex(g):
                        return rx.width(g)
        if l.op == "item" and l.args[0].op in ("call", "pure") and is_call(name="groups")(l.args[0]) and l.args[1].op == "const":
            m = callee_of(l.args[0]).args[0]
            p, subj = match_parts(a, m)
            if p is not None:
                g = rx.group(p, l.args[1].args[0] + 1)
                if rx.is_hex(g):
                    return rx.width(g)
    return None


def match_parts(a, m):
    """(pattern source, subject) of a match call term."""
    c = callee_of(m)
    if c is None:
        return None, None
    ar = call_args(m)
    if c.op == "glob" and c.args[0] in ("re.search", "re.match", "re.fullmatch") and len(ar) >= 2:
        return pattern_of(a, ar[0]), ar[1]
    if c.op == "attr" and c.args[1] in ("fullmatch", "match", "search") and len(ar) >= 1:
        return pattern_of(a, c.args[0]), ar[0]
    if c.op == "glob" and c.args[0].rpartition(".")[2] in ("fullmatch", "match", "search") and len(ar) == 1:
        base = c.args[0].rpartition(".")[0]
        return pattern_of(a, a.T.mk("glob", base)), ar[0]
    return None, None


def length_set(facts, t, top=12):
    """The lengths value t can have under the facts, out of 0..top (top stands
    for every larger one)."""
    out = set(range(top + 1))
    is_len = lambda x: is_call(fqn="builtins.len")(x) and call_args(x) and call_args(x)[0] is t
    num = lambda x: x.op == "const" and isinstance(x.args[0], int)
    for k, v in facts.items():
        if v is None:
            continue
        if k.op in ("eq", "lt", "in") and len(k.args) == 2:
            l, r = k.args
            if k.op == "eq" and is_len(r) and num(l):
                l, r = r, l
            if k.op == "eq" and is_len(l) and num(r):
                out = {n for n in out if (n == r.args[0]) is v}
            elif k.op == "lt" and is_len(l) and num(r):
                out = {n for n in out if (n < r.args[0]) is v}
            elif k.op == "lt" and is_len(r) and num(l):
                out = {n for n in out if (l.args[0] < n) is v}
            elif k.op == "in" and is_len(l) and r.op == "tup" and all(num(x) for x in r.args):
                out = {n for n in out if (n in [x.args[0] for x in r.args]) is v}
        elif is_len(k) or k is t:
            out = {n for n in out if bool(n) is v}
    if is_call(name=("split", "rsplit"))(t):
        ar = call_args(t)
        if len(ar) == 2 and num(ar[1]) and ar[1].args[0] >= 0:
            out = {n for n in out if n <= ar[1].args[0] + 1}
        out.discard(0)
    return out


class Raises:
    def __init__(self, c):
        self.c, self.memo, self.null = c, {}, frozenset()

    def escapes(self, f, cls=None, depth=0, null=frozenset()):
        """Constructs of f (an extraction helper) that may raise an Exception
        (the parameters in null may be None)."""
        k = (f.fqn, cls.fqn if cls is not None else None, null)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []
        a = self.c.an(f, cls)
        old, self.null = self.null, null
        out = self.check(a, depth)
        self.null = old
        self.memo[k] = out
        return out

    def maybe_none(self, a, t):
        return maybe_none(a, t) + [l for l in a.leaves(t) if l.op == "param" and l.args[0] in self.null]

    def nulls(self, a, r, fi):
        """The parameters of fi that this call may give None to."""
        pos, _, kwo, _ = fi.params()
        skip = 1 if fi.cls is not None and pos and pos[0] in ("self", "cls") else 0
        ar = list(r.args)
        given = dict(zip(pos[skip:], ar))
        given.update(r.kw if hasattr(r, "kw") and r.kw else {})
        return frozenset(p for p, v in given.items() if v is not None and self.maybe_none(a, v) and not nonnone(a, v, r) and not isconst(v, None))

    def check(self, a, depth=0):
        out = []
        prog = a.prog
        for i, exc in a.escaping("E"):
            r = i.rec
            if r is None:
                continue
            if i.kind == "call":
                recv = r.t.get("recv")
                if recv is not None and (root(recv).op == "param" and root(recv).args[0] in ("getter", "carrier")):
                    continue
                fq = r.t["callee"].args[0] if r.t.get("callee") is not None and r.t["callee"].op == "glob" else i.fqn
                if fq == "builtins.next" and len(r.args) == 1:
                    src = [call_args(l)[0] for l in a.leaves(r.args[0]) if is_call(fqn="builtins.iter")(l) and call_args(l)]
                    if not src or not all(r.facts.get(x) is True for x in src):
                        out.append((r.where, "next() of what may be empty"))
                    continue
                if fq in TOTAL or (fq and fq.rpartition(".")[2] in TOTAL_METH) or (recv is not None and i.name in TOTAL_METH):
                    continue
                if fq in ("builtins.int",):
                    if r.args and hex_proved(a, r.args[0], r.facts):
                        continue
                    out.append((r.where, "int() of a value not proved numeric"))
                    continue
                fi = i.a.get("fi") or prog.funcs.get(fq)
                if fi is None and fq in prog.classes:
                    k = prog.classes[fq]
                    fi = prog.find_method(k, "__new__") or prog.find_method(k, "__init__")
                    if fi is None:
                        continue
                if i.a.get("cls") is not None and fi is None:
                    continue
                if fi is not None and depth < 4:
                    sub = self.escapes(fi, None, depth + 1, self.nulls(a, r, fi))
                    out += sub
                    continue
                out.append((r.where, "call of %s may raise %s" % (i.name or fq, exc)))
            elif i.kind == "op" and i.name == "unpack":
                t = r.args[0] if r.args else None
                n = i.a.get("n")
                if t is None or not all(length_set(r.facts, l) == {n} or l.op == "tup" and len(l.args) == n for l in {t} | (set(a.leaves(t)) if length_set(r.facts, t) != {n} else set())):
                    out.append((r.where, "unpacking of a value whose length is not established"))
            elif i.kind == "item":
                b = r.t["base"]
                if is_call(name=("split", "rsplit", "partition", "rpartition"))(b) and r.t["key"].op == "const" and r.t["key"].args[0] in (0, -1):
                    continue
                ix = r.t["key"].args[0] if r.t["key"].op == "const" else None
                if isinstance(ix, int) and length_set(r.facts, b) and all(n > ix if ix >= 0 else n >= -ix for n in length_set(r.facts, b)):
                    continue
                if b.op in ("new", "tup", "self") or is_call(name=("groups",))(b):
                    continue
                out.append((r.where, "item access %s may fail" % r.dst))
            elif i.kind == "raise":
                out.append((r.where, "raises"))
            else:
                out.append((r.where, "%s may raise %s" % (i.kind, exc)))
        for r in a.recs:
            i = r.instr
            if i.kind != "call":
                if i.kind == "item" and r.t.get("base") is not None:
                    for l in self.maybe_none(a, r.t["base"]):
                        if not nonnone(a, r.t["base"], r):
                            out.append((r.where, "%s may be None" % l))
                    b = r.t["base"]
                    if is_call(name="get")(b) and callee_of(b).op == "attr" and is_param("getter")(callee_of(b).args[0]) and r.t["key"].op == "const" and not r.facts.get(b):
                        out.append((r.where, "%s may be empty" % b))
                if i.kind == "loop":
                    for l in self.maybe_none(a, r.t["iter"]):
                        if not nonnone(a, r.t["iter"], r):
                            out.append((r.where, "%s may be None" % l))
                continue
            recv = r.t.get("recv")
            cand = []
            fi = i.a.get("fi")
            if fi is not None and depth < 4 and not in_handler(a, i) and self.nulls(a, r, fi):
                out += self.escapes(fi, None, depth + 1, self.nulls(a, r, fi))
            if recv is not None and recv.op != "glob":
                cand.append(recv)
            fq = r.t["callee"].args[0] if r.t.get("callee") is not None and r.t["callee"].op == "glob" else i.fqn
            if fq in NEEDS_VALUE:
                cand += r.args[:1] if fq not in ("re.split", "re.search", "re.match", "re.fullmatch") else r.args[1:2]
            if i.name in ("fullmatch", "match", "search") and fq not in NEEDS_VALUE:
                cand += r.args[:1]
            for x in cand:
                mn = self.maybe_none(a, x)
                if mn and not nonnone(a, x, r) and not in_handler(a, i):
                    out.append((r.where, "%s may be None here" % mn[0]))
        return out


def in_handler(a, i):
    """A failure of instruction i is caught: it has no escaping edge."""
    esc = False
    for e in i.block.succs:
        if isinstance(e.label, tuple) and a.edge_out.get(e):
            esc = True
    return esc and not any(x is i for x, _ in a.escaping("E"))


def run(c):
    prog = c.prog
    R = Raises(c)
    for k in propagators(prog):
        m = prog.find_method(k, "extract")
        con = k.fqn + ".extract"
        a = c.an(m, k)
        bad = R.check(a)
        c.ob("never-raises", con, not bad, bad[0][0] if bad else m.where, bad[0][1] if bad else "")
        # the deciding function may be wrapped in helpers: only entry returns count
        ctxp = m.params()[0][2] if len(m.params()[0]) > 2 else "context"
        for r in a.rets():
            for l in a.leaves(r.t["val"]):
                ok = is_param(ctxp)(l) or (l.op in ("call", "obj") and (any(is_param(ctxp)(x) or is_call(fqn=("opentelemetry.context.context.Context", GET_CURRENT))(x) or (x.op == "obj" and x.args[1].endswith("context.Context")) for x in a.sources(l))))
                c.ob("returns-context", con, ok, r.where, "extract returns %s, which is not built on the given context" % l)
        o = c.an(m, k, oracle=oracle(o_isnone(is_param(ctxp), False)))
        for r in o.rets():
            for l in o.leaves(r.t["val"]):
                ok = is_param(ctxp)(l) or (l.op == "call" and o.derives(l, is_param(ctxp)))
                c.ob("keeps-given-context", con, ok, r.where, "extract drops the context it was given: %s" % l)
        if not o.rets():
            c.ob("returns-context", con, False, m.where, "extract never returns")
        stores = [r for r in a.events("call", fqn=SETSPAN)] + [r for r in a.events("enter", fqn=SETSPAN)]
        stores += [r for r in a.calls(fqn=SET_VALUE) if r.args and "SPAN" in str(r.args[0]).upper()]
        scs = [r for r in a.recs if r.dst is not None and r.dst.op == "obj" and r.dst.args[1] == SC]
        spanprop = bool(stores or scs)
        if "baggage" in k.fqn.lower() and not spanprop:
            continue
        c.ob("stores-parent", con, bool(stores), m.where, "a well-formed header never produces a parent")
        for s in stores:
            span = s.args[0] if s.instr.fqn == SETSPAN else s.args[1]
            if s.instr.fqn == SETSPAN:
                cv = arg(s, 1, "context")
                c.ob("stores-into-given", con, cv is not None and a.derives(cv, lambda t: is_param(ctxp)(t)), s.where, "the parent is not put into the context given")
            objs = [x for x in a.sources(span) if x.op == "obj" and x.args[1] == SC]
            c.ob("parent-from-header", con, bool(objs), s.where, "no span context is built from the header")
            for ob in objs:
                kw = dict(x for x in ob.args[3] if isinstance(x, tuple))
                names = ["trace_id", "span_id", "is_remote", "trace_flags", "trace_state"]
                for n, v in zip(names, ob.args[2]):
                    kw.setdefault(n, v)
                c.ob("remote", con, kw.get("is_remote") is not None and isconst(kw["is_remote"], True), s.where, "the extracted span context is not marked remote")
                for idn, w in (("trace_id", 32), ("span_id", 16)):
                    v = kw.get(idn)
                    ok, why = valid_id(a, s, ob, v, w)
                    c.ob("valid-" + idn, con, ok, s.where, why)
                    c.ob("read-" + idn, con, v is not None and any(is_call(name="get")(x) and callee_of(x).op == "attr" and is_param("getter")(callee_of(x).args[0]) for x in a.sources(v)), s.where, "%s does not come from the carrier" % idn)
                t, sp = kw.get("trace_id"), kw.get("span_id")
                c.ob("distinct-ids", con, t is not sp, s.where, "trace and span identifier are read from the same place")
                fl = kw.get("trace_flags")
                c.ob("flags-from-header", con, fl is not None and any(is_call(name="get")(x) for x in a.sources(fl)) or fl is not None and any(l.op == "phi" for l in a.sources(fl)), s.where, "the sampled flag does not come from the carrier")
    c.floor("never-raises", 5)
    c.floor("valid-trace_id", 3)


ZEROS = ("0" * 32, "0" * 16)


def valid_id(a, s, ob, v, w):
    """The identifier is proved well formed and non-zero where it is stored."""
    if v is None:
        return False, "no identifier"
    facts = s.facts
    for k, val in facts.items():
        if val and k.op == "attr" and k.args[1] == "is_valid":
            if k.args[0] is ob or any(l is ob for l in a.leaves(k.args[0])):
                return True, ""
    from ..flow import State
    # well formed
    ints = [x for x in a.leaves(v)]
    for l in ints:
        if is_call(fqn="builtins.int")(l) and call_args(l):
            x = call_args(l)[0]
            wd = hex_proved(a, x, facts)
            if wd is None or wd[1] > w or wd[0] < 1:
                return False, "%s is not proved to be at most %d hexadecimal digits" % (x, w)
            # non-zero: the string against its zero form, or the integer against zero
            nz = False
            for k, val in facts.items():
                if val is False and k.op == "eq" and k.args[1].op in ("const", "glob"):
                    z = k.args[1].args[0] if k.args[1].op == "const" else None
                    if k.args[0] is x and isinstance(z, str) and wd[0] == wd[1] and z == "0" * wd[0]:
                        nz = True
                    if k.args[0] is l and (z == 0 or (k.args[1].op == "glob" and "INVALID" in k.args[1].args[0])):
                        nz = True
                if k is l and val is True:
                    nz = True
                if k.op == "lt" and val is True and k.args[1] is l and isconst(k.args[0], 0):
                    nz = True
            if not nz:
                return False, "a zero identifier (%s) is not excluded" % x
        else:
            return False, "the identifier %s is not proved valid" % l
    return True, ""
