"""C03: the context passed is the one used."""
import ast

from .lib import *

NOTE = "Every function with an optional context parameter is analysed twice: with a context assumed present (of unknown truth value, so empty contexts are included) the ambient context must be unreachable and every callee that takes an optional context must be handed one built on it; the parameter must reach a use."
NAMES = ("context", "parent_context", "ctx")
CTX = "opentelemetry.context.context.Context"


def ctx_params(prog, f):
    """Names of parameters that hold an optional OpenTelemetry context."""
    pos, va, ko, kw = f.params()
    ann, dfl = f.annotations(), f.defaults()
    out = []
    for p in pos + ko:
        t = set()
        if p in ann:
            t = set(prog.ann_types(f.mod, ann[p]))
            if isinstance(ann[p], ast.Constant) and isinstance(ann[p].value, str):
                t |= {ann[p].value}
        isctx = any(x == CTX or x.endswith("context.Context") for x in t)
        if p in ann and not isctx:
            continue
        if not isctx and p not in NAMES:
            continue
        if p not in ann and p not in dfl:
            continue
        opt = p in dfl and isinstance(dfl[p], ast.Constant) and dfl[p].value is None
        if p in ann:
            s = ast.unparse(ann[p])
            opt = opt or "Optional" in s or "None" in s
        if opt:
            out.append(p)
    return out


def run(c):
    prog = c.prog
    takes = {}
    byname = {}
    for f in program_funcs(prog):
        ps = ctx_params(prog, f)
        if ps:
            takes[f.fqn] = ps
            byname.setdefault(f.name, []).append((f, ps))
    GENERIC = {"get", "get_current", "__init__", "__call__", "set", "add"}
    for fq, ps in sorted(takes.items()):
        f = prog.funcs[fq]
        for p in ps:
            a = c.an(f, oracle=oracle(o_isnone(is_param(p), False)))
            con = "%s(%s)" % (fq, p)
            amb = [r for r in a.calls(name="get_current") if r.instr.fqn == GET_CURRENT or (r.t.get("callee") is not None and "get_current" in str(r.t["callee"]))]
            amb = [r for r in amb if r.instr.kind == "call"]
            c.ob("ambient-unreachable", con, not amb, amb[0].where if amb else f.where, "the ambient context is read although a context was passed")
            used = False
            trivial = True
            for r in a.recs:
                if r.instr.kind == "call":
                    trivial = trivial and (r.instr.name in LOGM)
                for x in list(r.args) + list(r.kw.values()) + [v for v in r.t.values() if isinstance(v, Term)]:
                    if any(is_param(p)(y) for y in subterms(x)) or x.op == "phi" and a.derives(x, is_param(p)):
                        if r.instr.kind not in ("mov",):
                            used = True
            for r in a.events("call"):
                fi = r.instr.a.get("fi")
                chain, x = [], r.instr.frame
                while x is not None and x.fi is not f:
                    chain.append(x.fi)
                    x = x.caller
                if any(fr.fqn not in takes and not fr.name.startswith("_") and fr.parent is None for fr in chain):
                    # a public function defined on the current context
                    continue
                cands = []
                fq2 = r.instr.fqn
                if fi is not None and fi.fqn in takes:
                    cands = [(fi, takes[fi.fqn])]
                elif fq2 in takes:
                    cands = [(prog.funcs[fq2], takes[fq2])]
                elif fi is None and r.t.get("recv") is not None and r.instr.name in byname and r.instr.name not in GENERIC:
                    if r.t["callee"] is not None and r.t["callee"].op == "glob":
                        continue
                    cands = byname[r.instr.name][:1]
                    # an instrument's .record/.add etc. take a context as well
                if not cands or r.sa is not None or r.sk is not None:
                    continue
                g, gps = cands[0]
                if g.fqn == f.fqn and fi is None:
                    pass
                gp = gps[0]
                v = r.kw.get(gp)
                if v is None:
                    pos = g.params()[0]
                    if gp in pos:
                        ix = pos.index(gp) - (1 if g.cls is not None and not g.is_static and pos and pos[0] in ("self", "cls") else 0)
                        if ix < len(r.args):
                            v = r.args[ix]
                ok = v is not None and bool(a.leaves(v)) and all(a.derives(l, is_param(p)) for l in a.leaves(v))
                c.ob("context-forwarded", "%s -> %s" % (con, r.instr.name or fq2), ok, r.where, "%s is called without the context passed to %s" % (r.instr.name or fq2, f.name))
            if not trivial:
                c.ob("context-used", con, used, f.where, "the context passed is ignored")
            # functions producing a context build on the one given
            rann = f.node.returns if not isinstance(f.node, ast.Lambda) else None
            rt = prog.ann_types(f.mod, rann) if rann is not None else []
            if any(x == CTX or x.endswith("context.Context") for x in rt) and not trivial:
                for r in a.rets():
                    for l in a.leaves(r.t["val"]):
                        ok = any(is_param(p)(y) for y in a.sources(l))
                        c.ob("context-built-upon", con, ok, r.where, "the context returned (%s) is not built on the one passed" % l)
    attributes(c, takes)
    # contexts that travel as a field of another object (observations)
    for f in program_funcs(prog, ["opentelemetry.sdk", "opentelemetry.shim", "opentelemetry.baggage", "opentelemetry.trace"]):
        a = c.an(f)
        field = [l for r in a.events("attr") if r.dst is not None and r.instr.name == "context" for l in [r.dst] if l.op == "attr"]
        if not field or not any(r.instr.kind == "call" and r.instr.fqn == GET_CURRENT for r in a.calls(name="get_current")):
            continue
        o = c.an(f, oracle=oracle(o_isnone(is_attr("context"), False)))
        amb = [r for r in o.calls(name="get_current") if r.instr.fqn == GET_CURRENT]
        c.ob("field-context-used", f.fqn, not amb, amb[0].where if amb else f.where, "the ambient context replaces the context carried by an observation")
    c.floor("ambient-unreachable", 30)
    c.floor("context-forwarded", 20)


def attributes(c, takes):
    """Measurements and records carry the context of the call."""
    prog = c.prog
    ms = [k for k in prog.classes.values() if k.name == "Measurement" and "metrics" in k.fqn]
    for fq, ps in takes.items():
        f = prog.funcs[fq]
        if f.mod.name != "opentelemetry.sdk.metrics._internal.instrument":
            continue
        for p in ps:
            a = c.an(f, oracle=oracle(o_isnone(is_param(p), False)))
            for r in a.recs:
                if r.dst is not None and r.dst.op == "obj" and r.instr.kind in ("call", "new") and r.dst.args[1].endswith("measurement.Measurement"):
                    vals = list(r.dst.args[2]) + [v for k, v in r.dst.args[3]]
                    fields = obj_field(prog, r.dst, "context")
                    ok = fields is not None and all(is_param(p)(l) for l in a.leaves(fields))
                    c.ob("measurement-context", "%s(%s)" % (fq, p), ok, r.where, "the measurement does not carry the context passed")


def obj_field(prog, obj, name):
    """Value given to a dataclass field / constructor parameter."""
    for k, v in [x for x in obj.args[3] if isinstance(x, tuple)]:
        if k == name:
            return v
    k = prog.classes.get(obj.args[1])
    if k is None:
        return None
    init = prog.find_method(k, "__init__") or prog.find_method(k, "__new__")
    if init is not None:
        ps = init.params()[0][1:]
    else:
        ps = [n for n in k.annots]
    if name in ps and ps.index(name) < len(obj.args[2]):
        return obj.args[2][ps.index(name)]
    return None
