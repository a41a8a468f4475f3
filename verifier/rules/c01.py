"""C01: attach/detach typestate."""
from .lib import *

NOTE = "Typestate of context tokens on every feasible path of every function that attaches, including the paths taken when any opaque call raises. Tokens stored on an object are followed to the methods that detach that attribute."


def run(c):
    prog = c.prog
    attach_like = {ATTACH}
    detach_like = {DETACH}
    todo = [f for f in program_funcs(prog)]
    stored = {}
    sites = 0
    rounds = 0
    changed = True
    res = {}
    mention = [f for f in todo if f.fqn not in (ATTACH, DETACH) and not f.mod.name.startswith("opentelemetry.context")]
    while changed and rounds < 4:
        changed = False
        rounds += 1
        for f in mention:
            a = c.cache.get(f.fqn)
            if a is None:
                a = c.cache[f.fqn] = c.an(f)
            for r in a.events("call"):
                if r.instr.fqn in attach_like or (r.t["callee"] is not None and r.t["callee"].op == "glob" and r.t["callee"].args[0] in attach_like):
                    kind = classify(c, a, r, stored, detach_like)
                    if kind == "returned":
                        if f.fqn not in attach_like and not f.is_prop():
                            attach_like.add(f.fqn)
                            changed = True
                    res[(f.fqn, r.where)] = (kind, a, r)
    for (fq, where), (kind, a, r) in sorted(res.items()):
        # a site is judged in every function whose flow graph contains it
        con = r.instr.frame.fi.fqn
        if kind == "returned":
            continue
        if kind == "ok":
            c.ob("detached", con, True, r.where)
        elif kind[0] == "stored":
            continue
        else:
            if kind[1] == "discarded" or True:
                c.ob("detached", con, False, r.where, "the context attached here is not detached on the path %s" % kind[1])
    c.floor("detached", 5)
    # tokens kept on an object
    for name, sites_ in sorted(stored.items()):
        n = 0
        for f in mention:
            a = c.cache[f.fqn]
            rel = [r for r in a.calls(fqn=DETACH) if detaches_attr(a, r, name)]
            if not rel:
                continue
            if not any(x.op == "attr" and x.args[1] == name for r in rel for x in a.leaves(arg(r, 0, "token"))):
                continue
            n += 1
            o = c.an(f, oracle=oracle(o_isnone(is_attr(name), False)))
            rel = [r for r in o.calls(fqn=DETACH) if detaches_attr(o, r, name)]
            # loops of the end_span kind: paths on which no object was found carry no token
            p = token_miss(o, rel, name)
            c.ob("stored-token", "%s.%s" % (f.fqn, name), p is None, f.where, "the token kept in .%s is not detached on the path %s" % (name, witness(o, p)))
        c.ob("stored-token-released", name, n > 0, sites_[0].where, "no function detaches the token kept in .%s" % name)
    # scope protocol: a class whose instances keep a token detaches it in __exit__
    for name, sites_ in sorted(stored.items()):
        for r in sites_:
            base = r.t["base"]
            cl = None
            if base.op == "self":
                cl = [r.instr.frame.selfcls]
            elif base.op == "obj":
                cl = [prog.classes.get(base.args[1])]
            for k in cl or ():
                if k is None:
                    continue
                for mn in ("__exit__", "close"):
                    m = prog.find_method(k, mn)
                    if m is None or m.mod.name.startswith("builtins"):
                        continue
                    o = c.an(m, k, oracle=oracle(o_isnone(is_attr(name), False)))
                    rel = [x for x in o.calls(fqn=DETACH) if detaches_attr(o, x, name)]
                    p = always(o, rel)
                    c.ob("scope-exit", "%s.%s" % (k.fqn, mn), p is None, m.where, "leaving the scope does not detach .%s on %s" % (name, witness(o, p)))
    scope_cm(c)
    runtime(c)


def detaches_attr(a, r, name):
    t = arg(r, 0, "token")
    return t is not None and any(x.op == "attr" and x.args[1] == name for x in a.leaves(t))


def token_miss(o, rel, name):
    """Path avoiding the detach although the object holding the token was found."""
    base = None
    for r in rel:
        for x in o.leaves(arg(r, 0, "token")):
            if x.op == "attr" and x.args[1] == name:
                base = x.args[0]
    if base is None:
        return always(o, rel)
    if base.op != "self":
        # the obligation starts once the holder of the token has been found
        key = str(base)
        same = lambda t: str(t) == key
        a2 = type(o)(o.prog, o.fi, o.selfcls, oracle=oracle(o_isnone(same, False), o_truth(same, True), o_isnone(is_attr(name), False)))
        rel = [r for r in a2.calls(fqn=DETACH) if detaches_attr(a2, r, name)]
        starts = [r for r in a2.recs if r.instr.kind == "call" and r.dst is not None and same(r.dst)]
        for s in starts:
            p = a2.path_avoiding(s.instr, [r.instr for r in rel], exits(a2), edges=lambda e: not (e.src is s.instr.block and isinstance(e.label, tuple)))
            if p:
                return p
        return None if starts else always(a2, rel)
    return always(o, rel)


def classify(c, a, r, stored, detach_like):
    tok = r.dst
    dets = [x for x in a.calls(fqn=DETACH) if arg(x, 0, "token") is not None and tok in a.leaves(arg(x, 0, "token"))]
    p = missing_path(a, r.instr, dets)
    if p is None:
        return "ok"
    # kept on an object?
    ss = [s for s in a.events("store_attr") if tok in a.leaves(s.t["val"])]
    if ss:
        p2 = missing_path(a, r.instr, ss + dets)
        if p2 is None or True:
            for s in ss:
                stored.setdefault(s.instr.name, [])
                if not any(x.where == s.where for x in stored[s.instr.name]):
                    stored[s.instr.name].append(s)
            return ("stored", "")
    rets = [x for x in a.rets() if x.t["val"] is not None and any(tok is y for y in a.sources(x.t["val"]))]
    if rets:
        p2 = missing_path(a, r.instr, rets + dets)
        if p2 is None:
            return "returned"
    return ("leak", witness(a, p) or "(exit)")


def scope_cm(c):
    """A scope object that wraps another context manager leaves that one too."""
    prog = c.prog
    for f in program_funcs(prog):
        if f.name not in ("__exit__",) or f.cls is None:
            continue
        a = c.an(f)
        ex = [r for r in a.calls(name="__exit__") if r.instr.a.get("recv") is not None and r.t.get("recv") is not None and r.t["recv"].op == "attr" and r.t["recv"].args[0].op == "self"]
        if not ex:
            continue
        names = {r.t["recv"].args[1] for r in ex}
        for n in names:
            o = c.an(f, oracle=oracle(o_isnone(is_attr(n), False)))
            e2 = [r for r in o.calls(name="__exit__") if r.t.get("recv") is not None and is_attr(n)(r.t["recv"])]
            p = always(o, e2, exc=False)
            c.ob("wrapped-scope", "%s.%s" % (f.fqn, n), p is None, f.fqn, "the wrapped scope .%s is not left on %s" % (n, witness(o, p)))
            pos, va, ko, kw = f.params()
            for r in e2:
                got = [x.args[0] if x.op == "param" else None for x in r.args]
                want = pos[1:4]
                c.ob("wrapped-scope-args", "%s.%s" % (f.fqn, n), got == list(want) or r.sa is not None, r.where, "the wrapped scope is not told about the exception")


def runtime(c):
    prog = c.prog
    d = c.an(DETACH)
    esc = d.escaping("E")
    c.ob("detach-never-raises", DETACH, not esc, esc[0][0].where if esc else "", "an exception of the runtime context escapes detach")
    dd = [r for r in d.calls(name="detach")]
    tokp = d.fi.params()[0][0]
    c.ob("detach-forwards", DETACH, bool(dd) and all(len(r.args) == 1 and is_param(tokp)(r.args[0]) for r in dd) and always(d, dd, exc=False) is None, d.fi.fqn, "detach does not hand the token to the runtime context")
    logs = [r for r in d.calls(name=LOGM)]
    hs = [b for b in d.reach if b.note == "handler"]
    bad = None
    for r in dd:
        for e in r.instr.block.succs:
            if isinstance(e.label, tuple) and e.label[1] == ANY and d.edge_out.get(e):
                p = d.path_avoiding(e.dst, [x.instr for x in logs], d.exit_blocks(exc=False), skip_first=False)
                if p and not any(x.instr.block is e.dst for x in logs):
                    bad = p
    c.ob("detach-logs", DETACH, bad is None and bool(logs), d.fi.fqn, "a failed detach is not logged")
    at = c.an(ATTACH)
    ok = any(any(is_call("attach")(x) and call_args(x) and is_param(at.fi.params()[0][0])(call_args(x)[0]) for x in at.leaves(r.t["val"])) for r in at.rets())
    c.ob("attach-forwards", ATTACH, ok, at.fi.fqn, "attach does not hand the context to the runtime context and return its token")
    base = prog.cls("opentelemetry.context.context._RuntimeContext")
    impls = [k for k in prog.subclasses(base) if k is not base]
    c.ob("runtime-impl", "context.contextvars", bool(impls), "", "no runtime context implementation found")
    for k in impls:
        for mn, meth, withret in (("attach", "set", True), ("detach", "reset", False), ("get_current", "get", True)):
            m = prog.find_method(k, mn)
            if m is None:
                c.ob("runtime-" + mn, k.fqn, False, k.fqn, "not implemented")
                continue
            a = c.an(m, k)
            ev = [r for r in a.calls(name=meth) if r.t.get("recv") is not None and is_attr_of_self(r.t["recv"])]
            ps = m.params()[0][1:]
            ok = bool(ev) and always(a, ev, exc=False) is None
            if ok and ps:
                ok = all(len(r.args) >= 1 and is_param(ps[0])(r.args[0]) for r in ev)
            if ok and withret:
                ok = all(any(l is e.dst for e in ev for l in a.leaves(r.t["val"])) or any(is_call(meth)(l) for l in a.leaves(r.t["val"])) for r in a.rets())
            c.ob("runtime-" + mn, k.fqn, ok, m.fqn, "%s must use the context variable's %s with its argument" % (mn, meth))


def is_attr_of_self(t):
    return t.op == "attr" and t.args[0].op == "self"
