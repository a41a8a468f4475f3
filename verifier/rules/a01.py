"""A01: a global provider can be set once and is then seen by everyone."""
import ast

from .a02 import *

NOTE = "Guard and lock analysis of the store of each global provider, with the once-guard inlined: under the assumptions that the guard's state under its lock says already set or not yet set; provenance of what the accessor returns; who else writes the global or the guard."


def run(c):
    guards = {}
    for g, mod, x, prov, res in KINDS:
        setter(c, mod, x, guards)
        accessor(c, mod, x)
        k = proxy_class(c, mod, prov)
        if x == "meter":
            meter_provider(c, mod, k, prov)
        else:
            provider(c, "forwards", g, mod, x, k, prov)
        convenience(c, mod, x, prov)
    c.ob("own-guard", "the globals", len(set(guards.values())) == len(guards), API_, "two globals share the state that says whether they are set, so that setting one refuses the other")
    c.floor("set-once", 4)
    c.floor("seen", 4)


def flag_of(c, t):
    """(global, attribute) the term reads; attribute None for the global
    itself."""
    if t.op == "glob":
        b, _, n = t.args[0].rpartition(".")
        return (t.args[0], None) if b in c.prog.modules else (b, n)
    if t.op == "attr" and t.args[0].op == "glob":
        return (t.args[0].args[0], t.args[1])
    return None


API_ = "opentelemetry-api"


def guard_tests(a, s):
    """Conditions under one of the locks held at the store, with no release
    of it in between, that lead to the store on one edge only:
    (branch, lock, term, value that leads there)."""
    out = []
    for b in a.events("branch"):
        for l in b.locks:
            if l not in s.locks or gap(a, b, s, l) or not a.dominated(s.instr, [b.instr]):
                continue
            t = b.t["cond"]
            es = [e for e in b.instr.block.succs if e.label in ("T", "F")]
            to = [e for e in es if a.path_avoiding(e.dst, [], [s.instr.block], skip_first=False) is not None or e.dst is s.instr.block]
            if len(to) == 1:
                v = to[0].label == "T"
                while t.op == "not":
                    t, v = t.args[0], not v
                out.append((b, l, t, v))
    return out


def setter(c, mod, x, guards):
    f = c.prog.func(mod + "set_%s_provider" % x)
    con = "set_%s_provider" % x
    p = f.params()[0][0]
    P = Policy(mods=(mod[:-1], "opentelemetry.util._once"))
    gs = global_of(c, mod, x)
    if not c.ob("set-once", con, len(gs) == 1, f.where, "the provider is not stored in one global: %s" % gs):
        return
    g = gs[0]
    G = lambda t: t.op == "glob" and t.args[0] == g
    a = c.an(f, None, policy=P)
    S = [r for r in a.events("store_glob") if r.instr.fqn == g]
    flag = None
    for s in S:
        c.ob("set-once", con, all_are(a, s.t["val"], is_param(p)), s.where, "something other than the provider given is stored")
        ts = guard_tests(a, s)
        sel = None
        for b, l, t, v in ts:
            if not shared(l):
                continue
            if t.op == "isnone" and G(t.args[0]) and v or G(t) and not v:
                sel = (b, l, t, v, None)
            elif flag_of(c, t):
                sel = (b, l, t, v, flag_of(c, t))
            if sel:
                break
        if not c.ob("set-once", con, sel is not None, s.where, "two overlapping calls may both find the global unset and store: no test under a lock the store happens under"):
            continue
        b, l, t, v, flag = sel
        guards[x] = str(flag or g)
        if flag:
            guard_state(c, con, a, s, l, t, v, flag, g)
    if not S:
        return
    # already set / not yet set, as the guard's state under the lock says
    isf = lambda t: flag is not None and flag_of(c, t) == flag
    vol = {flag[1]: "always"} if flag and flag[1] else {}

    def state(already, early):
        def o(a, t, st):
            now = already if st.locks else early
            if isf(t):
                return now
            if t.op == "isnone" and G(t.args[0]):
                return not now
            if G(t):
                return now
            return None
        return o
    for what, already, early in (("when it is set already", True, True), ("when another call sets it meanwhile", True, False), ("when it is not yet set", False, False)):
        a = c.an(f, None, policy=P, oracle=state(already, early), volatile=vol)
        S = [r for r in a.events("store_glob") if r.instr.fqn == g]
        W = [r for r in logger_calls(a) if already or entry_path(a, [r.instr.block], edges=lambda e: not isinstance(e.label, tuple)) is not None]
        if already:
            c.ob("set-once", con, not S, S[0].where if S else f.where, "%s, the global is replaced" % what)
            c.ob("warns", con, bool(W) and not always(a, W, exc=False), f.where, "%s, no warning is logged" % what)
            oth = [r for r in a.recs if r.instr.kind in ("store_glob", "store_attr", "store_item", "del_attr", "del_item")]
            c.ob("only-warns", con, not oth, oth[0].where if oth else f.where, "%s, the call changes something" % what)
            tell = [r for r in a.calls() if r.instr.kind == "call" and any(is_param(p)(l) for y in list(r.args) + list(r.kw.values()) for l in a.leaves(y)) and r not in W]
            c.ob("only-warns", con, not tell, tell[0].where if tell else f.where, "%s, the provider that is refused is used" % what)
            c.ob("only-warns", con, not reached_raise(a), f.where, "%s, the call raises" % what)
        else:
            c.ob("set-once", con, bool(S) and not always(a, S, exc=False), f.where, "%s, the provider is not stored" % what)
            c.ob("warns", con, not W, W[0].where if W else f.where, "%s, a warning is logged all the same" % what)
            c.ob("set-once", con, not reached_raise(a), f.where, "%s, the call raises" % what)
    others(c, con, mod, g, flag, P, x)


def shared(l):
    """A lock all callers share."""
    r = root(l)
    return r.op == "glob"


def guard_state(c, con, a, s, l, t, v, flag, g):
    """The flag is unset at first, is set with the store and under the same
    lock, and says so only then."""
    own, field = flag
    if field is None:
        st = [r for r in a.events("store_glob") if r.instr.fqn == own]
        c.ob("set-once", con, bool(st), s.where, "the flag that says it is set is never set")
    else:
        st = [r for r in a.events("store_attr") if r.instr.name == field and all_are(a, r.t["base"], lambda q: q.op == "glob" and q.args[0] == own)]
    isset = [r for r in st if all_are(a, r.t["val"], lambda q: q.op == "const" and bool(q.args[0]) is not v)]
    c.ob("set-once", con, bool(isset) and len(isset) == len(st), s.where, "the flag that says it is set is not set to that")
    for r in isset:
        c.ob("set-once", con, l in r.locks, r.where, "the flag is set without the lock")
        c.ob("set-once", con, a.dominated(r.instr, [s.instr]), r.where, "the flag says that the global is set before it is, so that a caller may find it set and read nothing")
    rel = [z for z in a.events("release") if z.t["lock"] is l]
    ok = all(a.path_avoiding(s.instr, [r.instr for r in isset], [z.instr.block]) is None or not norm_reach(a, s, isset, z) for z in rel)
    c.ob("set-once", con, ok, s.where, "the lock is released after the store without the flag being set, so that a second call stores again")
    if field is not None:
        d = c.prog.display_expr(own)
        k = class_of(c, a.T.mk("glob", own))
        if c.ob("set-once", con, k is not None, s.where, "the guard is not one object made once"):
            ini = c.an(c.prog.find_method(k, "__init__"), k)
            z = [r for r in self_stores(ini) if r.instr.name == field]
            c.ob("set-once", con, bool(z) and all(all_are(ini, r.t["val"], lambda q: q.op == "const" and bool(q.args[0]) is v) for r in z), ini.b.fi.where if hasattr(ini.b, "fi") else k.fqn, "the guard does not start as unset")
            lk = l.args[1] if l.op == "attr" else None
            z = [r for r in self_stores(ini) if r.instr.name == lk]
            c.ob("set-once", con, bool(z) or lk is None, k.fqn, "the lock is not one object made once")


def norm_reach(a, s, flags, z):
    """The release is reached from the store, without a flag, and not only
    by an exception that ends the program."""
    ex = lambda e: isinstance(e.label, tuple) and not (e.label[1] in ("Exception", "Exception*", "*"))
    p = a.path_avoiding(s.instr, [r.instr for r in flags], [z.instr.block], edges=lambda e: not ex(e))
    return p is not None


def others(c, con, mod, g, flag, P, x):
    """Nothing else writes the global, or resets the flag."""
    name = g.rsplit(".", 1)[-1]
    m = c.prog.modules[g.rsplit(".", 1)[0]]
    allowed = set()
    f = c.prog.func(mod + "set_%s_provider" % x)
    a = c.an(f, None, policy=P)
    for r in a.recs:
        if r.instr.kind == "store_glob" and r.instr.fqn == g:
            allowed.add(getattr(r.instr.node, "lineno", None))
    n0 = 0
    for mm in c.prog.modules.values():
        for n in ast.walk(mm.tree):
            tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) and (not isinstance(n, ast.AnnAssign) or n.value is not None) else n.targets if isinstance(n, ast.Delete) else []
            for t in tg:
                for q in ast.walk(t):
                    hit = False
                    if isinstance(q, ast.Name) and q.id == name and mm is m and isinstance(q.ctx, (ast.Store, ast.Del)):
                        hit = n not in mm.tree.body and declared(mm, n, name)
                        if n in mm.tree.body:
                            n0 += 1
                            hit = n0 > 1 or not (isinstance(n.value, ast.Constant) and n.value.value is None)
                        elif n.lineno in allowed:
                            hit = False
                    elif isinstance(q, ast.Attribute) and isinstance(q.ctx, (ast.Store, ast.Del)) and q.attr == name:
                        hit = True
                    elif flag and flag[1] and isinstance(q, ast.Attribute) and isinstance(q.ctx, (ast.Store, ast.Del)) and q.attr == flag[1]:
                        ow = ast.unparse(q.value)
                        hit = ow.rsplit(".", 1)[-1] == flag[0].rsplit(".", 1)[-1]
                    if hit:
                        c.ob("no-other", con, False, "%s:%d" % (mm.name, n.lineno), "%s is also written here" % name)
    c.ob("no-other", con, True, m.name, "")
    if flag and flag[1]:
        k = class_of(c, a.T.mk("glob", flag[0]))
        for o in k.methods.values() if k is not None else ():
            if o.name == "__init__":
                continue
            b = c.an(o, k)
            for r in self_stores(b):
                if r.instr.name == flag[1]:
                    ok = all_are(b, r.t["val"], lambda q: q.op == "const" and q.args[0] is True)
                    c.ob("no-other", con, ok, r.where, "the guard is reset")


def declared(mm, n, name):
    """The assignment is in a function that declares the name global."""
    for f in ast.walk(mm.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(q is n for q in ast.walk(f)):
            if any(isinstance(q, ast.Global) and name in q.names for q in ast.walk(f)):
                return True
    return False


def accessor(c, mod, x):
    f = c.prog.func(mod + "get_%s_provider" % x)
    con = "get_%s_provider" % x
    gs = global_of(c, mod, x)
    G = lambda t: t.op == "glob" and t.args[0] in gs
    P = Policy(mods=(mod[:-1], "opentelemetry.util._once"))
    a = c.an(f, None, policy=P, oracle=oracle(o_truth(G, True), o_isnone(G, False)))
    ls = results(a)
    c.ob("seen", con, bool(ls) and all(G(l) for l in ls), f.where, "once a provider is set, the accessor does not return it")
    c.ob("seen", con, not a.events("store_glob"), f.where, "once a provider is set, the accessor replaces it")
    unset = oracle(o_truth(G, False), o_isnone(G, True))
    a = c.an(f, None, policy=P, oracle=oracle(o_env(False), unset))
    c.ob("proxy", con, not a.events("store_glob"), f.where, "with no provider set or configured, reading it sets one, so that no other can be set")
    ls = results(a)
    c.ob("proxy", con, bool(ls) and all(class_of(c, l) is not None for l in ls), f.where, "with no provider set, none is handed out")
    # a provider configured by the environment goes through the setter
    sa = c.an(c.prog.func(mod + "set_%s_provider" % x), None, policy=P)
    fs = {flag_of(c, t) for s in sa.events("store_glob") for b, l, t, v in guard_tests(sa, s) if flag_of(c, t) and flag_of(c, t)[0] not in gs}
    fl = {n for o, n in fs if n}

    def lost(a, t, st):
        # another thread has set one meanwhile
        if st.locks and flag_of(c, t) in fs:
            return True
        if t.op == "isnone" and G(t.args[0]):
            return None if not st.locks else False
        return None
    a = c.an(f, None, policy=P, oracle=oracle(o_env(True), lost, unset), volatile={n: "always" for n in fl})
    ls = results(a)
    c.ob("seen", con, bool(ls) and all(G(l) for l in ls), f.where, "of two threads that load the configured provider, one is given a provider that did not take effect")
    c.ob("seen", con, not a.events("store_glob"), f.where, "the configured provider replaces one set meanwhile")
    a = c.an(f, None, policy=P, oracle=oracle(o_env(True), unset))
    st = a.events("store_glob")
    for s in st:
        if s.instr.fqn in gs:
            c.ob("seen", con, bool([1 for b, l, t, v in guard_tests(a, s) if shared(l)]), s.where, "the configured provider is stored without the guard")
    c.ob("seen", con, bool(st), f.where, "the configured provider does not become the global one")


def meter_provider(c, mod, k, prov):
    iface = c.prog.cls(M + prov)
    con = "meter proxy provider"
    f = c.prog.func(M + "get_meter_provider")
    if not c.ob("forwards", con, k is not None and iface in c.prog.mro(k), f.where, "what the accessor hands out before a provider is set is not one object of a class that implements %s" % prov):
        return
    sw = notified(c, k)
    if not c.ob("forwards", con, len(sw) == 1, c.prog.func(M + "set_meter_provider").where, "setting the provider does not tell the proxy provider"):
        return
    sw = sw.pop()
    ps = sw.params()[0][1]
    P = Policy(mods=(k.mod.name,))
    b = c.an(sw, k, policy=P)
    RP = {r.instr.name for r in self_stores(b) if all_are(b, r.t["val"], is_param(ps))}
    gs = global_of(c, M, "meter")
    R = lambda t: is_field(RP)(t) or t.op == "glob" and t.args[0] in gs
    m = c.method(k, "get_meter")
    for n in (True, False):
        a = c.an(m, k, policy=P, oracle=oracle(o_truth(R, True), o_isnone(R, False), o_isnone(is_param("attributes"), n), o_truth(is_param("attributes"), not n)))
        real(c, "forwards", con, a, results(a), m.where, iface, "get_meter", R, {p: q for p, q in given(m).items() if p != "attributes" or not n}, n)


def convenience(c, mod, x, prov):
    """get_tracer() and the like ask the current provider, or the one given."""
    f = c.prog.func(mod + "get_" + x)
    iface = c.prog.cls(mod + prov)
    con = "get_" + x
    pp = next((n for n in f.params()[0] + f.params()[2] if n.endswith("_provider")), None)
    if pp is None:
        return
    want = {canon(n): is_param(n) for n in f.params()[0] + f.params()[2] if n != pp}
    get = mod + "get_%s_provider" % x
    for what, val, R in (("given", False, is_param(pp)), ("current", True, lambda t: glob_call(t, get))):
        a = c.an(f, None, policy=Policy(deny=(get,)), oracle=oracle(o_isnone(is_param(pp), val), o_truth(is_param(pp), not val)))
        ls = results(a)
        for l in ls:
            ca = callee_of(l)
            ok = ca is not None and ca.op == "attr" and ca.args[1] == "get_" + x and all_are(a, ca.args[0], R)
            c.ob("convenience", con, ok, f.where, "it does not ask the %s provider: %s" % (what, l))
            if ok:
                w = passes(c, a, l, iface, "get_" + x, want)
                c.ob("convenience", con, w is None, f.where, "the provider is not given %s" % w)
