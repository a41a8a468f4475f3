"""E07: exporter settings follow one precedence."""
from .xp import *

NOTE = "Each exporter constructor is propagated under every combination of presence of the argument, the signal-specific and the general variable of one setting (environment reads replaced by markers, absent ones by their default): the value that reaches the place of use (URL, header, timeout, certificate and compression arguments of the request or channel) must come from the highest one present and from no other; the names read must be this signal's or general ones; the path is added to a general HTTP endpoint only; the payload is encoded as the chosen compression says."
P = "OTEL_EXPORTER_OTLP_"


def isval(t, v):
    return t is not None and t.op == "const" and type(t.args[0]) is type(v) and t.args[0] == v


SIGNAL = {"SpanExporter": "TRACES", "MetricExporter": "METRICS", "LogExporter": "LOGS"}
SETTINGS = {"endpoint": "ENDPOINT", "headers": "HEADERS", "timeout": "TIMEOUT", "compression": "COMPRESSION", "certificate_file": "CERTIFICATE", "client_key_file": "CLIENT_KEY", "client_certificate_file": "CLIENT_CERTIFICATE", "insecure": "INSECURE"}
METRIC_PREFS = (P + "METRICS_TEMPORALITY_PREFERENCE", P + "METRICS_DEFAULT_HISTOGRAM_AGGREGATION")


def run(c):
    n = z = 0
    for x in exporters(c):
        if x.k.mod.name.startswith("opentelemetry.exporter.otlp"):
            n += 1
            otlp(c, x)
        elif x.k.mod.name.startswith("opentelemetry.exporter.zipkin"):
            z += 1
            zipkin(c, x)
    c.ob("exporters", "opentelemetry.exporter", n >= 6 and z >= 2, "", "%d OTLP and %d Zipkin exporters found" % (n, z))
    c.floor("precedence", 40)
    c.floor("own-variables", 8)


def marker(a, name):
    return a.T.mk("env", name)


def const_name(t):
    return t.args[0] if t is not None and t.op == "const" and isinstance(t.args[0], str) else None


def made_from_env(t):
    if t.op == "item":
        return mentions(t.args[1], lambda y: y.op == "env")
    return glob_call(t, "builtins.int", "builtins.float") and mentions(t, lambda y: y.op == "env")


class World:
    """One combination of settings present."""

    def __init__(self, c, x, args, envs, extra=()):
        self.args, self.envs = set(args), set(envs)
        f = x.methods["__init__"]
        pos, va, ko, kw = f.params()
        names = [p for p in pos[1:] + list(ko or ())]
        pol = Policy(mods=("opentelemetry.exporter.otlp.proto.grpc", "opentelemetry.exporter.otlp.proto.http", "opentelemetry.exporter.zipkin"))

        def sub(a, t):
            n = env_read(t)
            n = const_name(n)
            if n is None:
                return None
            if n in self.envs:
                return marker(a, n)
            d = call_args(t)[1] if callee_of(t) is not None and len(call_args(t)) > 1 else None
            return d if d is not None else a.T.const(None)

        def orc(a, t, st):
            if t.op == "in" and is_environ(t.args[1]) and const_name(t.args[0]):
                return const_name(t.args[0]) in self.envs
            if t.op == "in" and t.args[0].op == "pure" and mentions(t.args[0], lambda y: y.op == "env"):
                return True
            if t.op == "in" and isval(t.args[0], None):
                ms = members(a, t.args[1])
                if ms is not None:
                    return any(isval(m, None) for m in ms)
            b = t.args[0] if t.op in ("isnone", "isinst") else t
            if b.op == "env" or b.op == "param" and b.args[0] in self.args:
                if t.op == "isnone":
                    return False
                if t.op == "isinst":
                    return True if b.op == "env" and t.args[1].op == "glob" and t.args[1].args[0] == "builtins.str" else False if b.op == "env" else None
                return True
            for e in extra:
                r = e(a, t, st)
                if r is not None:
                    return r
            if b.op in ("pure", "call", "item") and (made_from_env(b) or glob_call(b, "grpc.ssl_channel_credentials")):
                # a usable value
                return t.op != "isnone" if t.op != "isinst" else None
            return None
        self.a = c.an(f, x.k, policy=pol, params={p: (lambda T: T.const(None)) for p in names if p not in self.args}, subst=sub, oracle=orc)
        self.names = names

    def field(self, n):
        out = set()
        a = self.a
        for b in a.exit_blocks(exc=False):
            st = a.in_state.get(b)
            for (base, name), v in (st.heap.items() if st is not None else ()):
                if name == n and base.op == "self":
                    out |= set(a.leaves(v))
        return out


def sources_of(a, t, names):
    """Settings a value is made from: parameter names and env:NAME."""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        y = todo.pop()
        if y in seen or not isinstance(y, Term):
            if isinstance(y, tuple):
                todo.extend(y)
            continue
        seen.add(y)
        if y.op == "env":
            out.add("env:" + y.args[0])
        elif y.op == "param" and y.args[0] in names:
            out.add("arg:" + y.args[0])
        elif y.op == "phi":
            todo.extend(a.leaves(y))
            continue
        if y.op == "new":
            todo.extend(v for k, v, i in a.contents.get(y, ()))
        todo.extend(z for z in y.args if isinstance(z, (Term, tuple)))
    return out


def levels(sig, arg, setting):
    return [("arg", arg), ("env", P + sig + "_" + setting), ("env", P + setting)]


def otlp(c, x):
    k = x.k
    sig = next((SIGNAL[b.name] for b in c.prog.mro(k) if b.name in SIGNAL), None)
    con = "%s.__init__" % k.fqn
    f = x.methods["__init__"]
    where = f.where
    own = set(f.params()[0][1:]) | set(f.params()[2] or ())
    settings = [s for s in SETTINGS if s in own]
    c.ob("settings", con, {"endpoint", "headers", "timeout", "compression"} <= set(settings), where, "a setting cannot be given as an argument")
    # names read
    full = World(c, x, (), ())
    known = {P + s for s in SETTINGS.values()} | {P + sig + "_" + s for s in SETTINGS.values()} | set(METRIC_PREFS if sig == "METRICS" else ())
    reads = set()
    for args in ((), own):
        w = World(c, x, args, ())
        for r in w.a.recs:
            if r.instr.kind == "call":
                n = const_name(r.args[0]) if r.args and (r.instr.fqn in ("os.environ.get", "os.getenv") or r.instr.name in ("get",) and r.t.get("recv") is not None and is_environ(r.t["recv"])) else None
                if n:
                    reads.add((n, r.where))
    bad = [(n, wh) for n, wh in reads if n not in known]
    c.ob("own-variables", con, bool(reads) and not bad, bad[0][1] if bad else where, "the exporter reads %s" % (bad and bad[0][0]))
    for s in settings:
        precedence(c, x, con, sig, s, own)
    if x.grpc:
        channel(c, x, con, sig, own)
    else:
        http_use(c, x, con, sig, own)


def sinks(c, x, w, s):
    """Values of a setting where they take effect (fields are followed)."""
    a = w.a
    if x.grpc:
        ch = [r for r in a.recs if r.instr.kind == "call" and r.instr.name in ("insecure_channel", "secure_channel")]
        if s == "endpoint":
            return [(r.where, l) for r in ch for l in a.leaves(arg(r, 0, "target"))] if all(arg(r, 0, "target") is not None for r in ch) else None
        if s == "compression":
            return [(r.where, l) for r in ch for l in a.leaves(r.kw["compression"])] if all("compression" in r.kw for r in ch) else None
        if s == "insecure":
            return None
        e = c.an(x.host, x.k)
        kw = {"headers": "metadata", "timeout": "timeout"}[s]
    else:
        if s == "headers":
            out = []
            for r in a.recs:
                if r.instr.kind == "call" and r.instr.name == "update" and r.t.get("recv") is not None and any(l.op == "attr" and l.args[1] == "headers" for l in a.leaves(r.t["recv"])):
                    out.extend((r.where, l) for l in a.leaves(r.args[0]) if not is_static_headers(l))
            return out
        e = c.an(x.methods["export"], x.k)
        if s == "compression":
            fs = {l.args[1] for r in e.events("branch") for l in subterms(r.t["cond"]) if l.op == "attr" and l.args[0].op == "self" and any(y.op == "glob" and ".Compression." in y.args[0] for y in subterms(r.t["cond"]))}
            return [("", l) for n in fs for l in w.field(n)] if fs else None
        kw = {"endpoint": "url", "timeout": "timeout", "certificate_file": "verify", "client_key_file": "cert", "client_certificate_file": "cert"}[s]
    out = []
    for r in sends(e):
        v = r.kw.get(kw)
        if v is None:
            return None
        for l in e.leaves(v):
            if l.op != "attr" or l.args[0].op != "self":
                return None
            out.extend((r.where, y) for y in w.field(l.args[1]))
    return out


def is_static_headers(l):
    if l.op == "glob":
        return True
    return l.op == "new" or l.op == "const"


def precedence(c, x, con, sig, s, own):
    rule = "precedence"
    ls = levels(sig, s, SETTINGS[s])
    if s == "insecure":
        return insecure(c, x, con, sig, own)
    names = {a_ for a_ in own}
    for bits in range(8):
        have = [l for i, l in enumerate(ls) if bits >> i & 1]
        args = {n for k_, n in have if k_ == "arg"}
        envs = {n for k_, n in have if k_ == "env"}
        if s in ("client_key_file",):
            # the key is used together with a client certificate
            args = args | {"client_certificate_file"}
        w = World(c, x, args, envs)
        vs = sinks(c, x, w, s)
        c2 = "%s(%s)" % (con, s)
        if vs is None:
            c.ob(rule, c2, False, x.host.where, "the setting is not used")
            return
        want = {("arg:" if k_ == "arg" else "env:") + n for k_, n in have[:1]}
        what = " and ".join(n for k_, n in have) or "nothing"
        mine = {"arg:" + s} | {"env:" + n for k_, n in ls if k_ == "env"}
        if not vs and have:
            c.ob(rule, c2, False, x.host.where, "with %s given the setting has no effect" % what)
            continue
        ok_any = False
        for wh, v in vs:
            got = sources_of(w.a, v, names)
            if s == "client_certificate_file" or s == "client_key_file":
                got &= mine
            if s == "compression" and not x.grpc:
                pass
            ok = got == want
            ok_any = ok_any or ok
            if s == "headers" and x.grpc and not want and not got:
                ok = ok_any = True
            c.ob(rule, c2, ok, wh or x.host.where, "with %s given the value used comes from %s" % (what, ", ".join(sorted(got)) or "the default"))
        if not have:
            default(c, x, c2, sig, s, w, vs)


def default(c, x, con, sig, s, w, vs):
    for wh, v in vs:
        if s == "timeout":
            c.ob("default", con, isval(v, 10), wh, "the default timeout is %s" % v)
        elif s == "certificate_file":
            c.ob("default", con, isval(v, True), wh, "certificates are not verified by default: %s" % v)
        elif s in ("client_key_file", "client_certificate_file"):
            pass
        elif s == "compression":
            c.ob("default", con, mentions(v, lambda y: y.op == "glob" and y.args[0].endswith(".NoCompression")) or mentions(v, lambda y: isval(y, "none")), wh, "the default compression is %s" % v)
        elif s == "endpoint":
            c.ob("default", con, mentions(v, lambda y: y.op == "const" and isinstance(y.args[0], str) and y.args[0].startswith("http://localhost:4317" if x.grpc else "http://localhost:4318")), wh, "the default endpoint is %s" % v)


def insecure(c, x, con, sig, own):
    """insecure: an https endpoint is always secure; otherwise argument, own
    variable, general variable, scheme."""
    ls = levels(sig, "insecure", "INSECURE")
    con = con + "(insecure)"
    for bits in range(8):
        have = [l for i, l in enumerate(ls) if bits >> i & 1]
        for top in (True, False):
            for scheme in ("https", "http", "other"):
                want = False if scheme == "https" else top if have else scheme == "http"
                top_n = have[0][1] if have else None

                def truth(n):
                    return top if n == top_n else not top

                def orc(a, t, st):
                    if t.op == "param" and t.args[0] == "insecure":
                        return truth("insecure")
                    if t.op == "eq" and any(isinstance(y, Term) and mentions(y, lambda z: z.op == "env" and z.args[0].endswith("INSECURE")) for y in t.args) and any(y.op == "const" and y.args[0] == "true" for y in t.args):
                        n = next(z.args[0] for y in t.args for z in subterms(y) if z.op == "env")
                        return truth(n)
                    if t.op == "eq" and any(y.op == "attr" and y.args[1] == "scheme" for y in t.args):
                        k_ = next((y.args[0] for y in t.args if y.op == "const"), None)
                        return k_ == scheme
                    return None
                w = World(c, x, {n for k_, n in have if k_ == "arg"} - {"insecure"}, {n for k_, n in have if k_ == "env"})
                # the argument itself is a truth value, not just present
                w = InsecureWorld(c, x, have, orc)
                a = w.a
                used = {r.instr.name for r in a.recs if r.instr.kind == "call" and r.instr.name in ("insecure_channel", "secure_channel")}
                c.ob("precedence", con, used == {"insecure_channel" if want else "secure_channel"}, x.host.where, "with %s given (%s %s) and scheme %s the exporter opens %s" % (" and ".join(n for k_, n in have) or "nothing", top_n, top, scheme, " or ".join(sorted(used))))
                if not have and not top:
                    break


class InsecureWorld(World):
    def __init__(self, c, x, have, orc):
        self.args = {n for k_, n in have if k_ == "arg"}
        self.envs = {n for k_, n in have if k_ == "env"}
        f = x.methods["__init__"]
        pos, va, ko, kw = f.params()
        names = pos[1:] + list(ko or ())
        pol = Policy(mods=("opentelemetry.exporter.otlp.proto.grpc",))

        def sub(a, t):
            n = const_name(env_read(t))
            if n is None:
                return None
            if n in self.envs:
                return marker(a, n)
            d = call_args(t)[1] if callee_of(t) is not None and len(call_args(t)) > 1 else None
            return d if d is not None else a.T.const(None)

        def full(a, t, st):
            r = orc(a, t, st)
            if r is not None:
                return r
            if t.op == "in" and is_environ(t.args[1]) and const_name(t.args[0]):
                return const_name(t.args[0]) in self.envs
            if t.op == "isnone" and t.args[0].op == "param" and t.args[0].args[0] == "insecure":
                return False
            b = t.args[0] if t.op == "isnone" else t
            if b.op == "env":
                return t.op != "isnone"
            return None
        self.a = c.an(f, x.k, policy=pol, params={p: (lambda T: T.const(None)) for p in names if p not in self.args}, subst=sub, oracle=full)
        self.names = names


def channel(c, x, con, sig, own):
    """Credentials: the argument, else the signal's files, else the general ones."""
    con = con + "(credentials)"
    if "credentials" not in own:
        c.ob("precedence", con, False, x.host.where, "credentials cannot be given")
        return
    trio = ("CERTIFICATE", "CLIENT_KEY", "CLIENT_CERTIFICATE")
    for bits in range(8):
        lv = [b for i, b in enumerate(("arg", sig + "_", "")) if bits >> i & 1]
        args = {"credentials"} if "arg" in lv else set()
        envs = {P + b + t for b in lv if b != "arg" for t in trio}
        secure = lambda a, t, st: False if t.op == "param" and t.args[0] == "insecure" else (any(y.op == "const" and y.args[0] == "https" for y in t.args) if t.op == "eq" and any(y.op == "attr" and y.args[1] == "scheme" for y in t.args) else None)
        w = World(c, x, args, envs, extra=(secure,))
        a = w.a
        ch = [r for r in a.recs if r.instr.kind == "call" and r.instr.name == "secure_channel"]
        c.ob("precedence", con, bool(ch), x.host.where, "no secure channel is opened for https")
        for r in ch:
            v = arg(r, 1, "credentials")
            for l in a.leaves(v) if v is not None else [None]:
                got = sources_of(a, l, own) if l is not None else set()
                want = {"arg:credentials"} if lv[:1] == ["arg"] else {"env:" + P + lv[0] + t for t in trio} if lv else set()
                c.ob("precedence", con, l is not None and got == want, r.where, "with %s given the credentials come from %s" % (", ".join(b or "general files" for b in lv) or "nothing", ", ".join(sorted(got)) or "the default"))
                if l is not None and lv and lv[0] != "arg":
                    kw = dict(l.args[3]) if l.op == "call" and l.args[3] else {}
                    for n, t in (("root_certificates", trio[0]), ("private_key", trio[1]), ("certificate_chain", trio[2])):
                        if n in kw:
                            c.ob("certificates", con, sources_of(a, kw[n], own) == {"env:" + P + lv[0] + t}, r.where, "%s is read from %s" % (n, sorted(sources_of(a, kw[n], own))))


def http_use(c, x, con, sig, own):
    path = "v1/" + sig.lower()
    f = x.methods["__init__"]
    # a signal-specific endpoint is used as it is, a general one gets the path
    w = World(c, x, (), {P + sig + "_ENDPOINT", P + "ENDPOINT"})
    for wh, v in sinks(c, x, w, "endpoint") or ():
        c.ob("path", con, v.op == "env", wh, "the signal's own endpoint is changed: %s" % v)
    w = World(c, x, {"endpoint"}, ())
    for wh, v in sinks(c, x, w, "endpoint") or ():
        c.ob("path", con, v.op == "param", wh, "the endpoint given is changed: %s" % v)
    for slash in (True, False):
        ends = lambda a, t, st: slash if method_name(t) == "endswith" and mentions(t, lambda y: y.op == "env") and isval(call_args(t)[0], "/") else None
        w = World(c, x, (), {P + "ENDPOINT"}, extra=(ends,))
        for wh, v in sinks(c, x, w, "endpoint") or ():
            c.ob("path", con, joined(w.a, v, path, slash), wh, "the general endpoint%s becomes %s" % (" ending in /" if slash else "", v))
    # certificate and key stay in their places
    w = World(c, x, {"client_certificate_file", "client_key_file"}, ())
    for wh, v in sinks(c, x, w, "client_certificate_file") or ():
        es = [y for y in v.args if isinstance(y, Term)] if v.op == "tup" else []
        ok = len(es) == 2 and sources_of(w.a, es[0], own) == {"arg:client_certificate_file"} and sources_of(w.a, es[1], own) == {"arg:client_key_file"}
        c.ob("certificates", con, ok, wh, "the client certificate and key are passed as %s" % v)
    w = World(c, x, {"client_certificate_file"}, ())
    for wh, v in sinks(c, x, w, "client_certificate_file") or ():
        c.ob("certificates", con, v.op == "param", wh, "a client certificate without a key is passed as %s" % v)
    encoding(c, x, con)


def joined(a, v, path, slash):
    parts = []

    def walk(t):
        if t.op == "bin" and t.args[0] == "Add":
            walk(t.args[1])
            walk(t.args[2])
        elif t.op == "fstr":
            for y in t.args:
                if isinstance(y, Term):
                    walk(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            walk(z)
        elif method_name(t) == "rstrip":
            walk(callee_of(t).args[0])
            parts.append(None)
        elif method_name(t) == "format" or t.op == "fmt":
            walk(t.args[0] if t.args and isinstance(t.args[0], Term) else t)
        else:
            parts.append(t)
    walk(v)
    stripped = None in parts
    parts = [y for y in parts if y is not None]
    if not parts or parts[0].op != "env":
        return False
    rest = "".join(y.args[0] for y in parts[1:] if y.op == "const" and isinstance(y.args[0], str))
    if any(y.op != "const" for y in parts[1:]):
        return False
    if stripped:
        return rest == "/" + path
    return rest == (path if slash else "/" + path)


def encoding(c, x, con):
    """The payload is encoded as the Content-Encoding header says."""
    for name, want in (("Gzip", "gzip"), ("Deflate", "deflate"), ("NoCompression", None)):
        def orc(a, t, st):
            if t.op == "eq" and any(y.op == "glob" and ".Compression." in y.args[0] for y in t.args) and any(y.op != "glob" for y in t.args):
                g = next(y for y in t.args if y.op == "glob" and ".Compression." in y.args[0])
                return g.args[0].endswith("." + name)
            return None
        a = c.an(x.methods["export"], x.k, oracle=orc)
        for s in sends(a):
            v = s.kw.get("data")
            for l in a.leaves(v) if v is not None else ():
                if want == "gzip":
                    ok = glob_call(l, "gzip.compress") or method_name(l) == "getvalue" and written(a, l)
                elif want == "deflate":
                    ok = glob_call(l, "zlib.compress")
                else:
                    ok = not glob_call(l, "gzip.compress", "zlib.compress") and method_name(l) != "getvalue"
                c.ob("encoding", "%s.export" % x.k.fqn, ok, s.where, "with compression %s the data sent is %s" % (name, l))
            if v is None:
                c.ob("encoding", "%s.export" % x.k.fqn, False, s.where, "no data is sent")
        f = x.methods["__init__"]
        b = c.an(f, x.k, oracle=orc)
        hs = []
        for r in b.recs:
            if r.instr.kind == "call" and r.instr.name == "update":
                for y in r.args:
                    for kk, vv, i in b.contents.get(y, ()) if y.op == "new" else ():
                        if isval(kk, "Content-Encoding"):
                            hs.append((r, vv))
            elif r.instr.kind == "store_item" and isval(r.t.get("key"), "Content-Encoding"):
                hs.append((r, r.t["val"]))
        if want is None:
            c.ob("encoding", con, not hs, hs[0][0].where if hs else f.where, "a Content-Encoding is announced without compression")
        else:
            ok = bool(hs) and all(y.op == "attr" and y.args[1] == "value" or isval(y, want) for r, v in hs for y in b.leaves(v)) and always(b, [r for r, v in hs], exc=False) is None
            c.ob("encoding", con, ok, f.where, "compression %s is not announced as Content-Encoding" % name)


def written(a, l):
    """value of a buffer that a gzip stream wrote to."""
    buf = callee_of(l).args[0]
    return any(r.instr.kind == "call" and r.instr.name == "write" and r.t.get("recv") is not None and mentions(r.t["recv"], lambda y: glob_call(y, "gzip.GzipFile", "gzip.open") and mentions(y, lambda z: z is buf)) for r in a.recs)


def zipkin(c, x):
    con = "%s.__init__" % x.k.fqn
    f = x.methods["__init__"]
    own = set(f.params()[0][1:]) | set(f.params()[2] or ())
    e = c.an(x.methods["export"], x.k)
    ver = lambda a, t, st: True if t.op == "eq" and any(y.op == "param" and y.args[0] == "version" for y in t.args) else None
    reads = set()
    for s, kw, name in (("endpoint", "url", "OTEL_EXPORTER_ZIPKIN_ENDPOINT"), ("timeout", "timeout", "OTEL_EXPORTER_ZIPKIN_TIMEOUT")):
        for bits in range(4):
            have = [l for i, l in enumerate((("arg", s), ("env", name))) if bits >> i & 1]
            args = {n for k_, n in have if k_ == "arg"} | {"version"}
            w = World(c, x, args, {n for k_, n in have if k_ == "env"}, extra=(ver,))
            for r in w.a.recs:
                if r.instr.kind == "call" and r.instr.fqn in ("os.environ.get", "os.getenv") and const_name(r.args[0]):
                    reads.add((const_name(r.args[0]), r.where))
            want = {("arg:" if k_ == "arg" else "env:") + n for k_, n in have[:1]}
            for r in sends(e):
                v = r.kw.get(kw)
                fs = [l.args[1] for l in e.leaves(v) if l.op == "attr" and l.args[0].op == "self"] if v is not None else []
                c.ob("precedence", "%s(%s)" % (con, s), bool(fs), r.where, "the setting is not used")
                for n in fs:
                    vs = w.field(n)
                    c.ob("precedence", "%s(%s)" % (con, s), bool(vs), r.where, "the setting is not kept")
                    for y in vs:
                        got = sources_of(w.a, y, own)
                        c.ob("precedence", "%s(%s)" % (con, s), got == want, f.where, "with %s given the value used comes from %s" % (" and ".join(n_ for k_, n_ in have) or "nothing", ", ".join(sorted(got)) or "the default"))
                        if not have:
                            c.ob("default", "%s(%s)" % (con, s), isval(y, 10) if s == "timeout" else y.op == "const" and str(y.args[0]).startswith("http://localhost:9411"), f.where, "the default is %s" % y)
    bad = [(n, wh) for n, wh in reads if not n.startswith("OTEL_EXPORTER_ZIPKIN_")]
    c.ob("own-variables", con, bool(reads) and not bad, bad[0][1] if bad else f.where, "the exporter reads %s" % (bad and bad[0][0]))
