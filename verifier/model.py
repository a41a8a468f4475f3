"""Program model: modules, imports, classes, functions of /repo's source."""
import ast
import builtins
import hashlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, unsupported code)."""


class FuncInfo:
    __slots__ = ("fqn", "name", "node", "mod", "cls", "parent", "kind", "decos", "setter", "_locals", "_gen")

    def __init__(self, fqn, node, mod, cls=None, parent=None):
        self.fqn, self.node, self.mod, self.cls, self.parent = fqn, node, mod, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.decos = list(getattr(node, "decorator_list", []))
        self.setter = None
        self._locals = None
        self._gen = None
        self.kind = "func"

    def __repr__(self):
        return "<F %s>" % self.fqn

    @property
    def file(self):
        return self.mod.path

    @property
    def where(self):
        return "%s:%s" % (self.mod.path, getattr(self.node, "lineno", 0))

    @property
    def is_static(self):
        return self.kind == "static"

    def is_prop(self):
        return self.kind in ("prop", "property", "setter")

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), [x.arg for x in a.kwonlyargs], (a.kwarg.arg if a.kwarg else None)

    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        return d

    def annotations(self):
        a = self.node.args
        return {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs if p.annotation is not None}

    def is_gen(self):
        if self._gen is None:
            self._gen = False
            if not isinstance(self.node, ast.Lambda):
                for n in walk_local(self.node):
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self._gen = True
        return self._gen


def walk_local(node):
    """Walk a function's own body without descending into nested scopes."""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    # do not walk decorators/args defaults: body only
    if hasattr(node, "body") and not isinstance(node, list):
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, fqn, node, mod):
        self.fqn, self.node, self.mod = fqn, node, mod
        self.name = node.name
        self.methods = {}
        self.props = set()
        self.setters = {}
        self.statics = set()
        self.clsmethods = set()
        self.attrs = {}  # class-level assignments name -> expr
        self.annots = {}
        self.base_fqns = []
        self.metaclass = None
        self._mro = None
        self._attr_types = None

    def __repr__(self):
        return "<C %s>" % self.fqn

    @property
    def file(self):
        return self.mod.path


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.defs = {}  # name -> FuncInfo|ClassInfo
        self.imports = {}  # name -> fqn
        self.globals = {}  # name -> list of value exprs
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.global_decl = set()
        self.stars = []


SKIP = ("/build/", "/.tox/", "/tests/", "_pb2.py", "_pb2_grpc.py", "/node_modules/", "/proto/src/opentelemetry/proto/")


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", ".tox", "node_modules", "__pycache__", "build", ".venv", "venv") and not d.endswith(".egg-info"))
        if "/src/" not in root + "/":
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                rel = os.path.relpath(p, repo)
                if rel.endswith(("_pb2.py", "_pb2_grpc.py")) or rel.startswith(("tests/", "opentelemetry-proto/", "docs/")):
                    continue
                if "/opencensus/gen" in rel or "/zipkin/proto/http/v2/gen" in rel:
                    continue
                out.append((p, rel))
    return out


class Program:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        self.by_path = {}
        self.classes = {}
        self.funcs = {}
        self._res = {}
        self._subs = None
        for p, rel in source_files(self.repo):
            name = rel.split("/src/", 1)[1][:-3].replace("/", ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            with open(p, encoding="utf-8") as f:
                src = f.read()
            if overlay and rel in overlay:
                src = overlay[rel]
            try:
                m = Module(name, rel, src)
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (rel, e))
            self.modules[name] = m
            self.by_path[rel] = m
        for m in self.modules.values():
            self._index(m)
        if len(self.modules) < 150:
            raise AnalysisError("only %d source modules found under %s" % (len(self.modules), self.repo))

    # -- indexing -----------------------------------------------------------
    def _index(self, m):
        self._index_body(m, m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                m.global_decl.update(n.names)

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m.name + "." + st.name, st, m)
                m.defs[st.name] = fi
                self.funcs[fi.fqn] = fi
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st, m.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(st, ast.ImportFrom):
                base = self._from_base(m, st)
                for a in st.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + "." + a.name
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.globals.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    m.globals.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._index_body(m, st.body)
                self._index_body(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._index_body(m, st.body)
                for h in st.handlers:
                    self._index_body(m, h.body)
                self._index_body(m, st.orelse)
                self._index_body(m, st.finalbody)
            elif isinstance(st, (ast.With,)):
                self._index_body(m, st.body)

    def _from_base(self, m, st):
        if not st.level:
            return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[: len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _index_class(self, m, node, prefix):
        ci = ClassInfo(prefix + "." + node.name, node, m)
        m.defs.setdefault(node.name, ci)
        if prefix == m.name:
            m.defs[node.name] = ci
        self.classes[ci.fqn] = ci

        def body(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(ci.fqn + "." + st.name, st, m, ci)
                    dn = [ast.unparse(d) for d in st.decorator_list]
                    if any(d.endswith(".setter") or d.endswith(".deleter") for d in dn):
                        fi.kind = "setter"
                        ci.setters[st.name] = fi
                        continue
                    if any("overload" in d for d in dn):
                        continue
                    if any(d in ("property", "cached_property", "functools.cached_property", "abc.abstractproperty") or d.endswith("abstractproperty") for d in dn):
                        fi.kind = "prop"
                        ci.props.add(st.name)
                    if "staticmethod" in dn:
                        fi.kind = "static"
                        ci.statics.add(st.name)
                    if "classmethod" in dn:
                        fi.kind = "classmethod"
                        ci.clsmethods.add(st.name)
                    ci.methods[st.name] = fi
                    self.funcs[fi.fqn] = fi
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            ci.attrs[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    ci.annots[st.target.id] = st.annotation
                    if st.value is not None:
                        ci.attrs[st.target.id] = st.value
                elif isinstance(st, ast.ClassDef):
                    self._index_class(m, st, ci.fqn)
                elif isinstance(st, ast.If):
                    body(st.body)
                    body(st.orelse)

        body(node.body)
        # property assigned: x = property(fget)
        for n, v in list(ci.attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property" and v.args and isinstance(v.args[0], ast.Name):
                g = ci.methods.get(v.args[0].id)
                if g is not None:
                    ci.methods[n] = g
                    ci.props.add(n)
        return ci

    # -- resolution ---------------------------------------------------------
    def canon(self, fqn, depth=0):
        """Canonical fqn of a dotted name, following re-exports."""
        if depth > 20:
            return fqn
        r = self._res.get(fqn)
        if r is not None:
            return r
        r = self._canon(fqn, depth)
        self._res[fqn] = r
        return r

    def _canon(self, fqn, depth):
        if fqn in self.modules or fqn in self.classes or fqn in self.funcs:
            if fqn in self.modules and "." in fqn:
                # a package attribute of the same name defined in the parent wins
                par, last = fqn.rsplit(".", 1)
                pm = self.modules.get(par)
                if pm and last in pm.defs:
                    return pm.defs[last].fqn
            return fqn
        if "." not in fqn:
            return fqn
        base, last = fqn.rsplit(".", 1)
        b = self.canon(base, depth + 1)
        m = self.modules.get(b)
        if m is not None:
            if last in m.defs:
                return m.defs[last].fqn
            if last in m.imports:
                t = m.imports[last]
                if t != fqn:
                    return self.canon(t, depth + 1)
                return fqn
            if last in m.globals:
                v = m.globals[last]
                if len(v) == 1 and last not in m.global_decl and isinstance(v[0], (ast.Name, ast.Attribute)):
                    d = dotted(v[0])
                    if d and d.split(".")[0] in (set(m.imports) | set(m.defs)):
                        t = self.resolve_dotted(m, d)
                        if t in self.classes or t in self.funcs:
                            return t
                return b + "." + last
            for s in m.stars:
                t = self.canon(s + "." + last, depth + 1)
                if t in self.classes or t in self.funcs or t in self.modules:
                    return t
                sm = self.modules.get(s)
                if sm and last in sm.globals:
                    return t
            return b + "." + last
        c = self.classes.get(b)
        if c is not None:
            f = self.find_method(c, last)
            if f is not None:
                return f.fqn
            for k in self.mro(c):
                if last in k.attrs:
                    return k.fqn + "." + last
                n = k.fqn + "." + last
                if n in self.classes:
                    return n
            return b + "." + last
        return b + "." + last

    def resolve_dotted(self, m, d):
        head, _, rest = d.partition(".")
        if head in m.defs:
            h = m.defs[head].fqn
        elif head in m.imports:
            h = m.imports[head]
        elif head in m.globals:
            h = m.name + "." + head
        elif hasattr(builtins, head):
            h = "builtins." + head
        else:
            h = None
            for s in m.stars:
                sm = self.modules.get(s)
                if sm and (head in sm.defs or head in sm.imports or head in sm.globals):
                    h = s + "." + head
            if h is None:
                return None
        return self.canon(h + ("." + rest if rest else ""))

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
            if isinstance(e, ast.Subscript):
                e = e.value
        d = dotted(e)
        return self.resolve_dotted(m, d) if d else None

    def cls(self, fqn):
        c = self.classes.get(self.canon(fqn))
        if c is None:
            raise AnalysisError("class %s not found (vanished anchor)" % fqn)
        return c

    def func(self, fqn):
        f = self.funcs.get(self.canon(fqn))
        if f is None:
            raise AnalysisError("function %s not found (vanished anchor)" % fqn)
        return f

    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisError("module %s not found (vanished anchor)" % name)
        return m

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            seqs = []
            bases = []
            for b in c.node.bases:
                f = self.resolve_expr(c.mod, b)
                if f and f in self.classes and self.classes[f] is not c:
                    bases.append(self.classes[f])
                c.base_fqns.append(f or ast.unparse(b))
            seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    if cand in s:
                        s.remove(cand)
            c._mro = out
        return c._mro

    def bases_ext(self, c):
        """All external base names over the MRO."""
        out = set()
        for k in self.mro(c):
            for b in k.node.bases:
                f = self.resolve_expr(k.mod, b)
                if f is None or f not in self.classes:
                    out.add(f or ast.unparse(b))
        return out

    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None and after in ms:
            ms = ms[ms.index(after) + 1:]
        for k in ms:
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs and isinstance(k.attrs[name], ast.Name) and k.attrs[name].id in k.methods:
                return k.methods[k.attrs[name].id]
        return None

    def is_prop(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return True
            if name in k.methods or name in k.attrs:
                return False
        return False

    def subclasses(self, c, strict=False):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in self.mro(k):
                    self._subs.setdefault(b.fqn, []).append(k)
        return [k for k in self._subs.get(c.fqn, []) if not strict or k is not c]

    def attr_types(self, c):
        """attr -> set of constructor fqns assigned to self.attr anywhere in the MRO."""
        if c._attr_types is None:
            t = {}
            for k in self.mro(c):
                for f in k.methods.values():
                    args = f.params()[0]
                    if not args:
                        continue
                    sn = args[0]
                    ann = f.annotations()
                    for n in ast.walk(f.node):
                        tg, val, an = None, None, None
                        if isinstance(n, ast.Assign):
                            tg, val = n.targets, n.value
                        elif isinstance(n, ast.AnnAssign):
                            tg, val, an = [n.target], n.value, n.annotation
                        if not tg:
                            continue
                        for x in tg:
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == sn:
                                s = t.setdefault(x.attr, set())
                                for v in ([val.body, val.orelse] if isinstance(val, ast.IfExp) else (val.values if isinstance(val, ast.BoolOp) else [val])):
                                    if isinstance(v, ast.Call):
                                        r = self.resolve_expr(k.mod, v.func)
                                        if r:
                                            s.add(r)
                                    elif isinstance(v, ast.Name) and v.id in ann:
                                        for r in self.ann_types(k.mod, ann[v.id]):
                                            s.add(r)
                                if an is not None:
                                    for r in self.ann_types(k.mod, an):
                                        s.add(r)
            c._attr_types = t
        return c._attr_types

    def ann_types(self, m, an):
        out = []
        if an is None:
            return out
        if isinstance(an, ast.Constant) and isinstance(an.value, str):
            try:
                an = ast.parse(an.value, mode="eval").body
            except SyntaxError:
                return out
        if isinstance(an, ast.Subscript):
            h = dotted(an.value)
            if h and h.split(".")[-1] in ("Optional", "Union", "Final", "ClassVar"):
                sl = an.slice.elts if isinstance(an.slice, ast.Tuple) else [an.slice]
                for x in sl:
                    out += self.ann_types(m, x)
                return out
            return self.ann_types(m, an.value)
        if isinstance(an, ast.BinOp):
            return self.ann_types(m, an.left) + self.ann_types(m, an.right)
        r = self.resolve_expr(m, an)
        if r:
            out.append(r)
        return out

    def const_global(self, fqn):
        """(True, value) if fqn names a module/class-level constant assigned once."""
        if "." not in fqn:
            return None
        b, n = fqn.rsplit(".", 1)
        m = self.modules.get(b)
        if m is not None and n in m.globals and len(m.globals[n]) == 1 and n not in m.global_decl:
            return self.const_expr(m, m.globals[n][0])
        c = self.classes.get(b)
        if c is not None and n in c.attrs and not self.is_enum(c):
            return self.const_expr(c.mod, c.attrs[n], c)
        return None

    def display_expr(self, fqn):
        """(module, expression) of a module- or class-level name assigned once
        and never modified in its module."""
        b, _, n = fqn.rpartition(".")
        m, e = self.modules.get(b), None
        if m is not None and n in m.globals and len(m.globals[n]) == 1 and n not in m.global_decl:
            e = m.globals[n][0]
        elif b in self.classes and n in self.classes[b].attrs and not self.is_enum(self.classes[b]):
            m, e = self.classes[b].mod, self.classes[b].attrs[n]
        if e is None:
            return None
        for x in ast.walk(m.tree):
            t = None
            if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                t = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update", "pop", "popitem", "clear", "setdefault", "append", "add", "extend", "remove", "discard"):
                t = x.func.value
            if isinstance(t, ast.Name) and t.id == n or isinstance(t, ast.Attribute) and t.attr == n:
                return None
        return m, e

    def made_once(self, fqn):
        """A module-level name bound once, to an instance of a known class."""
        b, _, n = fqn.rpartition(".")
        m = self.modules.get(b)
        if m is None or len(m.globals.get(n, ())) != 1 or n in m.global_decl:
            return False
        e = m.globals[n][0]
        return isinstance(e, ast.Call) and self.resolve_expr(m, e.func) in self.classes

    def is_enum(self, c):
        return any(x in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag") for x in self.bases_ext(c))

    def const_expr(self, m, e, c=None, depth=0):
        if depth > 12:
            return None
        if isinstance(e, ast.Constant):
            return (True, e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.const_expr(m, e.operand, c, depth + 1)
            return (True, -v[1]) if v and isinstance(v[1], (int, float)) else None
        if isinstance(e, ast.BinOp):
            a = self.const_expr(m, e.left, c, depth + 1)
            b = self.const_expr(m, e.right, c, depth + 1)
            if a and b:
                try:
                    op = type(e.op)
                    f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y if not isinstance(x, str) or y < 1000 else None, ast.Pow: lambda x, y: x ** y if abs(y) < 2000 else None, ast.LShift: lambda x, y: x << y if y < 2000 else None, ast.BitOr: lambda x, y: x | y, ast.FloorDiv: lambda x, y: x // y, ast.Div: lambda x, y: x / y}.get(op)
                    if f:
                        r = f(a[1], b[1])
                        return None if r is None else (True, r)
                except Exception:
                    return None
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            if c is not None and isinstance(e, ast.Name) and e.id in c.attrs:
                return self.const_expr(c.mod, c.attrs[e.id], c, depth + 1)
            d = dotted(e)
            r = self.resolve_dotted(m, d) if d else None
            if r:
                if r in self.classes or r in self.funcs or r in self.modules:
                    return None
                return self.const_global(r)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "float", "str") and len(e.args) >= 1 and not e.keywords:
            vs = [self.const_expr(m, a, c, depth + 1) for a in e.args]
            if all(vs):
                try:
                    return (True, getattr(builtins, e.func.id)(*[v[1] for v in vs]))
                except Exception:
                    return None
        return None

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.by_path):
            h.update(n.encode())
            h.update(self.by_path[n].src.encode())
        return h.hexdigest()[:16]


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def loc(fi_or_mod, node):
    p = getattr(fi_or_mod, "path", None) or fi_or_mod.mod.path
    return "%s:%s" % (p, getattr(node, "lineno", 0))
