"""S01: semantic-convention names match their values."""
import ast
import os
import re
from .lib import *

NOTE = "Exhaustive table analysis of every constant of the semantic-convention package (value resolved through the syntax tree) against the identifier, its namespace, its twins in sibling groups and the registry of release 1.31.0 recorded in verifier/semconv.txt (for keys still present); argument-provenance dataflow over every instrument factory."

ROOT = "opentelemetry.semconv"
REGISTRY = os.path.join(os.path.dirname(os.path.dirname(__file__)), "semconv.txt")
KINDS = {"counter": ("create_counter", "create_observable_counter"), "updowncounter": ("create_up_down_counter", "create_observable_up_down_counter"), "histogram": ("create_histogram",), "gauge": ("create_gauge", "create_observable_gauge")}
# an identifier that deliberately repeats another's value
ALIASES = {("GenAiTokenTypeValues", "COMPLETION"): "OUTPUT"}


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def spelled(s):
    return re.sub(r"[^A-Z0-9]", "_", s.upper())


def group(mod):
    """The convention group a module belongs to."""
    rel = mod.name[len(ROOT) + 1:]
    if rel.startswith("_incubating."):
        return ".".join(rel[1:].split(".")[:2])
    if rel in ("trace", "resource", "metrics"):
        return "legacy"
    return "stable"


def doc_after(body, i):
    if i + 1 < len(body) and isinstance(body[i + 1], ast.Expr) and isinstance(body[i + 1].value, ast.Constant) and isinstance(body[i + 1].value.value, str):
        return body[i + 1].value.value
    return ""


def table(prog):
    """[(module, class or "", name, value or None, docstring, line, is_enum)]"""
    out = []
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if not m.name.startswith(ROOT + ".") or m.name.endswith(".version") or m.name == ROOT + ".schemas":
            continue
        groups = [("", m.tree.body, False)]
        for s in m.tree.body:
            if isinstance(s, ast.ClassDef):
                k = prog.classes.get(m.name + "." + s.name)
                groups.append((s.name, s.body, bool(k) and prog.is_enum(k)))
        for cn, body, en in groups:
            k = prog.classes.get(m.name + "." + cn) if cn else None
            for i, s in enumerate(body):
                t, v = (s.targets[0], s.value) if isinstance(s, ast.Assign) and len(s.targets) == 1 else (s.target, s.value) if isinstance(s, ast.AnnAssign) else (None, None)
                if not isinstance(t, ast.Name) or v is None or not re.fullmatch(r"[A-Z][A-Z0-9_]*", t.id):
                    continue
                r = prog.const_expr(m, v, k)
                out.append((m, cn, t.id, r[1] if r else None, doc_after(body, i), s.lineno, en))
    return out


def registry():
    out = {}
    with open(REGISTRY, encoding="utf-8") as f:
        for line in f:
            if line.startswith("#") or not line.strip():
                continue
            g, cn, n, v, kind, unit = line.rstrip("\n").split("\t")
            out[(g, cn, n)] = (int(v[1:]) if v.startswith("=") else v, kind or None, unit or None)
    return out


def doc_of(d):
    k = re.search(r"^\s*Instrument:\s*(\w+)\s*$", d, re.M)
    u = re.search(r"^\s*Unit:\s*(\S.*?)\s*$", d, re.M)
    return k and k.group(1), u and u.group(1)


def run(c):
    rows = table(c.prog)
    reg = registry()
    newest(c)
    names(c, rows, reg)
    unique(c, rows)
    twins(c, rows)
    factories(c, rows, reg)
    c.floor("spelled", 1700)
    c.floor("registered", 1500)
    c.floor("unique", 120)
    c.floor("agrees-with-twin", 60)
    c.floor("schema", 10)
    c.floor("instrument", 80)


def newest(c):
    k = c.prog.cls(ROOT + ".schemas.Schemas")
    for s in k.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            n = s.targets[0].id
            v = c.prog.const_expr(k.mod, s.value, k)
            m = re.fullmatch(r"V(\d+)_(\d+)_(\d+)", n)
            ok = bool(m and v) and v[1] == "https://opentelemetry.io/schemas/" + ".".join(m.groups())
            c.ob("schema", k.fqn + "." + n, ok, "%s:%d" % (k.mod.name, s.lineno), "the schema version's URL is %r" % (v and v[1],))
    for cn in ("trace.SpanAttributes", "resource.ResourceAttributes", "metrics.MetricInstruments"):
        k = c.prog.cls(ROOT + "." + cn)
        v = c.prog.const_expr(k.mod, k.attrs["SCHEMA_URL"], k) if "SCHEMA_URL" in k.attrs else None
        c.ob("schema", k.fqn + ".SCHEMA_URL", bool(v) and v[1] == "https://opentelemetry.io/schemas/1.21.0", k.mod.name, "the legacy conventions are of schema 1.21.0, not %r" % (v and v[1],))


def names(c, rows, reg):
    for m, cn, n, v, d, line, en in rows:
        if n == "SCHEMA_URL":
            continue
        at, what = "%s:%d" % (m.name, line), ".".join(x for x in (m.name, cn, n) if x)
        known = reg.get((group(m), cn, n))
        if v is None:
            c.ob("spelled", what, False, at, "the value is not a constant")
            continue
        if isinstance(v, str) and (cn, n) not in ALIASES:
            if en:
                # HTTP_1_0 = "1.0": the last words of the identifier
                ok = norm(n) == norm(v) or norm(n).endswith(norm(v)) and not re.search("[A-Za-z]", v)
            else:
                ok = spelled(v) in (n, n[:-9] if n.endswith("_TEMPLATE") else n)
                f = m.name.rpartition(".")[2]
                if f.endswith("_attributes") and not cn and f != "other_attributes":
                    ok = ok and v.startswith(f[:-11] + ".")
            c.ob("spelled", what, ok, at, "the value %r is not the name the identifier spells" % v)
        if known is not None:
            c.ob("registered", what, known[0] == v and type(known[0]) is type(v), at, "the conventions register %r under this identifier, not %r" % (known[0], v))
        if known is not None and known[1]:
            k, u = doc_of(d)
            if k and u:
                c.ob("registered", what + " (instrument)", (k, u) == known[1:], at, "the conventions register a %s in %s, not a %s in %s" % (known[1], known[2], k, u))


def unique(c, rows):
    by = {}
    for m, cn, n, v, d, line, en in rows:
        by.setdefault((m.name, cn), []).append((n, v, line))
    for (mn, cn), l in sorted(by.items()):
        seen = {}
        for n, v, line in l:
            if ALIASES.get((cn, n)):
                continue
            o = seen.setdefault((type(v), v), n)
            if o != n:
                c.ob("unique", "%s %s %s/%s" % (mn, cn, o, n), False, "%s:%d" % (mn, line), "%s and %s share the value %r" % (o, n, v))
        c.ob("unique", "%s %s (%d names)" % (mn, cn, len(l)), True, mn, "")
        ns = [n for n, v, line in l]
        dup = sorted({n for n in ns if ns.count(n) > 1})
        c.ob("unique", "%s %s names" % (mn, cn), not dup, mn, "defined twice: %s" % ", ".join(dup))


def twins(c, rows):
    """The stable conventions and their incubating twins."""
    inc = {}
    for m, cn, n, v, d, line, en in rows:
        if group(m).startswith("incubating"):
            inc[(m.name.split(".")[3], cn, n)] = (m, v)
    for m, cn, n, v, d, line, en in rows:
        if group(m) != "stable":
            continue
        t = inc.get((m.name.split(".")[2], cn, n))
        if t:
            c.ob("agrees-with-twin", ".".join(x for x in (m.name, cn, n) if x), t[1] == v and type(t[1]) is type(v), "%s:%d" % (m.name, line), "stable %r, incubating %r" % (v, t[1]))


def factories(c, rows, reg):
    docs = {(m.name, n): (doc_of(d), v) for m, cn, n, v, d, line, en in rows if not cn}
    for f in sorted(c.prog.funcs.values(), key=lambda f: f.fqn):
        if f.cls is not None or not f.mod.name.startswith(ROOT + "._incubating.metrics.") or not f.node.name.startswith("create_") or not f.params():
            continue
        n = f.node.name[len("create_"):].upper()
        (kind, unit), value = docs.get((f.mod.name, n), ((None, None), None))
        known = reg.get(("incubating.metrics", "", n))
        if kind is None and known:
            kind, unit = known[1], known[2]
        what = f.fqn
        if value is None or kind is None:
            c.ob("instrument", what, False, f.where, "no metric constant %s with an instrument and unit belongs to the factory" % n)
            continue
        ps = f.params()[0]
        a = c.an(f, None, policy=Policy(mods=(ROOT,)))
        ls = [l for r in a.rets() for l in a.leaves(r.t["val"])]
        bad = "" if ls else "nothing is returned"
        for l in ls:
            cal = callee_of(l)
            if cal is None or cal.op != "attr" or not is_param(ps[0])(cal.args[0]):
                bad = "the result is not an instrument of the meter"
                break
            kw = dict(l.args[3] if l.op == "call" else l.args[2])
            pos = call_args(l)
            obs = cal.args[1].startswith("create_observable_")
            for i, x in enumerate(pos):
                kw.setdefault((("name", "callbacks", "unit", "description") if obs else ("name", "unit", "description"))[i], x)
            if cal.args[1] not in KINDS.get(kind, ()):
                bad = "a %s is made by %s" % (kind, cal.args[1])
            elif kw.get("name") is not a.T.const(value):
                bad = "the instrument is named %s, not %r" % (kw.get("name"), value)
            elif kw.get("unit") is not a.T.const(unit):
                bad = "the instrument's unit is %s, not %r" % (kw.get("unit"), unit)
            elif obs != ("callbacks" in ps) or obs and not (kw.get("callbacks") is not None and is_param("callbacks")(kw["callbacks"])):
                bad = "the callbacks do not reach the instrument"
        c.ob("instrument", what, not bad, f.where, bad)
    made = {f.node.name for f in c.prog.funcs.values() if f.cls is None and f.mod.name.startswith(ROOT + "._incubating.metrics.")}
    for (g, cn, n), (v, kind, unit) in sorted(reg.items()):
        if g == "incubating.metrics" and kind and ("create_" + n.lower()) not in made and any(r[2] == n and group(r[0]) == g for r in rows):
            c.ob("instrument", "create_" + n.lower(), False, ROOT + "._incubating.metrics", "the metric has no factory")
