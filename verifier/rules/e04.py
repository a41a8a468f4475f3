"""E04: attribute values are encoded by their exact type."""
import builtins

from .ox import *

NOTE = "Type dispatch of the value encoder decided for each accepted type against the real class hierarchy; coverage of every member of sequences and mappings and forwarding of the null switch in the recursion; exception containment inside the attribute loop and around every value encoded outside it."

AV, KV = COMMON + "AnyValue", COMMON + "KeyValue"
SCALAR = {"bool": "bool_value", "str": "string_value", "int": "int_value", "float": "double_value", "bytes": "bytes_value"}
ABC = {
    "collections.abc.Sequence": ("list", "tuple", "str", "bytes", "range"), "typing.Sequence": ("list", "tuple", "str", "bytes", "range"),
    "collections.abc.Mapping": ("dict",), "typing.Mapping": ("dict",), "collections.abc.Iterable": ("list", "tuple", "str", "bytes", "dict"), "collections.abc.Collection": ("list", "tuple", "str", "bytes", "dict"),
    "collections.abc.Sized": ("list", "tuple", "str", "bytes", "dict"), "collections.abc.Container": ("list", "tuple", "str", "bytes", "dict"), "collections.abc.Hashable": ("bool", "int", "float", "str", "bytes", "tuple"),
    "numbers.Integral": ("int", "bool"), "numbers.Number": ("int", "bool", "float"), "numbers.Real": ("int", "bool", "float"), "collections.abc.MutableSequence": ("list",), "collections.abc.MutableMapping": ("dict",),
    "collections.abc.ByteString": ("bytes",),
}
OTHER = "other"


def run(c):
    R = Roles(c)
    V = R.entry
    if V is None:
        c.ob("dispatch", "value encoder", False, O, "nothing encodes a value by its type")
        return
    for t in SCALAR:
        scalar(c, R, V, t)
    for t in ("list", "tuple"):
        sequence(c, R, V, t)
    mapping(c, R, V)
    nothing(c, R, V)
    other(c, R, V)
    for n in sorted(R.attrs):
        attributes(c, R, R.fns[n])
    c.ob("attributes", "attribute encoder", bool(R.attrs), V.where, "nothing encodes attributes one by one")
    outside(c, R)
    c.floor("scalar", 5)
    c.floor("sequence", 2)
    c.floor("attributes", 1)


def sub(t, cls):
    """Is every value of exactly this type an instance of the class?"""
    n = cls.partition("builtins.")[2] if cls.startswith("builtins.") else None
    if n is not None:
        k, b = getattr(builtins, t, None), getattr(builtins, n, None)
        return isinstance(k, type) and isinstance(b, type) and issubclass(k, b)
    if cls in ABC:
        return t in ABC[cls]
    return None


def o_type(pred, t):
    """The value is of exactly this type."""
    def one(k):
        if k.op == "tup":
            rs = [one(x) for x in k.args]
            return True if True in rs else None if None in rs else False
        return sub(t, k.args[0]) if k.op == "glob" else None

    def f(a, x, st):
        if x.op == "isinst" and pred(x.args[0]):
            return one(x.args[1])
        if x.op == "isnone" and pred(x.args[0]):
            return t == "NoneType"
        if x.op in ("eq", "is"):
            for p, q in (x.args, x.args[::-1]):
                if is_call(fqn="builtins.type")(p) and call_args(p) and pred(call_args(p)[0]) and q.op == "glob":
                    return q.args[0] == "builtins." + t
                if p.op == "attr" and p.args[1] == "__class__" and pred(p.args[0]) and q.op == "glob":
                    return q.args[0] == "builtins." + t
        if x.op == "in" and is_call(fqn="builtins.type")(x.args[0]) and call_args(x.args[0]) and pred(call_args(x.args[0])[0]) and x.args[1].op == "tup":
            return any(q.op == "glob" and q.args[0] == "builtins." + t for q in x.args[1].args)
        if x.op == "call" and is_call(fqn="builtins.issubclass")(x):
            return None
        return None
    return f


def name0(f):
    return f.params()[0][0]


def analyse(c, R, V, *o):
    pol = Policy(mods=(R.pkg,), deny={V.fqn} | R.attrs)
    return c.an(V, None, policy=pol, oracle=oracle(*o))


def nullable(V):
    """Parameters besides the value: switches that must be passed on."""
    p = V.params()
    return (p[0] + p[2])[1:]


def result(c, rule, con, a, V, pred, what):
    rs = [r for r in a.rets() if r.instr.frame.parent is None]
    ls = [l for r in rs for l in a.leaves(r.t["val"])]
    if not rs:
        return c.ob(rule, con, False, V.where, "is never encoded")
    bad = [l for l in ls if not pred(l)]
    return c.ob(rule, con, not bad, rs[0].where, "is encoded as %s, not as %s" % ((bad or [""])[0], what))


def only(a, l, field, pred):
    """An AnyValue with exactly this field, of a value satisfying pred."""
    if not made_by(AV)(l):
        return False
    fs = fields(a, l)
    return set(fs) == {field} and len(fs[field]) == 1 and all(pred(x) for x in a.leaves(fs[field][0][1]))


def same(v, t):
    return lambda l: v(l) or is_call(fqn="builtins." + t)(l) and len(call_args(l)) == 1 and v(call_args(l)[0])


def scalar(c, R, V, t):
    v = is_param(name0(V))
    a = analyse(c, R, V, o_type(v, t))
    result(c, "scalar", t, a, V, lambda l: only(a, l, SCALAR[t], same(v, t)), SCALAR[t])


def switches(V, val):
    """Every switch of the value encoder is on / off."""
    ps = [is_param(n) for n in nullable(V)]
    on = lambda t: any(p(t) for p in ps)

    def f(a, x, st):
        if x.op == "eq" and on(x.args[0]) and is_const(x.args[1]):
            return x.args[1].args[0] is val or x.args[1].args[0] == val
        if x.op == "is" and on(x.args[0]) and is_const(x.args[1]):
            return x.args[1].args[0] is val
        if x.op == "istrue" and on(x.args[0]):
            return val
        if x.op == "isnone" and on(x.args[0]):
            return False
        return val if on(x) else None
    return f


def passed(c, a, R, V, l, val):
    for i, n in enumerate(nullable(V)):
        g = R.given(l, i + 1)
        if g is None or not all(is_param(n)(y) or is_const(y) and y.args[0] is val for y in a.leaves(g)):
            return False
    return True


def sequence(c, R, V, t):
    v = is_param(name0(V))
    each = elem_of(v)
    for val in (True, False):
        a = analyse(c, R, V, o_type(v, t), switches(V, val), *([o_isnone(each, False)] if val else []))
        item = lambda l: l.op == "call" and l.args[1].op == "glob" and l.args[1].args[0] == V.fqn and all_leaves(a, R.given(l), each) and passed(c, a, R, V, l, val)
        con = "%s of values%s" % (t, " and nulls" if val else "")
        arrays(c, "sequence", con, a, V, v, item)
    a = analyse(c, R, V, o_type(v, t), switches(V, True), o_isnone(each, True), o_truth(each, False))
    item = lambda l: made_by(AV)(l) and not fields(a, l)
    arrays(c, "sequence", t + " of nulls", a, V, v, item)


def arrays(c, rule, con, a, V, v, item):
    def f(l):
        if not made_by(AV)(l):
            return False
        fs = fields(a, l)
        if set(fs) == {"array_value"}:
            xs = [x for h, y, i in fs["array_value"] for x in a.leaves(y)]
            if len(xs) != 1 or not made_by(COMMON + "ArrayValue")(xs[0]):
                return False
            vs = fields(a, xs[0]).get("values", [])
        elif set(fs) == {"array_value.values"}:
            vs = fs["array_value.values"]
        else:
            return False
        return filled(a, vs, v, item)
    result(c, rule, con, a, V, f, "a list of every member")


def filled(a, vs, src, item):
    sets = [(x, i) for h, x, i in vs if h == "set"]
    items = [(None, x, i) for h, x, i in vs if h == "item"]
    if len(sets) + len(items) != len(vs) or bool(items) == bool(sets) or len(sets) > 1:
        return False
    if sets:
        return mapped(a, sets[0][0], src, item, sets[0][1]) is None
    return mapped_into(a, items, src, item) is None


def mapping(c, R, V):
    v = is_param(name0(V))
    src = either(v, method_of("items", v))
    key = lambda t: t.op == "keyof" and v(t.args[0])
    for val in (True, False):
        a = analyse(c, R, V, o_type(v, "dict"), switches(V, val))

        def item(l):
            if not made_by(KV)(l):
                return False
            fs = fields(a, l)
            g = lambda n: [x for h, y, i in fs.get(n, []) for x in a.leaves(y)]
            return set(fs) == {"key", "value"} and all(same(key, "str")(x) for x in g("key")) and all(x.op == "call" and x.args[1].op == "glob" and x.args[1].args[0] == V.fqn and all_leaves(a, R.given(x), elem_of(v)) and passed(c, a, R, V, x, val) for x in g("value")) and bool(g("key")) and bool(g("value"))

        def f(l):
            if not made_by(AV)(l):
                return False
            fs = fields(a, l)
            if set(fs) == {"kvlist_value"}:
                xs = [x for h, y, i in fs["kvlist_value"] for x in a.leaves(y)]
                if len(xs) != 1 or not made_by(COMMON + "KeyValueList")(xs[0]):
                    return False
                vs = fields(a, xs[0]).get("values", [])
            elif set(fs) == {"kvlist_value.values"}:
                vs = fs["kvlist_value.values"]
            else:
                return False
            return filled(a, vs, src, item)
        result(c, "mapping", "mapping%s" % (" with nulls" if val else ""), a, V, f, "a list of every key with its value")


def nothing(c, R, V):
    """Where nulls are allowed, null is encoded as an empty value."""
    v = is_param(name0(V))
    if not nullable(V):
        return
    a = analyse(c, R, V, o_isnone(v, True), o_truth(v, False), o_type(v, "NoneType"), switches(V, True))
    result(c, "null", "null", a, V, lambda l: is_const(l) and l.args[0] is None or made_by(AV)(l) and not fields(a, l), "an empty value")


def other(c, R, V):
    """A value of any other type is an error the caller can report."""
    v = is_param(name0(V))
    a = analyse(c, R, V, o_isinst(v, False), o_isnone(v, False), o_type(v, OTHER), switches(V, True))
    rs = [r for r in a.rets() if r.instr.frame.parent is None]
    c.ob("other", "a value of another type", not rs and bool(a.exit_blocks(ret=False)), rs[0].where if rs else V.where, "is silently accepted")


def is_exc(e):
    return isinstance(e.label, tuple) and e.label[0] == "exc"


def attributes(c, R, f):
    """Each attribute is encoded by itself; a failing one is reported and the
    loop goes on."""
    p = is_param(f.params()[0][0])
    src = either(p, method_of("items", p))
    key = lambda t: t.op == "keyof" and p(t.args[0])
    a = c.an(f, None, policy=Policy(mods=(R.pkg,), deny={R.entry.fqn} | (R.attrs - {f.fqn})), oracle=o_present(p))

    def item(l):
        if not made_by(KV)(l):
            return False
        fs = fields(a, l)
        g = lambda n: [x for h, y, i in fs.get(n, []) for x in a.leaves(y)]
        return bool(g("key")) and bool(g("value")) and all(same(key, "str")(x) for x in g("key")) and all(R.is_value(elem_of(p))(a, x) for x in g("value"))
    rs = [r for r in a.rets() if r.instr.frame.parent is None]
    logs = [r.instr for r in a.calls(name=("exception", "error", "warning"))]
    for r in rs:
        for l in choices(a, r.t["val"]):
            if not c.ob("attributes", "list", l.op == "new" and bool(a.contents.get(l)), r.where, "returns %s, not the list of encoded attributes" % l):
                continue
            bad = [x for k, v, i in a.contents[l] for x in a.leaves(v) if not item(x)]
            c.ob("attributes", "entry", not bad, r.where, "an entry is %s" % (bad or [""])[0])
            ins = [i for k, v, i in a.contents[l]]
            lps = [lp for lp in a.events("loop") if ordered(a, lp.t["iter"], src) and any(i.block in loop_body(a, lp) for i in ins)]
            if not c.ob("attributes", "loop", len(lps) == 1, f.where, "no loop over every attribute fills the list"):
                continue
            lp = lps[0]
            body = loop_body(a, lp)
            d = loop_body_start(lp)
            direct = a.path_avoiding(d, ins, [lp.block], skip_first=False, edges=lambda e: not is_exc(e)) if not any(i.block is d for i in ins) else None
            c.ob("attributes", "every", direct is None, lp.where, "an attribute is left out without an error: %s" % witness(a, direct))
            silent = loop_skips(a, lp, ins + logs)
            c.ob("attributes", "reported", silent is None, lp.where, "an attribute that cannot be encoded is lost without a report: %s" % witness(a, silent))
            br = [e for e in loop_breaks(a, lp, ok_exc=False) if not exc_to_exit(a, e)]
            c.ob("attributes", "goes-on", not br, lp.where, "the loop ends at an attribute that cannot be encoded")
            for r2 in a.calls():
                if r2.instr.block in body and (r2.instr.fqn == R.entry.fqn or r2.instr.fqn == KV):
                    esc = [k for x, k in a.escaping() if x is r2.instr and k == ANY]
                    c.ob("attributes", "contained", not esc, r2.where, "an attribute that cannot be encoded fails the others")


def exc_to_exit(a, e):
    """Only exceptions that are no Exception leave this way."""
    return is_exc(e) and not returns_from(a, e.dst)


def outside(c, R):
    """A value encoded anywhere else is contained too."""
    n = 0
    for f in sorted(R.fns.values(), key=lambda f: f.fqn):
        if f.fqn in R.values or f.fqn in R.attrs or not (R.refs[f.fqn] & R.values):
            continue
        n += 1
        a = c.an(f, None, policy=R.policy())
        esc = {x: k for x, k in a.escaping() if k == ANY}
        for r in a.calls():
            if r.instr.fqn in R.values:
                c.ob("outside", f.fqn, r.instr not in esc, r.where, "a value that cannot be encoded fails the whole batch")
                e = [x for x in exc_edges(r) if x.label[1] == ANY]
                logs = a.calls(name=("exception", "error", "warning"))
                p = path_from(a, e, logs, a.exit_blocks(exc=False))
                c.ob("outside-report", f.fqn, p is None, r.where, "a value that cannot be encoded is lost without a report")
