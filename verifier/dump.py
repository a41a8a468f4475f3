"""Debug aid: python3 -m verifier.dump <function fqn> [class fqn]"""
import sys
from .model import Program
from .flow import Analysis, show


def main():
    p = Program()
    f = p.func(sys.argv[1])
    c = p.cls(sys.argv[2]) if len(sys.argv) > 2 else f.cls
    a = Analysis(p, f, c)
    for r in a.recs:
        i = r.instr
        if i.kind in ("mov",):
            continue
        ops = {k: v for k, v in r.t.items() if v is not None and k not in ("callee",)}
        print("B%d%s %s %s %s | %s %s %s -> %s | locks=%s facts=%s" % (i.block.id, "" , i.kind, i.name or "", i.fqn or "", ops, r.args if i.kind != "op" else "", r.kw or "", r.dst, list(r.locks), {k: v for k, v in list(r.facts.items())[:8]}))
        if i is i.block.instrs[-1]:
            print("    =>", [(e.dst.id, e.label, bool(a.edge_out.get(e))) for e in i.block.succs])
    print({k: b.id for k, b in a.b.exits.items()})


if __name__ == "__main__":
    main()
