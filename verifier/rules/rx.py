"""Static facts about regular-expression literals (via the stdlib parser)."""
try:
    from re import _parser as sre
    from re import _constants as K
except ImportError:  # pragma: no cover
    import sre_parse as sre
    import sre_constants as K

HEX = set("0123456789abcdefABCDEF")


def parse(pattern):
    try:
        return sre.parse(pattern)
    except Exception:
        return None


def group(pattern, n):
    """Sub-pattern of capturing group n (0 = whole)."""
    p = parse(pattern)
    if p is None:
        return None
    if n == 0:
        return p

    def find(seq):
        for op, av in seq:
            if op is K.SUBPATTERN:
                if av[0] == n:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif op is K.BRANCH:
                for b in av[1]:
                    r = find(b)
                    if r is not None:
                        return r
            elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
                r = find(av[2])
                if r is not None:
                    return r
        return None

    return find(p)


def width(sub):
    if sub is None:
        return None
    lo, hi = sub.getwidth()
    return int(lo), int(hi)


def chars(sub):
    """Set of characters the sub-pattern can match, or None when unbounded."""
    out = set()
    for op, av in sub:
        if op is K.LITERAL:
            out.add(chr(av))
        elif op is K.IN:
            for o2, a2 in av:
                if o2 is K.LITERAL:
                    out.add(chr(a2))
                elif o2 is K.RANGE:
                    if a2[1] - a2[0] > 300:
                        return None
                    out |= {chr(x) for x in range(a2[0], a2[1] + 1)}
                elif o2 is K.CATEGORY and a2 is K.CATEGORY_DIGIT:
                    out |= set("0123456789")
                else:
                    return None
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            c = chars(av[2])
            if c is None:
                return None
            out |= c
        elif op is K.SUBPATTERN:
            c = chars(av[3])
            if c is None:
                return None
            out |= c
        elif op is K.BRANCH:
            for b in av[1]:
                c = chars(b)
                if c is None:
                    return None
                out |= c
        elif op is K.AT:
            continue
        else:
            return None
    return out


def is_hex(sub):
    c = chars(sub) if sub is not None else None
    return c is not None and c <= HEX


def anchored(pattern):
    p = parse(pattern)
    if p is None or len(p) == 0:
        return False
    return p[0][0] is K.AT and p[len(p) - 1][0] is K.AT
