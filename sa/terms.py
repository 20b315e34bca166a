"""Hash-consed terms: the abstract values of the data-flow analysis."""


class T:
    __slots__ = ("op", "a", "id", "atoms", "_s")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
EMPTY = frozenset()


def _atoms(x):
    if isinstance(x, T):
        return x.atoms
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            a = _atoms(y)
            if a:
                r = r | a if r else a
        return r
    return EMPTY


ATOMIC = ("ret", "mut", "phi", "unk", "new")


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        at = _atoms(a)
        if op in ("ret", "mut"):
            at = at | {a[1]}
        elif op == "phi":
            at = at | {("phi",) + a}
        t.atoms = at
        t._s = None
        _tab[k] = t
    return t


def unref(t):
    while t.op == "&":
        t = t.a[0]
    return t


def sub_terms(t, seen=None):
    """All subterms (including those inside tuples)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen


def short(p):
    p = p.replace("core::", "").replace("alloc::", "").replace("std::", "")
    return p


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    if d > 7:
        return "…"
    o, a = t.op, t.a
    if o == "const":
        s = repr(a[1]) if isinstance(a[1], str) and "str" in a[0] else str(a[1])
    elif o == "param":
        s = str(a[1])
    elif o == "fld":
        s = show(a[0], d + 1) + "." + str(a[1])
    elif o == "deref":
        s = "*" + show(a[0], d + 1)
    elif o == "agg":
        s = f"{short(a[0]).split('::')[-1]}::{a[1]}" + ("(" + ",".join(show(x, d + 1) for x in a[2]) + ")" if a[2] else "")
    elif o == "ref":
        s = "&" + show_loc(a[0], a[1], d + 1)
    elif o in ("ret", "mut"):
        s = f"{o}:{a[0]}@{a[1]}(" + ",".join(show(x, d + 1) for x in a[2:]) + ")"
    elif o == "pure":
        s = f"{a[0]}(" + ",".join(show(x, d + 1) for x in a[1:]) + ")"
    elif o == "bin":
        s = f"({show(a[1], d+1)} {a[0]} {show(a[2], d+1)})"
    elif o == "phi":
        s = f"φ{t.id}"
    else:
        s = o + "(" + ",".join(show(x, d + 1) for x in a) + ")"
    if d == 0:
        t._s = s
    return s


def show_loc(base, path, d=0):
    if base[0] == "L":
        b = f"L{base[1]}.{base[2]}"
    else:
        b = f"{base[0]}<{show(base[1], d)}>"
    return b + "".join(f".{p}" for p in path)


def const(ty, v):
    return mk("const", ty, v)


TRUE = const("bool", True)
FALSE = const("bool", False)
UNIT = mk("agg", "tuple", "", ())


def is_const(t):
    return t.op == "const"


CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}
VARIANTS = {}       # enum -> {discriminant: variant name}, filled by facts.Program
KNOWN = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}


def variant_const(a, c):
    """The constant c as it compares with the discriminant a: the variant's name"""
    if c.op == "const" and isinstance(c.a[1], int) and not isinstance(c.a[1], bool):
        while a.op == "cast":
            a = a.a[1]
        if a.op == "discr" and a.a[1]:
            n = VARIANTS.get(a.a[1], {}).get(str(c.a[1]))
            if n is not None:
                return a, const("discr", n)
        if a.op == "const" and a.a[0] == "discr" and a.a[1] in KNOWN:
            return const("isize", KNOWN[a.a[1]]), const("isize", c.a[1])
    return None


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def cmp_term(op, a, b):
    """Comparisons are normalised to Eq / Lt with negation."""
    if a.op == "const" and b.op == "const" and type(a.a[1]) == type(b.a[1]) and a.a[1] is not None:
        x, y = a.a[1], b.a[1]
        try:
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            return TRUE if r else FALSE
        except TypeError:
            pass
    if op == "Ne":
        return neg(cmp_term("Eq", a, b))
    if op == "Gt":
        return cmp_term("Lt", b, a)
    if op == "Ge":
        return neg(cmp_term("Lt", a, b))
    if op == "Le":
        return neg(cmp_term("Lt", b, a))
    if op == "Eq":
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            r = variant_const(x, y)
            if r is not None:
                return cmp_term("Eq", *r)
        if a.op == "const" and a.a[0] == "bool":
            return b if a.a[1] else neg(b)
        if b.op == "const" and b.a[0] == "bool":
            return a if b.a[1] else neg(a)
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.op == "&" and b.op == "&":
            return cmp_term("Eq", a.a[0], b.a[0])
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[0] in ("core::option::Option", "core::result::Result"):
            # the same variant
            return TRUE if not a.a[2] else cmp_term("Eq", a.a[2][0], b.a[2][0])
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and not x.a[2] and x.a[1] and x.a[0] not in ("tuple", "array", "closure", "other") and y.op != "agg":
                return cmp_term("Eq", mk("discr", y, x.a[0]), const("discr", x.a[1]))
        if a.id > b.id:
            a, b = b, a
        return mk("bin", "Eq", a, b)
    if op == "Lt" and a is b:
        return FALSE
    return mk("bin", op, a, b)


ARITH = {
    "Add": lambda x, y: x + y,
    "Sub": lambda x, y: x - y,
    "Mul": lambda x, y: x * y,
    "BitAnd": lambda x, y: x & y,
    "BitOr": lambda x, y: x | y,
    "BitXor": lambda x, y: x ^ y,
    "Shl": lambda x, y: x << y,
    "Shr": lambda x, y: x >> y,
    "Div": lambda x, y: x // y if y and x >= 0 and y > 0 else None,
    "Rem": lambda x, y: x % y if y and x >= 0 and y > 0 else None,
}


def bin_term(op, a, b):
    op = op.replace("Unchecked", "")
    if op in CMP:
        return cmp_term(op, a, b)
    ca, cb = a.op == "const", b.op == "const"
    if ca and cb and a.a[0] == "bool" and b.a[0] == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
        return TRUE if bool(ARITH[op](a.a[1], b.a[1])) else FALSE
    if op in ("BitAnd", "BitOr"):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y if op == "BitAnd" else TRUE
            if x is FALSE:
                return FALSE if op == "BitAnd" else y
    if ca and cb and isinstance(a.a[1], int) and isinstance(b.a[1], int) and op in ARITH:
        r = ARITH[op](a.a[1], b.a[1])
        if r is not None:
            return const(a.a[0], r)
    if op in ("Add", "Mul") and a.id > b.id:
        a, b = b, a
    return mk("bin", op, a, b)
