"""Path-sensitive data-flow analysis (property simulation) over the dumped MIR.

The analysis walks the interprocedural control-flow graph of a root function.
Local callees (and the std combinators on Option/Result) are analysed in their
calling context, so extracting or merging helpers does not change what is seen.
States that reach a block are joined unless they differ in the typestate of a
rule or in the known variant of a live enum/bool, which keeps the outcome of
`match`, `?`, `&&` and boolean helpers apart.
"""
import heapq
from terms import *
import facts as F


class Desc:
    """What is called."""
    __slots__ = ("path", "trait", "method", "res", "inst", "targs", "ctor", "rustcall", "virtual", "name", "tail")

    def __init__(self, o):
        self.path = o["path"]
        self.trait = o.get("trait")
        self.method = o.get("method")
        self.res = o.get("res")
        self.inst = o.get("inst")
        self.targs = o.get("targs", [])
        self.ctor = o.get("ctor")
        self.rustcall = o.get("rustcall", False)
        self.virtual = o.get("virtual", False)
        # Trait::method for trait calls, Type::method / fn otherwise
        self.name = short_name(self.path)
        self.tail = self.path.rsplit("::", 1)[-1]

    def __repr__(self):
        return f"Desc({self.path})"


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">":
            if i and p[i - 1] == "-":
                pass
            else:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_sn = {}


def short_name(p):
    """'tftp_dus::server::connection::Connection::<B>::send' -> 'Connection::send'"""
    r = _sn.get(p)
    if r is not None:
        return r
    if p.startswith("<"):
        # <impl Trait for X>::m or <X as Trait>::m
        d = 0
        for i, c in enumerate(p):
            if c == "<":
                d += 1
            elif c == ">" and p[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        if " as " in inner:
            ty, tr = inner.split(" as ", 1)
            r = strip_generics(tr).split("::")[-1] + rest.replace("::", "::", 1)
            r = strip_generics(tr).split("::")[-1] + "::" + rest.lstrip(":").split("::")[-1]
        else:
            r = strip_generics(inner).split("::")[-1] + "::" + rest.lstrip(":").split("::")[-1]
    else:
        parts = [x for x in strip_generics(p).split("::") if x and not x.startswith("{impl")]
        r = "::".join(parts[-2:])
    _sn[p] = r
    return r


class State:
    __slots__ = ("mem", "facts", "neg", "ts")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.neg = {}
        self.ts = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.neg = dict(self.neg)
        s.ts = dict(self.ts)
        return s


class Ctx:
    __slots__ = ("id", "parent", "fn", "callbb", "depth", "rpokey", "ret", "fns", "optional")

    def __init__(self, id, parent, fn, callbb, ret, optional=False):
        self.id = id
        self.parent = parent
        self.fn = fn
        self.callbb = callbb
        self.ret = ret
        self.optional = optional
        self.depth = parent.depth + 1 if parent else 0
        self.rpokey = (parent.rpokey + (parent.fn.rpo[callbb],)) if parent else ()
        self.fns = (parent.fns | {fn.id}) if parent else frozenset({fn.id})

    def chain(self):
        r = []
        c = self
        while c:
            r.append(c.fn.path)
            c = c.parent
        return r[::-1]


IDENT_METHODS = {
    "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
    "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "String::as_bytes", "str::as_bytes", "String::as_mut_str",
    "slice::as_ref", "PathBuf::as_path", "slice::as_mut",
    "str::as_ref", "String::as_ref", "Box::as_ref", "Box::as_mut", "Path::as_path", "array::as_slice",
    "string::as_str",
}
LEN = {"Vec::len", "slice::len", "str::len", "String::len", "VecInner::len", "array::len", "StringInner::len", "HashMap::len",
       "BTreeMap::len", "IndexMap::len", "Map::len"}
IS_EMPTY = {"Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "BTreeMap::is_empty", "VecInner::is_empty",
            "HashMap::is_empty", "IndexMap::is_empty"}
IMPURE_TAIL = {
    "now", "elapsed", "open", "create", "read_dir", "random", "gen", "lock", "load", "recv", "try_recv", "next", "write",
    "read", "next_back", "try_clone", "spawn", "accept", "connect", "send", "send_to", "recv_from", "peek_from", "metadata",
    "store", "swap", "fetch_add", "join", "fill_bytes", "random_from_rng", "generate", "generate_nonce", "generate_key",
    "wait", "wait_timeout", "poll", "flush", "seek", "sleep", "try_lock", "is_dir", "exists", "is_file", "var",
}


class Engine:
    def __init__(self, prog, root, rules, opaque=None, max_depth=40, cap=200, init=None, field_tags=False):
        self.p = prog
        self.rules = rules
        self.opaque = opaque or (lambda d, fn: False)
        self.max_depth = max_depth
        self.cap = cap
        self.root = root
        self.ctxs = {}
        self.ctxlist = []
        self.nodes = {}
        self.heap = []
        self.inq = set()
        self.capped = 0
        self.steps = 0
        self.phimem = {}
        self.descs = {}
        self.max_steps = 400000
        self.overflow = False
        self.fns_seen = set()
        self.calls_seen = set()
        self.init = init
        self.field_tags = field_tags
        self.retv = {}

    # ---------------------------------------------------------------- contexts
    def ctx(self, parent, fn, callbb, ret, optional=False, tag=None):
        k = (parent.id if parent else None, fn.id, callbb, tag)
        c = self.ctxs.get(k)
        if c is None:
            F.prepare(fn)
            c = Ctx(len(self.ctxlist), parent, fn, callbb, ret, optional)
            self.ctxs[k] = c
            self.ctxlist.append(c)
            self.fns_seen.add(fn.path)
        return c

    # ---------------------------------------------------------------- memory
    def read(self, st, base, path):
        inner = st.mem.get(base)
        v = None
        used = 0
        if inner:
            for k in range(len(path), -1, -1):
                v = inner.get(path[:k])
                if v is not None:
                    used = k
                    break
        if v is None:
            if base[0] == "L":
                v = mk("unk", "L", base[1], base[2])
            elif base[0] == "C":
                v = base[1]
            else:
                v = mk("deref", base[1])
            used = 0
        for e in path[used:]:
            v = self.project(v, e)
        if inner and len(inner) > 1:
            n = len(path)
            subs = [(p[n:], t) for p, t in inner.items() if len(p) > n and p[:n] == path]
            if subs:
                v = self.over(v, subs)
        return v

    def over(self, v, subs):
        subs.sort(key=lambda x: (len(x[0]), repr(x[0])))
        rest = []
        for p, t in subs:
            if v.op == "agg" and len(p) == 1 and isinstance(p[0], str):
                i = self.field_pos(v, p[0])
                if i is not None:
                    fs = list(v.a[2])
                    fs[i] = t
                    v = mk("agg", v.a[0], v.a[1], tuple(fs))
                    continue
            rest.append((p, t))
        if rest:
            v = mk("over", v, tuple(rest))
        return v

    def field_pos(self, v, e):
        adt, var, fs = v.a
        name = e
        if "." in e and not e.startswith("."):
            vn, name = e.split(".", 1)
            if vn != var:
                return None
        if adt in ("tuple", "closure", "array", "other"):
            try:
                i = int(name)
            except ValueError:
                return None
            return i if i < len(fs) else None
        i = self.p.field_index(adt, var, name)
        if i is None or i >= len(fs):
            return None
        return i

    def project(self, v, e):
        if isinstance(e, str):
            if v.op == "agg":
                i = self.field_pos(v, e)
                if i is not None:
                    return v.a[2][i]
            if v.op == "over":
                b, subs = v.a
                mine = [(p, t) for p, t in subs if p[0] == e]
                base = None
                rest = []
                for p, t in mine:
                    if len(p) == 1:
                        base = t
                    else:
                        rest.append((p[1:], t))
                if base is None:
                    base = self.project(b, e)
                return self.over(base, rest) if rest else base
            return mk("fld", v, e)
        # index like element
        if v.op == "upd":
            old, rest, nv = v.a
            if len(rest) == 1 and rest[0] == e:
                return nv
            if rest and e[0] == "i" and rest[0][0] == "i" and e[1].op == "const" and rest[0][1].op == "const" and e[1] is not rest[0][1]:
                return self.project(old, e)
        if v.op == "agg" and v.a[0] == "array" and e[0] == "i" and e[1].op == "const" and isinstance(e[1].a[1], int) and e[1].a[1] < len(v.a[2]):
            return v.a[2][e[1].a[1]]
        if e[0] == "sl" and e[1].op == "agg" and e[1].a[1] == "RangeFull":
            return v
        return mk("fld", v, e)

    def write(self, st, base, path, v):
        for i, e in enumerate(path):
            if not isinstance(e, str):
                if e[0] == "sl" and e[1].op == "agg" and e[1].a[1] == "RangeFull":
                    return self.write(st, base, path[:i] + path[i + 1:], v)
                old = self.read(st, base, path[:i])
                return self.write(st, base, path[:i], mk("upd", old, path[i:], v))
        if base[0] == "M" and base[1].op == "phi":
            for m in self.phimem.get(base[1], ()):
                if m.op == "ref" and m.a[0] != base:
                    b2, p2 = m.a[0], m.a[1]
                    self.write(st, b2, p2, mk("unk", "phiw", base[1].id))
        if base[0] == "C":
            return
        inner = st.mem.get(base)
        n = len(path)
        if inner is None:
            st.mem[base] = {path: v}
        else:
            if n == 0:
                st.mem[base] = {(): v}
            else:
                d = {p: t for p, t in inner.items() if p[:n] != path}
                d[path] = v
                st.mem[base] = d

    def deref(self, t):
        if t.op == "ref":
            return t.a[0], t.a[1]
        while t.op == "cast" and t.a[0] == "ptr":
            t = t.a[1]
        return ("M", t), ()

    def resolve(self, st, ctx, pl):
        base, path = ("L", ctx.id, pl[0]), ()
        pend = None
        for e in pl[1:]:
            if e == "*":
                base, path = self.deref(self.read(st, base, path))
                pend = None
            elif e == "?":
                continue
            elif e[0] == "v":
                pend = e[1]
            elif e[0] == "f":
                n = e[1]
                if pend is not None:
                    n = pend + "." + n
                    pend = None
                path = path + (n,)
            elif e[0] == "i":
                path = path + (("i", self.read(st, ("L", ctx.id, e[1]), ())),)
            elif e[0] == "ci":
                if e[3]:
                    path = path + (("ie", e[1]),)
                else:
                    path = path + (("i", const("usize", e[1])),)
            elif e[0] == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
        return base, path

    # ---------------------------------------------------------------- operands
    def operand(self, st, ctx, o):
        k = o[0]
        if k in ("p", "m"):
            b, p = self.resolve(st, ctx, o[1])
            return self.read(st, b, p)
        if k == "c":
            return self.constant(o)
        if k == "fn":
            return mk("fnitem", o[1]["path"], o[1].get("inst", -1))
        return mk("unk", "operand")

    def constant(self, o):
        _, ty, val, name, extra = o
        if extra is not None:
            if extra[0] == "agg":
                return mk("agg", extra[1], extra[2], tuple(self.constant(x) for x in extra[3]))
            if extra[0] == "tuple":
                return mk("agg", "tuple", "", tuple(self.constant(x) for x in extra[3]))
            if extra[0] == "ref":
                return mk("ref", ("C", self.constant(extra[3][0])), (), False)
        if val is None:
            return mk("named", ty, name or "?")
        if val == "0" and ty.startswith(("core::option::Option<&", "std::option::Option<&", "core::option::Option<alloc::boxed::Box<", "std::option::Option<std::boxed::Box<")):
            return mk("agg", "core::option::Option", "None", ())
        if val == "zst":
            if ty == "()":
                return UNIT
            return mk("zst", ty)
        if isinstance(val, list):
            if val[0] == "s":
                return const("&str", val[1])
            return const("&bytes", bytes(val[1]))
        if ty == "bool":
            return TRUE if val == "true" else FALSE
        if ty in ("f32", "f64"):
            return const(ty, val)
        try:
            return const(ty, int(val))
        except ValueError:
            return const(ty, val)

    def rvalue(self, st, ctx, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, r[1])
        if k == "ref":
            b, p = self.resolve(st, ctx, r[1])
            if b[0] == "M" and not p and b[1].op != "phi":
                return b[1]
            return mk("ref", b, p, bool(r[2]))
        if k == "repeat":
            return mk("repeat", self.operand(st, ctx, r[1]), r[2])
        if k == "cast":
            v = self.operand(st, ctx, r[2])
            return self.cast(r[1], v, r[3], r[4] if len(r) > 4 else None)
        if k == "bin":
            a = self.operand(st, ctx, r[2])
            b = self.operand(st, ctx, r[3])
            op = r[1]
            if op.endswith("WithOverflow"):
                op = op[:-len("WithOverflow")]
                return mk("agg", "tuple", "", (bin_term(op, a, b), mk("ovf", op, a, b)))
            return bin_term(op, a, b)
        if k == "un":
            a = self.operand(st, ctx, r[2])
            if r[1] == "Not":
                if dest_ty == "bool":
                    return neg(a)
                return mk("bitnot", a)
            if r[1] == "PtrMetadata":
                b, p = self.deref(a)
                return self.length(self.read(st, b, p))
            if r[1] == "Neg" and a.op == "const" and isinstance(a.a[1], int):
                return const(a.a[0], -a.a[1])
            return mk("un", r[1], a)
        if k == "discr":
            b, p = self.resolve(st, ctx, r[1])
            v = self.read(st, b, p)
            return self.discr(st, v, r[2])
        if k == "agg":
            ops = tuple(self.operand(st, ctx, o) for o in r[3])
            if r[1] == "closure":
                return mk("agg", "closure", (r[2], r[4] if len(r) > 4 else None), ops)
            return mk("agg", r[1], r[2] or "", ops)
        return mk("unk", "rvalue")

    def length(self, v):
        if v.op == "const" and isinstance(v.a[1], (str, bytes)):
            x = v.a[1]
            return const("usize", len(x.encode() if isinstance(x, str) else x))
        if v.op == "agg" and v.a[0] == "array":
            return const("usize", len(v.a[2]))
        if v.op == "repeat" and v.a[1] is not None:
            return const("usize", int(v.a[1]))
        if v.op == "upd":
            return self.length(v.a[0])
        if v.op == "pure" and len(v.a) == 1 and v.a[0].endswith("::new"):
            return const("usize", 0)
        return mk("pure", "len", v)

    def cast(self, kind, v, ty, src=None):
        if kind in ("PointerCoercion", "PtrToPtr", "FnPtrToPtr", "Subtype", "Transmute", "BoxDerefTransmute"):
            if kind == "Transmute" and not ty.startswith(("&", "*")) and v.op == "const":
                return mk("cast", ty, v)
            return v
        if v.op == "const":
            x = v.a[1]
            if v.a[0] == "discr":
                return mk("cast", ty, v)
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int) and ty in INT_BITS:
                bits = INT_BITS[ty]
                x &= (1 << bits) - 1
                if ty[0] == "i" and x >> (bits - 1):
                    x -= 1 << bits
                return const(ty, x)
        if src in INT_BITS and ty in INT_BITS and INT_BITS[src] > INT_BITS[ty]:
            # may lose bits
            return mk("narrow", ty, v)
        return mk("cast", ty, v)

    def discr(self, st, v, adt):
        if v.op == "agg" and v.a[1]:
            return const("discr", v.a[1])
        d = mk("discr", v, adt)
        f = st.facts.get(d)
        if f is not None:
            for r in self.rules:
                r.on_known(self, st, d, f)
            return const("discr", f)
        return d

    # ---------------------------------------------------------------- facts
    def known(self, st, t):
        """True / False / None for a boolean term."""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "not":
            r = self.known(st, t.a[0])
            return None if r is None else not r
        f = st.facts.get(t)
        if f is not None:
            for r in self.rules:
                r.on_known(self, st, t, f)
            return f
        if t.op == "bin" and t.a[0] == "Eq":
            _, x, y = t.a
            for a, c in ((x, y), (y, x)):
                if c.op == "const":
                    fv = st.facts.get(a)
                    if fv is not None and type(fv) is type(c.a[1]):
                        return fv == c.a[1]
                    if c.a[1] in st.neg.get(a, ()):
                        return False
        if t.op == "bin" and t.a[0] == "Lt":
            _, x, y = t.a
            vx = x.a[1] if x.op == "const" else st.facts.get(x)
            vy = y.a[1] if y.op == "const" else st.facts.get(y)
            if isinstance(vx, int) and isinstance(vy, int):
                return vx < vy
            if isinstance(vy, int) and vy == 0 and (unsigned(x) or y.op == "const" and str(y.a[0])[:1] == "u"):
                return False
            r = st.facts.get(mk("bin", "Lt", y, x))
            if r is True:
                return False
        if t.op == "pure" and t.a[0].split("::")[-1] == "contains" and "Range" in t.a[0] and len(t.a) > 2:
            rg, x = unref(t.a[1]), unref(t.a[2])
            ends = rg.a[1:3] if rg.op == "pure" else rg.a[2][:2] if rg.op == "agg" else ()
            if x.op == "const" and len(ends) == 2 and isinstance(x.a[1], int):
                incl = "Inclusive" in t.a[0]
                if ends[0].op == "const" and isinstance(ends[0].a[1], int) and x.a[1] < ends[0].a[1]:
                    return False
                if ends[1].op == "const" and isinstance(ends[1].a[1], int) and (x.a[1] > ends[1].a[1] or x.a[1] == ends[1].a[1] and not incl):
                    return False
        return None

    def assume(self, st, t, val, site=None):
        """Adds a branch fact; returns False when it contradicts what is known."""
        while t.op == "not":
            t = t.a[0]
            val = not val
        k = self.known(st, t)
        if k is not None:
            return k == val
        st.facts[t] = val
        if t.op == "bin" and t.a[0] == "Eq":
            _, x, y = t.a
            for a, c in ((x, y), (y, x)):
                if c.op == "const":
                    if val:
                        st.facts[a] = c.a[1]
                    else:
                        st.neg[a] = st.neg.get(a, EMPTY) | {c.a[1]}
                        if a.op == "discr" and a.a[1] and a not in st.facts:
                            left = [v["n"] for v in self.p.variants(a.a[1]) or () if v["n"] not in st.neg[a]]
                            if len(left) == 1:
                                st.facts[a] = left[0]
        elif t.op == "bin" and t.a[0] == "BitAnd" and val:
            if not self.assume(st, t.a[1], True) or not self.assume(st, t.a[2], True):
                return False
        elif t.op == "bin" and t.a[0] == "BitOr" and not val:
            if not self.assume(st, t.a[1], False) or not self.assume(st, t.a[2], False):
                return False
        for r in self.rules:
            r.on_fact(self, st, t, val)
        return True

    def assume_eq(self, st, t, v):
        f = st.facts.get(t)
        if f is not None:
            return f == v
        if v in st.neg.get(t, ()):
            return False
        st.facts[t] = v
        for r in self.rules:
            r.on_fact(self, st, t, v)
        return True

    def assume_ne(self, st, t, vs, adt=None):
        f = st.facts.get(t)
        if f is not None:
            return f not in vs
        n = st.neg.get(t, EMPTY) | frozenset(vs)
        if t.op == "discr" and t.a[1]:
            vv = self.p.variants(t.a[1])
            if vv:
                left = [v["n"] for v in vv if v["n"] not in n]
                if not left:
                    return False
                if len(left) == 1:
                    st.facts[t] = left[0]
                    st.neg[t] = n
                    for r in self.rules:
                        r.on_fact(self, st, t, left[0])
                    return True
        st.neg[t] = n
        return True

    # ---------------------------------------------------------------- views
    def view(self, st, t, depth=0):
        """A value-level copy of a call argument: references become &value."""
        if depth > 4:
            return t
        if t.op == "ref":
            return mk("&", self.view(st, self.read(st, t.a[0], t.a[1]), depth + 1))
        if t.op == "agg" and t.a[2]:
            fs = tuple(self.view(st, x, depth + 1) for x in t.a[2])
            return mk("agg", t.a[0], t.a[1], fs)
        if ("M", t) in st.mem:
            return mk("&", self.read(st, ("M", t), ()))
        return t

    def val(self, st, t):
        """What a (possibly multiple) reference points at."""
        n = 0
        while n < 5:
            n += 1
            if t.op == "ref":
                t = self.read(st, t.a[0], t.a[1])
            elif ("M", t) in st.mem:
                t = self.read(st, ("M", t), ())
                break
            else:
                break
        return t

    def pointee(self, st, t):
        b, p = self.deref(t)
        return self.read(st, b, p)

    def purge(self, st, site):
        """The call at `site` runs again: what its earlier results named is renamed."""
        old = site + ("'",)

        # what is two results old is forgotten; equal values stay equal
        first = {}
        for b, inner in st.mem.items():
            if b[0] == "M" and site in b[1].atoms:
                continue
            for p, t in inner.items():
                if site in t.atoms and old in t.atoms:
                    r = repr((b, p))
                    if t not in first or r < first[t]:
                        first[t] = r
        forgotten = {t: mk("unk", "stale", r) for t, r in first.items()}
        for t in sorted(first, key=lambda x: x.id):
            if t.op == "pure" and len(t.a) == 2:
                # an iterator over a forgotten value
                u = unref(t.a[1])
                if u in forgotten:
                    forgotten[t] = mk("pure", t.a[0], forgotten[u] if u is t.a[1] else mk("&", forgotten[u]))
        if forgotten:
            names = {x for x in forgotten.values() if x.op == "unk"}
            for d in (st.facts, st.neg):
                for t in [t for t in d if any(x.op == "unk" and x in names for x in sub_terms(t))]:
                    del d[t]

        def fix(t, loc):
            if site not in t.atoms:
                return t
            if old in t.atoms:
                return forgotten[t]
            return rename(t, site, old)

        for b, inner in list(st.mem.items()):
            nb = b
            if b[0] == "M" and site in b[1].atoms:
                del st.mem[b]
                continue
            ch = None
            for p, t in inner.items():
                if site in t.atoms:
                    if ch is None:
                        ch = dict(inner)
                    ch[p] = fix(t, (nb, p))
            if ch is not None:
                st.mem[nb] = ch
        for d in (st.facts, st.neg):
            for t in [t for t in d if site in t.atoms]:
                v = d.pop(t)
                if old not in t.atoms:
                    d[rename(t, site, old)] = v
        for r in self.rules:
            r.on_purge(self, st, site, old)

    # ---------------------------------------------------------------- keys / joins
    def tag(self, v, d=0):
        if v.op == "agg":
            a = v.a
            if self.p.is_multi_enum(a[0]):
                if d < 3 and a[2]:
                    sub = tuple(self.tag(x, d + 1) for x in a[2])
                    if any(s is not None for s in sub):
                        return (a[1], sub)
                return a[1]
            if a[0] == "tuple" and d < 2 and a[2]:
                sub = tuple(self.tag(x, d + 1) for x in a[2])
                if any(s is not None for s in sub):
                    return sub
            return None
        if v is TRUE:
            return "T"
        if v is FALSE:
            return "F"
        return None

    def key(self, st):
        r = []
        for b, inner in st.mem.items():
            if b[0] == "L" and len(inner) == 1:
                v = inner.get(())
                if v is not None:
                    if v.op == "agg" or v is TRUE or v is FALSE:
                        t = self.tag(v)
                        if t is not None:
                            r.append((b, (), t))
                    continue
            for p, v in inner.items():
                if v is TRUE or v is FALSE:
                    r.append((b, p, v.a[1]))
                elif v.op == "agg" and (not p or self.field_tags):
                    t = self.tag(v)
                    if t is not None:
                        r.append((b, p, t))
        ts = tuple(sorted(st.ts.items(), key=lambda x: x[0]))
        return (frozenset(r), ts)

    def join_term(self, va, vb, node, kid, base, p, newphis, d=0):
        if va is vb:
            return va
        if va.op == "agg" and vb.op == "agg" and va.a[0] == vb.a[0] and va.a[1] == vb.a[1] and len(va.a[2]) == len(vb.a[2]) and d < 4:
            # the same constructor on both sides: join the fields
            fs = tuple(self.join_term(x, y, node, kid, base, p + (("#", i),), newphis, d + 1)
                       for i, (x, y) in enumerate(zip(va.a[2], vb.a[2])))
            return mk("agg", va.a[0], va.a[1], fs)
        ph = mk("phi", node, kid, base, p)
        if va is not ph:
            newphis.append(ph)
        ms = self.phimem.setdefault(ph, set())
        for x in (va, vb):
            if x is not ph and len(ms) < 32:
                ms.add(x)
        return ph

    def join(self, a, b, node, kid):
        """Joins b into a; returns (state, changed)."""
        mem = {}
        changed = False
        newphis = []
        pairs = []
        for base, ia in a.mem.items():
            ib = b.mem.get(base)
            if ib is None:
                if base[0] == "L":
                    changed = True
                    continue
                ib = {}
            if ib is ia:
                mem[base] = ia
                continue
            d = {}
            paths = set(ia) | set(ib)
            for p in paths:
                va = ia.get(p)
                vb = ib.get(p)
                if va is None:
                    va = self.read(a, base, p)
                if vb is None:
                    vb = self.read(b, base, p)
                if va is vb:
                    d[p] = va
                    continue
                d[p] = j = self.join_term(va, vb, node, kid, base, p, newphis)
                if j.op == "phi":
                    pairs.append((j, va, vb))
                if va is not j:
                    changed = True
            if d != ia:
                changed = True
                mem[base] = d
            else:
                mem[base] = ia
        for base, ib in b.mem.items():
            if base not in a.mem and base[0] != "L":
                d = {}
                for p, vb in ib.items():
                    va = self.read(a, base, p)
                    if va is not vb:
                        d[p] = self.join_term(va, vb, node, kid, base, p, newphis)
                    else:
                        d[p] = vb
                mem[base] = d
                changed = True
        fs = {}
        for t, v in a.facts.items():
            vb = b.facts.get(t)
            if vb is not None and vb == v and type(vb) is type(v):
                fs[t] = v
        ng = {}
        for t, v in a.neg.items():
            vb = b.neg.get(t)
            fb = b.facts.get(t)
            if vb is not None or fb is not None:
                both = frozenset(x for x in v if (vb is not None and x in vb) or (fb is not None and fb != x))
                if both:
                    ng[t] = both
                if both != v:
                    changed = True
            else:
                changed = True
        if newphis:
            ids = {("phi",) + ph.a for ph in newphis}
            fs = {t: v for t, v in fs.items() if not (t.atoms & ids)}
            ng = {t: v for t, v in ng.items() if not (t.atoms & ids)}
        if pairs:
            self.join_facts(a, b, pairs, fs)
        if len(fs) != len(a.facts) or any(t not in fs for t in a.facts):
            changed = True
        if not changed:
            return a, False
        s = State()
        s.mem, s.facts, s.neg = mem, fs, ng
        s.ts = a.ts
        s.ts = dict(a.ts)
        for r in self.rules:
            r.on_join(self, s, a, b)
        return s, True

    def join_facts(self, a, b, pairs, fs):
        """A comparison of a value that holds for what the value is on either side holds for the joined value."""
        left = {va: ph for ph, va, vb in pairs if va is not ph}
        right = {vb: ph for ph, va, vb in pairs if va is not ph}
        here = {ph: (va, vb) for ph, va, vb in pairs}
        for st, to, i in ((a, left, 0), (b, right, 1)):
            if not to:
                continue
            for t, v in st.facts.items():
                if t.op != "bin" or t.a[0] not in ("Lt", "Eq"):
                    continue
                x, y = t.a[1], t.a[2]
                if x not in to and y not in to:
                    continue
                x1, y1 = to.get(x, x), to.get(y, y)
                self.join_fact(a, b, t.a[0], x1, y1, v, here, fs)
        for t, v in a.facts.items():
            # of a value joined here before
            if t.op == "bin" and t.a[0] in ("Lt", "Eq") and (t.a[1] in here or t.a[2] in here):
                fs.pop(t, None)
                if all(here[x][0] is x for x in t.a[1:] if x in here):
                    self.join_fact(a, b, t.a[0], t.a[1], t.a[2], v, here, fs)

    def join_fact(self, a, b, op, x, y, v, here, fs):
        t = cmp_term(op, x, y)
        for st, i in ((a, 0), (b, 1)):
            s = cmp_term(op, here[x][i] if x in here else x, here[y][i] if y in here else y)
            w = v
            if s.op == "not":
                s, w = s.a[0], not v
            if s is TRUE or s is FALSE:
                if (s is TRUE) is not w:
                    return
            elif st.facts.get(s) is not w:
                return
        if t.op == "not":
            t, v = t.a[0], not v
        if t.op == "bin" and isinstance(v, bool):
            fs[t] = v

    def clean(self, st, ctx, bb):
        fn = ctx.fn
        live = fn.live.get(bb)
        if live is None:
            return
        cid = ctx.id
        dead = [b for b in st.mem if b[0] == "L" and b[1] == cid and b[2] not in live and b[2] not in fn.borrowed
                and not (1 <= b[2] <= fn.argc)]
        for b in dead:
            del st.mem[b]

    def goto(self, st, ctx, bb):
        if ctx.fn.blocks[bb] is None:
            return
        self.clean(st, ctx, bb)
        node = (ctx.id, bb)
        k = self.key(st)
        m = self.nodes.setdefault(node, {})
        old = m.get(k)
        if old is None:
            if len(m) >= self.cap:
                self.capped += 1
                # too many: tell only the values being returned apart, and the rules' own state
                k = (frozenset(x for x in k[0] if x[0][0] == "L" and x[0][2] == 0), "~", k[1])
                old = m.get(k)
                if old is None and len(m) >= 3 * self.cap:
                    k = ("*", k[2])
                    old = m.get(k)
            if old is None:
                m[k] = st
                self.push(ctx, bb, k)
                return
        kid = hash(k)
        j, ch = self.join(old, st, node, kid)
        if ch:
            m[k] = j
            self.push(ctx, bb, k)

    def push(self, ctx, bb, k):
        q = (ctx.id, bb, k)
        if q in self.inq:
            return
        self.inq.add(q)
        self._c = getattr(self, "_c", 0) + 1
        heapq.heappush(self.heap, (ctx.rpokey + (ctx.fn.rpo[bb],), self._c, ctx, bb, k))

    # ---------------------------------------------------------------- run
    def run(self):
        F.prepare(self.root)
        c = self.ctx(None, self.root, 0, None)
        st = State()
        for r in self.rules:
            r.start(self, st, c)
        for i in range(1, self.root.argc + 1):
            nm = self.root.names.get(str(i), f"arg{i}")
            v = mk("param", i, nm)
            if self.init:
                v2 = self.init(self, st, i, nm, self.root.locals[i])
                if v2 is not None:
                    v = v2
            st.mem[("L", c.id, i)] = {(): v}
        self.goto(st, c, 0)
        while self.heap:
            _, _, ctx, bb, k = heapq.heappop(self.heap)
            self.inq.discard((ctx.id, bb, k))
            self.steps += 1
            if self.steps > self.max_steps:
                self.overflow = True
                break
            st = self.nodes[(ctx.id, bb)][k].copy()
            self.block(st, ctx, bb)
        return self

    def block(self, st, ctx, bb):
        fn = ctx.fn
        blk = fn.blocks[bb]
        for s in blk["s"]:
            if s[0] == "=":
                pl = s[1]
                dty = fn.locals[pl[0]] if len(pl) == 1 else ""
                if len(pl) == 1 and pl[0] in fn.dropflags:
                    continue
                v = self.rvalue(st, ctx, s[2], dty if dty else ("bool" if s[2][0] == "un" and s[2][1] == "Not" and boolish(self.operand(st, ctx, s[2][2])) else ""))
                b, p = self.resolve(st, ctx, pl)
                self.write(st, b, p, v)
                for r in self.rules:
                    r.on_assign(self, st, ctx, bb, b, p, v, s[2])
            elif s[0] == "dead":
                if s[1] != 0:
                    st.mem.pop(("L", ctx.id, s[1]), None)
            elif s[0] == "sd":
                b, p = self.resolve(st, ctx, s[1])
                self.write(st, b, p, mk("unk", "setdiscr", s[2]))
        self.term(st, ctx, bb, blk)

    def term(self, st, ctx, bb, blk):
        fn = ctx.fn
        t = blk["t"]
        k = t[0]
        if k == "goto":
            self.goto(st, ctx, t[1])
        elif k == "return":
            self.do_return(st, ctx)
        elif k == "switch":
            if t[1][0] in ("p", "m") and t[1][1][0] in fn.dropflags:
                for s in set(x[1] for x in t[2]) | {t[3]}:
                    self.goto(st.copy(), ctx, s)
                return
            self.switch(st, ctx, bb, t)
        elif k == "drop":
            for r in self.rules:
                r.on_drop(self, st, ctx, bb, t)
            self.goto(st, ctx, t[2])
        elif k == "assert":
            c = self.operand(st, ctx, t[1])
            want = t[2]
            ops = [self.operand(st, ctx, o) for o in t[4]]
            for r in self.rules:
                r.on_assert(self, st, ctx, bb, t[3], ops, c)
            if self.assume(st, c if want else neg(c), True):
                self.goto(st, ctx, t[5])
        elif k == "call":
            self.call(st, ctx, bb, t, blk["l"])

    def switch(self, st, ctx, bb, t):
        v = self.operand(st, ctx, t[1])
        ty = t[4]
        if ty == "bool":
            arms = [(False if x == "0" else True, b) for x, b in t[2]]
            done = set(x for x, _ in arms)
            rest = [x for x in (True, False) if x not in done]
            arms += [(x, t[3]) for x in rest]
            for val, b in arms:
                s2 = st.copy()
                if self.assume(s2, v, val):
                    for r in self.rules:
                        r.on_branch(self, s2, ctx, bb, v, val)
                    self.goto(s2, ctx, b)
            return
        if v.op == "discr" or (v.op == "const" and v.a[0] == "discr"):
            adt = v.a[1] if v.op == "discr" else None
            if adt is None:
                # find the enum through the values listed
                adt = self.switch_adt(ctx, bb)
            vs = self.p.variants(adt) or []
            dn = {x["d"]: x["n"] for x in vs}
            names = []
            for x, b in t[2]:
                n = dn.get(x, x)
                names.append(n)
                if v.op == "const":
                    if v.a[1] == n:
                        self.goto(st, ctx, b)
                        return
                    continue
                s2 = st.copy()
                if self.assume_eq(s2, v, n):
                    for r in self.rules:
                        r.on_branch(self, s2, ctx, bb, v, n)
                    self.goto(s2, ctx, b)
            if v.op == "const":
                self.goto(st, ctx, t[3])
                return
            blk = ctx.fn.blocks[t[3]]
            if blk is None or blk["t"][0] == "unreachable":
                return
            s2 = st.copy()
            if self.assume_ne(s2, v, names):
                for r in self.rules:
                    r.on_branch(self, s2, ctx, bb, v, ("not",) + tuple(names))
                self.goto(s2, ctx, t[3])
            return
        cv = None
        if v.op == "const":
            cv = v.a[1]
        else:
            cv = st.facts.get(v)
        vals = []
        for x, b in t[2]:
            xv = int(x)
            vals.append(xv)
            if cv is not None and isinstance(cv, int):
                if int(cv) == xv:
                    self.goto(st, ctx, b)
                    return
                continue
            s2 = st.copy()
            if self.assume_eq(s2, v, xv):
                for r in self.rules:
                    r.on_branch(self, s2, ctx, bb, v, xv)
                self.goto(s2, ctx, b)
        if cv is not None and isinstance(cv, int):
            self.goto(st, ctx, t[3])
            return
        s2 = st.copy()
        if self.assume_ne(s2, v, vals):
            for r in self.rules:
                r.on_branch(self, s2, ctx, bb, v, ("not",) + tuple(vals))
            self.goto(s2, ctx, t[3])

    def switch_adt(self, ctx, bb):
        blk = ctx.fn.blocks[bb]
        o = blk["t"][1]
        if o[0] in ("p", "m"):
            l = o[1][0]
            for s in reversed(blk["s"]):
                if s[0] == "=" and s[1] == [l] and s[2][0] == "discr":
                    return s[2][2]
            for b2 in ctx.fn.blocks:
                if b2:
                    for s in b2["s"]:
                        if s[0] == "=" and s[1] == [l] and s[2][0] == "discr":
                            return s[2][2]
        return None

    def do_return(self, st, ctx):
        v = self.read(st, ("L", ctx.id, 0), ())
        for r in self.rules:
            r.on_return(self, st, ctx, v)
        if ctx.parent is None:
            for r in self.rules:
                r.on_root_return(self, st, ctx, v)
            return
        for b in [b for b in st.mem if b[0] == "L" and b[1] == ctx.id]:
            del st.mem[b]
        pl, target = ctx.ret
        parent = ctx.parent
        if pl is not None:
            b, p = self.resolve(st, parent, pl)
            self.write(st, b, p, v)
        if target is not None:
            self.goto(st, parent, target)

    # ---------------------------------------------------------------- calls
    def call(self, st, ctx, bb, t, line):
        fo = t[1]
        args = [self.operand(st, ctx, o) for o in t[2]]
        argty = t[5]
        if fo[0] == "fn":
            d = self.descs.get(id(fo))
            if d is None:
                d = self.descs[id(fo)] = Desc(fo[1])
        else:
            # function pointer / closure value
            fv = self.operand(st, ctx, fo)
            if fv.op == "fnitem" and fv.a[1] >= 0:
                d = Desc({"path": fv.a[0], "inst": fv.a[1]})
            elif fv.op == "agg" and fv.a[0] == "closure" and fv.a[1][1] is not None:
                d = Desc({"path": fv.a[1][0], "inst": fv.a[1][1]})
                args = [fv] + args
            else:
                d = Desc({"path": fv.a[0] if fv.op == "fnitem" else "indirect"})
        site = self.site(ctx, bb)
        self.calls_seen.add((ctx.fn.path, bb, d.path))
        dest, target = t[3], t[4]
        if d.ctor:
            v = mk("agg", d.ctor[0], d.ctor[1], tuple(args))
            self.finish(st, ctx, dest, target, v)
            return
        for r in self.rules:
            r.on_call(self, st, ctx, bb, d, args, line)
        if target is None and not self.inlinable(d, ctx):
            for r in self.rules:
                r.on_panic(self, st, ctx, bb, d, args, line)
            return
        # rules may answer the call themselves
        for r in self.rules:
            h = r.model(self, st, ctx, bb, d, args, site)
            if h is not None:
                for s2, v in h:
                    self.finish(s2, ctx, dest, target, v)
                return
        m = self.model(st, ctx, bb, d, args, site, t)
        if m is not None:
            self.finish(st, ctx, dest, target, m)
            return
        if self.inlinable(d, ctx):
            self.inline(st, ctx, bb, d, args, dest, target)
            return
        # calling a closure value through Fn*::call*
        if d.rustcall and args:
            f = self.val(st, args[0])
            if f.op == "agg" and f.a[0] == "closure" and f.a[1][1] is not None and f.a[1][1] in self.p.fns:
                fn = self.p.fns[f.a[1][1]]
                selfarg = args[0]
                if not fn.locals[1].startswith("&"):
                    selfarg = f
                elif args[0].op != "ref" or f is args[0]:
                    selfarg = mk("ref", ("C", f), (), True)
                self.enter(st, ctx, bb, fn, [selfarg] + self.untuple(args[1], fn.argc - 1), dest, target)
                return
            if f.op == "fnitem" and f.a[1] >= 0 and f.a[1] in self.p.fns:
                fn = self.p.fns[f.a[1]]
                self.enter(st, ctx, bb, fn, self.untuple(args[1], fn.argc), dest, target)
                return
        # opaque call; closures handed over may run
        clos = []
        for i, a in enumerate(args):
            f = self.val(st, a)
            if f.op == "agg" and f.a[0] == "closure" and f.a[1][1] in self.p.fns:
                clos.append((i, a, f))
        if clos and ctx.depth < self.max_depth and not d.virtual:
            i, a, f = clos[0]
            fn = self.p.fns[f.a[1][1]]
            if fn.id not in ctx.fns:
                # run the closure zero or more times, then the effect of the call itself
                s2 = st.copy()
                env = a if a.op == "ref" else None
                selfarg = a
                if fn.locals[1].startswith("&") and a.op != "ref":
                    selfarg = mk("ref", ("C", f), (), True)
                params = [mk("ret", "closure-arg:" + d.name, site, const("i", j), self.view(st, args[0]) if i != 0 else UNIT) for j in range(2, fn.argc + 1)]
                for r in self.rules:
                    r.on_closure(self, s2, ctx, bb, d, fn, args)
                self.purge(s2, site)
                c2 = self.ctx(ctx, fn, bb, ("clos", site, d, tuple(t[2]), dest, target), tag="clos")
                self.enter_closure(s2, ctx, bb, fn, [selfarg] + params, d, args, argty, dest, target, site, line)
        self.opaque_effect(st, ctx, bb, d, args, argty, site, dest, target, line)

    def enter_closure(self, st, ctx, bb, fn, args, d, oargs, argty, dest, target, site, line):
        """Analyse a closure passed to an opaque function, then apply the call's own effect."""
        eng = self
        c = ClosCtx(ctx, fn, bb, d, oargs, argty, dest, target, site, line)
        k = (ctx.id, fn.id, bb, "clos")
        old = self.ctxs.get(k)
        if not isinstance(old, ClosCtx):
            F.prepare(fn)
            c.id = len(self.ctxlist)
            c.parent = ctx
            c.fn = fn
            c.callbb = bb
            c.depth = ctx.depth + 1
            c.rpokey = ctx.rpokey + (ctx.fn.rpo[bb],)
            c.fns = ctx.fns | {fn.id}
            self.ctxs[k] = c
            self.ctxlist.append(c)
            self.fns_seen.add(fn.path)
            old = c
        else:
            old.oargs = [a if a is b else mk("unk", "closarg", i) for i, (a, b) in enumerate(zip(old.oargs, oargs))]
        for b in [b for b in st.mem if b[0] == "L" and b[1] == old.id]:
            del st.mem[b]
        for i in range(1, fn.argc + 1):
            st.mem[("L", old.id, i)] = {(): args[i - 1] if i - 1 < len(args) else mk("unk", "arg", i)}
        self.goto(st, old, 0)

    def site(self, ctx, bb):
        return (ctx.id, bb)

    def inlinable(self, d, ctx):
        if d.inst is None or d.inst not in self.p.fns:
            return False
        fn = self.p.fns[d.inst]
        if fn.id in ctx.fns or ctx.depth >= self.max_depth:
            return False
        if d.name in MODELED or short_name(d.path) in MODELED:
            return False
        if self.opaque(d, fn):
            return False
        return True

    def untuple(self, t, n):
        if t.op == "agg" and t.a[0] == "tuple":
            return list(t.a[2])
        return [self.project(t, str(i)) for i in range(n)]

    def inline(self, st, ctx, bb, d, args, dest, target):
        fn = self.p.fns[d.inst]
        if d.rustcall and len(args) == 2:
            if fn.closure:
                args = [args[0]] + self.untuple(args[1], fn.argc - 1)
            elif fn.spread is None and fn.argc != 2 or (fn.spread is None and not fn.closure and d.path != fn.path and fn.crate == "tftp_dus"):
                args = self.untuple(args[1], fn.argc)
        self.enter(st, ctx, bb, fn, args, dest, target)

    def enter(self, st, ctx, bb, fn, args, dest, target):
        if fn.id in ctx.fns or ctx.depth >= self.max_depth:
            self.finish(st, ctx, dest, target, mk("unk", "recursion", fn.path))
            return
        c = self.ctx(ctx, fn, bb, (dest, target))
        for b in [b for b in st.mem if b[0] == "L" and b[1] == c.id]:
            del st.mem[b]
        if fn.spread is not None and len(args) > fn.spread:
            pass
        for i in range(1, fn.argc + 1):
            st.mem[("L", c.id, i)] = {(): args[i - 1] if i - 1 < len(args) else mk("unk", "arg", i)}
        for r in self.rules:
            r.on_enter(self, st, c, args)
        self.goto(st, c, 0)

    def finish(self, st, ctx, dest, target, v):
        if target is None:
            return
        b, p = self.resolve(st, ctx, dest)
        self.write(st, b, p, v)
        self.goto(st, ctx, target)

    def frozen(self, op, name, site, i, views):
        """The value a call at `site` yields.  Its name keeps the arguments of the first visit, so that what a loop iteration
        knows about it survives the next one; `views_of` has the arguments of all visits."""
        k = (op, name, site, i)
        f = self.retv.get(k)
        if f is None:
            f = self.retv[k] = [views]
        elif views not in f and len(f) < 24:
            f.append(views)
        return mk(op, name, site, f[0]) if op == "ret" else mk(op, name, site, i, f[0])

    def views_of(self, t):
        site = t.a[1]
        while site and site[-1] == "'":
            site = site[:-1]
        return self.retv.get((t.op, t.a[0], site, t.a[2] if t.op == "mut" else None), ())

    def havoc_refs(self, st, t, d, site, i, views, depth=0):
        if depth > 3:
            return
        if t.op == "ref" and t.a[2]:
            b, p = t.a[0], t.a[1]
            self.write(st, b, p, self.frozen("mut", d.name, site, i, views))
        elif t.op == "agg":
            for x in t.a[2]:
                self.havoc_refs(st, x, d, site, i, views, depth + 1)

    def opaque_effect(self, st, ctx, bb, d, args, argty, site, dest, target, line):
        views = tuple(self.view(st, a) for a in args)
        impure = False
        for i, a in enumerate(args):
            ty = argty[i] if i < len(argty) else ""
            if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:20]:
                impure = True
            elif a.op == "agg" and a.a[0] == "closure":
                impure = True
            elif a.op in ("ref", "agg") and has_mut_ref(a):
                impure = True
            elif "&mut" in ty:
                impure = True
        tail = d.tail
        if tail in IMPURE_TAIL and d.path not in PURE_PATHS or d.path == "indirect" or d.virtual or (d.trait and d.trait.startswith("tftp_dus")) or d.rustcall:
            impure = True
        if impure:
            self.purge(st, site)
            views = tuple(self.view(st, a) for a in args)
            res = self.frozen("ret", d.name, site, None, views)
            for i, a in enumerate(args):
                ty = argty[i] if i < len(argty) else ""
                if ty.startswith("&mut") or ty.startswith("&'") and " mut " in ty[:20]:
                    b, p = self.deref(a)
                    self.write(st, b, p, self.frozen("mut", d.name, site, i, views))
                else:
                    self.havoc_refs(st, a, d, site, i, views)
        else:
            res = mk("pure", d.name, *views)
        for r in self.rules:
            v = r.on_result(self, st, ctx, bb, d, args, views, res, line)
            if v is not None:
                res = v
        self.finish(st, ctx, dest, target, res)

    def model(self, st, ctx, bb, d, args, site, t):
        n = d.name
        tail = d.tail
        rn = short_name(d.res) if d.res else n
        if n in IDENT_METHODS or rn in IDENT_METHODS:
            if d.inst is not None and d.inst in self.p.fns and self.p.fns[d.inst].crate == "tftp_dus":
                return None
            if n in ("AsRef::as_ref", "AsMut::as_mut") and "Option" in (d.res or ""):
                return None
            return args[0]
        if d.trait is None or d.trait.startswith("core::") or True:
            if n == "Clone::clone":
                v = self.pointee(st, args[0])
                return v
            if n in ("PartialEq::eq", "PartialEq::ne"):
                a, b = [self.view(st, x) if x.op == "agg" and x.a[2] else x for x in (self.val(st, args[0]), self.val(st, args[1]))]
                r = cmp_term("Eq", a, b)
                return r if n.endswith("eq") else neg(r)
            if n in ("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge"):
                a, b = self.val(st, args[0]), self.val(st, args[1])
                return cmp_term({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[tail], a, b)
        if tail in ("len", "is_empty") and len(args) == 1 and (d.inst is None or self.p.fns[d.inst].crate != "tftp_dus"):
            l = self.length(self.val(st, args[0]))
            if tail == "len":
                return l
            return cmp_term("Eq", l, const("usize", 0))
        if n in ("mem::size_of", "mem::size_of_val") and d.targs:
            z = self.p.size_of(str(d.targs[0]))
            if z is not None:
                return const("usize", z)
        if d.path.startswith("std::fs::OpenOptions::") and len(args) == 2 and tail in OPEN_FLAGS:
            # fluent setters hand back the object they were called on
            b, p = self.deref(args[0])
            self.write(st, b, p, mk("pure", "OpenOptions.set", self.read(st, b, p), const("&str", tail), args[1]))
            return args[0]
        if d.path in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
            b, p = self.deref(args[0])
            old = self.read(st, b, p)
            if tail == "replace":
                self.write(st, b, p, args[1])
                return old
            if tail == "take":
                dv = mk("pure", "default", const("ty", t[6]))
                if t[6].startswith("core::option::Option"):
                    dv = mk("agg", "core::option::Option", "None", ())
                elif t[6] == "bool":
                    dv = FALSE
                self.write(st, b, p, dv)
                return old
            b2, p2 = self.deref(args[1])
            o2 = self.read(st, b2, p2)
            self.write(st, b, p, o2)
            self.write(st, b2, p2, old)
            return UNIT
        if n in ("Index::index", "IndexMut::index_mut"):
            b, p = self.deref(args[0])
            ix = args[1]
            if ix.op == "agg" and "ops::range" in ix.a[0] or ix.op == "zst" and "RangeFull" in str(ix.a[0]):
                if ix.op == "zst" or ix.a[1] == "RangeFull":
                    return args[0]
                e = ("sl", ix)
            else:
                e = ("i", self.view(st, ix))
            return mk("ref", b, p + (e,), n == "IndexMut::index_mut")
        if n in ("cmp::min", "Ord::min", "cmp::max", "Ord::max"):
            a, b = args
            f = min if tail == "min" else max
            if a.op == "const" and b.op == "const":
                return const(a.a[0], f(a.a[1], b.a[1]))
            if a.id > b.id:
                a, b = b, a
            return mk("pure", tail, a, b)
        if n in ("BitXor::bitxor", "BitAnd::bitand") and args and d.inst is None:
            return mk("pure", n, *[self.view(st, a) for a in args])
        if n == "Not::not":
            return neg(args[0]) if boolish(args[0]) else mk("bitnot", args[0])
        if n in ("Into::into", "From::from") and len(args) == 1 and d.inst is None:
            ty = t[6]
            if ty in INT_BITS and t[5] and t[5][0] in INT_BITS:
                return self.cast("IntToInt", args[0], ty)
        if n == "Box::new" or n == "hint::black_box" or n in ("IntoIterator::into_iter",) and False:
            return None
        return None


class ClosCtx(Ctx):
    def __init__(self, ctx, fn, bb, d, oargs, argty, dest, target, site, line):
        self.d, self.oargs, self.argty, self.dest, self.target, self.site_, self.line = d, oargs, argty, dest, target, site, line
        self.ret = None
        self.optional = True
        self.bb = bb


_orig_return = Engine.do_return


def do_return(self, st, ctx):
    if isinstance(ctx, ClosCtx):
        v = self.read(st, ("L", ctx.id, 0), ())
        for r in self.rules:
            r.on_return(self, st, ctx, v)
        for b in [b for b in st.mem if b[0] == "L" and b[1] == ctx.id]:
            del st.mem[b]
        self.opaque_effect(st, ctx.parent, ctx.bb, ctx.d, ctx.oargs, ctx.argty, ctx.site_, ctx.dest, ctx.target, ctx.line)
        return
    _orig_return(self, st, ctx)


Engine.do_return = do_return

PURE_PATHS = {"std::path::Path::join"}
OPEN_FLAGS = {"read", "write", "append", "truncate", "create", "create_new"}
MODELED = {"PartialEq::eq", "PartialEq::ne", "Clone::clone", "PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge"}
INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
            "i128": 128, "isize": 64}


def has_mut_ref(t, d=0):
    if t.op == "ref":
        return bool(t.a[2])
    if t.op == "agg" and d < 3:
        return any(has_mut_ref(x, d + 1) for x in t.a[2])
    return False


def boolish(t):
    return t in (TRUE, FALSE) or t.op in ("not",) or (t.op == "bin" and t.a[0] in ("Eq", "Lt"))


def unsigned(t):
    return (t.op == "pure" and t.a[0] == "len") or (t.op == "cast" and str(t.a[0]).startswith("u"))


_ren = {}


def rename(t, old, new):
    if isinstance(t, tuple):
        if t == old:
            return new
        return tuple(rename(x, old, new) for x in t)
    if not isinstance(t, T) or old not in t.atoms:
        return t
    k = (t, old)
    r = _ren.get(k)
    if r is None:
        r = _ren[k] = mk(t.op, *[rename(x, old, new) for x in t.a])
    return r


class Rule:
    """Base of the rules: every hook may read and extend the state."""

    def start(self, eng, st, ctx): pass
    def on_fact(self, eng, st, t, v): pass
    def on_known(self, eng, st, t, v): pass
    def on_branch(self, eng, st, ctx, bb, t, v): pass
    def on_assign(self, eng, st, ctx, bb, base, path, v, rv): pass
    def on_call(self, eng, st, ctx, bb, d, args, line): pass
    def model(self, eng, st, ctx, bb, d, args, site): return None
    def on_result(self, eng, st, ctx, bb, d, args, views, res, line): return None
    def on_enter(self, eng, st, ctx, args): pass
    def on_return(self, eng, st, ctx, v): pass
    def on_root_return(self, eng, st, ctx, v): pass
    def on_panic(self, eng, st, ctx, bb, d, args, line): pass
    def on_drop(self, eng, st, ctx, bb, t): pass
    def on_assert(self, eng, st, ctx, bb, kind, ops, cond): pass
    def on_closure(self, eng, st, ctx, bb, d, fn, args): pass
    def on_purge(self, eng, st, site, old): pass
    def on_join(self, eng, s, a, b): pass
