"""Loads the facts the rustc driver wrote: functions (MIR), types."""
import json

import terms


class Fn:
    __slots__ = ("id", "path", "crate", "file", "line", "argc", "closure", "spread", "vis", "locals", "names",
                 "blocks", "impl_trait", "impl_self", "parent", "targs", "root", "rpo", "live", "borrowed",
                 "dropflags", "pkg", "preds", "loops")

    def __repr__(self):
        return f"<{self.path}#{self.id}>"


class Program:
    def __init__(self, path, pkg):
        self.fns = {}
        self.adts = {}
        self.pkg = pkg
        self.roots = []
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                if o["k"] == "fn":
                    fn = Fn()
                    for k in ("id", "path", "crate", "file", "line", "argc", "closure", "spread", "vis", "locals",
                              "names", "blocks", "targs", "root"):
                        setattr(fn, k, o[k])
                    fn.impl_trait = o.get("impl_trait")
                    fn.impl_self = o.get("impl_self")
                    fn.parent = o.get("parent")
                    fn.rpo = None
                    fn.pkg = pkg
                    self.fns[fn.id] = fn
                    if fn.root:
                        self.roots.append(fn)
                elif o["k"] == "adt":
                    self.adts[o["name"]] = o
                    terms.VARIANTS[o["name"]] = {str(v["d"]): v["n"] for v in o["variants"]}
        self.by_path = {}
        for fn in self.roots:
            self.by_path.setdefault(fn.path, []).append(fn)

    def callgraph(self):
        """fn id -> (callee descriptors, callee ids); closures created count as callees."""
        if getattr(self, "_cg", None) is not None:
            return self._cg
        cg = {}
        for fn in self.fns.values():
            names, ids = [], set()

            def look(o):
                if o[0] == "fn":
                    names.append(o[1])
                    if o[1].get("inst") is not None:
                        ids.add(o[1]["inst"])
            for b in fn.blocks:
                if not b:
                    continue
                for s in b["s"]:
                    if s[0] == "=":
                        r = s[2]
                        if r[0] == "agg":
                            if r[1] == "closure" and len(r) > 4 and r[4] is not None:
                                ids.add(r[4])
                            for o in r[3]:
                                look(o)
                        elif r[0] in ("use",):
                            look(r[1])
                        elif r[0] == "cast":
                            look(r[2])
                t = b["t"]
                if t[0] == "call":
                    look(t[1])
                    for o in t[2]:
                        look(o)
            cg[fn.id] = (names, ids)
        self._cg = cg
        return cg

    def reaching(self, pred):
        """ids of the functions from which a call satisfying pred(callee json) can be reached."""
        cg = self.callgraph()
        rev = {}
        todo = []
        res = set()
        for i, (names, ids) in cg.items():
            for j in ids:
                rev.setdefault(j, set()).add(i)
            if any(pred(n) for n in names):
                res.add(i)
                todo.append(i)
        while todo:
            i = todo.pop()
            for j in rev.get(i, ()):
                if j not in res:
                    res.add(j)
                    todo.append(j)
        return res

    def weight(self, i, seen=None):
        """blocks in the transitive closure of local callees."""
        w = getattr(self, "_w", None)
        if w is None:
            w = self._w = {}
        if i in w:
            return w[i]
        cg = self.callgraph()
        st, seen = [i], set()
        n = 0
        while st:
            j = st.pop()
            if j in seen or j not in self.fns:
                continue
            seen.add(j)
            n += sum(1 for b in self.fns[j].blocks if b)
            st.extend(cg[j][1])
        w[i] = n
        return n

    def local(self, fn):
        return fn.crate == "tftp_dus"

    def size_of(self, ty):
        """Bytes of a type, if the compiler told"""
        m = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16}.get(ty)
        return m if m is not None else self.adts.get(ty, {}).get("size")

    def variants(self, adt):
        a = self.adts.get(adt)
        return a["variants"] if a else None

    def is_multi_enum(self, adt):
        a = self.adts.get(adt)
        return bool(a and a["kind"] == "enum" and len(a["variants"]) > 1)

    def field_index(self, adt, variant, name):
        a = self.adts.get(adt)
        if not a:
            return None
        for v in a["variants"]:
            if v["n"] == variant or a["kind"] != "enum":
                try:
                    return v["f"].index(name)
                except ValueError:
                    return None
        return None


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


def op_places(o):
    if o[0] in ("p", "m"):
        yield o[1]


def rv_places(r):
    k = r[0]
    if k in ("use",):
        yield from op_places(r[1])
    elif k in ("ref", "discr"):
        yield r[1]
    elif k == "repeat":
        yield from op_places(r[1])
    elif k == "cast":
        yield from op_places(r[2])
    elif k == "bin":
        yield from op_places(r[2])
        yield from op_places(r[3])
    elif k == "un":
        yield from op_places(r[2])
    elif k == "agg":
        for o in r[3]:
            yield from op_places(o)


def place_uses(p):
    yield p[0]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            yield e[1]


def prepare(fn):
    """Reverse post order, liveness, drop flags."""
    if fn.rpo is not None:
        return
    n = len(fn.blocks)
    seen = [False] * n
    order = []
    stack = [(0, iter(succs(fn.blocks[0]["t"])))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s] and fn.blocks[s] is not None:
                seen[s] = True
                stack.append((s, iter(succs(fn.blocks[s]["t"]))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    fn.rpo = {b: i for i, b in enumerate(order)}
    # borrowed locals
    borrowed = set()
    boolconst = {}
    for b in order:
        for s in fn.blocks[b]["s"]:
            if s[0] == "=":
                if s[2][0] == "ref" and "*" not in s[2][1][1:]:
                    borrowed.add(s[2][1][0])
    fn.borrowed = borrowed
    # liveness
    gen, kill = {}, {}
    for b in order:
        g, k = set(), set()

        def use(l):
            if l not in k:
                g.add(l)

        for s in fn.blocks[b]["s"]:
            if s[0] == "=":
                for p in rv_places(s[2]):
                    for l in place_uses(p):
                        use(l)
                if len(s[1]) == 1:
                    k.add(s[1][0])
                else:
                    for l in place_uses(s[1]):
                        use(l)
            elif s[0] == "sd":
                use(s[1][0])
        t = fn.blocks[b]["t"]
        if t[0] == "switch":
            for p in op_places(t[1]):
                for l in place_uses(p):
                    use(l)
        elif t[0] == "call":
            for o in [t[1]] + t[2]:
                for p in op_places(o):
                    for l in place_uses(p):
                        use(l)
            if len(t[3]) == 1:
                k.add(t[3][0])
            else:
                for l in place_uses(t[3]):
                    use(l)
        elif t[0] == "assert":
            for o in [t[1]] + t[4]:
                for p in op_places(o):
                    for l in place_uses(p):
                        use(l)
        elif t[0] == "drop":
            if t[4] is not None:
                use(t[1][0])
        elif t[0] == "return":
            use(0)
        gen[b], kill[b] = g, k
    live = {b: set() for b in order}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            out = set()
            for s in succs(fn.blocks[b]["t"]):
                if s in live:
                    out |= live[s]
            new = gen[b] | (out - kill[b])
            if new != live[b]:
                live[b] = new
                changed = True
    fn.live = {b: frozenset(v) for b, v in live.items()}
    # drop flags: bool locals only ever assigned constants and only read by switches leading to a drop
    assigned, other, sw = {}, set(), {}
    for b in order:
        for s in fn.blocks[b]["s"]:
            if s[0] == "=":
                if len(s[1]) == 1 and fn.locals[s[1][0]] == "bool" and s[2][0] == "use" and s[2][1][0] == "c":
                    assigned.setdefault(s[1][0], 0)
                elif len(s[1]) >= 1:
                    other.add(s[1][0])
                for p in rv_places(s[2]):
                    other.add(p[0])
        t = fn.blocks[b]["t"]
        if t[0] == "switch" and t[1][0] in ("p", "m"):
            sw.setdefault(t[1][1][0], []).append(t)
        elif t[0] == "call":
            for o in t[2]:
                for p in op_places(o):
                    other.add(p[0])
            other.add(t[3][0])
    # drop elaboration clears every flag on entry; a `matches!` result is never set there
    entry = {s[1][0] for s in fn.blocks[0]["s"] if s[0] == "=" and len(s[1]) == 1 and s[2][0] == "use" and s[2][1][0] == "c"}
    flags = set()
    for l in assigned:
        if l not in entry or l in other or l not in sw or str(l) in fn.names:
            continue
        ok = True
        for t in sw[l]:
            tgt = t[3]
            tb = fn.blocks[tgt]
            hops = 0
            while tb and not tb["s"] and tb["t"][0] == "goto" and hops < 3:
                tb = fn.blocks[tb["t"][1]]
                hops += 1
            if not tb or tb["t"][0] not in ("drop", "switch") or (tb["t"][0] == "switch" and not drops_only(fn, tb)):
                ok = False
        if ok:
            flags.add(l)
    fn.dropflags = flags


def drops_only(fn, tb):
    # open drop of an enum: discriminant switch whose targets drop
    n = 0
    st = [tb]
    seen = set()
    while st:
        b = st.pop()
        if id(b) in seen:
            continue
        seen.add(id(b))
        n += 1
        if n > 12:
            return False
        if b["t"][0] == "drop":
            return True
        for s in succs(b["t"]):
            if fn.blocks[s]:
                st.append(fn.blocks[s])
    return False
