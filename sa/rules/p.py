"""P: the wire format."""
import re

import engine
import lin
from common import *
from sess import *
from terms import *
from rules.e import is_field, tail
from rules.n import fname, inner
from rules.w import slice_of

OPCODES = {"Read": 1, "Write": 2, "Data": 3, "Ack": 4, "Error": 5, "OptionalAck": 6}
CODES = {"Undefined": 0, "FileNotFound": 1, "AccessViolation": 2, "DiskFull": 3, "IllegalOperation": 4, "UnknownId": 5, "FileAlreadyExists": 6, "NotSuchUser": 7}
EXT = ("name", "0", "value", "0")
LAYOUT = {"Read": ("op", "file_name", "0", "mode", "0"), "Write": ("op", "file_name", "0", "mode", "0"), "Data": ("op", "block", "data"),
          "Ack": ("op", "block"), "Error": ("op", "code", "message", "0"), "OptionalAck": ("op",)}
LOOP = ("Read", "Write", "OptionalAck")


def texts(p):
    """Functions from a value of a local type to its text"""
    return {f.path for f in p.roots if f.crate == "tftp_dus" and f.argc == 1 and f.locals[0].lstrip("&").split(" ")[-1] == "str" and "tftp_dus::" in f.locals[1]}


def writers(p):
    """Functions that copy bytes into a buffer at a position and return the position after them"""
    return [f for f in direct_callers(p, lambda o: o["path"].endswith("::copy_from_slice")) if f.argc == 3 and f.locals[0].endswith("Option<usize>")]


def peel(t):
    while True:
        if t.op in ("&", "deref"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "pure" and len(t.a) == 2 and t.a[0].split("::")[-1] in ("clone", "copied", "cloned", "to_owned", "iter", "into_iter", "into", "from", "by_ref"):
            t = t.a[1]
        elif t.op == "ref" and t.a[0][0] == "M":
            r = t.a[0][1]
            for k in t.a[1]:
                r = mk("fld", r, k)
            t = r
        else:
            return t


def unprime(t, memo={}):
    """t with the loop iterations its call results come from forgotten"""
    if isinstance(t, tuple):
        return tuple(unprime(x) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        a = tuple(unprime(x) for x in t.a)
        if t.op in ("ret", "mut") and isinstance(a[1], tuple):
            a = (a[0], a[1][:2]) + a[2:]
        r = memo[t] = mk(t.op, *a)
    return r


def thaw(l):
    return None if l is None else (dict(l[0]), l[1])


class Numbers(Enums):
    """Two byte big endian numbers, and what the packet in hand is."""
    def number(self, t):
        t = strip_cast(peel(t))
        if t.op == "discr" and t.a[0].op == "agg":
            t = t.a[0]
        if t.op == "agg" and not t.a[2]:
            for v in self.p.variants(t.a[0]) or ():
                if v["n"] == t.a[1]:
                    return int(v["d"])
        if t.op == "const":
            if isinstance(t.a[1], int):
                return t.a[1]
            for adt in ("tftp_dus::packet::PacketType", "tftp_dus::packet::ErrorCode") if t.a[0] == "discr" else ():
                for v in self.p.variants(adt) or ():
                    if v["n"] == t.a[1]:
                        return int(v["d"])
        return None

    def on_enum(self, eng, st, x, adt, names):
        if len(names) != 1:
            return
        if tail(adt) == "Packet" and peel(x).op == "param":
            st.ts["kind"] = next(iter(names))
        elif tail(adt) == "ErrorCode" and is_field(peel(x), "code"):
            st.ts["code"] = next(iter(names))

    def be16(self, x, st):
        """Token for the number x written as two bytes"""
        x = peel(x)
        n = self.number(x)
        if n is not None:
            if "code" in st.ts and CODES.get(st.ts["code"]) == n:
                return "code"
            return f"be16:{n}"
        x = strip_cast(x)
        if x.op == "discr" and is_field(peel(x.a[0]), "code"):
            return "code"
        if is_field(x, "block") or x.op == "param" and "block" in str(x.a[-1]):
            return "block"
        return "?"

    def token(self, eng, st, t):
        t = peel(t)
        if t in self.two:
            return self.be16(t.a[1], st)
        if t.op == "agg" and len(t.a[2]) == 1 and t.a[2][0].op == "const":
            return str(t.a[2][0].a[1])
        if t.op == "const" and t.a[1] in ("\0", b"\0"):
            return "0"
        if t.op in ("pure", "ret") and t.a[0] in self.textnames:
            x = peel(callargs(t)[0])
            return "mode" if is_field(x, "mode") else "name" if self.entry(x, "0") else "?"
        if self.entry(t, "1"):
            return "value"
        for n in ("file_name", "data", "message"):
            if is_field(t, n) and has(t, lambda y: y.op == "param"):
                return n
        return "?"

    def entry(self, x, n):
        """x is the key (0) or value (1) of the entry of the options being written"""
        if x.op != "fld" or str(x.a[1]) != n:
            return False
        x = peel(x.a[0])
        return x.op == "ret" and x.a[0].startswith("closure-arg") and has(x, lambda y: is_field(y, "extensions")) or x.op == "fld" and x.a[1] == "Some.0" and fname(x.a[0]) == "next" and has(x.a[0], lambda y: is_field(y, "extensions"))

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == "num::to_be_bytes" and result_type(ctx, bb) == "[u8; 2]":
            self.two.add(unref(res))

    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.two = set()
        self.textnames = {engine.short_name(x) for x in texts(prog)}

    def expected(self, kind, seg):
        ks = LAYOUT[kind]
        if seg < len(ks):
            return ks[seg], seg + 1
        if kind not in LOOP:
            return None, seg
        i = (seg - len(ks)) % 4
        return EXT[i], len(ks) + (i + 1) % 4 + 4

    def final(self, kind, seg):
        n = len(LAYOUT[kind])
        return seg == n or kind in LOOP and seg == n + 4 or bool(self.fixed) and seg == n - 1


class Encode(Numbers):
    """to_buffer: consecutive writes of the packet's parts"""
    def __init__(self, c, prog, fixed=None):
        super().__init__(c, prog)
        self.fixed = fixed
        self.writers = {engine.short_name(f.path) for f in writers(prog)}
        self.ends = {}
        self.starts = []
        self.n = {}

    def start(self, eng, st, ctx):
        st.ts["seg"] = 0
        if self.fixed:
            st.ts["kind"] = self.fixed

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def norm(self, l):
        d, c = l
        r = {}
        for t, n in d.items():
            x = peel(t.a[1]) if t.op == "pure" and t.a[0] == "len" else None
            if x is not None and x in self.two:
                c += 2 * n
            elif x is not None and x.op == "agg" and x.a[0] == "array":
                c += len(x.a[2]) * n
            else:
                t = unprime(t)
                r[t] = r.get(t, 0) + n
        return frozenset(r.items()), c

    def add(self, a, b):
        return sub_linear(b, ({k: -v for k, v in a[0].items()}, -a[1]))

    def base(self, st, t):
        """The position in the packet's buffer at which slice t starts, or None"""
        t = peel(slice_of(t))
        if t.op == "param":
            return {}, 0
        if t.op == "mut":
            return self.base(st, t.a[3][t.a[2]])
        if t.op == "fld" and t.a[1] == "Some.0":
            return thaw(st.ts.get(f"at{t.a[0].id}", (None,))[0])
        if t.op in ("ret", "pure"):
            return thaw(st.ts.get(f"at{t.id}", (None,))[0])
        return None

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)
        if d.name in self.writers:
            b = self.base(st, views[0])
            if b is not None:
                lo = linear(strip_cast(views[2]))
                self.part(eng, st, ctx, line, views[1], self.norm(self.add(b, lo)), self.norm(self.add(b, ({mk("fld", unref(res), "Some.0"): 1}, 0))))
            else:
                self.part(eng, st, ctx, line, views[1], None, None)
            return
        if d.tail in ("get_mut", "index_mut") and views[0] is not None:
            b, r = self.base(st, views[0]), peel(views[1])
            if b is None or r.op != "agg":
                return
            lo = r.a[2][0] if r.a[1] in ("Range", "RangeFrom") else None
            hi = r.a[2][-1] if r.a[1] in ("Range", "RangeTo") else None
            add = lambda x: self.add(b, x)
            st.ts[f"at{unref(res).id}"] = (self.norm(add(linear(lo)) if lo is not None else b), self.norm(add(linear(hi))) if hi is not None else None)

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail not in ("copy_from_slice", "clone_from_slice"):
            return
        dst, src = eng.view(st, args[0]), eng.view(st, args[1])
        t = peel(slice_of(dst))
        at = st.ts.get(f"at{(t.a[0] if t.op == 'fld' else t).id}", (None, None))
        self.part(eng, st, ctx, line, src, *at)

    def part(self, eng, st, ctx, line, src, at, end):
        kind, seg = st.ts.get("kind"), st.ts["seg"]
        tok = self.token(eng, st, src)
        w = where(ctx, line)
        if kind is None or at is None or end is None:
            self.c.oblig(self.key(f"write:{kind}:{seg}"), False, w, f"a write of {show(src)[:60]} outside a known packet or position")
            return
        want, nxt = self.expected(kind, seg)
        self.n[kind] = max(self.n.get(kind, 0), seg + 1)
        if want == "op":
            self.c.oblig(self.key(f"number:{kind}"), tok == f"be16:{OPCODES[kind]}", w, f"{kind} packets start with {tok}")
        else:
            self.c.oblig(self.key(f"part:{kind}:{want}:{seg}"), tok == want, w, f"{kind}: part {seg} is {tok} ({show(src)[:80]}), expected {want}")
        self.starts.append((kind, seg, at, w))
        self.ends.setdefault((kind, nxt), set()).add(end)
        st.ts["seg"] = nxt
        for k in [k for k in st.ts if k.startswith("at") and st.ts[k][1] is not None]:
            del st.ts[k]

    def on_root_return(self, eng, st, ctx, v):
        v = unref(v)
        if v.op == "agg" and v.a[1] == "None":
            return
        kind, seg = st.ts.get("kind"), st.ts["seg"]
        w = where(ctx, ctx.fn.line if hasattr(ctx.fn, "line") else 0)
        ok = kind is not None and self.final(kind, seg)
        self.c.oblig(self.key(f"complete:{kind}"), ok, w, f"{kind}: returns after {seg} parts")
        if ok and v.op == "agg" and v.a[1] == "Some":
            self.starts.append((kind, seg, self.norm(linear(v.a[2][0])), w + " (returned size)"))
        elif ok and v.op == "ret":
            self.starts.append((kind, seg, self.norm(({mk("fld", v, "Some.0"): 1}, 0)), w + " (returned size)"))
        elif ok:
            self.c.oblig(self.key(f"size:{kind}"), False, w, f"{kind}: the size returned is not known ({show(v)[:80]})")

    def on_end(self, eng):
        def holds(l, good, seen):
            """l is one of good, joins resolved"""
            if l in good or l in seen:
                return True
            seen = seen | {l}
            d, c = l
            for t, n in d:
                if t.op == "phi" and n == 1 and eng.phimem.get(t):
                    for m in eng.phimem[t]:
                        x, k = linear(m)
                        y = dict(d)
                        del y[t]
                        for a, b in x.items():
                            y[a] = y.get(a, 0) + b
                        if not holds(self.norm((y, c + k)), good, seen):
                            return False
                    return True
            return False
        for kind, seg, l, w in self.starts:
            good = self.ends.get((kind, seg), set()) if seg else {(frozenset(), 0)}
            ok = holds(l, good, frozenset())
            self.c.oblig(self.key(f"position:{kind}:{seg}"), ok, w, f"{kind}: part {seg} does not start where the part before it ends ({[(show(t)[:40], n) for t, n in l[0]]}+{l[1]})")


class Decode(Numbers):
    """from_bytes: which bytes of the packet each part is read from"""
    def __init__(self, c, prog, kind=None, base=2):
        super().__init__(c, prog)
        self.kind = kind
        self.off = base if kind is None else 0
        self.bases = {}
        self.zero = {}
        self.n = {}
        self.later = []
        self.inserts = {}
        self.asked, self.cuts, self.tab, self.now, self.grown = set(), set(), {}, set(), False
        self.hdr = True
        self.names, self.values, self.lost = set(), set(), []

    key = Encode.key

    def start(self, eng, st, ctx):
        if self.kind:
            st.ts["kind"] = self.kind

    def over(self, eng, t, f):
        """Union of f over the values t may have; None when t is not a join"""
        x, names = t, []
        while x.op == "fld" and not isinstance(x.a[1], tuple):
            names.append(x.a[1])
            x = peel(x.a[0])
        if x.op != "phi":
            return None
        r = set()
        for m in eng.phimem.get(x, ()):
            for n in names[::-1]:
                m = peel(m)
                if m.op == "agg" and "." in str(n) and str(n).split(".")[0] != m.a[1]:
                    break
                m = m.a[2][0] if m.op == "agg" and str(n) == f"{m.a[1]}.0" and m.a[2] else mk("fld", m, n)
            else:
                r |= f(eng, m)
        return r

    def table(name, f):
        """f(self, eng, t) -> set, over the cyclic graph of joins: least fixed point"""
        def g(self, eng, t):
            t = peel(t)
            k = (name, t, self.hdr)
            if k in self.now:
                return self.tab.get(k, set())
            top = not self.now
            while True:
                self.now.add(k)
                r = f(self, eng, t)
                if r != self.tab.get(k, set()):
                    self.tab[k] = self.tab.get(k, set()) | r
                    self.grown = True
                if not top:
                    return self.tab.get(k, set())
                self.now.clear()
                if not self.grown:
                    return self.tab.get(k, set())
                self.grown = False
        return g

    # a slice is (offset, number of zero terminated texts skipped)
    def spot_(self, eng, t):
        r = self.over(eng, t, self.spot)
        if r is not None:
            return r
        if t.op == "param":
            return {(0, 0)}
        if t.op == "fld" and t.a[1] == "Some.0" and fname(t.a[0]) == "get":
            x, r = [peel(y) for y in callargs(t.a[0])[:2]]
        elif t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][0] == "sl":
            x, r = t.a[0], peel(t.a[1][1])
        elif self.split(t):
            x, i, n = self.split(t)
            r = mk("agg", "", ("RangeTo", "RangeFrom")[i], (n,))
        else:
            return {"?"}
        return set().union(*[self.cut(eng, x, peel(y)) for y in alts(eng, r)])

    def split(self, t):
        """(slice, 0 or 1, place) where t is a part of the slice split there"""
        if t.op != "fld":
            return None
        if t.a[1] == "Some.0" and fname(t.a[0]) == "first_chunk":
            return callargs(t.a[0])[0], 0, const("usize", 2)
        x = peel(t.a[0])
        if x.op == "fld" and x.a[1] == "Some.0":
            x = x.a[0]
        if str(t.a[1]) in ("0", "1") and fname(x) in ("split_at", "split_at_checked", "split_first_chunk"):
            a = callargs(x)
            return a[0], int(t.a[1]), a[1] if len(a) > 1 else const("usize", 2)
        return None

    def cut(self, eng, x, r):
        if r.op != "agg":
            return {"?"}
        if r.a[1] == "RangeTo" or r.a[1] == "Range" and linear(r.a[2][0]) == ({}, 0):
            return self.spot(eng, x)
        if r.a[1] != "RangeFrom":
            return {"?"}
        s = self.spot(eng, x)
        l = linear(r.a[2][0])
        if not l[0]:
            return {p if p == "?" else (p[0] + l[1], p[1]) if not p[1] and p[0] + l[1] <= 8 else "?" for p in s}
        # one more than the position of a zero: the next text (that the zero is the first one of x itself is asked at the end)
        self.asked.add((r.a[2][0], x))
        return {p if p == "?" else (p[0], self.skip(p[1])) for p in s}

    spot = table("spot", spot_)

    def skip(self, k):
        # header texts (file name, mode) then names and values in turn
        h = 2 if self.hdr else 0
        return h + (k + 1 - h) % 2 if k + 1 > h else k + 1

    def found_(self, eng, n):
        """(slice, k): n is k more than the position of the first zero in the slice"""
        n = strip_cast(n)
        d, k = linear(n)
        if len(d) == 1 and k:
            m, c = next(iter(d.items()))
            return {p if p == "?" else (p[0], k + p[1]) for p in self.found(eng, m)} if c == 1 and 0 < k < 8 else {"?"}
        r = self.over(eng, n, self.found)
        if r is not None:
            return r
        if n.op == "fld" and n.a[1] == "Some.0" and fname(n.a[0]) == "position":
            k = site(n.a[0])
            if not self.zero.get(k):
                return {"?"}
            return {p if p == "?" else (p, 0) for x in self.bases.get(k, ()) for p in self.spot(eng, x)}
        return {"?"}

    found = table("found", found_)

    def end_of_(self, eng, t):
        """The slices t is the text at the start of: cut at the first zero"""
        r = self.over(eng, t, self.end_of)
        if r is not None:
            return r
        parse = ("parse", "from_str", "from_utf8", "try_from", "try_into")
        if t.op == "fld" and str(t.a[1]) in ("Ok.0", "Some.0") and fname(t.a[0]) in parse:
            t = peel(t.a[0])
        if fname(t) in parse:
            return self.end_of(eng, callargs(t)[0])
        if t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][0] == "sl":
            x, r = t.a[0], peel(t.a[1][1])
        elif t.op == "fld" and t.a[1] == "Some.0" and fname(t.a[0]) == "get":
            x, r = [peel(y) for y in callargs(t.a[0])[:2]]
        elif self.split(t) and self.split(t)[1] == 0:
            x, _, n = self.split(t)
            r = mk("agg", "", "RangeTo", (n,))
        else:
            return {"?"}
        if r.op != "agg" or not (r.a[1] == "RangeTo" or r.a[1] == "Range" and linear(r.a[2][0]) == ({}, 0)):
            return {"?"}
        self.cuts.add((r.a[2][-1], x))
        return self.spot(eng, x)

    end_of = table("end", end_of_)

    def read(self, eng, t):
        """end_of, with everything it rests on asked"""
        self.asked, self.cuts, self.tab, self.now, self.grown = set(), set(), {}, set(), False
        r = set(self.end_of(eng, t))
        for q, k in ((self.cuts, 0), (self.asked, 1)):
            for n, x in list(q):
                if set(self.found(eng, n)) != {p if p == "?" else (p, k) for p in self.spot(eng, x)}:
                    return {"?"}
        return r

    def two_at(self, eng, t):
        """The offsets of the two bytes t is read from"""
        t = strip_cast(peel(t))
        if fname(t) != "from_be_bytes" or t not in self.two:
            return {"?"}
        x = peel(callargs(t)[0])
        if x.op == "agg" and len(x.a[2]) == 2:
            a, b = [peel(y) for y in x.a[2]]
            i, j = [y.a[1][1] if y.op == "fld" and isinstance(y.a[1], tuple) and y.a[1][0] == "i" else None for y in (a, b)]
            if i is None or j is None or a.a[0] != b.a[0] or i.op != "const" or j.op != "const" or j.a[1] != i.a[1] + 1:
                return {"?"}
            return {p if p == "?" else (p[0] + i.a[1], p[1]) if not p[1] else "?" for p in self.spot(eng, a.a[0])}
        while x.op == "fld" and x.a[1] in ("Ok.0",) or fname(x) in ("try_into", "try_from"):
            x = peel(x.a[0] if x.op == "fld" else callargs(x)[0])
        return self.spot(eng, x)

    def exhausted(self, eng, t, v):
        """The fact says that no bytes are left, or that there are as many options as there are names"""
        if t.op == "phi":
            ms = [m for m in alts(eng, t) if m.op != "phi" and not (m.op == "const" and m.a[1] != v)]
            return bool(ms) and all(self.exhausted(eng, m, v) for m in ms)
        if t.op == "discr" and v == "None":
            return any(fname(x) in ("get", "first", "split_first") for x in map(peel, alts(eng, t.a[0])))
        if t.op == "pure" and t.a[0].endswith("::is_empty"):
            return v is True and self.rest_of(eng, t.a[1])
        if t.op == "pure" and t.a[0] == "len":
            return v == 0 and not isinstance(v, bool) and self.rest_of(eng, t.a[1])
        if t.op != "bin" or t.a[0] not in ("Eq", "Lt", "Ne", "Le", "Gt", "Ge"):
            return False
        op, a, b = t.a
        for op, a, b in ((op, a, b), ({"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a)):
            a = next((x for x in alts(eng, a) if x.op == "pure" and x.a[0] == "len"), a)
            if a.op == "pure" and a.a[0] == "len" and b.op == "const" and isinstance(b.a[1], int):
                lo = {("Eq", True): b.a[1], ("Ne", False): b.a[1], ("Lt", False): b.a[1], ("Ge", True): b.a[1], ("Le", False): b.a[1] + 1, ("Gt", True): b.a[1] + 1}.get((op, v), 0)
                hi = {("Eq", True): b.a[1], ("Ne", False): b.a[1], ("Gt", False): b.a[1], ("Le", True): b.a[1], ("Ge", False): b.a[1] - 1, ("Lt", True): b.a[1] - 1}.get((op, v), 1)
                return hi == 0 and self.rest_of(eng, a.a[1]) or lo >= len(self.variants("tftp_dus::packet::Extension")) and not self.rest_of(eng, a.a[1])
        return False

    def on_known(self, eng, st, t, v):
        if self.exhausted(eng, t, v):
            st.ts["rest"] = False

    def rest_of(self, eng, x):
        """x is bytes of the packet rather than the options read so far"""
        return not any(y.op == "mut" or fname(y) in ("new", "default") for y in map(peel, alts(eng, x)))

    def kept(self, st, w):
        if st.ts.get("name") == st.ts.get("value") == "Ok" and not st.ts.get("kept"):
            self.lost.append(w)
        for k in ("name", "value", "kept"):
            st.ts.pop(k, None)

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail in ("parse", "from_str"):
            t = result_type(ctx, bb)
            if "::Extension" in t:
                self.names.add(site(unref(res)))
            elif "::Mode" not in t and self.names | self.zero.keys():
                self.values.add(site(unref(res)))
        if d.tail == "from_be_bytes" and result_type(ctx, bb) == "u16":
            self.two.add(unref(res))
        elif d.tail == "position" and views:
            self.bases.setdefault(site(res), set()).add(peel(views[0]))

    def on_return(self, eng, st, ctx, v):
        d = getattr(ctx, "d", None)
        if d is not None and d.tail == "position":
            v = unref(v)
            ok = v.op == "bin" and v.a[0] == "Eq" and any(x.op == "const" and x.a[1] == 0 for x in v.a[1:])
            k = tuple(ctx.site_[:2])
            self.zero[k] = self.zero.get(k, True) and ok

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        self.on_known(eng, st, t, v)
        ks = {site(x) for x in alts(eng, t.a[0]) if fname(x) in ("parse", "from_str")} if t.op == "discr" and v in ("Ok", "Err") else ()
        for n, s in (("name", self.names), ("value", self.values)):
            if ks and ks & s and n not in st.ts:
                # the first test of an iteration: later ones belong to drops
                st.ts[n] = v
        if not isinstance(v, bool) and isinstance(v, int):
            n, x = v, t
        elif v is True and t.op == "bin" and t.a[0] == "Eq":
            n, x = next(((self.number(a), b) for a, b in (t.a[1:], t.a[:0:-1]) if self.number(a) is not None), (None, None))
        else:
            return
        if n is not None and strip_cast(peel(x)) in self.two:
            at = self.two_at(eng, x)
            if at == {(0, 0)} and not self.kind:
                st.ts["op"] = n
            elif len(at) == 1 and "?" not in at:
                st.ts["num"] = (next(iter(at))[0], n)

    def on_root_return(self, eng, st, ctx, v):
        v = unref(v)
        if v.op != "agg" or v.a[1] != "Ok":
            return
        v = unref(v.a[2][0])
        kind, op = kind_of(v), st.ts.get("op")
        w = where(ctx, ctx.fn.line)
        if kind not in OPCODES:
            self.c.oblig(self.key("kind"), False, w, f"the packet returned is not known ({show(v)[:80]})")
            return
        self.n[kind] = self.n.get(kind, 0) + 1
        if kind in LOOP:
            self.kept(st, w)
            self.c.oblig(self.key(f"rest:{kind}"), st.ts.get("rest") is False, w, f"{kind} packets may be read with options left unread")
        self.c.oblig(self.key(f"number:{kind}"), op == OPCODES[kind], w, f"{kind} packets are read from packets starting with {op}")
        self.later.append((kind, payload(v), st.ts.get("num"), w))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail == "position":
            st.ts["rest"] = True
            self.kept(st, where(ctx, line))
        if d.tail == "insert" and len(args) == 3 and any(tail(str(t)) == "Extension" for t in d.targs):
            st.ts["kept"] = True
            kind = next((k for k, n in OPCODES.items() if n == st.ts.get("op")), None)
            self.inserts.setdefault((kind, (ctx.id, bb)), set()).add((eng.view(st, args[1]), eng.view(st, args[2]), where(ctx, line)))

    def on_end(self, eng):
        self.c.oblig(self.key("options:kept"), not self.lost and bool(self.names) and bool(self.values), "tftp_dus::packet", "options read but not kept, or no place where they are read")
        part = lambda kind, name, ok, w, why: self.c.oblig(self.key(f"read:{kind}:{name}"), ok, w, f"{kind}: {name} is read from {why}")
        for kind, v, num, w in self.later:
            f = lambda n: field(self.p, v, n)
            self.hdr = kind in ("Read", "Write")
            if self.hdr:
                for n, k in (("file_name", 0), ("mode", 1)):
                    r = self.read(eng, f(n))
                    part(kind, n, r == {(2, k)}, w, r)
            if kind in LOOP:
                x = [y for k, y, _, _ in self.later if k == kind]
                ok = any(y.op == "mut" and y.a[0].split("::")[-1] == "insert" for x in x for y in sub_expand(eng, field(self.p, x, "extensions")))
                part(kind, "options", ok, w, "nothing")
            if kind in ("Data", "Ack"):
                r = self.two_at(eng, f("block"))
                part(kind, "block", r == {(2, 0)}, w, r)
            if kind == "Data":
                r = self.spot(eng, f("data"))
                part(kind, "data", r == {(4, 0)} and not has(f("data"), lambda y: y.op == "agg" and y.a[1] in ("Range", "RangeTo")), w, r)
            if kind == "Error":
                code = kind_of(f("code"))
                part(kind, f"code:{code}", code in CODES and num == (2, CODES[code]), w, f"number {num}")
                r = self.read(eng, f("message"))
                part(kind, "message", r == {(4, 0)}, w, r)
        for (kind, _), s in self.inserts.items():
            if kind not in LOOP:
                self.c.oblig(self.key("option"), False, min(x[2] for x in s), "an option is read from a packet that is not a request or an option acknowledgement")
                continue
            self.hdr = kind in ("Read", "Write")
            n = 2 if self.hdr else 0
            for a, b, w in s:
                for name, t, k in (("name", a, n), ("value", b, n + 1)):
                    r = self.read(eng, t)
                    part(kind, name, r == {(2, k)}, w, r)
                    self.n[kind, name] = 1


class Bytes(Numbers):
    """to_bytes: the packet's parts chained in order"""
    key = Encode.key

    def __init__(self, c, prog):
        super().__init__(c, prog)
        self.n = {}
        self.later = []
        self.exts = 0

    def seqs(self, eng, st, t, seen=()):
        """The sequences of parts t may consist of, a loop that adds options being one part"""
        t = peel(t)
        n = fname(t)
        if t.op == "phi":
            if t in seen:
                return {(t,)}
            r = set().union(*[self.seqs(eng, st, m, seen + (t,)) for m in eng.phimem.get(t, ())])
            loop = {x for x in r if x[:1] == (t,)}
            r -= loop
            loop = {x[1:] for x in loop} - {()}
            if not loop:
                # a loop that ran no time
                return {x for x in r if x + ("options",) not in r}
            if loop != {EXT}:
                return {("?",)}
            out = set()
            for x in r:
                while x[-4:] == EXT:
                    x = x[:-4]
                out.add(x + ("options",))
            return out
        if t.op == "mut" and t.a[0].split("::")[-1] in ("extend", "extend_from_slice", "push"):
            out = set()
            for vs in [t.a[3]] + [v for v in eng.views_of(t) if v != t.a[3]]:
                y = self.flatten(eng, st, vs[1])
                out |= {x + y for x in self.seqs(eng, st, vs[0], seen)}
            return out
        if n == "chain":
            a, b = [self.seqs(eng, st, x, seen) for x in callargs(t)[:2]]
            return {x + y for x in a for y in b}
        if n in ("new", "with_capacity", "default"):
            return {()}
        if n in ("once", "collect", "to_vec"):
            return self.seqs(eng, st, callargs(t)[0], seen)
        return {self.flatten(eng, st, t)}

    def flatten(self, eng, st, t):
        t = peel(t)
        if t in self.two:
            return (self.token(eng, st, t),)
        n = fname(t)
        if n == "chain":
            return self.flatten(eng, st, callargs(t)[0]) + self.flatten(eng, st, callargs(t)[1])
        if n == "once" or n == "collect":
            return self.flatten(eng, st, callargs(t)[0])
        if n == "fold" and has(t, lambda y: is_field(y, "extensions")):
            return ("options",)
        return (self.token(eng, st, t),)

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail == "extend" and len(args) == 2 and has(eng.view(st, args[0]), lambda y: y.op == "ret" and y.a[0].startswith("closure-arg")):
            r = self.flatten(eng, st, eng.view(st, args[1]))
            self.exts += 1
            self.c.oblig(self.key("chain:options"), r == EXT, where(ctx, line), f"an option is written as {r}")

    def on_root_return(self, eng, st, ctx, v):
        kind, w = st.ts.get("kind"), where(ctx, ctx.fn.line)
        rs = self.seqs(eng, st, v)
        r = next(iter(rs)) if len(rs) == 1 else ("?", str(sorted(rs)))
        if kind is None:
            self.c.oblig(self.key("chain:kind"), False, w, "bytes of an unknown packet")
            return
        want = LAYOUT[kind][1:] + (("options",) if kind in LOOP else ())
        self.n[kind] = 1
        self.c.oblig(self.key(f"number:{kind}:chained"), r[0] == f"be16:{OPCODES[kind]}", w, f"{kind} packets start with {r[0]}")
        self.exts += "options" in r
        self.c.oblig(self.key(f"chain:{kind}"), r[1:] == want, w, f"{kind} packets are written as {r}")


def kind_of(v):
    v = unref(v)
    return v.a[1] if v.op in ("agg", "const") and isinstance(v.a[1], str) else None


def site(t):
    return tuple(t.a[1][:2]) if t.op == "ret" and isinstance(t.a[1], tuple) else t


class Primitive(engine.Rule):
    """A function that copies bytes into a buffer at a position"""
    def __init__(self, c, prog, fn):
        self.c, self.p, self.fn = c, prog, fn
        self.copies = 0

    key = Encode.key

    def par(self, t, i):
        t = strip_cast(peel(t))
        while t.op == "pure" and len(t.a) == 2 and t.a[0].split("::")[-1] in ("as_ref", "into", "from", "borrow"):
            t = strip_cast(peel(t.a[1]))
        return t.op == "param" and t.a[0] == i

    def total(self, t):
        """t is position + length of the data"""
        d, c = linear(t)
        return not c and len(d) == 2 and set(d.values()) == {1} and any(self.par(x, 3) for x in d) and any(x.op == "pure" and x.a[0] == "len" and self.par(x.a[1], 2) for x in d)

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail != "copy_from_slice":
            return
        w = where(ctx, line)
        dst, src = peel(slice_of(eng.view(st, args[0]))), eng.view(st, args[1])
        if dst.op == "fld" and dst.a[1] == "Some.0":
            dst = dst.a[0]
        x, r = [peel(y) for y in callargs(dst)[:2]] if fname(dst) in ("get_mut", "index_mut") else (dst, None)
        ok = self.par(x, 1) and r is not None and r.op == "agg" and r.a[1] == "Range" and self.par(r.a[2][0], 3) and self.total(r.a[2][1]) and self.par(src, 2)
        st.ts["copied"] = True
        self.copies += 1
        self.c.oblig(self.key("copy"), ok, w, f"copies {show(src)[:60]} to {show(dst)[:120]}")

    def on_root_return(self, eng, st, ctx, v):
        v = unref(v)
        if v.op == "agg" and v.a[1] == "None":
            return
        ok = st.ts.get("copied") and v.op == "agg" and v.a[1] == "Some" and self.total(v.a[2][0])
        self.c.oblig(self.key("copy:size"), bool(ok), where(ctx, ctx.fn.line), f"returns {show(v)[:100]} for the position after the data")


def packet_fns(p, method):
    return [f for f in methods_of(p, "ByteConverter", method) if "::Packet" in f.path.split(" as ")[0]]


def wire(c, numbers):
    """Analyses the writers and readers of packets; keeps the obligations about numbers, or the others"""
    configs = ("full", "stack")
    for cfg in configs:
        sub = Check(c.pid)
        sub.cfg, sub.progs, sub.facts_paths, sub.configs = cfg, c.progs, c.facts_paths, c.configs
        p = sub.prog(cfg, "lib")
        cut = set(texts(p)) | {f.path for f in writers(p)}

        def opaque(d, fn):
            return fn.path in cut or d.tail == "from_str" or fn.crate != "tftp_dus" and p.weight(fn.id) > 200
        n = {"write": 0, "chain": 0, "read": 0, "header": 0, "options": 0}
        for f in packet_fns(p, "to_buffer"):
            r = Encode(sub, p)
            sub.run(p, f, [r], opaque=opaque)
            n["write"] = max(n["write"], sum(1 for k in r.n if r.final(k, r.n[k]) or r.n[k] >= len(LAYOUT[k])))
        for f in roots_named(p, "prepend_data_header"):
            r = Encode(sub, p, "Data")
            sub.run(p, f, [r], opaque=opaque)
            n["header"] += r.n.get("Data", 0)
        for f in packet_fns(p, "to_bytes"):
            r = Bytes(sub, p)
            sub.run(p, f, [r], opaque=opaque)
            n["chain"] += len(r.n)
            n["options"] += min(r.exts, 1)
        for f in packet_fns(p, "from_bytes"):
            r = Decode(sub, p)
            sub.run(p, f, [r], opaque=opaque)
            n["read"] += sum(1 for k in r.n if k in OPCODES)
            n["options"] += sum(1 for k in r.n if k not in OPCODES)
            for k in CODES:
                sub.oblig(f"{cfg}:number:code:{k}", f"{cfg}:read:Error:code:{k}" in sub.obl, f.path, f"no error packet is read as {k}")
        for f in writers(p):
            r = Primitive(sub, p, f)
            sub.run(p, f, [r])
            sub.floor(f"{cfg}:copy", r.copies, 1, "copies of bytes into a packet")
        sub.floor(f"{cfg}:written", n["write"], 6, "kinds of packets written to a buffer")
        sub.floor(f"{cfg}:chained", n["chain"], 6, "kinds of packets written as bytes")
        sub.floor(f"{cfg}:read", n["read"], 6, "kinds of packets read")
        sub.floor(f"{cfg}:header", n["header"], 2, "parts of the data header written in front of a block")
        sub.floor(f"{cfg}:options", n["options"], 7, "places where an option is read or written")
        for k, o in sub.obl.items():
            num = ":number:" in k or ":read:Error:code:" in k or ":part:Error:code:" in k
            if num == numbers or k.startswith(("anchor:", "analysis:")):
                c.oblig(k, *o)
        c.fns |= sub.fns
        c.calls |= sub.calls
        c.roots += sub.roots
        c.blocks += sub.blocks
        c.states += sub.states
    for n, d in (("ErrorCode", CODES), ("PacketType", OPCODES)) if numbers else ():
        p = c.prog("full", "lib")
        have = {v["n"]: int(v["d"]) for a, x in p.adts.items() if a == f"tftp_dus::packet::{n}" for v in x["variants"]}
        for k, x in d.items():
            c.oblig(f"table:{n}:{k}", have.get(k) == x, f"tftp_dus::packet::{n}", f"{k} is {have.get(k)}, RFC 1350/2347: {x}")


def P01(c):
    c.rule = ("Every packet kind is written with its RFC 1350/2347 opcode (two bytes, big endian, first) by both writers and by the data header writer; a packet is read as that kind only where the first two bytes "
              "equal its opcode; error codes are written as their RFC number and read back as the code whose number was compared; all kinds and codes are read.")
    wire(c, True)


def P03(c):
    c.rule = ("Per packet kind, the sequence of parts written (to a buffer: each part starts where the last ended and the size returned is the last end; as bytes: the chain of parts) is the RFC layout; "
              "read back, every part comes from the same place: block and code at offset 2, data to the end of the packet, texts cut at the first zero byte and counted from the start, options as name/value pairs in turn.")
    wire(c, False)


class Written(Enums):
    """variant -> text"""
    def __init__(self, prog, adt):
        self.p, self.adt = prog, adt
        self.map = {}

    def on_enum(self, eng, st, x, adt, names):
        if adt == self.adt and len(names) == 1 and peel(x).op == "param":
            st.ts["v"] = next(iter(names))

    def put(self, st, t):
        t = peel(t)
        v = st.ts.get("v")
        if v is None and len(self.variants(self.adt)) == 1:
            v = next(iter(self.variants(self.adt)))
        self.map.setdefault(v, set()).add(t.a[1] if t.op == "const" and isinstance(t.a[1], str) else "?")


class AsText(Written):
    def on_root_return(self, eng, st, ctx, v):
        self.put(st, v)


class AsDisplay(Written):
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in ("Arguments::from_str", "Arguments::new_const", "Formatter::write_str", "Formatter::pad"):
            self.put(st, eng.view(st, args[-1]))


class ReadText(engine.Rule):
    """text -> variant"""
    def __init__(self, prog):
        self.p = prog
        self.map = {}
        self.bad = []

    def on_fact(self, eng, st, t, v):
        if v is True and fname(t) == "eq_ignore_ascii_case":
            for x in callargs(t):
                x = peel(x)
                if x.op == "const" and isinstance(x.a[1], str):
                    st.ts["text"] = x.a[1]
        elif v is True and t.op == "bin" and t.a[0] == "Eq":
            for x, y in (t.a[1:], t.a[:0:-1]):
                if y.op == "const" and isinstance(y.a[1], str) and peel(x).op in ("param", "pure", "ret"):
                    st.ts["text"] = y.a[1]

    def on_root_return(self, eng, st, ctx, v):
        v = unref(v)
        if v.op == "agg" and v.a[1] in ("Err", "None"):
            return
        k = kind_of(v.a[2][0]) if v.op == "agg" and v.a[2] else None
        self.map.setdefault(st.ts.get("text"), set()).add(k or "?")


STANDARD = {"Extension": {"BlockSize": "blksize", "Timeout": "timeout", "TransferSize": "tsize", "WindowSize": "windowsize"}, "Mode": {"Octet": "octet"}}


def P02(c):
    c.rule = ("For each enumeration that is read from text (options, transfer mode, encryption level): every variant is written as one constant text, no two as the same, the standard ones as the RFC names; "
              "the reader returns a variant only for texts compared equal, and maps the text a variant is written as to that variant.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        done = set()
        for f in methods_of(p, "FromStr", "from_str"):
            if f.crate != "tftp_dus":
                continue
            adt = f.path[1:].split(" as ")[0]
            if not p.variants(adt) or p.adts[adt]["kind"] != "enum":
                continue
            name = tail(adt)
            ws = [g for g in p.roots if g.path in texts(p) and adt in g.locals[1]]
            rule = AsText(p, adt)
            if not ws:
                ws = [g for g in methods_of(p, "Display", "fmt") if g.path.startswith(f"<{adt} as ")]
                rule = AsDisplay(p, adt)
            if not ws:
                continue
            done.add(name)
            for g in ws:
                c.run(p, g, [rule])
            back = ReadText(p)
            c.run(p, f, [back])
            seen = {}
            for v in sorted(x["n"] for x in p.variants(adt)):
                t = rule.map.get(v, set())
                t1 = next(iter(t)) if len(t) == 1 else None
                k = f"{cfg}:{name}:{v}"
                c.oblig(k + ":written", t1 is not None and t1 != "?", ws[0].path, f"{v} is written as {sorted(t)}")
                c.oblig(k + ":distinct", t1 not in seen or t1 is None, ws[0].path, f"{v} and {seen.get(t1)} are both written as {t1}")
                seen[t1] = v
                want = STANDARD.get(name, {}).get(v)
                c.oblig(k + ":standard", want is None or t1 == want, ws[0].path, f"{v} is written as {t1}, RFC: {want}")
                c.oblig(k + ":read", back.map.get(t1) == {v}, f.path, f"{t1} is read as {sorted(back.map.get(t1) or ())}, written for {v}")
            for t, vs in sorted(back.map.items(), key=str):
                c.oblig(f"{cfg}:{name}:text:{t}", t is not None and len(vs) == 1 and "?" not in vs, f.path, f"{sorted(vs)} returned for the text {t}")
        c.floor(f"{cfg}:types", len(done & {"Extension", "Mode"} | ({"EncryptionLevel"} & done)), 3 if cfg == "full" else 2, "enumerations read from text (options, mode, encryption level)")


# ---------------------------------------------------------------------------------------------- P04
DECODERS = ("from_bytes", "decrypt", "decode", "decode_signature", "decode_verifying_key", "decode_public_key", "decode_private_key", "decode_nonce", "decode_signing_key",
            "remove_bit_padding", "parse_extensions", "validate_extensions")


class Counting(engine.Rule):
    """Loop counters raised at most once per element taken from an iterator: they never exceed the number of elements."""

    def __init__(self):
        self.bad = set()       # counters raised without a new element
        self.by = {}           # raised value -> the collection whose element it was raised for

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and v == "Some" and t.a[0].op in ("ret", "pure", "phi"):
            for x in alts(eng, t.a[0]):
                if fname(x) == "next":
                    b = strip(callargs(x)[0]) if callargs(x) else None
                    st.ts["taken"] = unprime(b) if b is not None else None
                    st.ts["raised"] = 0

    def on_assert(self, eng, st, ctx, bb, kind, ops, cond):
        if kind == "overflowAdd" and ops[1].op == "const" and ops[1].a[1] == 1:
            t = mk("bin", "Add", *sorted(ops, key=lambda x: x.id)) if ops[0].op != "const" else const(ops[0].a[0], ops[0].a[1] + 1)
            n = st.ts.get("raised", 2)
            st.ts["raised"] = min(n + 1, 2)
            if n or st.ts.get("taken") is None:
                self.bad.add(ops[0])
            else:
                self.by.setdefault(ops[0], set()).add(st.ts["taken"])


def strip(t):
    """The collection an iterator was made from, seen through the loop that advances it"""
    while True:
        u = t
        if t.op == "mut" and t.a[0].split("::")[-1] in ("next", "next_back") and isinstance(t.a[3], tuple):
            t = t.a[3][t.a[2]]
        else:
            t = lin.inner(t)
        if t is u:
            return t


class NoPanic(Counting):
    """Nothing that panics for some input is reached: every bounds, overflow and range check on the paths is implied by what was checked or promised before."""

    def __init__(self, c, cfg):
        super().__init__()
        self.c, self.cfg = c, cfg
        self.sizes, self.later, self.loops = {}, [], []
        self.n = 0

    def key(self, ctx, what):
        return f"{self.cfg}:{ctx.fn.path}:{what}"

    def prover(self, eng, st):
        return lin.Prover(eng, st, self.sizes, self.counters(eng))

    def counters(self, eng):
        return {}

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if res.op == "ret" and d.tail in ("position", "rposition", "count", "take_while", "skip_while", "filter", "map", "map_while", "filter_map", "inspect", "decode_slice", "encode_slice", "split_at", "split_at_mut", "get", "get_mut", "min", "max"):
            st.ts[f"of{res.id}"] = tuple(views)
        m = re.match(r"&?(?:'\w+ )?(?:mut )?\[\w+; (\d+)\]$", result_type(ctx, bb))
        if m:
            for x in (res, unref(res), lin.inner(res)):
                self.sizes[x] = int(m.group(1))

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        x = t.a[0] if t.op == "discr" else None
        if v == "Err" and x is not None and x.op in ("ret", "pure") and fname(x) == "encode_slice":
            # base 64 into a buffer with room for it does not fail
            p = self.prover(eng, st)
            a = p.args(x)
            n, m = (p.length(a[1]), p.length(a[2])) if len(a) == 3 else (({0: 1}, 0), ({}, 0))
            if not n[0] and not m[0] and (n[1] + 2) // 3 * 4 <= m[1]:
                st.ts["impossible"] = True

    def judge(self, eng, st, ctx, what, x, y, line, why, k=0):
        """x <= y + k for linear forms"""
        self.n += 1
        ok = self.prover(eng, st).holds(x, y, k)
        if not ok and any(t.op == "phi" for d in (x[0], y[0]) for t in d):
            # a loop counter: decided when the loop has been seen
            self.later.append((st.copy(), ctx, what, x, y, line, why, k))
            return
        self.c.oblig(self.key(ctx, what), ok, where(ctx, line), why)

    def counter(self, eng, t, depth=0, seen=None):
        """The collection whose elements the joined value t counts"""
        seen = set() if seen is None else seen
        r = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "const" and x.a[1] == 0:
                pass
            elif x.op == "const" and x.a[1] == 1:
                todo.append(const(x.a[0], 0))
                y = const(x.a[0], 0)
                if y in self.bad or y not in self.by:
                    return None
                r |= self.by[y]
            elif x.op == "phi":
                todo += list(eng.phimem.get(x, ()))
            elif x.op == "bin" and x.a[0] == "Add" and any(z.op == "const" and z.a[1] == 1 for z in x.a[1:]):
                y = x.a[2] if x.a[1].op == "const" else x.a[1]
                if y in self.bad or y not in self.by:
                    return None
                r |= self.by[y]
                todo.append(y)
            elif x.op == "fld" and x.a[1] == "0" and x.a[0].op == "bin":
                todo.append(x.a[0])
            else:
                return None
        return next(iter(r)) if len(r) == 1 else None

    def top(self, eng, t):
        """What the joined value t starts from, if it is only made smaller after that, and the least it is made smaller by"""
        best, todo, ends = {t: 0}, [t], {}
        while todo:
            x = todo.pop()
            k = best[x]
            if x.op == "phi":
                nxt = [(m, k) for m in eng.phimem.get(x, ())]
            elif x.op == "fld" and x.a[1] == "0" and x.a[0].op == "bin":
                nxt = [(x.a[0], k)]
            elif x.op == "bin" and x.a[0] == "Sub":
                nxt = [(x.a[1], k - x.a[2].a[1] if x.a[2].op == "const" and isinstance(x.a[2].a[1], int) else k)]
            else:
                ends[x] = max(k, ends.get(x, k))
                continue
            for m, n in nxt:
                if m not in best or n > best[m]:
                    best[m] = n
                    todo.append(m)
        return next(iter(ends.items())) if len(ends) == 1 else None

    def on_end(self, eng):
        for st, ctx, what, x, y, line, why, k in self.later:
            counters, tops = {}, {}
            for d in (x[0], y[0]):
                for t in d:
                    if t.op == "phi":
                        b = self.counter(eng, t)
                        if b is not None:
                            counters[t] = b
                        b = self.top(eng, t)
                        if b is not None:
                            tops[t] = b
            ok = lin.Prover(eng, st, self.sizes, counters, tops).holds(x, y, k)
            self.c.oblig(self.key(ctx, what), ok, where(ctx, line), why)
        for ctx, line, phis, sh in self.loops:
            # a counter of elements, or joined sums
            ok = all(self.counter(eng, x) is not None for x in phis)
            self.c.oblig(self.key(ctx, "sum"), ok, where(ctx, line), f"Add of values of unknown size may overflow: {sh}")
        self.later, self.loops = [], []

    def on_assert(self, eng, st, ctx, bb, kind, ops, cond):
        super().on_assert(eng, st, ctx, bb, kind, ops, cond)
        if ctx.fn.crate != "tftp_dus":
            return
        line = ctx.fn.blocks[bb]["l"]
        p = self.prover(eng, st)
        sh = ", ".join(show(o)[-80:] for o in ops)
        if kind == "bounds":
            self.judge(eng, st, ctx, "index", p.add(p.lin(ops[1]), ({}, 1)), p.lin(ops[0]), line, f"index may be out of bounds (length, index: {sh})")
        elif kind == "overflowSub":
            self.judge(eng, st, ctx, "subtraction", p.lin(ops[1]), p.lin(ops[0]), line, f"subtraction may underflow: {sh}")
        elif kind == "div0":
            self.judge(eng, st, ctx, "division", ({}, 1), p.lin(ops[-1]), line, f"division by zero: {sh}")
        elif kind in ("overflowAdd", "overflowMul"):
            self.n += 1
            if kind == "overflowAdd" and all(p.small(o) or o.op == "phi" for o in ops) and any(o.op == "phi" for o in ops):
                self.loops.append((ctx, line, [o for o in ops if o.op == "phi"], sh))
                return
            ok = all(p.small(o) for o in ops) if kind == "overflowAdd" else all(p.lin(o)[0] == {} for o in ops)
            self.c.oblig(self.key(ctx, "sum"), ok, where(ctx, line), f"{kind[8:]} of values of unknown size may overflow: {sh}")

    def on_panic(self, eng, st, ctx, bb, d, args, line):
        if ctx.fn.crate != "tftp_dus":
            return
        p = self.prover(eng, st)
        self.c.oblig(self.key(ctx, "panic"), p.absurd([({}, 0)], {t for f in p.facts() for t in f[0]}), where(ctx, line), f"{d.path} is reached")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if ctx.fn.crate != "tftp_dus":
            return
        p = self.prover(eng, st)
        if d.name in ("Index::index", "IndexMut::index_mut") and len(args) == 2:
            s, ix = eng.view(st, args[0]), eng.view(st, args[1])
            r = p.rng(ix)
            if r is None:
                if unref(ix).op == "agg" and unref(ix).a[1] == "RangeFull" or "RangeFull" in show(ix):
                    return
                if d.targs and str(d.targs[-1]) == "usize":
                    self.judge(eng, st, ctx, "index", p.add(p.lin(unref(ix)), ({}, 1)), p.length(s), line, "index may be out of bounds")
                    return
                self.c.oblig(self.key(ctx, "index"), False, where(ctx, line), f"indexing with {show(ix)[-80:]} panics when there is no such element")
                return
            n = p.length(s)
            lo, hi = r[0], n if r[1] is None else r[1]
            self.judge(eng, st, ctx, "slice start", lo, hi, line, f"the range may start after its end: {show(ix)[-80:]}")
            self.judge(eng, st, ctx, "slice end", hi, n, line, f"the range may end after the slice: {show(ix)[-80:]}")
        elif d.name in ("slice::split_at", "slice::split_at_mut"):
            self.judge(eng, st, ctx, "split", p.lin(args[1]), p.length(eng.view(st, args[0])), line, "the slice may be shorter than the place it is split at")
        elif d.name in ("slice::copy_from_slice", "slice::clone_from_slice"):
            a, b = (p.length(eng.view(st, x)) for x in args)
            for x, y in ((a, b), (b, a)):
                self.judge(eng, st, ctx, "copy", x, y, line, "slices copied onto each other may differ in length")
        elif d.name in ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err"):
            x = eng.view(st, args[0])
            if has(x, lambda y: y.op == "pure" and y.a[0] == "Arguments::new"):
                # a number written into a string with room for every number
                return
            want = "Some" if d.name.startswith("Option") else "Err" if d.name.endswith("err") else "Ok"
            self.n += 1
            ok = st.ts.get("impossible") or x.op == "agg" and x.a[1] == want or any(t.op == "discr" and t.a[0] is x and v == want for t, v in st.facts.items())
            self.c.oblig(self.key(ctx, "unwrap"), ok, where(ctx, line), f"{d.name} of {show(x)[-100:]}, which may be the other variant")


def generic(fn):
    """fn has a length as a generic parameter"""
    return any(re.search(r"\[\w+; [A-Z_]+\]", x) for x in fn.locals)


def P04(c):
    c.rule = ("From every function that decodes received bytes or option values, on every path: indexes and range bounds lie inside their slice, subtractions do not underflow, sums are of lengths and "
              "positions only, divisors are not zero, slices copied have equal lengths, `unwrap` and `expect` meet the expected variant, and no panic is reached. Decided by linear arithmetic from the path's "
              "comparisons and what get, position, checked_sub, truncate, try_into promise; a function that cannot be judged alone is judged inside each of its callers.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = [f for f in p.roots if f.crate == "tftp_dus" and f.path.split("::")[-1] in DECODERS and "{closure" not in f.path]
        tot = [0]

        def analyse(sub, root):
            r = NoPanic(sub, cfg)
            sub.run(p, root, [r], opaque=lambda d, fn: fn.crate != "tftp_dus" and p.weight(fn.id) > 200)
            tot[0] += r.n
        # callers know more where they hand in a number
        climb(c, p, roots, analyse, lambda root: any(re.search(r"\b[ui](8|16|32|64|128|size)$", root.locals[i + 1].split("<")[0]) for i in range(root.argc)) or generic(root))
        c.floor(f"{cfg}:decoders", len(roots), 9, "functions decoding received bytes")
        c.floor(f"{cfg}:sites", tot[0], 8, "checked operations")


# ---------------------------------------------------------------------------------------------------------------- P05
M16 = 1 << 16


def ring(t, st):
    """t as a polynomial modulo 65536, ((atom, ...) -> coefficient); every operation kept is one of the ring of 16 bit numbers, so
    wrapping, narrowing to 16 bits or more, and overflow change nothing"""
    def const_(n):
        n %= M16
        return {(): n} if n else {}

    def add(x, y, s=1):
        r = dict(x)
        for k, v in y.items():
            r[k] = (r.get(k, 0) + s * v) % M16
            if not r[k]:
                del r[k]
        return r

    def mul(x, y):
        r = {}
        for a, n in x.items():
            for b, m in y.items():
                k = tuple(sorted(a + b, key=lambda z: z.id))
                r[k] = (r.get(k, 0) + n * m) % M16
        return {k: v for k, v in r.items() if v}

    if t.op == "const" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return const_(t.a[1])
    # known to be 0 on this path (everything here is unsigned)
    if st.facts.get(t) == 0 and st.facts.get(t) is not False or entails_linear(st, linear(t), ({}, 0)):
        return {}
    if t.op in ("cast", "narrow") and str(t.a[0]) in ("u16", "u32", "u64", "u128", "usize", "i128", "i64", "i32"):
        return ring(t.a[1], st)
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin":
        return ring(t.a[0], st)
    if t.op in ("bin", "pure") and len(t.a) == 3:
        n = t.a[0].split("::")[-1]
        n = n.replace("WithOverflow", "").replace("Unchecked", "")
        x, y = t.a[1], t.a[2]
        if n in ("Add", "wrapping_add", "add"):
            return add(ring(x, st), ring(y, st))
        if n in ("Sub", "wrapping_sub", "sub"):
            return add(ring(x, st), ring(y, st), -1)
        if n in ("Mul", "wrapping_mul", "mul"):
            return mul(ring(x, st), ring(y, st))
        if n in ("Shl", "shl", "wrapping_shl"):
            k = ring(y, st)
            if set(k) <= {()}:
                return mul(ring(x, st), const_(1 << min(k.get((), 0), 16)))
        if n in ("Rem", "BitAnd", "rem", "bitand"):
            for u, w in ((x, y), (y, x)):
                if w.op == "const" or w.op == "cast" and w.a[1].op == "const":
                    m = w.a[1] if w.op == "const" else w.a[1].a[1]
                    if n.lower() == "rem" and w is y and m % M16 == 0 or n.lower() == "bitand" and (m + 1) % M16 == 0:
                        return ring(u, st)
        if n in ("BitOr", "bitor", "BitXor"):
            # disjoint bits: one operand is a multiple of 65536, the other is a 16 bit number
            u, w = ring(x, st), ring(y, st)
            if not u:
                return w
            if not w:
                return u
    if t.op == "pure" and len(t.a) == 2 and t.a[0].split("::")[-1] in ("from", "into"):
        return ring(t.a[1], st)
    return {(t,): 1}


class Mapper(engine.Rule):
    """Paths of the conversion are kept apart; what it returns is compared with what it was given, modulo 65536"""

    def __init__(self, c, root, what):
        self.c, self.root, self.what = c, root, what
        self.n = 0

    def on_branch(self, eng, st, ctx, bb, t, v):
        st.ts[f"at{ctx.fn.path}:{bb}"] = v if isinstance(v, (bool, int, str)) else str(v)

    def on_root_return(self, eng, st, ctx, v):
        self.n += 1
        for x in alts(eng, v):
            r = ring(x, st)
            atoms = [k for k in r if k != ()]
            ok = len(r) == 1 and len(atoms) == 1 and len(atoms[0]) == 1 and r[atoms[0]] == 1 and atoms[0][0].op == "param" and atoms[0][0].a[0] == 2
            self.c.oblig(f"{self.c.cfg}:{self.what}", ok, ctx.fn.path, f"gives {show(x)[:160]}, which is not its argument modulo 65536",
                         [f"{show(t)[:140]} = {y}" for t, y in list(st.facts.items())[-8:]])


def P05(c):
    c.rule = ("On every path of BlockMapper::block and BlockMapper::index the returned value, read as a polynomial over the ring of integers modulo 65536 (which addition, multiplication, wrapping, "
              "overflow and narrowing to 16 bits respect), is the argument; block returns a u16, so it is exactly the index modulo 65536.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        for what, least in (("block", 1), ("index", 3)):
            n = 0
            for f in roots_named(p, f"BlockMapper::{what}"):
                r = Mapper(c, f, what)
                c.run(p, f, [r])
                n += r.n
            c.floor(f"{cfg}:{what}", n, 1, f"returns of BlockMapper::{what}")
