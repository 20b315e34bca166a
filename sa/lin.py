"""Linear arithmetic over unsigned quantities: lengths, positions, and the comparisons met on a path."""
from common import *
from terms import *

WIDE = ("usize", "u64", "u128", "i128")
BITS = {"u8": 8, "u16": 16, "u32": 32}


def inner(t):
    """t without references and value preserving adaptors"""
    while True:
        if t.op in ("&", "deref"):
            t = t.a[0]
        elif t.op == "pure" and len(t.a) == 2 and t.a[0].split("::")[-1] in (
                "as_slice", "as_ref", "as_mut_slice", "as_mut", "deref", "deref_mut", "borrow", "clone", "copied", "cloned", "to_vec", "as_bytes_slice", "into_boxed_slice", "to_owned",
                "as_bytes", "as_str", "from", "into", "iter", "into_iter", "iter_mut", "rev", "by_ref", "into_bytes", "as_mut_str") and not t.a[0].startswith(("PublicKey", "SigningKey", "VerifyingKey")):
            t = t.a[1]
        else:
            return t


def last(n):
    return n.split("::")[-1]


class Prover:
    """Decides x <= y + k on a path, by Fourier-Motzkin elimination, from: the path's comparisons; lengths and positions are not
    negative; what get, position, checked_sub, min, truncate promise."""

    def __init__(self, eng, st, sizes=(), counters=(), tops={}):
        self.eng, self.st = eng, st
        self.sizes = sizes        # term -> length given by its type
        self.tops = tops          # joined value -> the value it starts from and never exceeds
        self.counters = counters  # joined loop counter -> the slice whose elements it counts

    def args(self, t):
        """Arguments of the call the value t came from; a call whose result depends on more than its arguments may be visited again
        (in a loop) with others: those of the last visit on this path, as noted by the rule"""
        if t.op == "ret":
            return self.st.ts.get(f"of{t.id}", ())
        return t.a[1:]

    # ------------------------------------------------------------------ linear forms
    def lin(self, t):
        if t.op == "const" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
            return {}, t.a[1]
        if t.op == "cast" and t.a[0] in WIDE:
            return self.lin(t.a[1])
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            return self.add(self.lin(t.a[1]), self.lin(t.a[2]), 1 if t.a[0] == "Add" else -1)
        if t.op == "bin" and t.a[0] == "Mul":
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                x = self.lin(x)
                if not x[0] and x[1]:
                    y = self.lin(y)
                    return {k: n * x[1] for k, n in y[0].items()}, y[1] * x[1]
        if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin":
            return self.lin(t.a[0])
        if t.op == "fld" and t.a[1] == "Some.0" and t.a[0].op == "pure" and last(t.a[0].a[0]) in ("checked_sub", "checked_add"):
            x = t.a[0]
            return self.add(self.lin(x.a[1]), self.lin(x.a[2]), -1 if last(x.a[0]) == "checked_sub" else 1)
        if t.op == "pure" and t.a[0] == "len":
            return self.length(t.a[1])
        return {t: 1}, 0

    @staticmethod
    def add(x, y, s=1):
        r = dict(x[0])
        for k, v in y[0].items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, x[1] + s * y[1]

    def length(self, x):
        """Linear form of the length of the slice x"""
        x0 = x
        x = inner(x)
        for y in (x0, x):
            if y in self.sizes:
                return {}, self.sizes[y]
        if x.op == "repeat" and x.a[1] is not None:
            return {}, int(x.a[1])
        if x.op == "agg" and x.a[0] == "array":
            return {}, len(x.a[2])
        if x.op == "const" and isinstance(x.a[1], (str, bytes)):
            return {}, len(x.a[1].encode() if isinstance(x.a[1], str) else x.a[1])
        if x.op == "fld" and x.a[1] in ("Ok.0", "Some.0"):
            y = x.a[0]
            if y.op in ("pure", "ret"):
                n = last(y.a[0])
                if not self.args(y):
                    n = ""
                if n in ("try_from", "try_into", "map_err"):
                    return self.length(self.args(y)[0])
                if n in ("get", "get_mut"):
                    r = self.rng(self.args(y)[1])
                    if r:
                        return self.rlen(self.args(y)[0], r)
        if x.op in ("pure", "ret") and last(x.a[0]) in ("index", "index_mut") and len(self.args(x)) == 2:
            r = self.rng(self.args(x)[1])
            if r:
                return self.rlen(self.args(x)[0], r)
        if x.op == "ref" and x.a[1] and isinstance(x.a[1][-1], tuple) and x.a[1][-1][0] == "sl":
            r = self.rng(x.a[1][-1][1])
            b = x.a[0][1] if x.a[0][0] in ("M", "P") else None
            if r and isinstance(b, T) and len(x.a[1]) == 1:
                return self.rlen(b, r)
        if x.op == "fld" and isinstance(x.a[1], tuple) and x.a[1][0] == "sl":
            r = self.rng(x.a[1][1])
            if r:
                return self.rlen(x.a[0], r)
        if x.op == "fld" and x.a[1] in ("0", "1") and x.a[0].op in ("pure", "ret") and last(x.a[0].a[0]) in ("split_at", "split_at_mut") and len(self.args(x.a[0])) == 2:
            s, n = self.args(x.a[0])[:2]
            return self.lin(n) if x.a[1] == "0" else self.add(self.length(s), self.lin(n), -1)
        if x.op == "mut" and not x.a[0].startswith(("Vec::", "VecInner::", "String::")):
            a = x.a[3][x.a[2]] if isinstance(x.a[3], tuple) and isinstance(x.a[2], int) and x.a[2] < len(x.a[3]) else None
            if a is not None:
                i = inner(a)
                if i.op in ("repeat", "mut") or i.op == "agg" and i.a[0] == "array":
                    return self.length(i)
        return {mk("pure", "len", x): 1}, 0

    def rng(self, r):
        """(low, high) of a range value; None for an open end"""
        r = unref(r)
        if r.op == "agg" and r.a[1] in ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive", "RangeToInclusive"):
            k, e = r.a[1], r.a[2]
        elif r.op == "pure" and r.a[0] == "RangeInclusive::new":
            k, e = "RangeInclusive", r.a[1:]
        else:
            return None
        lo = self.lin(e[0]) if k in ("Range", "RangeFrom", "RangeInclusive") else ({}, 0)
        hi = self.lin(e[-1]) if k in ("RangeTo", "RangeToInclusive") else self.lin(e[1]) if k in ("Range", "RangeInclusive") else None
        if "Inclusive" in k:
            hi = (hi[0], hi[1] + 1)
        return lo, hi

    def rlen(self, s, r):
        lo, hi = r
        return self.add(self.length(s) if hi is None else hi, lo, -1)

    # ------------------------------------------------------------------ axioms
    def le(self, x, y):
        """Constraint x <= y as (coefficients, constant) meaning coefficients + constant <= 0"""
        return self.add(x, y, -1)

    def axioms(self, t):
        """(constraints, case splits) that hold for the term t of a value at hand"""
        C, S = [], []
        if t.op == "fld" and t.a[1] in ("Some.0", "Ok.0") and t.a[0].op in ("pure", "ret"):
            y = t.a[0]
            n, a = last(y.a[0]), self.args(y)
            if t.a[1] == "Some.0":
                if n in ("get", "get_mut") and len(a) == 2:
                    r = self.rng(a[1])
                    s = self.length(a[0])
                    if r:
                        hi = s if r[1] is None else r[1]
                        C += [self.le(r[0], hi), self.le(hi, s)]
                    else:
                        C.append(self.le(self.add(self.lin(a[1]), ({}, 1)), s))
                elif n in ("position", "rposition") and a:
                    C.append(self.le(({t: 1}, 1), self.length(a[0])))
                elif n == "checked_sub" and len(a) == 2:
                    C.append(self.le(self.lin(a[1]), self.lin(a[0])))
                elif n in ("first", "last") and len(a) == 1:
                    C.append(self.le(({}, 1), self.length(a[0])))
            elif n.startswith(("decode_slice", "encode_slice")) and len(a) > 2:
                C.append(self.le(({t: 1}, 0), self.length(a[2])))
            elif n in ("try_from", "try_into") and t in self.sizes and a:
                C += self.eq(({}, self.sizes[t]), self.length(a[0]))
        if t.op in ("pure", "ret"):
            n, a = last(t.a[0]), self.args(t)
            if n in ("index", "index_mut") and len(a) == 2:
                r = self.rng(a[1])
                if r:
                    s = self.length(a[0])
                    hi = s if r[1] is None else r[1]
                    C += [self.le(r[0], hi), self.le(hi, s)]
            elif n in ("split_at", "split_at_mut") and len(a) == 2:
                C.append(self.le(self.lin(a[1]), self.length(a[0])))
            elif n == "min" and len(a) == 2:
                x, y, z = ({t: 1}, 0), self.lin(unref(a[0])), self.lin(unref(a[1]))
                S.append((self.eq(x, y) + [self.le(y, z)], self.eq(x, z) + [self.le(z, y)]))
            elif n == "max" and len(a) == 2:
                x, y, z = ({t: 1}, 0), self.lin(unref(a[0])), self.lin(unref(a[1]))
                S.append((self.eq(x, y) + [self.le(z, y)], self.eq(x, z) + [self.le(y, z)]))
            elif n == "saturating_sub" and len(a) == 2:
                x, y, z = ({t: 1}, 0), self.lin(unref(a[0])), self.lin(unref(a[1]))
                S.append((self.eq(x, self.add(y, z, -1)) + [self.le(z, y)], self.eq(x, ({}, 0)) + [self.le(y, z)]))
            elif n == "count" and len(a) == 1:
                C.append(self.le(({t: 1}, 0), self.length(self.base(a[0]))))
            elif n == "len" and t.a[0] == "len":
                x = t.a[1]
                if x.op == "mut" and last(x.a[0]) in ("truncate", "pop", "clear", "resize") and isinstance(x.a[3], tuple) and x.a[2] == 0:
                    p = self.length(x.a[3][0])
                    if last(x.a[0]) == "truncate":
                        m, y = ({t: 1}, 0), self.lin(x.a[3][1])
                        S.append((self.eq(m, p) + [self.le(p, y)], self.eq(m, y) + [self.le(y, p)]))
                    elif last(x.a[0]) != "resize":
                        C.append(self.le(({t: 1}, 0), p))
            elif n in ("leading_zeros", "trailing_zeros", "trailing_ones", "leading_ones", "count_ones", "count_zeros"):
                C.append(self.le(({t: 1}, 0), ({}, 128)))
        if t.op == "cast" and t.a[0] in BITS:
            C += [self.le(({t: 1}, 0), ({}, 2 ** BITS[t.a[0]] - 1))]
            if t.a[1].op != "const":
                C += [self.le(({t: 1}, 0), self.lin(t.a[1]))]
        if t in self.tops:
            b, k = self.tops[t]
            C.append(self.le(({t: 1}, -k), self.lin(b)))
        if t in self.counters:
            C.append(self.le(({t: 1}, 0), self.length(self.counters[t])))
        return C, S

    def base(self, t):
        """The collection an iterator yields at most the elements of"""
        while True:
            t = inner(t)
            if t.op in ("pure", "ret") and len(self.args(t)) > 1 and last(t.a[0]) in ("take_while", "skip_while", "filter", "take", "skip", "map", "enumerate", "inspect", "zip", "map_while", "filter_map", "step_by"):
                t = self.args(t)[0]
            elif t.op == "pure" and len(t.a) == 2 and last(t.a[0]) in ("enumerate", "peekable", "fuse"):
                t = t.a[1]
            else:
                return t

    def eq(self, x, y):
        return [self.le(x, y), self.le(y, x)]

    # ------------------------------------------------------------------ decision
    def facts(self):
        C = []
        for t, v in self.st.facts.items():
            if t.op == "bin" and t.a[0] in ("Lt", "Eq") and isinstance(v, bool):
                a, b = self.lin(t.a[1]), self.lin(t.a[2])
                if t.a[0] == "Eq":
                    if v:
                        C += self.eq(a, b)
                    elif not a[0] and a[1] == 0:
                        C.append(self.le(({}, 1), b))
                    elif not b[0] and b[1] == 0:
                        C.append(self.le(({}, 1), a))
                elif v:
                    C.append(self.le(self.add(a, ({}, 1)), b))
                else:
                    C.append(self.le(b, a))
            elif t.op == "discr" and v in ("Some", "Ok") and t.a[0].op in ("pure", "ret"):
                C += self.axioms(mk("fld", t.a[0], v + ".0"))[0]
            elif t.op == "pure" and last(t.a[0]) == "is_empty" and v is False and len(t.a) == 2:
                C.append(self.le(({}, 1), self.length(self.args(t)[0])))
        return C

    def holds(self, x, y, k=0):
        """x <= y + k, for linear forms"""
        d, c = self.add(x, y, -1)
        goal = ({t: -n for t, n in d.items()}, -(c - k) + 1)
        if not d:
            return c <= k
        return self.absurd([goal], set(d))

    def absurd(self, goals, atoms):
        """The path's facts together with goals have no solution"""
        C, S, seen = [], [], set()
        todo = set(atoms)
        facts = [f for f in self.facts() if f[0] or f[1] > 0]
        used = set()
        n = 0
        while todo and n < 60:
            n += 1
            t = todo.pop()
            for u in [t] + sorted(sub_terms(t), key=lambda z: z.id):
                if u in seen:
                    continue
                seen.add(u)
                c, s = self.axioms(u)
                C += c
                S += s
                for z in c + [w for p in s for q in p for w in q]:
                    todo |= set(z[0]) - seen
            for i, f in enumerate(facts):
                if i not in used and t in f[0]:
                    used.add(i)
                    C.append(f)
                    todo |= set(f[0]) - seen
        return self.split(goals + C, S[:6])

    def split(self, C, S):
        if not S:
            return unsat(C)
        if unsat(C):
            return True
        return self.split(C + S[0][0], S[1:]) and self.split(C + S[0][1], S[1:])

    def small(self, t):
        """t is a sum of a few lengths, positions and small constants: it cannot overflow when one more is added"""
        d, c = self.lin(t)
        return abs(c) < 2 ** 60 and all(abs(n) < 2 ** 8 and self.lenlike(x) for x, n in d.items())

    def lenlike(self, x, depth=0):
        if x.op == "pure" and (x.a[0] == "len" or last(x.a[0]) == "count"):
            return True
        if x.op == "fld" and x.a[1] == "Some.0" and x.a[0].op in ("pure", "ret") and last(x.a[0].a[0]) in ("position", "rposition"):
            return True
        if x.op == "fld" and x.a[1] == "Ok.0" and x.a[0].op in ("pure", "ret") and last(x.a[0].a[0]).startswith(("decode_slice", "encode_slice")):
            return True
        if x.op == "cast" and x.a[0] in BITS:
            return True
        if x in self.counters:
            return True
        if x.op == "phi":
            return False
        if x.op == "pure" and last(x.a[0]) in ("min", "saturating_sub"):
            return any(self.small(unref(y)) for y in self.args(x)[:1 if last(x.a[0]) == "saturating_sub" else 2])
        return False


def unsat(C):
    """The constraints (coefficients + constant <= 0 over values >= 0) have no rational solution"""
    cs = set()
    atoms = set()
    for d, c in C:
        d = {k: v for k, v in d.items() if v}
        if not d:
            if c > 0:
                return True
            continue
        cs.add((frozenset(d.items()), c))
        atoms |= set(d)
    for a in atoms:
        cs.add((frozenset([(a, -1)]), 0))
    while atoms:
        best = None
        for a in atoms:
            p = n = 0
            for d, _ in cs:
                for k, v in d:
                    if k is a:
                        if v > 0:
                            p += 1
                        else:
                            n += 1
            if best is None or p * n - p - n < best[0]:
                best = (p * n - p - n, a)
        a = best[1]
        atoms.discard(a)
        if best[0] > 4000:
            return False
        pos, neg, rest = [], [], set()
        for d, c in cs:
            e = dict(d)
            v = e.get(a, 0)
            if v > 0:
                pos.append((e, c))
            elif v < 0:
                neg.append((e, c))
            else:
                rest.add((d, c))
        for e, c in pos:
            for f, g in neg:
                x, y = e[a], -f[a]
                h = {}
                for k, v in e.items():
                    h[k] = h.get(k, 0) + v * y
                for k, v in f.items():
                    h[k] = h.get(k, 0) + v * x
                h = {k: v for k, v in h.items() if v}
                k0 = c * y + g * x
                if not h:
                    if k0 > 0:
                        return True
                    continue
                rest.add((frozenset(h.items()), k0))
        cs = rest
        if len(cs) > 3000:
            return False
    return False
