"""W: uploads (the server stores what a client sends)."""
import engine
from common import *
from sess import *
from terms import *
from rules.f import is_file_callback

WB = "BlockWriter::write_block"


def blk_size(t):
    return callterm(strip_cast(t), "ConnectionOptions::block_size_with_encryption")


def is_field(t, name):
    t = strip_cast(t)
    return t.op == "fld" and str(t.a[1]).split(".")[-1] == name


def one(l):
    """The single term of a linear form with coefficient 1."""
    if len(l) == 1:
        (t, n), = l.items()
        if n == 1:
            return t
    return None


class Upload(engine.Rule):
    """Typestate of one received packet: what the storage writer said, what was sent, what was recorded."""
    want = ()

    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"ack": 0, "store": 0, "finish": 0, "return": 0, "error": 0}

    def key(self, k, ctx=None):
        return f"{self.c.cfg}:{k}"

    def facts(self, st):
        return [f"{show(t)[:140]} = {v}" for t, v in list(st.facts.items())[-8:]]

    # ------------------------------------------------------------ what is known
    def on_fact(self, eng, st, t, v):
        if t.op == "discr":
            x = t.a[0]
            if callterm(x, WB):
                st.ts["wr"] = v if v == "Ok" else "Err"
            elif x.op == "fld" and x.a[1] == "Err.0" and callterm(x.a[0], WB):
                st.ts["wr"] = v if v in ("ExpectedBlock", "AlreadyWritten") else "Other"
            elif callterm(x, *SEND) and st.ts.get("sending") == "Ack":
                st.ts["acked"] = v == "Ok"
            elif x.op == "fld" and x.a[1] == "Ok.0" and callterm(x.a[0], "ByteConverter::from_bytes", "Packet::from_bytes"):
                st.ts.setdefault("pk", v)

    def on_branch(self, eng, st, ctx, bb, t, v):
        # the first look at the packet decides which one it is; later switches only clean up
        if isinstance(v, tuple) and t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and callterm(t.a[0].a[0], "ByteConverter::from_bytes", "Packet::from_bytes"):
            st.ts.setdefault("pk", "other")

    # ------------------------------------------------------------ events
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in SEND:
            p = st.ts.get("pkt")
            if p is not None:
                self.send(eng, st, ctx, line, p)
        elif d.name == WB:
            self.n["store"] += 1
            st.ts["store"] = True
            self.store(eng, st, ctx, line, [eng.view(st, a) for a in args])

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "to_buffer":
            # handed to the serialiser: a packet that does not fit its buffer is not sent, but that is not this step's choice
            st.ts["pkt"] = unref(views[0])
            st.ts["made:" + str(kind(st.ts["pkt"]))] = True
        elif d.name == WB:
            self.res = getattr(self, "res", {})
            self.res[res] = views
            st.ts["wr"] = "?"

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str):
            f = path[-1].split(".")[-1]
            if f in ("finished", "invalid", "transfer", "last_updated", "last_acknowledged") and (len(path) > 1 or base[0] == "M" or "connection" in ctx.fn.names.values() or True):
                self.assign(eng, st, ctx, f, v)

    def send(self, eng, st, ctx, line, p): pass
    def store(self, eng, st, ctx, line, views): pass
    def assign(self, eng, st, ctx, f, v): pass

    # ------------------------------------------------------------ queries
    def result(self, st):
        """The write_block results that are known on this path."""
        for r in getattr(self, "res", {}):
            yield r

    def arg_block(self, t):
        """t is the block number handed to write_block"""
        for r, views in getattr(self, "res", {}).items():
            if strip_cast(t) is strip_cast(views[1]):
                return True
        return False

    def written(self, t):
        """t is the count of bytes write_block accepted"""
        t = strip_cast(t)
        return t.op == "fld" and t.a[1] == "0" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and callterm(t.a[0].a[0], WB)

    def index(self, t):
        t = strip_cast(t)
        return t.op == "fld" and (t.a[1] == "1" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and callterm(t.a[0].a[0], WB)
                                  or is_field(t, "current_index") and has(t, lambda x: callterm(x, WB)))

    def within_limit(self, st):
        """transferred + written <= max_file_size is known"""
        for a, b, k in upper_bounds(st):
            ts = list(a)
            if len(ts) == 2 and all(a[t] == 1 for t in ts) and k <= 0:
                m = one(b)
                if m is not None and names_limit(m) and any(self.written(t) for t in ts) and any(is_field(t, "transfer") for t in ts):
                    return True
        return False

    def short(self, st):
        """True: fewer bytes than a block were written; False: not; None: unknown"""
        for t, v in st.facts.items():
            if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool) and self.written(t.a[1]) and blk_size(t.a[2]):
                return v
        return None


def is_live(st):
    """The session is known not to have failed"""
    return any(t.op == "discr" and v == "None" and is_field(t.a[0], "invalid") or
               t.op == "bin" and t.a[0] == "Eq" and v is False and any(x.op == "discr" and is_field(x.a[0], "invalid") for x in t.a[1:]) and any(x.op == "const" and x.a[1] in (1, "Some") for x in t.a[1:]) or
               t.op == "pure" and t.a[0] == "Option::is_some" and v is False and is_field(unref(t.a[1]), "invalid") or
               t.op == "pure" and t.a[0] == "Option::is_none" and v is True and is_field(unref(t.a[1]), "invalid")
               for t, v in st.facts.items())


def names_limit(t):
    t = strip_cast(t)
    return t.op == "param" and t.a[1] == "max_file_size" or is_field(t, "max_file_size")


def upload_roots(c, p):
    return minimal(p, named(WB), named("BoundSocket::send"))


def analyse(c, cls, floors, cfgs=("full", "stackenc", "stack")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = upload_roots(c, p)
        c.floor(f"{cfg}:upload", len(roots), 1, "functions that store a received block and answer it")
        tot = {}

        def go(sub, root):
            r = cls(sub, p)
            sub.run(p, root, [r], opaque=leaves(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, roots, go)
        for k, least, msg in floors:
            c.floor(f"{cfg}:{k}", tot.get(k, 0), least, msg)


class W01Rule(Upload):
    def store(self, eng, st, ctx, line, views):
        blk, data = views[1], unref(views[2])
        x = blk.a[0] if is_field(blk, "block") and blk.op == "fld" else None
        ok = x is not None and data.op == "fld" and data.a[1] == "data" and data.a[0] is x and x.op == "fld" and x.a[1] == "Data.0" and has(
            x, lambda y: callterm(y, "ByteConverter::from_bytes", "Packet::from_bytes"))
        self.c.oblig(self.key("store"), ok, where(ctx, line), f"write_block({show(blk)[:120]}, {show(data)[:120]}): not the number and data of the received block")

    def send(self, eng, st, ctx, line, p):
        if kind(p) != "Ack":
            return
        self.n["ack"] += 1
        b = strip_cast(field(self.p, payload(p), "block"))
        w = st.ts.get("wr")
        if w == "Ok":
            ok = self.arg_block(b)
        elif w in ("ExpectedBlock", "AlreadyWritten"):
            ok = is_field(b, "current") and has(b, lambda x: callterm(x, WB))
        else:
            ok = False
        self.c.oblig(self.key(f"ack:{w}"), ok, where(ctx, line),
                     f"acknowledges {show(b)[:140]} when the storage writer's answer is {w or 'not asked'}", self.facts(st))


def W01(c):
    c.rule = ("In every function that stores a received block and answers it: write_block gets number and data of the same received DATA packet; a send of Packet::Ack "
              "is reached only with write_block == Ok and that number, or with ExpectedBlock/AlreadyWritten and its `current`.")
    analyse(c, W01Rule, [("ack", 2, "acknowledgements after write_block"), ("store", 1, "calls of write_block")])


WRITE = ("Write::write", "Write::write_all")


def site(t):
    """A call, whichever iteration it was made in"""
    return (t.a[0], t.a[1][:2]) if t.op == "ret" else t


def emptied(t, v):
    """The slice (or length) known to be empty by the fact t == v"""
    if t.op == "pure" and t.a[0].endswith("::is_empty") and v is True:
        return unref(t.a[1])
    if t.op == "bin" and t.a[0] == "Eq" and v is True:
        for x, y in (t.a[1:], t.a[:0:-1]):
            if x.op == "const" and x.a[1] == 0:
                return y
    if t.op == "bin" and t.a[0] == "Lt" and v is False and t.a[1].op == "const" and t.a[1].a[1] == 0:
        return t.a[2]
    if t.op == "discr" and v == "None" and t.a[0].op == "pure" and t.a[0].a[0].endswith(("split_first", "::first")):
        return unref(t.a[0].a[1])
    return None


def passed(t, v, data):
    """y where the fact t == v says len(data) <= y"""
    if t.op == "bin" and (t.a[0] == "Lt" and v is False or t.a[0] == "Eq" and v is True):
        for x, y in ((t.a[2], t.a[1]), (t.a[1], t.a[2]))[:1 if t.a[0] == "Lt" else 2]:
            if x.op in ("pure", "len") and x.a[0].split("::")[-1] == "len" and slice_of(x.a[1]) is data:
                return y
    return None


def all_written(eng, st, ended, data, results, bases):
    """The whole of data has been handed to the writer on this path; results: {call: (name, what was written)}"""
    for t, v in st.facts.items():
        if t.op == "discr" and v == "Ok" and site(t.a[0]) in results and results[site(t.a[0])][0] == "Write::write_all" and any(slice_of(x) is data for x in results[site(t.a[0])][1]):
            return True
    for t, v in list(st.facts.items()) + ended:
        seen = set()
        e = emptied(t, v)
        if e is not None and rest_of(eng, e, data, results, seen):
            bases.update(y for x in seen if isinstance(x, tuple) for y in x[1])
            return True
        e = passed(t, v, data)
        if e is not None and position(eng, e, data, results):
            return True
    return False


def rest_of(eng, t, data, results, seen=None):
    """t (or the slice whose length t is) is data without a prefix that was written"""
    seen = set() if seen is None else seen
    t = slice_of(t)
    if t.op in ("pure", "len") and t.a[0].split("::")[-1] == "len":
        return rest_of(eng, t.a[1], data, results, seen)
    if t is data:
        return True
    if t in seen:
        return True
    seen.add(t)
    if t.op == "phi":
        ms = eng.phimem.get(t, ())
        return bool(ms) and all(rest_of(eng, m, data, results, seen) for m in ms)
    if t.op == "fld" and t.a[1] == "Some.0":
        return rest_of(eng, t.a[0], data, results, seen)
    if t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][0] == "sl":
        return range_rest(eng, slice_of(t.a[0]), t.a[1][1], data, results, seen)
    if t.op == "pure" and t.a[0] in ("Default::default", "slice::default"):
        return True
    if t.op == "pure" and t.a[0].split("::")[-1] in ("get", "index", "unwrap_or_default", "unwrap_or", "get_unchecked", "split_at"):
        base = slice_of(t.a[1])
        return len(t.a) > 2 and range_rest(eng, base, t.a[2], data, results, seen) or t.a[0].split("::")[-1].startswith("unwrap") and rest_of(eng, t.a[1], data, results, seen)
    if t.op == "fld" and t.a[1] == "1" and callterm(t.a[0], "slice::split_at"):
        n = strip_cast(t.a[0].a[2])
        base = slice_of(t.a[0].a[1])
        if n.op == "fld" and n.a[1] == "Ok.0" and site(n.a[0]) in results and covered(eng, base, results[site(n.a[0])][1], seen):
            return rest_of(eng, base, data, results, seen)
    return False


def range_rest(eng, base, rng, data, results, seen):
    """base[rng] is a rest of data"""
    if rng.op != "agg" or rng.a[0].split("::")[-1] != "RangeFrom":
        return False
    n = strip_cast(rng.a[2][0])
    if n.op == "fld" and n.a[1] == "Ok.0" and site(n.a[0]) in results and covered(eng, base, results[site(n.a[0])][1], seen):
        return rest_of(eng, base, data, results, seen)
    return slice_of(base) is data and position(eng, n, data, results)


def position(eng, t, data, results, seen=None):
    """t counts the bytes of data written so far: starts at 0 and grows by what a write of data[t..] accepted"""
    seen = set() if seen is None else seen
    t = strip_cast(t)
    if t in seen or t.op == "const" and t.a[1] == 0:
        return True
    seen.add(t)
    if t.op == "phi":
        ms = eng.phimem.get(t, ())
        return bool(ms) and all(position(eng, m, data, results, seen) for m in ms)
    l, k = linear(t)
    ns = [x for x in l if x.op == "fld" and x.a[1] == "Ok.0" and site(x.a[0]) in results]
    if len(ns) == 1 and k == 0 and all(v == 1 for v in l.values()) and len(l) <= 2:
        for v in {y for v in results[site(ns[0].a[0])][1] for y in flat(eng, v)}:
            if v is not data and not (v.op == "fld" and isinstance(v.a[1], tuple) and v.a[1][0] == "sl" and slice_of(v.a[0]) is data):
                return False
        return all(position(eng, x, data, results, seen) for x in l if x is not ns[0])
    return False


def flat(eng, t, seen=None):
    """The slices t may be, joins resolved."""
    seen = set() if seen is None else seen
    t = slice_of(t)
    if t in seen:
        return set()
    seen.add(t)
    if t.op != "phi":
        return {t}
    r = set()
    for x in eng.phimem.get(t, ()):
        r |= flat(eng, x, seen)
    return r


def shape(eng, t):
    """data itself, or what is left of it after a write"""
    r = set()
    for x in flat(eng, t):
        if x.op == "pure" and x.a[0] in ("Default::default", "slice::default"):
            continue
        r.add("rest" if has(x, lambda y: y.op == "fld" and y.a[1] == "Ok.0" and callterm(y.a[0], *WRITE)) or x.op == "fld" and x.a[1] == "Some.0" and x.a[0].op == "phi" else x)
    return r


def covered(eng, base, views, seen):
    """The slice whose prefix is dropped is the one that was (partly) written"""
    b = shape(eng, base)
    w = set()
    for x in views:
        w |= shape(eng, x)
    seen.add(("base", frozenset(b)))
    return b <= w


def slice_of(t):
    while True:
        if t.op in ("&", "deref", "cast"):
            t = t.a[1] if t.op == "cast" else t.a[0]
        elif t.op == "upd" and t.a[1] and isinstance(t.a[1][0], tuple) and t.a[1][0][0] in ("sl", "[]"):
            t = t.a[0]
        elif t.op == "ref" and t.a[0][0] == "M":
            r = t.a[0][1]
            for k in t.a[1]:
                r = mk("fld", r, k)
            if not t.a[1]:
                t = r
            else:
                return r
        else:
            return t


class W02Rule(engine.Rule):
    """Typestate of one write_block call of a bundled block writer."""

    def __init__(self, c, prog, fn):
        self.c = c
        self.p = prog
        self.fn = fn
        self.n = {"write": 0, "ok": 0, "err": 0}
        self.results = {}
        self.ends = []
        self.datas = []

    def on_end(self, eng):
        bases = set()
        for w, x, data in self.datas:
            seen = set()
            self.c.oblig(self.key("data"), bool(data) and rest_of(eng, x, data[0], self.results, seen), w, f"writes {show(x)[:140]}, not the received data")
            bases.update(y for x in seen if isinstance(x, tuple) for y in x[1])
        for path, st, ds in self.ends:
            self.c.oblig(self.key("whole"), bool(ds) and all_written(eng, st, [st.ts["end"]] if "end" in st.ts else [], ds[0], self.results, bases), path,
                         "reports a block as written although not all of it is known to have been written", [f"{show(t)[:140]} = {v}" for t, v in st.facts.items()])
        # in a loop the rest must be taken from the rest, not from the beginning again
        w = {y for r in self.results.values() for x in r[1] for y in shape(eng, x)}
        self.c.oblig(self.key("rest"), not bases or w <= bases, self.fn.path, "after a partial write the rest is not taken from what was left")

    def key(self, k):
        return f"{self.c.cfg}:{self.fn.path.split(' as ')[0].split('<')[1].split('::')[-1]}:{k}"

    def counters(self, st, d):
        """The fields f of self with index(block) == self.f + 1 known."""
        r = set()
        for a, b, k in upper_bounds(st):
            if len(a) == 1 and len(b) == 1:
                (x, n), = a.items()
                (y, m), = b.items()
                if n == m == 1 and callterm(x, "BlockMapper::index") and y.op == "fld" and k == 1 and entails(st, y, x, -1) and any(
                        z.op == "param" and z.a[0] == 2 for z in callargs(x)):
                    r.add(y)
        return r

    def on_fact(self, eng, st, t, v):
        e = emptied(t, v)
        ds = [x for x in sub_expand(eng, t) if x.op == "param" and x.a[0] == 3]
        if ds and (e is not None or passed(t, v, ds[0]) is not None):
            st.ts["end"] = (t, v)

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name in WRITE:
            st.ts.pop("end", None)
            self.n["write"] += 1
            self.results.setdefault(site(res), (d.name, set()))[1].add(views[1])
            cs = self.counters(st, d)
            st.ts["eq"] = cs = frozenset(cs) or st.ts.get("eq", frozenset())
            self.c.oblig(self.key("next"), bool(cs), where(ctx, line), "writes a block of which it is not known that it is the one after the last written",
                         [f"{show(t)[:140]} = {v}" for t, v in st.facts.items()])
            data = [x for x in sub_expand(eng, views[1]) if x.op == "param" and x.a[0] == 3]
            self.datas.append((where(ctx, line), views[1], data[:1]))

    def on_root_return(self, eng, st, ctx, v):
        if v.op != "agg" or v.a[1] not in ("Ok", "Err"):
            self.c.oblig(self.key("result"), False, ctx.fn.path, f"the outcome {show(v)[:120]} is not known")
            return
        now = {}
        cs = st.ts.get("eq") or frozenset(self.counters(st, None))
        for y in cs:
            now[y] = eng.read(st, ("M", y.a[0].a[0]), (y.a[1],)) if y.a[0].op == "deref" else None
        if v.a[1] == "Ok":
            self.n["ok"] += 1
            ok = any(n is not None and sub_linear(linear(n), linear(y)) == ({}, 1) for y, n in now.items())
            self.c.oblig(self.key("advance"), ok, ctx.fn.path, "reports a block as written without recording it as the last written one")
            ds = [x for r in self.results.values() for y in r[1] for x in sub_expand(eng, y) if x.op == "param" and x.a[0] == 3]
            self.ends.append((ctx.fn.path, st.copy(), ds[:1]))
            pl = v.a[2][0]
            size, idx = (pl.a[2] if pl.op == "agg" and len(pl.a[2]) == 2 else (mk("fld", pl, "0"), mk("fld", pl, "1")))
            sz = strip_cast(size)
            self.c.oblig(self.key("size"), sz.op in ("pure", "len") and sz.a[0].split("::")[-1] == "len" and any(slice_of(sz.a[1]) is x for x in ds), ctx.fn.path, f"reports {show(size)[:120]} as the size of the block")
            self.c.oblig(self.key("index"), any(sub_linear(linear(idx), linear(y)) == ({}, 1) for y in cs), ctx.fn.path, f"reports {show(idx)[:120]} as the index of the block")
        else:
            self.n["err"] += 1
            for y, n in now.items():
                self.c.oblig(self.key("keep"), n is y or n is None, ctx.fn.path, "records a block as written although an error is reported")
            e = v.a[2][0]
            if e.op == "agg" and e.a[1] in ("AlreadyWritten", "ExpectedBlock"):
                x = e.a[2][0]
                cur, ci = strip_cast(field(self.p, x, "current")), strip_cast(field(self.p, x, "current_index"))
                self.c.oblig(self.key("current"), callterm(cur, "BlockMapper::block") and callargs(cur)[-1] is ci and ci.op == "fld" and has(ci, lambda z: z.op == "param" and z.a[0] == 1),
                             ctx.fn.path, f"names {show(cur)[:80]} / {show(ci)[:80]} as the last written block")


def W02(c):
    c.rule = ("In every bundled block writer: a write happens only where index(block) == last + 1 is known, of the received data; Ok is returned only with the whole data handed over "
              "(write_all, or a loop that drops exactly the accepted prefix until nothing is left), last + 1 recorded, and (data length, last + 1) reported; errors leave the record alone.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        ids = p.reaching(named(*WRITE))
        roots = [f for f in methods_of(p, "BlockWriter", "write_block") if f.id in ids]
        n = {}
        for f in roots:
            r = W02Rule(c, p, f)
            c.run(p, f, [r], opaque=lambda d, fn: d.name in ("BlockMapper::index", "BlockMapper::block"))
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        c.floor(f"{cfg}:writers", len(roots), 1, "bundled block writers")
        c.floor(f"{cfg}:writes", n.get("write", 0), 1, "writes of a block")
        c.floor(f"{cfg}:ok", n.get("ok", 0), 1, "successful returns")


class W03Rule(Upload):
    def send(self, eng, st, ctx, line, p):
        if kind(p) == "Ack" and st.ts.get("wr") == "Ok":
            self.n["ack"] += 1
            self.c.oblig(self.key("ack"), st.ts.get("limit") or self.within_limit(st), where(ctx, line), "acknowledges a block without having compared transferred + written with max_file_size", self.facts(st))

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and not st.ts.get("limit") and self.within_limit(st):
            st.ts["limit"] = True

    def assign(self, eng, st, ctx, f, v):
        if f == "transfer":
            a, k = linear(v)
            ts = list(a)
            ok = len(ts) == 2 and k == 0 and all(a[t] == 1 for t in ts) and any(self.written(t) for t in ts) and any(is_field(t, "transfer") for t in ts)
            self.c.oblig(self.key("count"), ok and st.ts.get("wr") == "Ok", ctx.fn.path, f"the transferred size becomes {show(v)[:140]}, which is not the old one plus what was stored")
            self.c.oblig(self.key("count-limit"), bool(st.ts.get("limit")), ctx.fn.path, "counts a block that was not compared with max_file_size", self.facts(st))
            st.ts["counted"] = True
        elif f == "finished" and v is not FALSE:
            self.c.oblig(self.key("finish"), bool(st.ts.get("limit")), ctx.fn.path, "ends an upload that was not compared with max_file_size", self.facts(st))

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        if st.ts.get("wr") == "Ok" and st.ts.get("limit"):
            self.c.oblig(self.key("counted"), bool(st.ts.get("counted")), ctx.fn.path, "an accepted block is not added to the transferred size, so that the limit is not enforced over the upload", self.facts(st))


class W03Request(engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def on_fact(self, eng, st, t, v):
        if not st.ts.get("size") and (t.op == "bin" or t.op == "discr" and is_field(t.a[0], "file_size")) and self.known(eng, st):
            st.ts["size"] = True

    def known(self, eng, st):
        """The announced size is absent, or at most the limit"""
        for t, v in st.facts.items():
            if t.op == "discr" and v == "None" and is_field(t.a[0], "file_size"):
                return True
        for a, b, k in upper_bounds(st):
            x, y = one(a), one(b)
            if x is not None and y is not None and k <= 0 and names_limit(y):
                vs = alts(eng, x)
                if any(z.op != "const" for z in vs) and all(z.op == "const" and z.a[1] == 0 or z.op == "fld" and z.a[1] == "Some.0" and is_field(z.a[0], "file_size") for z in vs):
                    return True
        return False

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.rustcall and len(d.targs) > 1 and "ServerConfig" in d.targs[1]:
            self.n += 1
            ok = st.ts.get("size") or self.known(eng, st)
            self.c.oblig(f"{self.c.cfg}:request@{fn_tail(ctx)}", ok, where(ctx, line), "opens a file for a request without having compared its announced size with config.max_file_size",
                         [f"{show(t)[:140]} = {v}" for t, v in list(st.facts.items())[-8:]])


def W03(c):
    c.rule = ("Between write_block == Ok and every send of Packet::Ack, update of the transferred size or end of the upload, transferred + written <= max_file_size is known; an "
              "accepted block is added to the transferred size; a file is opened for a request only after its announced size is known to be absent or <= config.max_file_size.")
    analyse(c, W03Rule, [("ack", 1, "acknowledgements of stored blocks"), ("return", 1, "ends of the upload step")])
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = direct_callers(p, is_file_callback)
        n = [0]
        op = leaves(p, small=2000)

        def go(sub, root):
            r = W03Request(sub)
            sub.run(p, root, [r], opaque=op, max_steps=80000)
            n[0] += r.n
        climb(c, p, roots, go)
        c.floor(f"{cfg}:callbacks", n[0], 2, "calls of the file callbacks")


class W04Rule(Upload):
    def assign(self, eng, st, ctx, f, v):
        if f == "finished" and v is not FALSE:
            self.n["finish"] += 1
            self.c.oblig(self.key("finish"), st.ts.get("wr") == "Ok" and self.short(st) is True, ctx.fn.path,
                         "marks the upload finished although it is not known that write_block accepted fewer bytes than a block holds", self.facts(st))
            st.ts["fin"] = True

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        s = self.short(st)
        if s is not None:
            st.ts["short"] = s

    def on_root_return(self, eng, st, ctx, v):
        if st.ts.get("wr") == "Ok" and not st.ts.get("inv"):
            self.n["return"] += 1
            self.c.oblig(self.key("unfinished"), bool(st.ts.get("fin")) or st.ts.get("short") is False, ctx.fn.path,
                         "the last (short) block was stored but the upload is not marked finished", self.facts(st))


class W04Inv(W04Rule):
    def assign(self, eng, st, ctx, f, v):
        super().assign(eng, st, ctx, f, v)
        if f == "invalid":
            st.ts["inv"] = True


def W04(c):
    c.rule = ("The upload is marked finished exactly on paths on which write_block == Ok(w) with w < block_size_with_encryption() (and the session was not marked invalid).")
    analyse(c, W04Inv, [("finish", 1, "ends of an upload"), ("return", 1, "ends of the upload step")])


class W05Rule(Upload):
    def send(self, eng, st, ctx, line, p):
        k = kind(p)
        if k == "Ack":
            self.c.oblig(self.key("ack-after-error"), st.ts.get("wr") != "Other" and not st.ts.get("inv") and not st.ts.get("err"), where(ctx, line), "acknowledges a block although storing it failed", self.facts(st))
        elif k == "Error":
            self.n["error"] += 1
            st.ts["err"] = True
        self.live(st, ctx, "send", line)

    def live(self, st, ctx, what, line=0):
        ok = is_live(st) or st.ts.get("inv")
        self.c.oblig(self.key(f"live:{what}"), ok, where(ctx, line), f"{what} although the session may have failed before", self.facts(st))

    def store(self, eng, st, ctx, line, views):
        self.live(st, ctx, "store", line)

    def assign(self, eng, st, ctx, f, v):
        if f == "invalid":
            st.ts["inv"] = not (v.op == "agg" and v.a[1] == "None")
        elif f == "finished" and v is not FALSE:
            self.c.oblig(self.key("finish-after-error"), st.ts.get("wr") == "Ok" and not st.ts.get("inv") and not st.ts.get("err"), ctx.fn.path, "ends the upload successfully although storing failed", self.facts(st))
            st.ts["fin"] = True

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        w = st.ts.get("wr")
        if st.ts.get("err"):
            self.c.oblig(self.key("told"), bool(st.ts.get("inv")) and not st.ts.get("fin"), ctx.fn.path, "the session goes on, or is finished, after the client was sent an error", self.facts(st))
        if w in ("Other", "Err", "?"):
            self.c.oblig(self.key("report"), bool(st.ts.get("made:Error")), ctx.fn.path, "a storage error is not reported to the client", self.facts(st))
            self.c.oblig(self.key("invalid"), bool(st.ts.get("inv")), ctx.fn.path, "the session goes on after a storage error", self.facts(st))
        if st.ts.get("pk") == "Error":
            self.c.oblig(self.key("peer-error"), bool(st.ts.get("inv")), ctx.fn.path, "the session goes on after the client sent an error", self.facts(st))


def W05(c):
    c.rule = ("After write_block returned an error other than ExpectedBlock/AlreadyWritten no Ack is sent and the upload is not finished; every such path sends Packet::Error and marks "
              "the session invalid; a received Packet::Error marks it invalid; storing and sending require a session known not to be invalid.")
    analyse(c, W05Rule, [("error", 1, "error packets"), ("return", 1, "ends of the upload step"), ("store", 1, "calls of write_block")])


def fieldname(t):
    t = strip_cast(t)
    return str(t.a[1]).split(".")[-1] if t.op == "fld" else ""


class W06Rule(Upload):
    def send(self, eng, st, ctx, line, p):
        if kind(p) == "Ack":
            self.n["ack"] += 1
            st.ts["ack"] = True
            st.ts["sending"] = "Ack"
        else:
            st.ts["sending"] = "other"
            if kind(p) == "Error":
                st.ts["err"] = True

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and isinstance(v, bool):
            for a, b, k in upper_bounds(st):
                x, y = one(a), one(b)
                if x is None and not a and y is not None and is_field(y, "window_size") and k <= -2:
                    st.ts["w>1"] = True
                if y is not None and is_field(y, "window_size") and len(a) == 2 and k <= -1 and any(self.index(t2) and n == 1 for t2, n in a.items()) and any(
                        is_field(t2, "last_acknowledged") and n == -1 for t2, n in a.items()):
                    st.ts["mid"] = True
                if x is not None and self.index(x) and len(b) == 2 and k <= -1 and {"window_size", "last_acknowledged"} == set(map(fieldname, b)):
                    st.ts["mid"] = True
                if y is not None and self.written(y) and x is not None and blk_size(x) and k <= 0:
                    st.ts["full"] = True
                if not a and False:
                    pass
            if t.a[0] == "Eq" and v is False:
                l, kl = linear(t.a[1])
                r, kr = linear(t.a[2])
                d = dict(l)
                for t2, n in r.items():
                    d[t2] = d.get(t2, 0) - n
                d = {t2: n for t2, n in d.items() if n}
                if len(d) == 3 and kl == kr:
                    idx = [n for t2, n in d.items() if self.index(t2)]
                    oth = sorted((fieldname(t2), n) for t2, n in d.items() if not self.index(t2))
                    if idx and oth == [("last_acknowledged", -idx[0]), ("window_size", -idx[0])]:
                        st.ts["mid"] = True
            if t.a[0] == "Lt" and t.a[1] is const("usize", 0) and blk_size(t.a[2]) and v is False:
                st.ts["noblock"] = True

    def assign(self, eng, st, ctx, f, v):
        if f == "last_acknowledged":
            self.c.oblig(self.key("recorded"), st.ts.get("acked") is True and self.any_index(eng, v), ctx.fn.path,
                         f"records {show(v)[:120]} as acknowledged without a sent acknowledgement of that block", self.facts(st))
        elif f == "invalid":
            st.ts["inv"] = True

    def any_index(self, eng, v):
        v = strip_cast(v)
        if v.op == "phi":
            ms = eng.phimem.get(v, ())
            return bool(ms) and all(self.index(m) for m in ms if m is not v)
        return self.index(v)

    def on_root_return(self, eng, st, ctx, v):
        if not st.ts.get("store") or st.ts.get("inv") or st.ts.get("err"):
            return
        self.n["return"] += 1
        w = st.ts.get("wr")
        if st.ts.get("made:Ack"):
            ok = True
        elif w == "Ok":
            ok = st.ts.get("w>1") and st.ts.get("mid") and st.ts.get("full")
        else:
            ok = st.ts.get("noblock") and st.ts.get("w>1")
        self.c.oblig(self.key(f"answer:{w}"), bool(ok), ctx.fn.path,
                     "a data block is left unanswered although it is not known to be a full block inside a window", self.facts(st))


def W06(c):
    c.rule = ("Every path that stored a block (or found it repeated or early) sends Packet::Ack unless window_size > 1, the block does not complete the window since the last "
              "acknowledgement, and the block is a full one; the last acknowledged index is recorded only after that send succeeded.")
    analyse(c, W06Rule, [("ack", 1, "acknowledgements"), ("return", 1, "ends of the upload step")])
