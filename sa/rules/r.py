"""R: downloads (the server sends a file to a client)."""
import engine
from common import *
from sess import *
from terms import *
from rules.w import Upload, fieldname, is_field, one, slice_of, site, flat, emptied, is_live

NEXT = "BlockReader::next"
FREE = "BlockReader::free_block"
FIN = "BlockReader::is_finished"


class Down(Upload):
    """Typestate of one step of a download: what the block reader said, what was sent, what was recorded."""

    def __init__(self, c, prog):
        super().__init__(c, prog)
        self.n = {"free": 0, "finish": 0, "data": 0, "error": 0, "return": 0, "next": 0}

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "discr" and callterm(t.a[0], NEXT):
            st.ts["rd"] = v if v == "Ok" else "Err"
        elif t.op == "discr" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and callterm(t.a[0].a[0], NEXT):
            st.ts["blk"] = v
        elif callterm(t, FIN) and isinstance(v, bool) and t is st.ts.get("fin_t"):
            st.ts["fin?"] = v

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in SEND:
            self.send(eng, st, ctx, line, st.ts.get("pkt"))
        elif d.name == FREE:
            self.n["free"] += 1
            self.free(eng, st, ctx, line, [eng.view(st, a) for a in args])
        elif d.name == NEXT:
            self.n["next"] += 1
            self.next(eng, st, ctx, line, [eng.view(st, a) for a in args])

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)
        if d.name == NEXT:
            st.ts["rd"] = "?"
        elif d.name == FREE:
            st.ts["freed"] = True
        elif d.name == FIN:
            # only an answer given after the acknowledgement was processed counts
            if st.ts.get("freed"):
                st.ts["fin?"] = "?"
                st.ts["fin_t"] = res
        self.other(eng, st, ctx, d, views, res, line)

    def free(self, eng, st, ctx, line, views): pass
    def next(self, eng, st, ctx, line, views): pass
    def other(self, eng, st, ctx, d, views, res, line): pass

    def read_block(self, t, name):
        """t is field `name` of the block the reader returned"""
        t = strip_cast(t)
        return is_field(t, name) and t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[1] == "Some.0" and t.a[0].a[0].op == "fld" and callterm(t.a[0].a[0].a[0], NEXT)


def handle_roots(c, p):
    return [f for f in minimal(p, named(FREE), named("Packet::from_bytes", "ByteConverter::from_bytes"), ) if f.id in p.reaching(named("Instant::elapsed", FREE)) and "client" not in f.path]


def send_roots(c, p):
    return minimal(p, named(NEXT), named("BoundSocket::send"))


def analyse(c, cls, roots_of, floors, cfgs=("full", "stackenc", "stack")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = roots_of(c, p)
        c.floor(f"{cfg}:download", len(roots), 1, "functions of a download step")
        tot = {}

        def go(sub, root):
            r = cls(sub, p)
            sub.run(p, root, [r], opaque=leaves(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, roots, go)
        for k, least, msg in floors:
            c.floor(f"{cfg}:{k}", tot.get(k, 0), least, msg)


class R01Rule(Down):
    def free(self, eng, st, ctx, line, views):
        b = strip_cast(views[1])
        x = b.a[0] if is_field(b, "block") and b.op == "fld" else None
        ok = x is not None and x.op == "fld" and x.a[1] == "Ack.0" and has(x, lambda y: callterm(y, "ByteConverter::from_bytes", "Packet::from_bytes"))
        self.c.oblig(self.key("free"), ok, where(ctx, line), f"releases block {show(b)[:120]}, which is not the number of a received acknowledgement")

    def assign(self, eng, st, ctx, f, v):
        if f == "finished" and v is not FALSE:
            self.n["finish"] += 1
            self.c.oblig(self.key("finish"), st.ts.get("freed") and (v is TRUE and st.ts.get("fin?") is True or v is st.ts.get("fin_t")), ctx.fn.path,
                         "marks the download finished although the block reader did not report that every block was acknowledged", self.facts(st))
            st.ts["fin"] = True

    def on_root_return(self, eng, st, ctx, v):
        if st.ts.get("freed"):
            self.n["return"] += 1
            self.c.oblig(self.key("unfinished"), bool(st.ts.get("fin")) or st.ts.get("fin?") is False, ctx.fn.path,
                         "an acknowledgement was processed without asking the block reader whether it was the last one, or without marking the download finished", self.facts(st))


def R01(c):
    c.rule = ("free_block gets the number of a received Packet::Ack; the download is marked finished exactly on paths on which, after free_block, is_finished() returned true.")
    analyse(c, R01Rule, handle_roots, [("free", 1, "releases of blocks"), ("finish", 1, "ends of a download"), ("return", 1, "ends of the step")])


class R02Rule(Down):
    def other(self, eng, st, ctx, d, views, res, line):
        if d.tail == "prepend_data_header":
            st.ts["hdr"] = bool(self.read_block(views[0], "block"))
            st.ts["len"] = st.ts.get("len") is True
        elif d.tail in ("truncate", "resize", "set_len", "resize_default", "resize_data_block_07", "resize_buffer") and len(views) > 1 and "block_reader" not in d.path:
            l, k = linear(views[1])
            t = one(l)
            if t is not None and self.read_block(t, "size"):
                st.ts["len"] = k == 4
            elif st.ts.get("blk"):
                st.ts["len"] = False

    def next(self, eng, st, ctx, line, views):
        self.buf = views[1]
        x = views[1]
        ok = False
        for y in flat(eng, x):
            if y.op == "fld" and isinstance(y.a[1], tuple) and y.a[1][0] == "sl":
                r = y.a[1][1]
                ok = r.op == "agg" and r.a[0].endswith("RangeFrom") and linear(r.a[2][0]) == ({}, 4)
            if callterm(y, "slice::get_mut", "Index::index_mut", "IndexMut::index_mut", "Vec::index_mut"):
                r = callargs(y)[1]
                ok = r.op == "agg" and r.a[0].endswith("RangeFrom") and linear(r.a[2][0]) == ({}, 4)
            if y.op == "fld" and y.a[1] == "Some.0" and callterm(y.a[0], "slice::get_mut"):
                r = callargs(y.a[0])[1]
                ok = r.op == "agg" and r.a[0].endswith("RangeFrom") and linear(r.a[2][0]) == ({}, 4)
            if y.op == "fld" and y.a[1] == "1" and callterm(y.a[0], "slice::split_at_mut"):
                ok = linear(callargs(y.a[0])[1]) == ({}, 4)
        self.c.oblig(self.key("room"), ok, where(ctx, line), f"the block is read into {show(x)[:120]}, not right behind the 4 byte header")

    def send(self, eng, st, ctx, line, p):
        if p is not None and kind(p) != "Data":
            return
        self.n["data"] += 1
        if p is not None:
            ok = self.read_block(field(self.p, payload(p), "block"), "block")
            self.c.oblig(self.key("packet"), ok, where(ctx, line), "sends a data packet with a number the block reader did not give")
            return
        self.c.oblig(self.key("block"), st.ts.get("rd") == "Ok" and st.ts.get("blk") == "Some", where(ctx, line), "sends data the block reader did not provide", self.facts(st))
        self.c.oblig(self.key("header"), st.ts.get("hdr") is True, where(ctx, line), "sends a block whose header does not carry the number the block reader gave", self.facts(st))
        self.c.oblig(self.key("length"), st.ts.get("len") is True, where(ctx, line), "sends a packet that is not header + the size the block reader gave", self.facts(st))
        # sealed in place: what is in the buffer now must not be sent again
        st.ts["hdr"] = st.ts["len"] = False


def R02(c):
    c.rule = ("Every send that is not a serialised control packet happens only with next() == Ok(Some(b)), the header written from b.block and the buffer cut to 4 + b.size; next() reads "
              "into the buffer right behind the header.")
    analyse(c, R02Rule, send_roots, [("data", 1, "sends of data blocks"), ("next", 1, "calls of the block reader")])


class R03Send(Down):
    def send(self, eng, st, ctx, line, p):
        if p is not None and kind(p) == "Error":
            self.n["error"] += 1
        else:
            self.c.oblig(self.key("data-after-error"), st.ts.get("rd") == "Ok" and not st.ts.get("inv"), where(ctx, line), "sends data although reading it failed", self.facts(st))

    def assign(self, eng, st, ctx, f, v):
        if f == "invalid":
            st.ts["inv"] = not (v.op == "agg" and v.a[1] == "None")

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        if st.ts.get("rd") in ("Err", "?"):
            self.c.oblig(self.key("report"), bool(st.ts.get("made:Error")), ctx.fn.path, "a read error is not reported to the client", self.facts(st))
            self.c.oblig(self.key("invalid"), bool(st.ts.get("inv")), ctx.fn.path, "the session goes on after a read error", self.facts(st))


class R03Handle(Down):
    def live(self, st, ctx, what, line=0):
        ok = is_live(st)
        self.c.oblig(self.key(f"live:{what}"), ok, where(ctx, line), f"{what} although the session may have failed before", self.facts(st))

    def free(self, eng, st, ctx, line, views):
        self.live(st, ctx, "releases a block", line)

    def assign(self, eng, st, ctx, f, v):
        if f == "invalid":
            st.ts["inv"] = not (v.op == "agg" and v.a[1] == "None")
        elif f == "finished" and v is not FALSE:
            self.live(st, ctx, "finishes the download")

    def on_root_return(self, eng, st, ctx, v):
        if st.ts.get("pk") == "Error":
            self.n["error"] += 1
            self.c.oblig(self.key("peer-error"), bool(st.ts.get("inv")), ctx.fn.path, "the session goes on after the client sent an error", self.facts(st))


def R03(c):
    c.rule = ("When next() returns an error no data is sent, Packet::Error is, and the session is marked invalid; a received Packet::Error marks it invalid; an acknowledgement is processed "
              "only in a session known not to be invalid.")
    analyse(c, R03Send, send_roots, [("error", 1, "error packets"), ("return", 1, "ends of the sending step")])
    analyse(c, R03Handle, handle_roots, [("error", 1, "error packets from the client"), ("free", 1, "releases of blocks")])


# ------------------------------------------------------------------ reading whole blocks
class Loop(engine.Rule):
    """A loop that fills a buffer from Read::read."""

    def __init__(self, c, fn):
        self.c = c
        self.fn = fn
        self.n = {"read": 0, "ok": 0}
        self.results = {}
        self.reads = []
        self.ends = []

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == "Read::read":
            self.n["read"] += 1
            self.results.setdefault(site(res), (d.name, set()))[1].add(views[1])
            self.reads.append((where(ctx, line), args[1]))
            st.ts["last"] = "?"
        elif d.name == "Read::read_exact":
            self.n["read"] += 1

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and callterm(t.a[0], "Read::read"):
            st.ts["last"] = v
        elif t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
            for x, y in (t.a[1:], t.a[:0:-1]):
                y = strip_cast(y)
                if x.op == "const" and x.a[1] == 0 and y.op == "fld" and y.a[1] == "Ok.0" and callterm(y.a[0], "Read::read"):
                    st.ts["last"] = "Ok0" if v else "Okn"
        elif t.op == "fld" and t.a[1] == "Ok.0" and callterm(t.a[0], "Read::read") and isinstance(v, int):
            st.ts["last"] = "Okn" if v else "Ok0"
        elif t.op == "bin" and t.a[0] == "Lt" and t.a[1].op == "const" and t.a[1].a[1] == 0 and isinstance(v, bool):
            y = strip_cast(t.a[2])
            if y.op == "fld" and y.a[1] == "Ok.0" and callterm(y.a[0], "Read::read"):
                st.ts["last"] = "Okn" if v else "Ok0"
            elif v:
                st.ts["some"] = st.ts.get("some", frozenset()) | {y}
        k = kind_test(t, v)
        if k:
            st.ts["kind"] = k
        if isinstance(v, bool) and t.op == "bin" and t.a[0] in ("Lt", "Eq"):
            y = self.full(t, v)
            if y is not None:
                st.ts["full"] = y

    def full(self, t, v):
        """(x, y) where the fact says x <= y, or what is known to be empty"""
        e = emptied(t, v)
        if e is not None:
            return ("empty", e)
        if t.a[0] == "Lt" and v is False:
            return (t.a[1], t.a[2])[::-1]
        if t.a[0] == "Eq" and v is True:
            return (t.a[1], t.a[2])
        return None

    def filled(self, eng, f):
        if f is None or f[0] == "empty":
            return f is not None and (self.rest(eng, f[1]) or self.length(eng, f[1]))
        return any(self.length(eng, x) and self.pos(eng, y) for x, y in (f, f[::-1]))

    def length(self, eng, t):
        """t is the length of the buffer"""
        ms = alts(eng, t)
        return bool(ms) and all(m.op == "pure" and m.a[0].split("::")[-1] == "len" and all(y.op == "param" for y in flat(eng, m.a[1])) for m in ms)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Ok":
            self.n["ok"] += 1
            self.ends.append((st.copy(), v.a[2][0]))

    def on_end(self, eng):
        bufs = {x for _, v in self.reads for y in sub_expand(eng, v) for x in [y] if x.op == "param"}
        for w, v in self.reads:
            ok = all(y.op == "param" or y.op == "fld" and isinstance(y.a[1], tuple) and y.a[1][0] == "sl" and y.a[1][1].op == "agg" and y.a[1][1].a[0].endswith("RangeFrom")
                     and self.pos(eng, y.a[1][1].a[2][0]) and slice_of(y.a[0]).op == "param" or self.rest(eng, y) for y in flat(eng, v))
            self.c.oblig(self.key("fill"), ok, w, f"reads into {show(v)[:120]}, which is not the unfilled part of the buffer")
        for st, n in self.ends:
            last, full = st.ts.get("last"), st.ts.get("full")
            ok = last == "Ok0" or last == "Err" and st.ts.get("kind") == "Unsupported" or self.filled(eng, full)
            self.c.oblig(self.key("whole"), ok, self.fn.path, f"returns {show(n)[:60]} bytes as a whole block although the file was not at its end and the buffer not full (last read: {last})",
                         [f"{show(t)[:140]} = {v}" for t, v in list(st.facts.items())[-8:]])
            self.c.oblig(self.key("count"), self.pos(eng, n) or self.used(eng, n), self.fn.path, f"returns {show(n)[:120]}, which is not the number of bytes read")

    def pos(self, eng, t):
        bufs = {y for _, v in self.reads for y in flat(eng, v)}
        ps = {y if y.op == "param" else slice_of(y.a[0]) for y in bufs if y.op in ("param", "fld")}
        return any(x.op == "param" and self.position(eng, t, x, set()) for x in ps)

    def position(self, eng, t, data, seen):
        t = strip_cast(t)
        if t in seen or t.op == "const" and t.a[1] == 0:
            return True
        seen.add(t)
        if t.op == "phi":
            ms = eng.phimem.get(t, ())
            return bool(ms) and all(self.position(eng, m, data, seen) for m in ms)
        l, k = linear(t)
        ns = [x for x in l if x.op == "fld" and x.a[1] == "Ok.0" and site(x.a[0]) in self.results]
        if len(ns) == 1 and k == 0 and all(v == 1 for v in l.values()) and len(l) <= 2:
            return all(self.position(eng, x, data, seen) for x in l if x is not ns[0])
        return False

    def rest(self, eng, y):
        return False

    def used(self, eng, n):
        return False


def kind_test(t, v):
    """The io::ErrorKind an error is known to have"""
    if t.op == "bin" and t.a[0] == "Eq" and v is True:
        for x, y in (t.a[1:], t.a[:0:-1]):
            if y.op == "discr" and (callterm(y.a[0], "Error::kind") or is_field(y.a[0], "kind")) and x.op == "const":
                return str(x.a[1])
            if callterm(y, "Error::kind") and x.op == "agg":
                return str(x.a[1])
    if t.op == "discr" and (callterm(t.a[0], "Error::kind") or is_field(t.a[0], "kind")) and isinstance(v, str):
        return v
    return None


class R04Reader(engine.Rule):
    """Where a bundled reader decides that the file has ended."""

    def __init__(self, c, p, fn, direct):
        self.c = c
        self.p = p
        self.fn = fn
        self.direct = direct
        self.n = {"end": 0, "return": 0}

    def key(self, k):
        return f"{self.c.cfg}:{self.fn.path.split(' as ')[0].split('<')[1].split('::')[-1]}:{k}"

    def is_read(self, t):
        t = strip_cast(t)
        if t.op == "phi":
            return False
        return has(t, lambda x: x.op == "ret" and x.a[0] in self.direct) and t.op == "fld" and t.a[1] == "Ok.0"

    def short(self, st):
        for t, v in st.facts.items():
            if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool) and self.is_read(t.a[1]) and is_field(t.a[2], "block_size"):
                return v
            if t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
                for x, y in (t.a[1:], t.a[:0:-1]):
                    if self.is_read(x) and is_field(y, "block_size"):
                        return not v
        return None

    def on_fact(self, eng, st, t, v):
        s = self.short(st)
        if s is not None:
            st.ts["short"] = s

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name in self.direct:
            st.ts["read"] = True

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and base[0] == "M" and path[-1].split(".")[-1] in ("finished", "finished_block_size", "end_of_file", "eof"):
            if v is FALSE or v.op == "agg" and v.a[1] == "None":
                return
            self.n["end"] += 1
            s = self.short(st)
            ok = s is True or v.op == "bin" and v.a[0] == "Lt" and self.is_read(v.a[1]) and is_field(v.a[2], "block_size")
            self.c.oblig(self.key("end"), ok, ctx.fn.path, "takes the file to be at its end although it is not known that a block could not be filled",
                         [f"{show(t)[:140]} = {x}" for t, x in list(st.facts.items())[-8:]])
            st.ts["ended"] = True

    def on_root_return(self, eng, st, ctx, v):
        if not st.ts.get("read") or not (v.op == "agg" and v.a[1] == "Ok"):
            return
        b = v.a[2][0]
        if b.op == "agg" and b.a[1] == "Some":
            r = field(self.p, b.a[2][0], "retry")
            if r is TRUE:
                return
            self.n["return"] += 1
            self.c.oblig(self.key("ended"), bool(st.ts.get("ended")) or st.ts.get("short") is False, ctx.fn.path,
                         "a short block was read for the first time and the file is not taken to be at its end",
                         [f"{show(t)[:140]} = {x}" for t, x in list(st.facts.items())[-8:]])


def loop_roots(p):
    ids = p.reaching(named("Read::read"))
    return [f for f in direct_callers(p, named("Read::read")) if "client" not in f.path]


def R04(c):
    c.rule = ("A function that reads blocks with Read::read returns fewer bytes than the buffer holds only after a read returned Ok(0) (or Unsupported, the end of an encrypted stream), fills the "
              "unfilled rest and returns the sum; a bundled reader takes the file to be at its end exactly when such a read gave fewer bytes than block_size.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        loops = loop_roots(p)
        n = {}
        for f in loops:
            r = Loop(c, f)
            c.run(p, f, [r])
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        c.floor(f"{cfg}:loops", n.get("read", 0), 1, "reads of a file")
        c.floor(f"{cfg}:ok", n.get("ok", 0), 1, "returns of a block read")
        direct = {engine.short_name(f.path) for f in loops}
        dp = {f.path for f in loops}
        ids = p.reaching(named("Read::read"))
        roots = [f for f in methods_of(p, "BlockReader", "next") if f.id in ids and not any(x in f.path for x in ("PoolReader",))]
        m = {}
        for f in roots:
            if f.path in dp:
                continue
            r = R04Reader(c, p, f, direct)
            c.run(p, f, [r], opaque=lambda d, fn: fn.path in dp or d.name in ("BlockMapper::index", "BlockMapper::block"))
            for k, v in r.n.items():
                m[k] = m.get(k, 0) + v
        c.floor(f"{cfg}:readers", m.get("end", 0), 1, "ends of a file")
        c.floor(f"{cfg}:blocks", m.get("return", 0), 1, "blocks read for the first time")


def is_block(prog, v):
    return v.op == "agg" and v.a[0].split("::")[-1] == "Block" and prog.field_index(v.a[0], v.a[1], "retry") is not None


class Reader(engine.Rule):
    """One next() of a bundled block reader; every block it makes is looked at when it is made."""

    def __init__(self, c, p, fn, direct):
        self.c = c
        self.p = p
        self.fn = fn
        self.direct = direct
        self.n = {"new": 0, "again": 0, "offset": 0}

    def key(self, k):
        return f"{self.c.cfg}:{self.fn.path.split(' as ')[0].split('<')[1].split('::')[-1]}:{k}"

    def facts(self, st):
        return [f"{show(t)[:140]} = {x}" for t, x in list(st.facts.items())[-8:]]

    def count(self, t):
        """t is the number of bytes the file gave"""
        t = strip_cast(t)
        return t.op == "fld" and t.a[1] == "Ok.0" and callterm(t.a[0], *self.direct)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if is_block(self.p, v) and ctx.fn.path.startswith(self.fn.path):
            fresh = field(self.p, v, "retry")
            self.n["again" if fresh is TRUE else "new"] += 1
            self.block(eng, st, ctx, v, fresh is not TRUE)
        if path and isinstance(path[-1], str) and base[0] == "M":
            self.record(eng, st, ctx, path[-1].split(".")[-1], v)

    def block(self, eng, st, ctx, b, fresh): pass
    def record(self, eng, st, ctx, f, v): pass


def readers(c, cls, floors):
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        loops = loop_roots(p)
        direct = {engine.short_name(f.path) for f in loops}
        dp = {f.path for f in loops}
        ids = p.reaching(named("Read::read"))
        n = {}
        for f in methods_of(p, "BlockReader", "next"):
            if f.id not in ids or "PoolReader" in f.path or f.path in dp:
                continue
            if not any(i in p.fns and p.fns[i].path in dp for i in p.callgraph()[f.id][1]):
                # hands over to another reader
                if any(o["path"].endswith("BlockReader::next") for _, o, _ in calls_in(f)):
                    continue
            r = cls(c, p, f, direct)
            c.run(p, f, [r], opaque=lambda d, fn: fn.path in dp or d.name in ("BlockMapper::index", "BlockMapper::block"))
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        for k, least, msg in floors:
            c.floor(f"{cfg}:{k}", n.get(k, 0), least, msg)


class R05Rule(Reader):
    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and is_field(t.a[0], "last_block_size") and v == "None":
            st.ts["room"] = True
        if t.op == "pure" and t.a[0] in ("Option::is_some", "Option::is_none") and is_field(unref(t.a[1]), "last_block_size"):
            st.ts["room"] = v is (t.a[0] == "Option::is_none")
        if t.op == "bin" and isinstance(v, bool):
            if t.a[0] == "Eq":
                for x, y in (t.a[1:], t.a[:0:-1]):
                    if x.op == "discr" and is_field(x.a[0], "last_block_size") and y.op == "const":
                        st.ts["room"] = v is (y.a[1] in (0, "None"))
            for a, b, k in upper_bounds(st):
                m = one(b)
                if m is None or not is_field(m, "max_blocks_to_read") or k > -1:
                    continue
                x = one(a)
                if x is not None and callterm(x, "Iterator::count") and has(x, lambda y: is_field(y, "blocks")):
                    st.ts["room"] = True
                if len(a) == 2 and all(is_field(y, {1: "block_read", -1: "block_read_confirmed"}.get(n, "?")) for y, n in a.items()):
                    st.ts["room"] = True
            for a, b, k in upper_bounds(st):
                if len(a) == 1 and len(b) == 2 and k <= -1 and is_field(one(a) or unk(), "block_read") and sorted(map(fieldname, b)) == ["block_read_confirmed", "max_blocks_to_read"]:
                    st.ts["room"] = True

    def block(self, eng, st, ctx, b, fresh):
        if fresh:
            self.c.oblig(self.key("window"), bool(st.ts.get("room")), ctx.fn.path, "gives out a new block although it is not known that fewer unacknowledged blocks than the window are kept", self.facts(st))


def unk():
    return const("unk", 0)


NEW = ("SingleBlockReader::new", "MultipleBlockReader::new", "MultipleBlockSeekReader::new")


class NewReader(engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if engine.short_name(d.path) in NEW:
            self.n += 1
            a = [eng.view(st, x) for x in args]
            name = engine.short_name(d.path).split("::")[0]
            self.c.oblig(f"{self.c.cfg}:{name}:block-size", callterm(strip_cast(a[1]), "ConnectionOptions::block_size_with_encryption"), where(ctx, line), f"reads blocks of {show(a[1])[:100]}, not of the negotiated size")
            if len(a) > 2:
                self.c.oblig(f"{self.c.cfg}:{name}:window-size", is_field(a[2], "window_size"), where(ctx, line), f"keeps up to {show(a[2])[:100]} blocks, not the negotiated window")

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line): pass


def R05(c):
    c.rule = ("A bundled block reader makes a block that was not sent before only when it is known that no unacknowledged block is kept (single reader) or fewer than max_blocks_to_read are "
              "(count of kept blocks, or block_read - block_read_confirmed); the limit it is built with is the negotiated window size, its block size the negotiated one.")
    readers(c, R05Rule, [("new", 3, "blocks read for the first time")])
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        n = 0
        for f in direct_callers(p, named(*NEW)):
            r = NewReader(c)
            c.run(p, f, [r], opaque=leaves(p), max_steps=80000)
            n += r.n
        c.floor(f"{cfg}:readers", n, 2, "block readers made for a session")


class R06Rule(Reader):
    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == "Seek::seek":
            x = views[1]
            if x.op == "agg" and x.a[1] == "Start":
                st.ts["pos"] = x.a[2][0]
            elif x.op == "agg" and x.a[1] == "Current":
                st.ts["asked"] = res
            else:
                st.ts["pos"] = None
        elif d.name in ("Seek::stream_position",):
            st.ts["asked"] = res
        elif d.tail in ("write_bytes", "copy_from_slice", "clone_from_slice"):
            st.ts["copied"] = slice_of(views[1])
        elif d.name in self.direct:
            st.ts["pos at read"] = st.ts.get("pos")
            st.ts["into"] = slice_of(args[1])
            st.ts["pos"] = None

    def on_fact(self, eng, st, t, v):
        a = st.ts.get("asked")
        if a is not None and t.op == "bin" and t.a[0] == "Eq" and v is True:
            for x, y in (t.a[1:], t.a[:0:-1]):
                if x.op == "fld" and x.a[1] == "Ok.0" and x.a[0] is a and is_field(y, "last_offset"):
                    st.ts["pos"] = y
        if a is not None and t.op == "discr" and t.a[0] is a and v == "Err":
            st.ts["pos"] = "unknown"

    def out(self, eng, t):
        """t is (part of) the buffer next() was given"""
        return any(has(x, lambda y: y.op == "param" and y.a[1] == "buffer" or y.op == "param" and y.a[0] == 1) for x in flat(eng, t))

    def block(self, eng, st, ctx, b, fresh):
        k = "new" if fresh else "again"
        blk, idx, size = [field(self.p, b, x) for x in ("block", "index", "size")]
        ok = callterm(blk, "BlockMapper::block") and self.same(eng, callargs(blk)[1], idx)
        self.c.oblig(self.key(f"{k}:number"), ok, ctx.fn.path, f"gives block {show(idx)[:100]} the number {show(blk)[:120]}", self.facts(st))
        s = strip_cast(size)
        if self.count(s):
            into = st.ts.get("into")
            ok = into is not None and self.out(eng, into) or self.held(eng, st, s)
        else:
            ok = s.op == "pure" and s.a[0].split("::")[-1] == "len" and st.ts.get("copied") is not None and slice_of(s.a[1]) is st.ts["copied"]
        self.c.oblig(self.key(f"{k}:size"), ok, ctx.fn.path, f"gives size {show(size)[:120]}, which is not the length of the data put into the buffer", self.facts(st))
        if fresh:
            l, n = linear(idx)
            x = one(l)
            ok = n == 1 and x is not None and (is_field(x, "block_read") or is_field(x, "current_block"))
            self.c.oblig(self.key("new:index"), ok, ctx.fn.path, f"a new block gets index {show(idx)[:100]}, not the one after the last block read", self.facts(st))
            self.c.oblig(self.key("new:recorded"), st.ts.get("read") is not None and self.same(eng, st.ts["read"], idx), ctx.fn.path, "a new block is given out without recording it as read", self.facts(st))
        if "last_offset" in self.fields:
            self.n["offset"] += 1
            pos = st.ts.get("pos at read")
            if fresh:
                ok = pos == "unknown" or isinstance(pos, T) and is_field(pos, "last_offset")
            else:
                ok = isinstance(pos, T) and pos.op == "bin" and pos.a[0] == "Mul" and any(is_field(y, "block_size") and self.before(eng, x, idx) for x, y in (pos.a[1:], pos.a[:0:-1]))
            self.c.oblig(self.key(f"{k}:offset"), ok, ctx.fn.path, f"reads block {show(idx)[:80]} at {show(pos)[:80] if isinstance(pos, T) else pos}", self.facts(st))

    def held(self, eng, st, s):
        """The data read was kept, cut to its length, and copied"""
        c = st.ts.get("copied")
        return c is not None and any(x.op in ("mut", "ret") and x.a[0].split("::")[-1] in ("truncate", "index", "get") for x in sub_expand(eng, c))

    def same(self, eng, x, y):
        x, y = strip_cast(x), strip_cast(y)
        return x is y or linear(x) == linear(y)

    def before(self, eng, x, idx):
        a = alts(eng, idx)
        l, k = linear(x)
        return any(linear(y) == (l, k + 1) for y in a) and all(linear(y) in ((l, k + 1), ({}, 1)) for y in a)

    def record(self, eng, st, ctx, f, v):
        if f == "block_read":
            st.ts["read"] = v
        elif f == "last_offset":
            l, k = linear(v)
            ok = k == 0 and len(l) == 2 and any(self.count(x) for x in l) and any(is_field(x, "last_offset") for x in l) and all(n == 1 for n in l.values())
            self.c.oblig(self.key("advance"), ok, ctx.fn.path, f"continues reading at {show(v)[:120]}, not behind the bytes read")

    @property
    def fields(self):
        name = self.fn.path.split(" as ")[0].split("<")[1]
        a = [x for k, x in self.p.adts.items() if k.split("<")[0] == name]
        return {f for x in a for f in adt_fields(x)}


def adt_fields(a):
    return [f for v in (a.get("variants") or []) for f in v.get("f") or []]


def R06(c):
    c.rule = ("Every Block a bundled reader makes carries number = BlockMapper::block(index) and the length of the data it put into the buffer; a new block's index is the last one + 1 and is "
              "recorded; the seeking reader reads a repeated block i at offset (i-1)*block_size and a new one at the recorded offset, which grows by the bytes read.")
    readers(c, R06Rule, [("new", 3, "blocks read for the first time"), ("again", 4, "blocks given again")])


# ---------------------------------------------------------------------------------------------------------------- R07, R08
INDEX = "BlockMapper::index"
TAKES = ("take", "replace", "swap")


def held_readers(p, method):
    """The bundled readers' own implementations (not those handing over to another reader)"""
    r = []
    for f in methods_of(p, "BlockReader", method):
        if "PoolReader" in f.path or any(o["path"].endswith("BlockReader::" + method) for _, o, _ in calls_in(f)):
            continue
        r.append(f)
    return r


class Held(engine.Rule):
    """Common to release and is_finished: what filters over the kept blocks let through."""

    def __init__(self, c, p, fn):
        self.c, self.p, self.fn = c, p, fn
        self.n = {}
        self.judged = {}

    def key(self, k):
        return f"{self.c.cfg}:{self.fn.path.split(' as ')[0].split('<')[1].split('::')[-1]}:{k}"

    def facts(self, st):
        return [f"{show(t)[:140]} = {x}" for t, x in list(st.facts.items())[-8:]]

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_return(self, eng, st, ctx, v):
        if hasattr(ctx, "oargs") and getattr(ctx, "d", None) is not None:
            for s in (ctx.site_, ctx.d.tail):
                self.judged[s] = self.judged.get(s, True) and all(self.closure(eng, st, x, ctx.d.tail) for x in alts(eng, v))

    def closure(self, eng, st, v, by): return False

    def on_branch(self, eng, st, ctx, bb, t, v):
        # which way the reader's own decisions went
        if ctx.fn is self.fn and isinstance(v, bool):
            st.ts[f"at{bb}"] = v

    def site(self, t):
        return t.a[1] if t.op == "ret" else None

    def under(self, eng, st, t, v):
        """The path's facts with t being v; None where that cannot be"""
        s = st.copy()
        if not eng.assume(s, t, v):
            return None
        return s


class R07Rule(Held):
    """Release: which blocks are forgotten when a number is acknowledged"""

    def start(self, eng, st, ctx):
        self.idx = None

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == INDEX:
            self.count("index")
            v = eng.view(st, args[1])
            self.c.oblig(self.key("number"), v.op == "param" and v.a[0] == 2, where(ctx, line), f"looks up block {show(v)[:100]}, not the acknowledged one")
        if d.tail in TAKES and args:
            x = args[0]
            if x.op == "ref" and x.a[1] and isinstance(x.a[1][-1], str):
                self.forget(eng, st, ctx, x.a[0], x.a[1], None)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and base[0] in ("M", "P"):
            self.forget(eng, st, ctx, base, path, v)

    def is_index(self, t):
        return callterm(strip_cast(t), INDEX)

    def elem(self, t):
        """The index of a kept block: ...index.Some.0"""
        t = strip_cast(unref(t))
        return t.op == "fld" and t.a[1] == "Some.0" and is_field(t.a[0], "index")

    def closure(self, eng, st, v, by):
        if v is FALSE:
            return True
        s = st if v is TRUE else self.under(eng, st, v, True)
        if s is None:
            return True
        for a, b, k in upper_bounds(s):
            if len(a) == 1 and len(b) == 1 and k <= 0 and self.elem(one(a)) and self.is_index(unref(one(b))):
                return True
        # a block that holds nothing
        return any(t.op == "discr" and is_field(t.a[0], "index") and x == "None" for t, x in s.facts.items())

    def forget(self, eng, st, ctx, base, path, v):
        f = path[-1].split(".")[-1]
        if not ctx.fn.path.startswith(self.fn.path) and f not in ("last_block_size", "index", "block_read_confirmed"):
            return
        if f == "last_block_size" and (v is None or not (v.op == "agg" and v.a[1] == "Some")):
            self.count("release")
            ok = any(a and b and k <= 0 and len(a) == 1 and len(b) == 1 and is_field(one(a), "block_read") and self.is_index(one(b)) for a, b, k in upper_bounds(st)) and \
                any(a and b and k <= 0 and len(a) == 1 and len(b) == 1 and is_field(one(b), "block_read") and self.is_index(one(a)) for a, b, k in upper_bounds(st))
            self.c.oblig(self.key("release"), ok, ctx.fn.path, "releases the kept block although the acknowledged number was not found to be its own", self.facts(st))
        elif f == "index" and (v is None or not (v.op == "agg" and v.a[1] == "Some")):
            self.count("release")
            b = base[1] if isinstance(base[1], T) else None
            ok = False
            if b is not None:
                ok = has(b, lambda y: callterm(y, "Iterator::filter", "Iterator::take_while") and self.judged.get(self.site(y)) is True)
                for x, y, k in upper_bounds(st):
                    if len(x) == 1 and len(y) == 1 and k <= 0 and self.elem(one(x)) and self.is_index(one(y)) and has(one(x), lambda z: z is b):
                        ok = True
            self.c.oblig(self.key("release"), ok, ctx.fn.path, "releases a kept block whose index was not found to be at most the acknowledged one", self.facts(st))
        elif f == "block_read_confirmed":
            self.count("release")
            for x in alts(eng, v):
                old = lambda y: is_field(y, "block_read_confirmed")
                up = self.bounded(st, x, lambda y: self.is_index(y) or old(y))
                kept = self.bounded(st, x, lambda y: is_field(y, "block_read") or old(y))
                fwd = self.forward(st, x)
                self.c.oblig(self.key("release:acknowledged"), up, ctx.fn.path, f"releases up to {show(x)[:100]}, which was not found to be at most the acknowledged index", self.facts(st))
                self.c.oblig(self.key("release:read"), kept, ctx.fn.path, f"releases up to {show(x)[:100]}, which was not found to be read already", self.facts(st))
                self.c.oblig(self.key("release:forward"), fwd, ctx.fn.path, f"releases up to {show(x)[:100]}, which could be less than what was released already", self.facts(st))

    @staticmethod
    def pick(x):
        return x.a[0].split("::")[-1] if x.op == "pure" and len(x.a) == 3 and x.a[0].split("::")[-1] in ("min", "max") else ""

    def bounded(self, st, x, good):
        """x is at most something good"""
        x = strip_cast(unref(x))
        if good(x):
            return True
        k = self.pick(x)
        if k:
            return (any if k == "min" else all)(self.bounded(st, y, good) for y in x.a[1:])
        return any(k <= 0 and len(a) == 1 and len(b) == 1 and strip_cast(one(a)) is x and good(strip_cast(unref(one(b)))) for a, b, k in upper_bounds(st))

    def forward(self, st, x):
        """x is at least the mark; block_read always is (it only grows, and the mark never passes it)"""
        x = strip_cast(unref(x))
        if is_field(x, "block_read_confirmed") or is_field(x, "block_read"):
            return True
        k = self.pick(x)
        if k and not self.ahead(st, x):
            return (any if k == "max" else all)(self.forward(st, y) for y in x.a[1:])
        return self.ahead(st, x)

    def ahead(self, st, x):
        return any(k <= 0 and len(a) == 1 and len(b) == 1 and is_field(strip_cast(one(a)), "block_read_confirmed") and strip_cast(one(b)) is x for a, b, k in upper_bounds(st))


def R07(c):
    c.rule = ("In every bundled reader's free_block, a kept block is forgotten only where the path (or the filter that selected it) shows its index to be at most (single reader: equal to) "
              "BlockMapper::index of the acknowledged number; the seeking reader's mark only moves forward, to at most that index and at most the last block read.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        n = {}
        for f in held_readers(p, "free_block"):
            r = R07Rule(c, p, f)
            c.run(p, f, [r], opaque=lambda d, fn: d.name == INDEX)
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
            c.floor(r.key("releases"), r.n.get("release", 0), 1, "places where the reader releases blocks")
        c.floor(f"{cfg}:readers", n.get("index", 0), 3 if cfg != "stackenc" else 2, "readers looking up the acknowledged number")


# ---------------------------------------------------------------------------------------------------------------- R08
class R08Rule(Held):
    """What is known where is_finished answers yes"""

    def closure(self, eng, st, v, by):
        """Lets every block through that holds something: false only for those with no index"""
        if by == "all":
            return v is FALSE or self.is_none(self.under(eng, st, v, True) if v is not TRUE else st)
        return v is TRUE or self.is_none(self.under(eng, st, v, False) if v is not FALSE else st)

    def is_none(self, s):
        return s is None or any(t.op == "discr" and is_field(t.a[0], "index") and x == "None" for t, x in s.facts.items())

    def on_root_return(self, eng, st, ctx, v):
        for x in alts(eng, v):
            if x is FALSE:
                self.count("no")
                continue
            s = st if x is TRUE else self.under(eng, st, x, True)
            if s is None:
                continue
            self.count("yes")
            end = any(is_field(t, "finished") and y is True or t.op == "discr" and is_field(t.a[0], "finished_block_size") and y == "Some" for t, y in s.facts.items())
            self.c.oblig(self.key("end"), end, ctx.fn.path, "is finished although the end of the data was not found", self.facts(s))
            self.c.oblig(self.key("released"), self.empty(s), ctx.fn.path, "is finished although a block could be unacknowledged", self.facts(s))

    def empty(self, s):
        for t, y in s.facts.items():
            if t.op == "discr" and is_field(t.a[0], "last_block_size") and y == "None":
                return True
            n = t.a[0].split("::")[-1] if t.op in ("pure", "ret") else ""
            if n in ("any", "all") and has(t, lambda z: is_field(z, "blocks")) and y is (n == "all"):
                return self.judged.get(n) is True
        for a, b, k in upper_bounds(s):
            # count <= 0
            if len(a) == 1 and not b and k <= 0 and callterm(one(a), "Iterator::count") and has(one(a), lambda y: is_field(y, "blocks")):
                fs = [y for y in sub(one(a)) if callterm(y, "Iterator::filter")]
                return bool(fs) and all(self.judged.get(self.site(y)) is True for y in fs)
            # block_read <= block_read_confirmed
            if len(a) == 1 and len(b) == 1 and k <= 0 and is_field(one(a), "block_read") and is_field(one(b), "block_read_confirmed"):
                return True
        return False


def sub(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            todo += list(x.a)
    return seen


def R08(c):
    c.rule = ("Every yes a bundled reader's is_finished gives is on a path that knows both that the end of the data was found (finished, finished_block_size) and that no block is kept: last_block_size is "
              "None, the count of the blocks with an index is 0, block_read = block_read_confirmed.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        m = 0
        for f in held_readers(p, "is_finished"):
            r = R08Rule(c, p, f)
            c.run(p, f, [r])
            c.floor(r.key("yes"), r.n.get("yes", 0), 1, "yes answers of is_finished")
            c.floor(r.key("no"), r.n.get("no", 0), 1, "no answers of is_finished")
            m += 1
        c.floor(f"{cfg}:readers", m, 2, "block readers")


# ------------------------------------------------------------------ repeating what stays unacknowledged
class Retry:
    """Whether the time to repeat has come: elapsed() of the last sending, compared with the retry time."""
    TIMED = ("mul_f32", "mul", "saturating_mul", "mul_f64", "checked_mul")

    def retry_limit(self, t):
        t = unref(strip_cast(t))
        if is_field(t, "retry_packet_after_timeout"):
            return True
        if t.op not in ("pure", "ret"):
            return False
        a, f = callargs(t), t.a[0].split("::")[-1]
        if f in self.TIMED and len(a) == 2:
            return self.retry_limit(a[0]) and has(a[1], lambda x: is_field(x, "retry_packet_multiplier"))
        return t.a[0].startswith("RateControl::") and any(self.retry_limit(x) for x in a)

    def compared(self, t):
        """(elapsed, whether t being true means that the time has come) or None"""
        if t.op == "bin" and t.a[0] in ("Lt", "Le"):
            for e, lim, due in ((t.a[2], t.a[1], True), (t.a[1], t.a[2], False)):
                if callterm(e, "Instant::elapsed") and self.retry_limit(lim):
                    return e, due
        return None

    def due(self, st, t):
        """the elapsed() that decides t, if t says that the time has come"""
        pol = True
        while t.op == "not":
            t, pol = t.a[0], not pol
        if t.op == "const":
            for f, v in st.facts.items():
                x = self.compared(f) if isinstance(v, bool) else None
                if x and (v is x[1]) == ((t is TRUE) is pol):
                    return x[0]
            return None
        x = self.compared(t)
        return x[0] if x and x[1] is pol else None


class R09Rule(Retry, Down):
    def __init__(self, c, prog):
        super().__init__(c, prog)
        self.fields, self.set = set(), []

    def next(self, eng, st, ctx, line, views):
        e = self.due(st, views[2])
        self.c.oblig(self.key("due"), e is not None, where(ctx, line), f"whether a block is repeated is not decided by the time since the last sending and the retry time: {show(views[2])[:160]}", self.facts(st))
        st.ts.pop("dsent", None)
        if e is not None:
            x = unref(callargs(e)[0])
            if x.op == "fld":
                self.fields.add(str(x.a[1]).split(".")[-1])

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "discr" and callterm(t.a[0], *SEND) or callterm(t, *SEND):
            st.ts["dsent"] = v in ("Ok", True)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        super().on_assign(eng, st, ctx, bb, base, path, v, rv)
        if path and isinstance(path[-1], str) and base[0] == "M" and v.op == "ret":
            self.set.append((path[-1].split(".")[-1], st.ts.get("dsent") is True and st.ts.get("blk") == "Some", where(ctx, 0)))

    def on_end(self, eng):
        for f, ok, at in self.set:
            if f in self.fields:
                self.n["renew"] = self.n.get("renew", 0) + 1
                self.c.oblig(self.key("renewed"), ok, at, f"{f}, from which the retry time counts, is renewed though no block was sent", [])


class R09Other(engine.Rule):
    """Nothing else renews the instant"""
    def __init__(self, c, fields):
        self.c, self.fields = c, fields

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and path[-1].split(".")[-1] in self.fields and base[0] == "M":
            self.c.oblig(f"{self.c.cfg}:other:{path[-1]}", False, ctx.fn.path, f"{path[-1]}, from which the retry time counts, is renewed elsewhere than after sending a block")


class R09Next(R08Rule):
    """A reader asked to repeat answers with nothing only when it keeps nothing"""
    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        retry = mk("param", 3, self.fn.names.get("3", "arg3"))
        for x in alts(eng, v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")):
            if x.op == "agg" and x.a[1] == "Some":
                self.count("some")
                continue
            self.count("none")
            ok = st.facts.get(retry) is False or self.empty(st)
            self.c.oblig(self.key("nothing"), ok, ctx.fn.path, "asked to repeat, answers with nothing although a block could be unacknowledged", self.facts(st))

    def empty(self, s):
        if super().empty(s):
            return True
        for t, y in s.facts.items():
            # the first of the kept blocks does not exist
            if t.op == "discr" and y == "None" and t.a[0].op in ("pure", "ret"):
                x, ok = unref(t.a[0]), False
                while x.op in ("pure", "ret") and callargs(x):
                    n = x.a[0].split("::")[-1]
                    if n in ("filter", "find", "filter_map", "find_map"):
                        ok = self.judged.get(self.site(x), self.judged.get(n)) is True
                        if not ok:
                            break
                    elif n not in ("min_by", "min_by_key", "min", "next", "last", "max_by", "max_by_key", "iter", "iter_mut", "into_iter", "map", "as_slice", "deref", "as_ref", "by_ref"):
                        ok = False
                        break
                    x = unref(callargs(x)[0])
                if ok and has(x, lambda z: is_field(z, "blocks")):
                    return True
        return False


def R09(c):
    c.rule = ("Server: the retry argument of every BlockReader::next is elapsed(last sending) > retry_packet_after_timeout (times retry_packet_multiplier), and that instant is assigned only after a successful send of a block. "
              "Readers: next answers Ok(None) only where retry is known to be false or the reader keeps no block.")
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = send_roots(c, p)
        c.floor(f"{cfg}:send", len(roots), 1, "functions that send a block")
        fields, tot = set(), {}
        op = leaves(p)

        def go(sub, root):
            r = R09Rule(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.name == "Instant::elapsed" or op(d, fn), max_steps=80000)
            fields.update(r.fields)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, roots, go)
        c.floor(f"{cfg}:next", tot.get("next", 0), 1, "requests for a block")
        c.floor(f"{cfg}:renew", tot.get("renew", 0), 1, "renewals of the instant of the last sending")
        inside = {p.fns[i].path for f in roots for i in below(p, f)}
        for f in p.roots:
            if f.path in inside or "client" in f.path:
                continue
            if any(b and s[0] == "=" and len(s[1]) > 1 and isinstance(s[1][-1], list) and s[1][-1][0] == "f" and s[1][-1][1] in fields for b in f.blocks for s in (b["s"] if b else ())):
                c.run(p, f, [R09Other(c, fields)], opaque=lambda d, fn: True)
        m = 0
        for f in held_readers(p, "next"):
            r = R09Next(c, p, f)
            c.run(p, f, [r])
            c.floor(r.key("none"), r.n.get("none", 0), 1, "answers with nothing")
            m += 1
        c.floor(f"{cfg}:readers", m, 2, "block readers")


def below(p, f):
    cg, seen, todo = p.callgraph(), {f.id}, [f.id]
    while todo:
        for i in cg.get(todo.pop(), ((), ()))[1]:
            if i in p.fns and i not in seen:
                seen.add(i)
                todo.append(i)
    return seen


# ---------------------------------------------------------------------------------------------------------------- R10
PUTS = ("insert", "insert_full", "try_insert")


def cell(t):
    """The pool behind a borrow of it"""
    t = unref(t)
    while True:
        u = t
        if t.op in ("deref", "&"):
            t = t.a[0]
        elif t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("borrow", "borrow_mut", "deref", "deref_mut", "as_ref", "as_mut", "by_ref") and callargs(t):
            t = callargs(t)[0]
        t = unref(t)
        if t is u:
            return t


def last(t):
    return t.a[0].split("::")[-1] if t.op in ("pure", "ret") else ""


def pooled(p):
    """Types of block readers that clean up when dropped, and whose values are two-part: where and which"""
    return {plain(f) for f in methods_of(p, "BlockReader", "next")} & {plain(f) for f in methods_of(p, "Drop", "drop")}


def plain(f):
    return engine.strip_generics(f.impl_self or "")


class Pool(Held):
    def key(self, k):
        return f"{self.c.cfg}:{self.fn.path.split('::')[-1]}:{k}"


class R10Make(Pool):
    """How an entry of the pool comes to be"""
    def __init__(self, c, p, fn, adts):
        super().__init__(c, p, fn)
        self.adts = adts
        self.free = {}

    def missing(self, st):
        """(pool, key) known not to be in it"""
        for t, v in st.facts.items():
            if last(t) == "contains_key" and v is False:
                yield cell(callargs(t)[0]), unref(callargs(t)[1])
            elif t.op == "discr" and v == "None" and last(t.a[0]) in ("get", "get_mut"):
                yield cell(callargs(t.a[0])[0]), unref(callargs(t.a[0])[1])

    def on_fact(self, eng, st, t, v):
        ms = {t}
        if t.op == "phi":
            ms = set(alts(eng, t))
        if isinstance(v, bool) and ms and all(last(m) == "contains_key" for m in ms):
            # in a search by hand the question is asked again and again: the last answer counts
            st.ts["free"] = frozenset() if v else frozenset((cell(callargs(m)[0]), unref(callargs(m)[1])) for m in ms)

    def on_return(self, eng, st, ctx, v):
        if getattr(ctx, "d", None) is None or not hasattr(ctx, "oargs"):
            return
        for x in alts(eng, v):
            s = self.under(eng, st, x, True)
            if s is not None:
                got = {a for a, k in self.missing(s) if k.op == "ret" and k.a[0].startswith("closure-arg:")}
                old = self.free.get(ctx.site_)
                self.free[ctx.site_] = got if old is None else old & got

    def absent(self, eng, st, pool, k):
        k = strip_cast(unref(k))
        if any(a is pool and strip_cast(x) is k for a, x in self.missing(st)):
            return True
        free = {x for a, x in st.ts.get("free", ()) if a is pool}
        if free and (k in free or set(alts(eng, k)) <= {y for x in free for y in alts(eng, x)}):
            return True
        return k.op == "fld" and k.a[1] == "Some.0" and last(k.a[0]) == "find" and pool in self.free.get(self.site(k.a[0]), ())

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail in PUTS and len(args) == 3 and not d.path.startswith("tftp_dus::readers"):
            pool, k = cell(eng.view(st, args[0])), eng.view(st, args[1])
            self.count("insert")
            self.c.oblig(self.key("absent"), self.absent(eng, st, pool, k), where(ctx, line), f"a reader is stored under {show(k)[:120]}, which another session's reader may have", self.facts(st))
            st.ts["put"] = (pool, strip_cast(unref(k)), None)
            st.ts.pop("free", None)

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail in PUTS and st.ts.get("put") and len(args) == 3:
            st.ts["put"] = st.ts["put"][:2] + (res,)

    def on_root_return(self, eng, st, ctx, v):
        for x in {y for z in alts(eng, v) for y in sub_expand(eng, z) if y.op == "agg" and y.a[0] in self.adts}:
            self.count("made")
            put = st.ts.get("put")
            ok = bool(put) and len(x.a[2]) == 2 and strip_cast(unref(x.a[2][0])) is put[1] and cell(x.a[2][1]) is put[0]
            self.c.oblig(self.key("same"), ok, where(ctx, 0), f"{show(x)[:160]} does not name the entry made for this reader", self.facts(st))
            if ok and put[2] is not None:
                s = self.under(eng, st, mk("discr", put[2], "core::result::Result"), "Err")
                self.c.oblig(self.key("stored"), s is None, where(ctx, 0), "a reader is handed out although the pool may have had no room for it", self.facts(st))


class R10Use(Pool):
    """Which entry of the pool an operation acts on"""
    def __init__(self, c, p, fn, what):
        super().__init__(c, p, fn)
        self.what = what

    def mine(self, pool, k):
        """pool and k are the two parts of one value of self"""
        pool, k = cell(pool), strip_cast(unref(k))
        while k.op in ("deref", "&"):
            k = unref(k.a[0])
        if pool.op != "fld" or k.op != "fld" or pool.a[0] is not k.a[0]:
            return False
        a, b = str(pool.a[1]).rsplit(".", 1), str(k.a[1]).rsplit(".", 1)
        return a[0] == b[0] and (a[-1], b[-1]) == ("1", "0") and self.self(pool.a[0])

    def self(self, t):
        t = unref(t)
        while t.op in ("deref", "&", "M"):
            t = unref(t.a[0])
        return t.op == "param" and t.a[0] == 1

    def on_call(self, eng, st, ctx, bb, d, args, line):
        w = where(ctx, line)
        vs = [eng.view(st, a) for a in args]
        if self.what == "drop":
            if d.tail in ("remove", "swap_remove", "shift_remove", "remove_entry") and len(vs) == 2:
                self.count("use")
                self.c.oblig(self.key("own"), self.mine(*vs), w, f"{show(vs[1])[:80]} is removed from {show(vs[0])[:80]}: not this reader's entry", self.facts(st))
                st.ts["done"] = True
            elif d.tail in ("clear", "retain", "drain", "pop", "truncate"):
                self.c.oblig(self.key("only"), False, w, f"{d.name} removes other readers' entries", self.facts(st))
        elif d.name == f"BlockReader::{self.what}":
            self.count("use")
            r = unref(vs[0])
            while r.op in ("deref", "&"):
                r = unref(r.a[0])
            ok = r.op == "fld" and r.a[1] == "Some.0" and last(r.a[0]) in ("get", "get_mut") and self.mine(*callargs(r.a[0])[:2])
            self.c.oblig(self.key("own"), ok, w, f"{self.what} of {show(vs[0])[:160]}: not this reader's entry of the pool", self.facts(st))
            for i, v in enumerate(vs[1:]):
                v = unref(v)
                while v.op in ("deref", "&"):
                    v = unref(v.a[0])
                self.c.oblig(self.key(f"arg{i}"), v.op == "param" and v.a[0] == i + 2, w, f"{self.what} is passed {show(v)[:120]}, not what the caller gave", self.facts(st))
            st.ts["done"] = True

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == f"BlockReader::{self.what}":
            st.ts["res"] = res

    def on_root_return(self, eng, st, ctx, v):
        self.count("return")
        self.c.oblig(self.key("acts"), bool(st.ts.get("done")), where(ctx, 0), f"{self.what} does not reach this reader's entry of the pool", self.facts(st))
        if self.what != "drop" and st.ts.get("res") is not None:
            self.c.oblig(self.key("result"), self.same(eng, st, v, st.ts["res"]), where(ctx, 0), f"{self.what} answers {show(v)[:120]}, not what the reader answered", self.facts(st))

    def same(self, eng, st, v, res):
        """v is res, possibly taken apart and put together again"""
        if v is res:
            return True
        if v.op == "agg" and len(v.a[2]) == 1 and v.a[1]:
            return v.a[2][0] is mk("fld", res, v.a[1] + ".0") or self.same(eng, st, v.a[2][0], mk("fld", res, v.a[1] + ".0"))
        return v.op == "const" and st.facts.get(res) is v.a[1] or v.op == "agg" and not v.a[2] and st.facts.get(mk("discr", res, v.a[0])) == v.a[1]


def R10(c):
    c.rule = ("Every insert into a pool of readers uses a key known not to be in that pool (contains_key false, or found by a find whose predicate says so), and the reader handed out names that key and pool after the insert "
              "succeeded; next, free_block and is_finished of a pooled reader are those of the reader found under its own key in its own pool, arguments and result unchanged; dropping it removes that entry alone.")
    for cfg in ("stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        adts = pooled(p)
        c.floor(f"{cfg}:pools", len(adts), 1, "pooled block readers")

        def builds(f):
            return any(b and s[0] == "=" and s[2][0] == "agg" and any(str(x) in adts for x in s[2][1:4] if isinstance(x, str)) for b in f.blocks for s in (b["s"] if b else ()))
        n = []

        def go(sub, root):
            r = R10Make(sub, p, root, adts)
            sub.run(p, root, [r])
            n.append(r.n.get("made", 0))
        climb(c, p, [f for f in p.roots if builds(f)], go)
        c.floor(f"{cfg}:made", sum(n), 1, "pooled readers handed out")
        for trait, m in (("BlockReader", "next"), ("BlockReader", "free_block"), ("BlockReader", "is_finished"), ("Drop", "drop")):
            k = 0
            for f in methods_of(p, trait, m):
                if plain(f) in adts:
                    r = R10Use(c, p, f, m)
                    c.run(p, f, [r], opaque=lambda d, fn: d.name.startswith("BlockReader::"))
                    k += r.n.get("use", 0)
            c.floor(f"{cfg}:{m}", k, 1, f"uses of the pool in {m}")
