"""C: the client's transfers."""
import engine
from common import *
from sess import *
from terms import *
from rules.w import Upload, WB, is_field, one, blk_size, site, flat, names_limit
from rules.r import Down, R02Rule, Retry, NEXT, FREE, FIN

FROM = "Socket::recv_from"
TO = "Socket::send_to"
BYTES = ("ByteConverter::from_bytes", "Packet::from_bytes")


def queries(p):
    """The functions that get the server's answer to a request: common to both directions, they send and receive."""
    q = getattr(p, "_queries", None)
    if q is None:
        both = None
        for what in (WB, NEXT):
            fs = {f.path for f in reaches(p, named(FROM), named(TO))} - {f.path for f in reaches(p, named(what))}
            cg = p.callgraph()
            used = set()
            for e in entries(p, what):
                seen, todo = {e.id}, [e.id]
                while todo:
                    f = p.fns[todo.pop()]
                    if f.path in fs and not (" as " in f.path):
                        used.add(f.path)
                        continue
                    for i in cg.get(f.id, ((), ()))[1]:
                        if i in p.fns and i not in seen:
                            seen.add(i)
                            todo.append(i)
            both = used if both is None else both & used
        q = p._queries = both
    return q


def entries(p, what):
    """The client's entry points that (transitively) call what, receive and send."""
    return [f for f in reaches(p, named(what), named(FROM), named(TO)) if f.id not in p.reaching(named("BoundSocket::send")) and not callers(p, f)]


class Client:
    """What every client transfer rule watches: where the packet at hand came from, what it is, whether the time was checked."""
    track = ()      # what else must be told apart

    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {k: 0 for k in ("recv", "ack", "store", "free", "next", "data", "ok", "err", "error", "timer", "check", "finish", "return")}
        self.created = {}
        self.timers = {}
        self.checked = []
        self.qnames = {engine.short_name(x) for x in queries(prog)}

    def peer(self, t):
        return is_field(t, "endpoint") and has(t, lambda x: x.op in ("ret", "pure") and x.a[0] in self.qnames)

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "discr" and callterm(t.a[0], FROM):
            st.ts["rx"] = "foreign" if v == "Ok" else "err"
        elif t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool) and st.ts.get("rx") == "foreign":
            for x, y in (t.a[1:], t.a[:0:-1]):
                if v and self.peer(x) and y.op == "fld" and y.a[1] == "1" and y.a[0].op == "fld" and y.a[0].a[1] == "Ok.0" and callterm(y.a[0].a[0], FROM):
                    st.ts["rx"] = "peer"
        if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool):
            for e, lim, neg in ((t.a[2], t.a[1], False), (t.a[1], t.a[2], True)):
                if callterm(e, "Instant::elapsed") and self.limit(lim):
                    self.n["check"] += 1
                    self.checked.append(site(e))
                    if v is neg:
                        st.ts["checked"] = True
                    st.ts.pop("rx", None)
        self.prune(st)

    def prune(self, st):
        for k in [k for k in st.ts if k not in self.track and k not in ("rx", "checked", "in")]:
            del st.ts[k]

    def limit(self, t):
        return is_field(t, "request_timeout") or t.op == "param" and t.a[1] == "request_timeout"

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)
        if d.tail == "to_bytes":
            st.ts["pkt"] = unref(views[0])
            st.ts["made:" + str(kind(st.ts["pkt"]))] = True
        elif d.name == "Instant::elapsed":
            self.timers.setdefault(site(res), set()).add(unref(views[0]))
        elif d.tail == "prepend_data_header" or d.name == NEXT:
            st.ts.pop("pkt", None)
        elif d.path == "indirect" or d.name == "indirect":
            self.clock(eng, st, ctx, res, line)
        self.prune(st)

    def clock(self, eng, st, ctx, res, line):
        self.created.setdefault(site(res), []).append((dict(st.ts), where(ctx, line)))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM:
            self.n["recv"] += 1
            self.recv(eng, st, ctx, line)
            for k in ("checked", "wr", "pk", "late", "freed", "fin?", "fin_t", "short", "w>1", "mid", "full", "sent", "limit", "early"):
                st.ts.pop(k, None)
            st.ts["rx"] = "?"
            st.ts["in"] = True
        super().on_call(eng, st, ctx, bb, d, args, line)
        self.prune(st)

    def on_branch(self, eng, st, ctx, bb, t, v):
        super().on_branch(eng, st, ctx, bb, t, v)
        self.prune(st)

    def recv(self, eng, st, ctx, line): pass


class ClientUp(Client, Upload):
    """Receiving a file"""

    def total(self, eng, t, seen=None):
        """t is a sum of what write_block accepted"""
        seen = set() if seen is None else seen
        t = strip_cast(t)
        if t in seen:
            return True
        seen.add(t)
        if t.op == "phi":
            ms = eng.phimem.get(t, ())
            return bool(ms) and all(self.total(eng, m, seen) for m in ms)
        l, k = linear(t)
        return k == 0 and all(n >= 1 and (self.written(x) or x.op == "phi" and self.total(eng, x, seen)) for x, n in l.items())

    def block(self, eng, t):
        """t is the size of a whole block"""
        ms = flat(eng, strip_cast(t))
        return bool(ms) and all(blk_size(x) for x in ms)

    def accepted(self, eng, t):
        """t is what write_block accepted"""
        ms = flat(eng, strip_cast(t))
        return bool(ms) and all(self.written(x) for x in ms)

    def now(self, st, t):
        """t is what write_block accepted of the packet at hand"""
        w = st.ts.get("wres")
        return self.written(t) and w is not None and has(t, lambda x: x is w)

    def ours(self, t):
        """t is field of a received data packet"""
        return t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[1] == "Data.0" and has(t, lambda y: callterm(y, *BYTES))


class ClientDown(Client, Down):
    """Sending a file"""


def opaque(p):
    qs = queries(p)
    lv = leaves(p, extra=("to_bytes", "recv_from", "send_to", "local_addr", "print_options", "create_max_buffer", "resize_buffer"))
    keep = {"BlockWriter::write_block", NEXT, FREE, FIN, "Instant::elapsed"}

    def op(d, fn):
        return fn.path in qs or d.name in keep or "RateControl" in fn.path or fn.path.endswith("_socket") or lv(d, fn)
    return op


def transfers(c, up, down, floors, cfgs=("full", "stackenc", "stack")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        op = opaque(p)
        for what, cls, name in ((WB, up, "receive"), (NEXT, down, "send")):
            if cls is None:
                continue
            roots = entries(p, what)
            c.floor(f"{cfg}:{name}", len(roots), 1, "client transfers")
            tot = {}
            for f in roots:
                r = cls(c, p)
                r.dir = name
                c.run(p, f, [r], opaque=op, max_steps=80000)
                for k, v in r.n.items():
                    tot[k] = tot.get(k, 0) + v
            for k, least, msg in floors.get(name, ()):
                c.floor(f"{cfg}:{name}:{k}", tot.get(k, 0), least, msg)


# ------------------------------------------------------------------ C01
class Source:
    def key(self, k, ctx=None):
        return f"{self.c.cfg}:{self.dir}:{k}"

    def effect(self, st, what, at):
        self.c.oblig(self.key(f"source:{what}"), st.ts.get("rx") == "peer", at, f"{what} because of a packet whose source was not found to be the server's endpoint", self.facts(st))

    def store(self, eng, st, ctx, line, views):
        if st.ts.get("rx"):
            self.effect(st, "stores a block", where(ctx, line))

    def free(self, eng, st, ctx, line, views):
        self.effect(st, "releases a block", where(ctx, line))

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)
        if d.name in BYTES and st.ts.get("rx"):
            self.effect(st, "reads a packet", where(ctx, line))

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        if st.ts.get("rx") and not (st.ts["rx"] == "err" and v.op == "agg" and v.a[1] == "Err"):
            self.effect(st, "ends the transfer", ctx.fn.path)

    def on_end(self, eng):
        ts = timer_sites(self, eng)
        for s, l in self.created.items():
            if s in ts:
                for tsv, at in l:
                    if tsv.get("rx"):
                        self.n["timer"] += 1
                        self.c.oblig(self.key("source:prolongs"), tsv["rx"] == "peer", at, "prolongs the transfer because of a packet whose source was not found to be the server's endpoint")


def timer_sites(r, eng):
    """Where the instants are created whose age is compared with request_timeout"""
    out = set()
    for e in r.checked:
        for t in r.timers.get(e, ()):
            for x in flat(eng, t):
                out.add(site(x))
    return out


class C01Up(Source, ClientUp):
    pass


class C01Down(Source, ClientDown):
    pass


class C01Query(engine.Rule):
    def __init__(self, c, p):
        self.c = c
        self.p = p
        self.n = 0

    def src(self, t):
        return t.op == "fld" and t.a[1] == "1" and t.a[0].op == "fld" and t.a[0].a[1] == "Ok.0" and callterm(t.a[0].a[0], FROM)

    def mine(self, t):
        return is_field(t, "endpoint") and not has(t, lambda x: callterm(x, FROM))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM:
            for k in ("ip", "ep"):
                st.ts.pop(k, None)

    def on_fact(self, eng, st, t, v):
        if t.op == "bin" and t.a[0] == "Eq" and v is True:
            for x, y in (t.a[1:], t.a[:0:-1]):
                if self.mine(unref(x)) and self.src(unref(y)):
                    st.ts["ep"] = True
                if callterm(x, "SocketAddr::ip") and callterm(y, "SocketAddr::ip") and self.mine(unref(callargs(x)[0])) and self.src(unref(callargs(y)[0])):
                    st.ts["ip"] = True
        elif is_field(t, "allow_server_port_change") and v is True:
            st.ts["port"] = True

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n += 1
        q = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        e = field(self.p, q, "endpoint")
        self.c.oblig(f"{self.c.cfg}:query:endpoint", all(self.src(x) or st.ts.get("ep") and self.mine(x) for x in alts(eng, e)), ctx.fn.path, f"goes on with {show(e)[:120]}, not with the source of the answer")
        self.c.oblig(f"{self.c.cfg}:query:source", bool(st.ts.get("ep") or st.ts.get("ip") and st.ts.get("port")), ctx.fn.path,
                     "an answer is accepted though it is not known to come from the configured server (address, and port unless it may change)")


class Through(engine.Rule):
    """A socket wrapper hands on the source of the packet it received"""
    def __init__(self, c):
        self.c = c
        self.n = 0

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n += 1
        r = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        s = r.a[2][1] if r.op == "agg" and len(r.a[2]) == 2 else mk("fld", r, "1")
        ok = all(x.op == "fld" and x.a[1] == "1" and x.a[0].op == "fld" and x.a[0].a[1] == "Ok.0" and callterm(x.a[0].a[0], FROM) for x in alts(eng, s))
        self.c.oblig(f"{self.c.cfg}:through", ok, ctx.fn.path, f"gives {show(s)[:120]} as the source of the packet")


def query_run(c, cls, cfgs=("full", "stackenc", "stack"), fl=2):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        qs = queries(p)
        roots = [f for f in p.roots if f.path in qs]
        c.floor(f"{cfg}:query", len(roots), 1, "functions that query the server")
        inside = p.reaching(named(FROM, TO))
        n = [0]

        def go(sub, root):
            r = cls(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in ("from_bytes", "to_bytes", "to_buffer", "recv_from", "send_to") or fn.id not in inside and p.weight(fn.id) > 150, max_steps=80000)
            n[0] += r.n
        climb(c, p, roots, go)
        c.floor(f"{cfg}:query:n", n[0], fl, "answers accepted")


def C01(c):
    c.rule = ("In the client's transfers: parsing, storing, releasing, returning (other than for a failed receive or the timeout) and renewing the timer after a receive need recv_from's source == the endpoint of the "
              "server's answer; an answer to the request is accepted only with its source's address equal to the configured one and the port equal or allow_server_port_change set.")
    transfers(c, C01Up, C01Down, {"receive": [("recv", 1, "receives"), ("store", 1, "stores"), ("return", 2, "returns"), ("timer", 1, "renewals of the timer")],
                                  "send": [("recv", 1, "receives"), ("free", 1, "releases"), ("return", 2, "returns"), ("timer", 1, "renewals of the timer")]})
    query_run(c, C01Query)
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        n = 0
        fs = [f for f in p.roots if f.path.endswith("::recv_from") and " as " in f.path and "Socket" in f.path.split(" as ")[1]]
        for f in fs:
            r = Through(c)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail == "from_bytes" or p.weight(fn.id) > 60)
            n += r.n
        c.floor(f"{cfg}:through", n, 1, "socket wrappers that receive")


# ------------------------------------------------------------------ C02
class C02Rule(ClientUp):
    track = ("wr", "short", "owed", "sums")
    dir = "receive"

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "discr" and callterm(t.a[0], WB) and v == "Err":
            st.ts.pop("owed", None)
            st.ts.pop("sums", None)
        if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool) and st.ts.get("wr") == "Ok":
            if self.accepted(eng, t.a[1]) and self.block(eng, t.a[2]):
                st.ts["short"] = v
            elif self.accepted(eng, t.a[2]) and self.block(eng, t.a[1]) and v:
                st.ts["short"] = False

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == WB:
            st.ts.pop("short", None)
            self.counted(st, where(ctx, line))
            st.ts["owed"] = "?",
            st.ts.pop("sums", None)
        elif d.tail in ("saturating_add", "checked_add", "wrapping_add", "add_assign", "add") and len(views) == 2 and any(self.written(unref(x)) for x in views):
            st.ts["owed"] = "added", None
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        super().on_assign(eng, st, ctx, bb, base, path, v, rv)
        if "owed" not in st.ts:
            return
        at = (base, tuple(map(str, path)))
        sums = st.ts.get("sums", frozenset())
        if rv[0] == "bin" and rv[1].startswith("Add") and any(self.written(eng.operand(st, ctx, o)) for o in rv[2:4]):
            st.ts["sums"] = sums | {at}
        elif rv[0] == "use" and isinstance(rv[1], list) and len(rv[1]) > 1 and isinstance(rv[1][1], list):
            b, p = eng.resolve(st, ctx, rv[1][1])
            if any(b == k[0] for k in sums) and any(self.written(x) for x in linear(v)[0]):
                st.ts["sums"] = sums | {at}
                if base[0] != "L" or ctx.fn.names.get(str(base[2])):
                    st.ts["owed"] = "added", base
        if v.op == "const" and st.ts["owed"] == ("added", base):
            st.ts["owed"] = "lost",

    def counted(self, st, at, end=False):
        o = st.ts.get("owed")
        ok = o is None or o[0] == "added" and (end or o[1] is None or o[1][0] != "L" or o[1] in st.mem)
        self.c.oblig(self.key("counted"), ok, at, "what was stored for one block is not added to the bytes received", sorted(map(str, st.ts.items()))[:6])

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            self.n["err"] += 1
            return
        self.n["ok"] += 1
        self.counted(st, ctx.fn.path, True)
        self.c.oblig(self.key("short"), st.ts.get("wr") == "Ok" and st.ts.get("short") is True, ctx.fn.path,
                     "reports the file as received although the last block handled is not known to have been stored and shorter than a block", self.facts(st))
        r = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        tot = r.a[2][0] if r.op == "agg" and r.a[2] else mk("fld", r, "0")
        self.c.oblig(self.key("total"), self.total(eng, tot), ctx.fn.path, f"reports {show(tot)[:120]} as the number of bytes received, which is not the sum of what was stored")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM:
            self.c.oblig(self.key("goes-on"), not (st.ts.get("wr") == "Ok" and st.ts.get("short") is True), where(ctx, line), "waits for more packets after the last (short) block was stored", self.facts(st))
        super().on_call(eng, st, ctx, bb, d, args, line)


def C02(c):
    c.rule = ("The client's receive returns Ok only with write_block == Ok(w), w < block_size_with_encryption() for the packet at hand and the sum of the accepted counts; after such a block it "
              "waits for no further packet.")
    transfers(c, C02Rule, None, {"receive": [("ok", 2, "successful ends"), ("recv", 1, "receives")]})


# ------------------------------------------------------------------ C03
class C03Rule(ClientDown):
    track = ("freed", "fin?", "fin_t")

    def free(self, eng, st, ctx, line, views):
        b = strip_cast(views[1])
        x = b.a[0] if is_field(b, "block") and b.op == "fld" else None
        ok = x is not None and x.op == "fld" and x.a[1] == "Ack.0" and has(x, lambda y: callterm(y, *BYTES))
        self.c.oblig(self.key("free"), ok, where(ctx, line), f"releases block {show(b)[:120]}, which is not the number of a received acknowledgement")

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["ok"] += 1
        self.c.oblig(self.key("finish"), bool(st.ts.get("freed")) and st.ts.get("fin?") is True, ctx.fn.path,
                     "reports the file as sent although the block reader did not report that every block was acknowledged", self.facts(st))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM and st.ts.get("freed"):
            self.n["finish"] += 1
            self.c.oblig(self.key("goes-on"), st.ts.get("fin?") is False, where(ctx, line), "an acknowledgement was processed without ending the transfer when it was the last one", self.facts(st))
        super().on_call(eng, st, ctx, bb, d, args, line)


def C03(c):
    c.rule = ("The client's send returns Ok only on paths on which, after free_block with the number of a received Packet::Ack, is_finished() returned true; and waits for more packets only if it returned false.")
    transfers(c, None, C03Rule, {"send": [("ok", 1, "successful ends"), ("free", 1, "releases of blocks"), ("finish", 1, "further waits")]})


# ------------------------------------------------------------------ C04
class Errors:
    def key(self, k, ctx=None):
        return f"{self.c.cfg}:{self.dir}:{k}"

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "discr" and v == "Error" and st.ts.get("rx") in ("peer",):
            x = t.a[0]
            if x.op == "fld" and x.a[1] == "Ok.0" and callterm(x.a[0], *BYTES):
                st.ts["pk"] = "Error"
                self.n["error"] += 1

    def dead(self, st, what, at):
        self.c.oblig(self.key("error"), st.ts.get("pk") != "Error", at, f"{what} after the server sent an error", self.facts(st))

    def store(self, eng, st, ctx, line, views):
        self.dead(st, "stores a block", where(ctx, line))

    def free(self, eng, st, ctx, line, views):
        self.dead(st, "releases a block", where(ctx, line))

    def recv(self, eng, st, ctx, line):
        self.dead(st, "waits for more packets", where(ctx, line))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == TO:
            self.dead(st, "sends a packet", where(ctx, line))
        super().on_call(eng, st, ctx, bb, d, args, line)

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        if not (v.op == "agg" and v.a[1] == "Err"):
            self.dead(st, "reports success", ctx.fn.path)


class C04Up(Errors, ClientUp):
    track = ("pk",)


class C04Down(Errors, ClientDown):
    track = ("pk",)


class C04Query(Enums):
    """An error in answer to the request"""
    def __init__(self, c, p):
        self.c = c
        self.p = p
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == TO and st.ts.get("pk") == "Error":
            self.n += 1
            self.c.oblig(f"{self.c.cfg}:query:retry", st.ts.get("code") is True and st.ts.get("lvl") is True and not st.ts.get("again"), where(ctx, line),
                         "goes on after the server refused the request, other than by one request without options after 'illegal operation' or 'undefined'")
            self.c.oblig(f"{self.c.cfg}:query:plain-retry", not st.ts.get("ext"), where(ctx, line), "repeats a refused request with options")
            st.ts["again"] = True
        if d.name == FROM:
            for k in ("pk", "code", "lvl"):
                st.ts.pop(k, None)

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        a = adt.split("::")[-1]
        if a == "Packet" and x.op == "fld" and x.a[1] == "Ok.0" and callterm(x.a[0], *BYTES):
            # the first look at the packet decides which one it is; later switches only clean up
            st.ts.setdefault("pk", "Error" if names == {"Error"} else "other")
        elif a == "ErrorCode" and is_field(x, "code") and names <= {"IllegalOperation", "Undefined"}:
            st.ts["code"] = True
        elif a == "EncryptionLevel" and is_field(x, "encryption_level") and names == {"None"} and not has(x, lambda y: callterm(y, FROM)):
            st.ts["lvl"] = True

    def on_root_return(self, eng, st, ctx, v):
        if not (v.op == "agg" and v.a[1] == "Err"):
            self.c.oblig(f"{self.c.cfg}:query:accept", st.ts.get("pk") != "Error", ctx.fn.path, "accepts an error as an answer to the request")


def C04(c):
    c.rule = ("After a received packet of the server is found to be an Error, the client's transfers call neither the storage, the socket nor the block reader again and return Err; in the query, only one more "
              "request may follow, if the code is IllegalOperation or Undefined and the configured encryption level is None.")
    transfers(c, C04Up, C04Down, {"receive": [("error", 1, "received errors")], "send": [("error", 1, "received errors")]})
    query_run(c, C04Query, fl=1)


# ------------------------------------------------------------------ C05
class Time:
    def key(self, k, ctx=None):
        return f"{self.c.cfg}:{self.dir}:{k}"

    def recv(self, eng, st, ctx, line):
        self.c.oblig(self.key("checked"), bool(st.ts.get("checked")), where(ctx, line), "waits for a packet without having checked since the last wait that request_timeout has not passed", self.facts(st))

    def on_end(self, eng):
        ts = timer_sites(self, eng)
        self.c.oblig(self.key("timer"), bool(ts), "", "no timer is compared with request_timeout")
        for s, l in self.created.items():
            if s in ts:
                for tsv, at in l:
                    if tsv.get("in"):
                        self.n["timer"] += 1
                        self.c.oblig(self.key("progress"), self.progress(tsv), at, "renews the timer without progress")


class C05Up(Time, ClientUp):
    track = ("wr",)

    def progress(self, ts):
        return ts.get("wr") == "Ok"


class C05Down(Time, ClientDown):
    track = ("pk",)

    def progress(self, ts):
        return ts.get("pk") == "Ack"


class C05Wait(Client, engine.Rule):
    """The wait for the answer to a request"""
    dir = "query"

    def __init__(self, c, p):
        super().__init__(c, p)
        self.tot, self.n2 = self.n, 0

    def facts(self, st):
        return []

    def key(self, k):
        return f"{self.c.cfg}:query:{k}"

    recv = Time.recv

    def on_end(self, eng):
        ts = timer_sites(self, eng)
        self.c.oblig(self.key("timer"), bool(ts), "", "no timer is compared with request_timeout")
        for s, l in self.created.items():
            if s in ts:
                for tsv, at in l:
                    self.c.oblig(self.key("progress"), not tsv.get("in"), at, "renews the timer while waiting for the answer to a request")


def C05(c):
    c.rule = ("Between two receives of a client transfer, and before the first, a timer's elapsed() was found not to exceed request_timeout; the timers so compared are created before the first receive, "
              "or renewed after write_block == Ok (receiving) or a parsed Packet::Ack (sending), never in the wait for the answer to a request.")
    transfers(c, C05Up, C05Down, {"receive": [("recv", 1, "receives"), ("check", 1, "checks of the time"), ("timer", 1, "renewals")],
                                  "send": [("recv", 1, "receives"), ("check", 1, "checks of the time"), ("timer", 1, "renewals")]})
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        n = 0
        fs = [f for f in direct_callers(p, named(FROM)) if f.id not in p.reaching(named(WB)) and f.id not in p.reaching(named(NEXT)) and " as " not in f.path]

        def go(sub, root):
            r = C05Wait(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in ("from_bytes", "to_bytes", "to_buffer", "recv_from", "send_to") or d.name == "Instant::elapsed" or p.weight(fn.id) > 400, max_steps=80000)
            c.n5 = getattr(c, "n5", 0) + r.n["recv"]
        c.n5 = 0
        climb(c, p, fs, go)
        c.floor(f"{cfg}:query:recv", c.n5, 1, "waits for the answer to a request")


# ------------------------------------------------------------------ C06
class C06Rule(ClientUp):
    track = ("wr", "limit", "pkt", "ann", "wres")

    def __init__(self, c, prog):
        super().__init__(c, prog)
        self.compared, self.kept = set(), set()

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and t.a[0] in ("Lt", "Eq") and not st.ts.get("limit") and self.limited(eng, st):
            st.ts["limit"] = True

    def parts(self, eng, st, t, size=False, back=False):
        """t is this block's size plus what is left: the rests, one for each way t came about; None if it is not"""
        r = set()
        for x in flat(eng, t):
            l, k = linear(x)
            ws = [y for y in l if self.now(st, y) or size and self.size(y)]
            if not ws and back:
                # the packet was handled in the iteration before
                w = st.ts.get("wres")
                ws = [y for y in l if self.written(y) and w is not None and has(y, lambda z: z.op == "ret" and site(z) == site(w))][:1]
            if k or len(ws) != 1 or any(n < 1 for n in l.values()):
                return None
            r.add(tuple(y for y, n in l.items() for _ in range(n - (y is ws[0]))))
        return r or None

    def forms(self, eng, rests):
        """How these came about, joins resolved"""
        r, todo, seen = set(), [x for x in rests], set()
        while todo:
            ts = todo.pop()
            if ts in seen:
                continue
            seen.add(ts)
            if len(ts) == 1 and ts[0].op == "phi":
                for m in eng.phimem.get(ts[0], ()):
                    todo.append(tuple(linear(m)[0]))
                continue
            r.add(tuple(sorted({"*" if x.op == "phi" else "w" if self.written(x) else show(x) for x in ts})))
        return r

    def limited(self, eng, st):
        """stored before + size of this block <= max_file_size is known"""
        for a, b, k in upper_bounds(st):
            m = one(b)
            if m is None or k > 0 or not names_limit(m) or not a or any(n != 1 for n in a.values()):
                continue
            t = one(a)
            if t is None:
                for x in a:
                    t = x if t is None else mk("bin", "Add", t, x)
            ps = self.parts(eng, st, t, True) if t is not None else None
            if ps:
                if st.ts.get("rx"):
                    self.compared |= ps
                return True
        return False

    def size(self, t):
        """the size of the received data (a stored block is stored whole)"""
        t = strip_cast(t)
        return t.op == "pure" and t.a[0].split("::")[-1] == "len" and is_field(unref(t.a[1]), "data") and has(t, lambda y: callterm(y, *BYTES))

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == WB:
            st.ts["wres"] = res
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == WB:
            if st.ts.get("rx"):
                st.ts.pop("limit", None)
        elif d.name == TO and kind(st.ts.get("pkt") or FALSE) == "Ack" and st.ts.get("wr") == "Ok":
            self.n["ack"] += 1
            self.need(st, "ack", where(ctx, line), "acknowledges a block")
        elif d.name == FROM:
            if st.ts.get("wr") == "Ok" and st.ts.get("limit"):
                ok = False
                for base, inner in st.mem.items():
                    for v in inner.values():
                        ps = self.parts(eng, st, v, back=True) if v.op in ("bin", "phi", "fld", "cast") else None
                        if ps and self.total(eng, v):
                            ok = True
                            self.kept |= ps
                self.c.oblig(self.key("counted"), ok, where(ctx, line), "an accepted block is not added to the size received so far, so that the limit is not enforced over the transfer", self.facts(st))
            st.ts.pop("wres", None)
        super().on_call(eng, st, ctx, bb, d, args, line)

    def on_end(self, eng):
        x, y = self.forms(eng, self.compared), self.forms(eng, self.kept)
        self.c.oblig(self.key("sum"), bool(x) and x == y, "", f"what is compared with max_file_size ({sorted(x)} + block) is not the size received so far ({sorted(y)} + block)")

    def need(self, st, k, at, what):
        self.c.oblig(self.key(k), bool(st.ts.get("limit")), at, f"{what} without having compared the size received so far with max_file_size", self.facts(st))

    def on_root_return(self, eng, st, ctx, v):
        if not (v.op == "agg" and v.a[1] == "Err"):
            self.n["ok"] += 1
            self.need(st, "end", ctx.fn.path, "reports success")


class C06Loop(C06Rule):
    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if not st.ts.get("ann"):
            if t.op == "discr" and v == "None" and is_field(t.a[0], "file_size"):
                st.ts["ann"] = True
            elif t.op == "bin":
                for a, b, k in upper_bounds(st):
                    x, y = one(a), one(b)
                    if x is not None and y is not None and k <= 0 and names_limit(y) and strip_cast(x).op == "fld" and strip_cast(x).a[1] == "Some.0" and is_field(strip_cast(x).a[0], "file_size"):
                        st.ts["ann"] = True

    def recv(self, eng, st, ctx, line):
        self.c.oblig(self.key("announced"), bool(st.ts.get("ann")), where(ctx, line), "receives the file though the size the server announced was not compared with max_file_size", self.facts(st))


def C06(c):
    c.rule = ("In the client's receive, between write_block == Ok and a send of Packet::Ack or an Ok return, (sum of the sizes accepted before) + (size of this block) <= max_file_size is known; "
              "the announced size is known to be absent or <= max_file_size before the first wait for data.")
    transfers(c, C06Loop, None, {"receive": [("ack", 1, "acknowledgements of stored blocks"), ("ok", 1, "successful ends"), ("recv", 1, "receives")]})


# ------------------------------------------------------------------ C07
class C07Rule(ClientUp):
    track = ("wr", "pkt", "oack")

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if is_field(t, "acknowledge") and v is True and has(t, lambda x: x.op in ("ret", "pure") and x.a[0] in self.qnames):
            st.ts["oack"] = True

    def store(self, eng, st, ctx, line, views):
        blk, data = views[1], unref(views[2])
        ok = self.ours(blk) and is_field(blk, "block") and self.ours(data) and is_field(data, "data") and data.a[0] is blk.a[0]
        self.c.oblig(self.key("store"), ok, where(ctx, line), f"write_block({show(blk)[:120]}, {show(data)[:120]}): not the number and data of the received block")

    def send(self, eng, st, ctx, line, p):
        if kind(p) != "Ack":
            return
        self.n["ack"] += 1
        b = strip_cast(field(self.p, payload(p), "block"))
        w = st.ts.get("wr")
        if w == "Ok":
            ok = self.arg_block(b)
        elif w in ("ExpectedBlock", "AlreadyWritten"):
            ok = is_field(b, "current") and has(b, lambda x: callterm(x, WB))
        else:
            ok = False
        if b.op == "const" and not st.ts.get("rx"):
            # the query says when options are to be acknowledged
            ok = b.a[1] == 0 and bool(st.ts.get("oack"))
        self.c.oblig(self.key(f"ack:{w}"), ok, where(ctx, line), f"acknowledges {show(b)[:140]} when the storage writer's answer is {w or 'not asked'}", self.facts(st))


class C07Query(C04Query):
    """What the query says is to be acknowledged"""
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM:
            st.ts.pop("pk", None)

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if adt.split("::")[-1] == "Packet" and x.op == "fld" and x.a[1] == "Ok.0" and callterm(x.a[0], *BYTES):
            st.ts.setdefault("pk", next(iter(names)) if len(names) == 1 else "other")

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n += 1
        q = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        ack, first = field(self.p, q, "acknowledge"), field(self.p, q, "received_length")
        pk = st.ts.get("pk")
        self.c.oblig(f"{self.c.cfg}:query:oack", ack is FALSE or pk == "OptionalAck", ctx.fn.path, f"says that options are to be acknowledged after an answer of kind {pk}")
        self.c.oblig(f"{self.c.cfg}:query:first", first.op == "agg" and first.a[1] == "None" or pk == "Data", ctx.fn.path, f"passes on an answer of kind {pk} as the first data packet")
        self.c.oblig(f"{self.c.cfg}:query:kind", pk in ("OptionalAck", "Ack", "Data"), ctx.fn.path, f"accepts an answer of kind {pk}")


def C07(c):
    c.rule = ("In the client's receive: write_block gets number and data of the same received DATA packet; a send of Packet::Ack is reached only with write_block == Ok and that number, with "
              "ExpectedBlock/AlreadyWritten and its `current`, or with number 0 before anything was received.")
    transfers(c, C07Rule, None, {"receive": [("ack", 3, "acknowledgements"), ("store", 1, "stores")]})
    query_run(c, C07Query)


# ------------------------------------------------------------------ C08
class C08Rule(Client, R02Rule):
    track = ("rd", "blk", "hdr", "len", "pkt")


def C08(c):
    c.rule = ("In the client's send, every send that is not a serialised control packet happens only with next() == Ok(Some(b)), the header written from b.block and the buffer cut to 4 + b.size; next() reads "
              "into the buffer right behind the header.")
    transfers(c, None, C08Rule, {"send": [("data", 1, "sends of data blocks"), ("next", 1, "calls of the block reader")]})


# ------------------------------------------------------------------ C09
class C09Rule(ClientUp):
    track = ("wr", "pkt", "w>1", "mid", "full", "sent", "wres", "early")

    def __init__(self, c, prog):
        super().__init__(c, prog)
        self.places, self.held, self.copies = set(), {}, {}

    def places_of(self, eng, st, t):
        """Remembers where the number of the last acknowledged block is kept"""
        todo = {x for m in flat(eng, strip_cast(t)) | {strip_cast(t)} for x in linear(m)[0]}
        for base, inner in st.mem.items():
            for path, v in inner.items():
                if v in todo and v.op == "phi":
                    self.places.add((base, path))

    def last(self, eng, t):
        """t is the index of the block acknowledged last: 0 or what write_block said"""
        ms = flat(eng, strip_cast(t))
        return bool(ms) and all(x.op == "const" and x.a[1] == 0 or self.index(x) for x in ms)

    def window_end(self, eng, t):
        """t is last acknowledged + window, however it came about"""
        ms = flat(eng, strip_cast(t))
        for x in ms:
            l, k = linear(x)
            win = [u for u, n in l.items() if n == 1 and is_field(u, "window_size")]
            if k or len(win) != 1 or not all(n == 1 and self.last(eng, u) for u, n in l.items() if u is not win[0]):
                return False
        return bool(ms)

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op not in ("bin", "phi") or not isinstance(v, bool) or not st.ts.get("wr"):
            return
        ms = flat(eng, t) | {t} if t.op == "bin" else flat(eng, t)
        said = None
        for x in ms:
            # a joined condition says what all of its forms say
            if x.op == "const" and isinstance(x.a[1], (bool, int)) and bool(x.a[1]) is not v:
                continue
            r = self.said(eng, st, x, v)
            said = r if said is None else said | r if t.op == "bin" else said & r
        for k in said or ():
            st.ts[k] = True

    def said(self, eng, st, t, v):
        """What the comparison's outcome says: w>1, mid (inside a window), full"""
        r = set()
        if t.op != "bin":
            return r
        for a, b, k in upper_bounds(st, [(t, v)]):
            x, y = one(a), one(b)
            if not a and y is not None and is_field(y, "window_size") and k <= -2:
                r.add("w>1")
            if y is not None and is_field(y, "window_size") and len(a) == 2 and k <= -1:
                if any(n == 1 and self.index(u) and m == -1 and self.last(eng, w) for u, n in a.items() for w, m in a.items()):
                    r.add("mid")
            if x is not None and self.index(x) and len(b) == 2 and k <= -1 and any(is_field(u, "window_size") for u in b) and any(self.last(eng, u) for u in b if not is_field(u, "window_size")):
                r.add("mid")
            if x is not None and self.block(eng, x) and k <= 0 and y is not None and self.accepted(eng, y):
                r.add("full")
        if t.a[0] == "Eq" and v is False:
            d, k = sub_linear(linear(t.a[1]), linear(t.a[2]))
            if k == 0 and 2 <= len(d) <= 3:
                for u, n in d.items():
                    if self.index(u):
                        for w in d:
                            if w is not u:
                                self.places_of(eng, st, w)
                        rest = {w: m for w, m in d.items() if w is not u}
                        if len(rest) == 1 and one({w: -m * n for w, m in rest.items()}) is not None and self.window_end(eng, next(iter(rest))):
                            r.add("mid")
                        win = [w for w, m in rest.items() if m == -n and is_field(w, "window_size")]
                        if win and all(m == -n and self.last(eng, w) for w, m in rest.items() if w is not win[0]):
                            r.add("mid")
        if t.a[0] == "Lt" and v is False and t.a[1].op == "const" and t.a[1].a[1] == 0 and self.block(eng, t.a[2]):
            r.add("full")
        return r

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == WB:
            st.ts["wres"] = res
            for k in ("mid", "full", "sent", "early"):
                st.ts.pop(k, None)
        elif d.name == TO and kind(st.ts.get("pkt") or FALSE) == "Ack":
            st.ts["sent"] = True
            self.n["ack"] += 1
        super().on_result(eng, st, ctx, bb, d, args, views, res, line)

    def answered(self, st, at):
        w = st.ts.get("wr")
        if w in ("Ok", "ExpectedBlock", "AlreadyWritten") or w == "?":
            ok = st.ts.get("sent") or st.ts.get("w>1") and (st.ts.get("mid") or w != "Ok") and st.ts.get("full")
            self.c.oblig(self.key(f"answer:{w}"), bool(ok), at, "a data packet is left unanswered although it is not known to be a full block inside a window", self.facts(st))

    def recv(self, eng, st, ctx, line):
        self.answered(st, where(ctx, line))
        if "early" in st.ts and not st.ts.get("sent"):
            for place in st.ts["early"]:
                self.held[place] = where(ctx, line)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        super().on_assign(eng, st, ctx, bb, base, path, v, rv)
        if v.op == "phi" and rv[0] == "use" and rv[1][0] in ("p", "m"):
            self.copies.setdefault((base, path), set()).add(eng.resolve(st, ctx, rv[1][1]))
        l, k = linear(strip_cast(v.a[2][0] if v.op == "agg" and v.a[0] == "tuple" and v.a[2] else v))
        if not k and len(l) == 2 and any(is_field(u, "window_size") for u in l):
            for u in l:
                if not is_field(u, "window_size") and self.last(eng, u):
                    self.places_of(eng, st, u)
        w = st.ts.get("wres")
        if base[0] == "L" and st.ts.get("wr") and self.index(v) and has(v, lambda x: x is w):
            st.ts["early"] = st.ts.get("early", frozenset()) | {(base, path)}

    def on_end(self, eng):
        for place in list(self.places):
            self.places |= self.copies.get(place, set())
        for place, at in self.held.items():
            self.c.oblig(self.key("recorded"), place not in self.places, at, "an index is recorded as acknowledged without an acknowledgement having been sent")

    def on_root_return(self, eng, st, ctx, v):
        if not (v.op == "agg" and v.a[1] == "Err"):
            self.n["ok"] += 1
            # a block found to be a full one does not end the transfer (C02)
            self.c.oblig(self.key("last"), bool(st.ts.get("sent") or st.ts.get("full")), ctx.fn.path, "ends the transfer without acknowledging the last block", self.facts(st))


def C09(c):
    c.rule = ("In the client's receive, after write_block every path to the next wait or an Ok return sends Packet::Ack unless window_size > 1, the index of the block differs from last acknowledged + window, and "
              "the block is a full one; Ok is returned only after that send.")
    transfers(c, C09Rule, None, {"receive": [("ack", 1, "acknowledgements"), ("ok", 1, "successful ends"), ("recv", 1, "receives")]})


# ------------------------------------------------------------------ C10
class C10Down(Retry, ClientDown):
    """An upload: what is sent again, and when"""
    track = ("asked", "dsent", "blk")

    def __init__(self, c, p):
        super().__init__(c, p)
        self.since = set()

    def key(self, k):
        return f"{self.c.cfg}:{self.dir}:{k}"

    def next(self, eng, st, ctx, line, views):
        e = self.due(st, views[2])
        self.c.oblig(self.key("due"), e is not None, where(ctx, line), f"whether a block is repeated is not decided by the time since the last sending and the retry time: {show(views[2])[:160]}", self.facts(st))
        if e is not None:
            self.since.add(e)
        st.ts["asked"] = True
        st.ts.pop("dsent", None)

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and callterm(t.a[0], TO):
            st.ts["dsent"] = v == "Ok"
        super().on_fact(eng, st, t, v)

    def recv(self, eng, st, ctx, line):
        self.c.oblig(self.key("asked"), bool(st.ts.pop("asked", False)), where(ctx, line), "waits for an acknowledgement without having looked for a block to send since the last wait", self.facts(st))

    def on_end(self, eng):
        sites = {site(x) for e in self.since for t in self.timers.get(site(e), ()) for x in flat(eng, t)}
        self.c.oblig(self.key("timer"), bool(sites), "", "no timer is compared with the retry time")
        for s, l in self.created.items():
            if s in sites:
                for tsv, at in l:
                    if tsv.get("in") or tsv.get("asked"):
                        self.n["timer"] += 1
                        self.c.oblig(self.key("renewed"), tsv.get("dsent") is True and tsv.get("blk") == "Some", at, "the instant from which the retry time counts is renewed though no block was sent")


class C10Wait(engine.Rule):
    """The wait for the answer to a request"""
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.n = 0

    def key(self, k):
        return f"{self.c.cfg}:query:{k}"

    def request(self, eng, t):
        """t is the request, spelled out"""
        for x in sub_expand(eng, unref(t)):
            if x.op in ("pure", "ret") and x.a[0].split("::")[-1] == "to_bytes" and callargs(x):
                y = unref(callargs(x)[0])
                while y.op in ("pure", "ret") and y.a[0].split("::")[-1] == "clone" and callargs(y):
                    y = unref(callargs(y)[0])
                if y.op == "agg" and y.a[1] in ("Error", "Ack", "Data", "OptionalAck") or y.op == "param" and "Packet" not in eng.root.locals[y.a[0]]:
                    continue
                return True
        return False

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and callterm(t.a[0], TO) and v == "Ok" and st.ts.get("req"):
            st.ts["req"] = "sent"

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == TO:
            if self.request(eng, eng.view(st, args[1])):
                st.ts["req"] = "tried"
        elif d.name == FROM:
            self.n += 1
            self.c.oblig(self.key("repeated"), st.ts.pop("req", None) == "sent", where(ctx, line), "waits for the answer to a request without having sent it since the last wait")
            w = eng.view(st, args[2])
            some = all(x.op == "agg" and x.a[1] == "Some" for x in alts(eng, w))
            self.c.oblig(self.key("bounded"), some, where(ctx, line), f"waits for the answer to a request without limit: {show(w)[:100]}")


def C10(c):
    c.rule = ("Every receive of the wait for a server's answer has Some duration and was preceded, since the last one, by a successful send of the request. In an upload every receive was preceded by BlockReader::next, whose retry "
              "argument is elapsed(last sending) > retry time; that instant is renewed only after a block was sent.")
    transfers(c, None, C10Down, {"send": [("recv", 1, "receives"), ("next", 1, "requests for a block"), ("timer", 1, "renewals of the instant of the last sending")]})
    for cfg in ("full", "stackenc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        wb, nx = p.reaching(named(WB)), p.reaching(named(NEXT))
        fs = [f for f in direct_callers(p, named(FROM)) if f.id not in wb and f.id not in nx and " as " not in f.path]
        tot = {"n": 0}

        def go(sub, root):
            r = C10Wait(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in ("from_bytes", "to_bytes", "to_buffer", "recv_from", "send_to") or d.name == "Instant::elapsed" or p.weight(fn.id) > 400, max_steps=80000)
            tot["n"] += r.n
        climb(c, p, fs, go)
        c.floor(f"{cfg}:query:recv", tot["n"], 1, "waits for the answer to a request")
