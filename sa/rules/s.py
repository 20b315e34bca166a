"""S: the server's sessions."""
import engine
from common import *
from sess import *
from terms import *
from rules.e import is_field, tail
from rules.n import fname, inner, passed_on
from rules.w import flat

FROM = "Socket::recv_from"
RX = "BoundSocket::recv"
WRITE, FREE = "BlockWriter::write_block", "BlockReader::free_block"
PARSE = ("Packet::from_bytes", "ByteConverter::from_bytes")
ROLE = PARSE + ("Packet::to_buffer", "ByteConverter::to_buffer", "BoundSocket::send", "Socket::send_to", WRITE, "BlockReader::next", FREE)


def file_callback(o):
    return bool(o.get("rustcall")) and any("ServerConfig" in t for t in o.get("targs") or ())


def server_roots(p):
    """The functions that receive requests and serve them"""
    ids = p.reaching(named(FROM)) & p.reaching(file_callback)
    cg = p.callgraph()
    called = {j for i in ids for j in cg.get(i, ((), ()))[1] if j != i}
    return [f for f in p.roots if f.id in ids - called and f.crate == "tftp_dus"]


def worker_roots(p):
    """Functions (with the thread they start) that receive a session's packets and store or release blocks, but take no requests"""
    srv = p.reaching(named(FROM)) & p.reaching(file_callback)
    return [f for f in minimal(p, named(RX), lambda o: engine.short_name(o["path"]) in (WRITE, FREE)) if f.id not in srv]


def roles(p, inside=()):
    """Functions whose effect the session rules take as one step"""
    ids = {f.path for f in direct_callers(p, lambda o: engine.short_name(o["path"]) in ROLE or file_callback(o))}
    near = p.reaching(named(FROM, *inside))
    timer = {f.path for f in direct_callers(p, named("Instant::elapsed"))}

    def opaque(d, fn):
        if d.name == "Instant::elapsed":
            return True
        if fn.id in near:
            return False
        return fn.path in ids or fn.crate != "tftp_dus" or p.weight(fn.id) > 400 and fn.path not in timer
    return opaque


def sessions(d):
    """d is an operation on the map of sessions"""
    ts = [str(t) for t in d.targs or ()]
    return any(t.endswith("SocketAddr") for t in ts) and any("JoinHandle" in t or "Connection<" in t for t in ts)


def peeled(eng, t):
    t = strip_cast(unref(t))
    while t.op in ("deref", "&"):
        t = strip_cast(unref(t.a[0]))
    return t


def handlers(p):
    """Functions that take a session's packet"""
    parse = {f.path for f in direct_callers(p, lambda o: engine.short_name(o["path"]) in PARSE)}
    work = p.reaching(named(WRITE)) | p.reaching(named(FREE))
    return {f.path for f in p.roots if f.path in parse and f.id in work}


class Sessions(Enums):
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"insert": 0, "build": 0, "handle": 0, "return": 0}
        self.maps = set()
        near = prog.reaching(named(FROM))
        self.builders = {f.path for f in prog.roots if f.id in prog.reaching(file_callback) and f.id not in near}
        self.handlers = handlers(prog)

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def sender(self, eng, t):
        """t is the endpoint a request came from"""
        return any(m.op == "fld" and m.a[1] == "1" and m.a[0].op == "fld" and m.a[0].a[1] == "Ok.0" and callterm(m.a[0].a[0], FROM) for m in flat(eng, peeled(eng, t)))

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "Entry" and names == {"Vacant"} and fname(x) == "entry":
            st.ts["absent"] = st.ts.get("entry")
        elif tail(adt) == "Option" and names == {"None"} and fname(x) in ("get", "get_mut", "get_key_value") and unref(callargs(x)[0]) in self.maps:
            st.ts["absent"] = peeled(eng, callargs(x)[1])
        elif tail(adt) == "Result" and names == {"Ok"} and x.op == "ret" and x.a[0] in (FROM, RX):
            if x.a[0] == RX or st.ts.pop("pending", None):
                st.ts["src"] = "request" if x.a[0] == FROM else "session"
        elif tail(adt) == "Option" and names == {"Some"} and x.op == "ret" and site_of(x) in self.polls:
            st.ts["src"] = "session"

    def start(self, eng, st, ctx):
        self.polls = set()
        self.rx = self.p.reaching(named(RX))

    def on_closure(self, eng, st, ctx, bb, d, fn, args):
        if fn.id in self.rx:
            self.polls.add((ctx.id, bb))

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if not isinstance(v, bool):
            return
        if fname(t) == "contains_key" and not v and unref(callargs(t)[0]) in self.maps:
            st.ts["absent"] = peeled(eng, callargs(t)[1])
        for a, b, k in upper_bounds(st, [(t, v)]):
            d = sub_linear((a, 0), (b, 0))[0]
            if sorted(d.values()) == [-1, 1] and k <= -1:
                x, y = sorted(d, key=d.get, reverse=True)
                x, y = strip_cast(x), strip_cast(y)
                if x.op == "pure" and x.a[0].split("::")[-1] == "len" and unref(x.a[1]) in self.maps and is_field(y, "max_connections"):
                    st.ts["room"] = True

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == FROM:
            for k in ("room", "absent"):
                st.ts.pop(k, None)
            st.ts["pending"] = True
        elif sessions(d):
            if args:
                self.maps.add(unref(eng.view(st, args[0])))
            if d.tail == "entry":
                st.ts["entry"] = peeled(eng, eng.view(st, args[1]))
            if d.tail in ("insert", "or_insert", "or_insert_with", "or_insert_entry", "insert_entry", "insert_full"):
                self.n["insert"] += 1
                self.inserted(eng, st, ctx, d, args, line)
                st.ts.pop("room", None)
                st.ts.pop("absent", None)
        elif d.path in self.builders or d.rustcall and any("ServerConfig" in str(t) for t in d.targs):
            self.n["build"] += 1
            self.built(eng, st, ctx, line)
        elif d.path in self.handlers:
            self.n["handle"] += 1
            self.handled(eng, st, ctx, line)

    def inserted(self, eng, st, ctx, d, args, line):
        pass

    def built(self, eng, st, ctx, line):
        pass

    def handled(self, eng, st, ctx, line):
        pass


def site_of(t):
    return t.a[1][:2] if t.op == "ret" and isinstance(t.a[1], tuple) else None


class S01Rule(Sessions):
    def inserted(self, eng, st, ctx, d, args, line):
        self.c.oblig(self.key("insert"), bool(st.ts.get("room")), where(ctx, line), "a session is added without the number of sessions having been found below max_connections since the request was received")

    def built(self, eng, st, ctx, line):
        self.c.oblig(self.key("open"), bool(st.ts.get("room")), where(ctx, line), "a request is served without the number of sessions having been found below max_connections since it was received")


class S02Rule(Sessions):
    def inserted(self, eng, st, ctx, d, args, line):
        k = peeled(eng, eng.view(st, args[1])) if len(args) > 2 else st.ts.get("absent")
        self.c.oblig(self.key("insert"), st.ts.get("absent") is not None and k is st.ts["absent"], where(ctx, line), "a session is added without its endpoint having been found to have none")
        # an endpoint taken from the map of sessions cannot be absent from it
        self.c.oblig(self.key("endpoint"), st.ts.get("src") == "session" or k is not None and self.sender(eng, k), where(ctx, line), f"the session is not filed under the endpoint its request came from: {show(k)[:200] if k is not None else ''}")

    def built(self, eng, st, ctx, line):
        self.c.oblig(self.key("open"), st.ts.get("absent") is not None, where(ctx, line), "a request is served without its endpoint having been found to have no session")

    def handled(self, eng, st, ctx, line):
        self.c.oblig(self.key("handed"), st.ts.get("src") == "session" or st.ts.get("absent") is not None, where(ctx, line), "what arrived on the listening socket is given to a session")


def blocked(t, v, source):
    """Whether t == v says that source's error is WouldBlock (None: neither)"""
    def is_kind(y):
        return y.op == "discr" and (callterm(y.a[0], "Error::kind") or is_field(y.a[0], "kind")) or callterm(y, "Error::kind")
    if t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
        for x, y in (t.a[1:], t.a[:0:-1]):
            if is_kind(y) and has(y, lambda z: callterm(z, source)) and x.op in ("const", "agg"):
                return v if x.a[1] == "WouldBlock" else False if v else None
    elif t.op == "discr" and is_kind(t) and isinstance(v, str) and has(t, lambda z: callterm(z, source)):
        return v == "WouldBlock"
    return None


def otherwise(t, v, source):
    """Whether v (what t is not) includes that source's error is WouldBlock"""
    return isinstance(v, tuple) and v[:1] == ("not",) and any(blocked(t, n, source) for n in v[1:])


class S05Rule(Sessions):
    def on_call(self, eng, st, ctx, bb, d, args, line):
        super().on_call(eng, st, ctx, bb, d, args, line)
        if d.name == FROM:
            st.ts["served"] = True
            st.ts.pop("fatal", None)

    def on_root_return(self, eng, st, ctx, v):
        if not st.ts.get("served"):
            return
        self.n["return"] += 1
        bad = [m for m in alts(eng, v) if not self.cause(eng, m)]
        self.c.oblig(self.key("return"), not bad, ctx.fn.path, f"the server ends for another reason than its listening socket's failure: {show((bad or [v])[0])[:200]}")
        self.c.oblig(self.key("kind"), bool(st.ts.get("fatal")), ctx.fn.path,
                     "the server ends although its listening socket may only have had nothing to receive")

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        k = blocked(t, v, FROM)
        if k is not None:
            st.ts["fatal"] = not k

    def on_branch(self, eng, st, ctx, bb, t, v):
        super().on_branch(eng, st, ctx, bb, t, v)
        if otherwise(t, v, FROM):
            st.ts["fatal"] = True

    def cause(self, eng, v):
        for x in sub_expand(eng, v):
            if x.op == "fld" and x.a[1] in ("Err.0", "Break.0"):
                return any(callterm(y, FROM) for y in (x.a[0], *sub_expand(eng, x.a[0])) if y.op == "ret") and not any(y.op == "fld" and y.a[1] == "Err.0" and not callterm(y.a[0], FROM) for y in sub_expand(eng, x))
        return False


def server(c, cls, floors, cfgs=("full", "stackenc", "alloc", "stack")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = server_roots(p)
        c.floor(f"{cfg}:server", len(roots), 1, "functions that receive and serve requests")
        tot = {}
        for f in roots:
            r = cls(c, p)
            c.run(p, f, [r], opaque=roles(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        for k, msg in floors.items():
            c.floor(f"{cfg}:{k}", tot.get(k, 0), 1, msg)


def S01(c):
    c.rule = ("In the function that receives requests, every call that opens files for a request or adds an entry to the map of sessions happens after a comparison, since the last recv_from and since the last "
              "entry was added, found len() of that map below max_connections.")
    server(c, S01Rule, {"insert": "places where a session is added", "build": "places where a request is served"})


def S02(c):
    c.rule = ("In the function that receives requests, every call that opens files or adds a session happens after the request's sender was found not to be a key of the map of sessions (contains_key false, a "
              "vacant entry), and the session is filed under that key; a received packet is given to a session's handler only if it came from BoundSocket::recv, or its sender was found to have no session.")
    server(c, S02Rule, {"insert": "places where a session is added", "build": "places where a request is served"})


def S05(c):
    c.rule = "After the first recv_from, the function that receives requests returns nothing but the error of a recv_from whose kind was found not to be WouldBlock."
    server(c, S05Rule, {"return": "returns"})


def once(t):
    """The call a value comes from, whichever time it was made"""
    return t.a[0], tuple(x for x in t.a[1] if x != "'") if t.op == "ret" and isinstance(t.a[1], tuple) else t


def question(t):
    """What is asked, whomever it is asked of"""
    x = unref(t.a[1]) if t.op == "pure" and len(t.a) > 1 else t.a[0] if t.op == "discr" else t
    return t.op, t.a[0] if t.op == "pure" else None, x.a[1] if x.op == "fld" else x


class Expire(Enums):
    """Idle, failed and finished sessions end, others do not"""
    SEEN = ("alive", "expired", "valid", "open", "ended", "told")

    def __init__(self, c, prog, worker):
        self.c, self.p, self.worker = c, prog, worker
        self.n = {"wait": 0, "end": 0, "sweep": 0}
        self.params = set()
        self.late = set()
        self.handlers = handlers(prog)

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def limit(self, t):
        t = strip_cast(t)
        if t.op == "param":
            self.params.add(t)
            return True
        return is_field(t, "request_timeout")

    def clear(self, st):
        for k in self.SEEN:
            st.ts.pop(k, None)

    def looking(self, st):
        """A session is being looked at"""
        return self.worker or st.ts.get("in")

    def on_closure(self, eng, st, ctx, bb, d, fn, args):
        if d.tail == "retain" and sessions(d):
            st.ts["in"] = True

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if not self.looking(st):
            return
        if tail(adt) == "Option" and is_field(x, "invalid"):
            if names == {"None"}:
                st.ts["valid"] = True
            elif names == {"Some"}:
                st.ts["ended"] = True
        elif tail(adt) == "Result" and x.op == "ret" and x.a[0] == RX and len(names) == 1:
            st.ts["rx"] = min(names)

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "phi" and self.looking(st):
            # the same question, asked of what was found on several paths
            ms = sorted(flat(eng, t), key=str)
            if ms and ms[0].op != "phi" and len({question(m) for m in ms}) == 1:
                self.on_fact(eng, st, ms[0], v)
            return
        if self.looking(st):
            if is_field(t, "finished") and isinstance(v, bool):
                st.ts["ended" if v else "open"] = True
            k = blocked(t, v, RX)
            if k is not None:
                st.ts["rx"] = "none" if k else "dead"
        if t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool):
            for e, lim, less in ((t.a[1], t.a[2], True), (t.a[2], t.a[1], False)):
                if not callterm(e, "Instant::elapsed"):
                    continue
                since = unref(callargs(e)[0])
                if has(since, lambda y: is_field(y, "last_updated")):
                    if self.limit(lim) and self.looking(st):
                        # Lt(elapsed, limit) is v, or Lt(limit, elapsed) is v
                        st.ts["alive" if v is less else "expired"] = True
                elif not self.worker:
                    self.clock(eng, st, since, lim, v is less)

    def on_branch(self, eng, st, ctx, bb, t, v):
        super().on_branch(eng, st, ctx, bb, t, v)
        if self.looking(st) and otherwise(t, v, RX):
            st.ts["rx"] = "dead"

    def on_known(self, eng, st, t, v):
        # what was found before about what is looked at again
        self.on_fact(eng, st, t, v)

    def clock(self, eng, st, since, lim, within):
        """A timer that tells when sessions are looked through was found to be within its limit or not"""
        lim = strip_cast(lim)
        if within and fname(lim) in ("from_secs", "from_millis") and callargs(lim)[0].op == "const" and callargs(lim)[0].a[1] <= {"from_secs": 10}.get(fname(lim), 10000):
            if not st.ts.get("late"):
                st.ts["fresh"] = True

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if (d.path == "indirect" or d.name in ("indirect", "Instant::now")) and st.ts.get("waited") and not st.ts.get("swept"):
            st.ts["taken"] = st.ts.get("taken", frozenset()) | {once(res)}

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == RX and self.worker:
            self.n["wait"] += 1
            self.c.oblig(self.key("idle"), bool(st.ts.get("alive")), where(ctx, line), "a session waits without having checked that its time is not over", sorted(map(str, st.ts)))
            self.c.oblig(self.key("done"), bool(st.ts.get("valid") and st.ts.get("open")), where(ctx, line), "a session waits for packets though it may have failed or finished", sorted(map(str, st.ts)))
            for k in ("alive", "rx"):
                st.ts.pop(k, None)
        elif d.path in self.handlers:
            self.clear(st)
        elif d.name == FROM:
            self.n["wait"] += 1
            if st.ts.get("waited"):
                self.c.oblig(self.key("sweep"), bool(st.ts.get("swept") or st.ts.get("fresh")), where(ctx, line), "the server waits again without having looked for ended sessions", sorted(map(str, st.ts)))
            self.clear(st)
            # a timer started since the last wait tells nothing about sessions nobody has looked for
            self.late |= st.ts.pop("taken", frozenset())
            for k in ("swept", "fresh", "rx"):
                st.ts.pop(k, None)
            st.ts["waited"] = True
        elif d.tail == "spawn":
            st.ts["spawned"] = True
        elif d.name == "Instant::elapsed" and not self.worker:
            st.ts["late"] = any(once(m) in self.late for m in flat(eng, unref(eng.view(st, args[0]))))
        elif d.tail == "retain" and sessions(d):
            self.n["sweep"] += 1
            st.ts["swept"] = True
            st.ts.pop("taken", None)
            self.clear(st)
        elif self.looking(st) and any(unref(eng.view(st, a)).op == "agg" and unref(eng.view(st, a)).a[1] == "Error" and tail(unref(eng.view(st, a)).a[0]) == "Packet" for a in args):
            st.ts["told"] = True

    def ends(self, st, at):
        """The session is given up here"""
        self.n["end"] += 1
        ts = st.ts
        self.c.oblig(self.key("reason"), bool(ts.get("expired") or ts.get("ended") or ts.get("rx") == "dead"), at, "a session is given up though it neither finished nor failed nor was idle for request_timeout", sorted(map(str, ts.items())))
        if ts.get("expired") and not ts.get("ended"):
            self.c.oblig(self.key("told"), bool(ts.get("told")), at, "a session is given up for being idle without the client being told")

    def on_return(self, eng, st, ctx, v):
        d = getattr(ctx, "d", None)
        if d is not None and self.worker and d.tail == "spawn":
            self.ends(st, ctx.fn.path)
        elif d is not None and not self.worker and d.tail == "retain" and sessions(d):
            self.judge(eng, st, ctx, v)

    def on_root_return(self, eng, st, ctx, v):
        if self.worker and not st.ts.get("spawned"):
            self.ends(st, ctx.fn.path)

    def judge(self, eng, st, ctx, v):
        x, sign = v, True
        while x.op == "not":
            x, sign = x.a[0], not sign
        if all(fname(m) == "is_finished" for m in flat(eng, x)):
            self.c.oblig(self.key("keep"), not sign, ctx.fn.path, "sessions are kept once they ended, and dropped before")
        elif x.op == "const":
            if bool(x.a[1]) == sign:
                self.c.oblig(self.key("keep"), bool(st.ts.get("alive") and st.ts.get("valid") and st.ts.get("open")), ctx.fn.path, "a session is kept though it may have ended or be idle for longer than request_timeout", sorted(map(str, st.ts)))
            else:
                self.ends(st, ctx.fn.path)
        else:
            self.c.oblig(self.key("keep"), False, ctx.fn.path, f"it is not known which sessions are kept: {show(v)[:200]}")
        self.clear(st)
        st.ts.pop("in", None)


def S03(c):
    c.rule = ("Since the last wait, a session's thread found elapsed() of last_updated within request_timeout, invalid None and finished false before it waits for a packet; it returns only after one of these was "
              "found otherwise, or the socket failed. The function that receives requests removes ended sessions (retain) between two waits, or finds the timer of the last removal within 10 seconds; the removal keeps "
              "a session if and only if so, or if its thread runs. A session given up for being idle is sent an error first. The timeout is the configured one.")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        tot = {}
        workers = worker_roots(p)
        for worker, roots in ((True, workers), (False, server_roots(p))):
            for f in roots:
                r = Expire(c, p, worker)
                c.run(p, f, [r], opaque=roles(p, (RX,) if worker else ()), max_steps=80000)
                for k, v in r.n.items():
                    tot[k] = tot.get(k, 0) + v
                if r.params:
                    passed_on(c, p, f.path, r.params, "request_timeout", "timeout")
        c.floor(f"{cfg}:server", len(server_roots(p)), 1, "functions that receive and serve requests")
        for k, n, msg in (("wait", 1, "waits"), ("sweep", 1, "removals of ended sessions"), ("end", 1, "ends of sessions")):
            c.floor(f"{cfg}:{k}", tot[k] if k in tot else 0, n, msg)


class Progress(Enums):
    """What renews the time of a session"""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"renew": 0}

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "Result" and x.op == "ret" and x.a[0] == WRITE and len(names) == 1:
            st.ts["stored"] = names == {"Ok"}

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in (WRITE, FREE):
            st.ts.pop("stored", None)
            st.ts.pop("freed", None)

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if isinstance(v, bool):
            for a, b, k in upper_bounds(st, [(t, v)]):
                if not a and len(b) == 1 and k <= -1 and callterm(strip_cast(next(iter(b))), FREE):
                    st.ts["freed"] = True

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and str(path[-1]).split(".")[-1] == "last_updated":
            self.n["renew"] += 1
            fresh = all(m.op == "ret" and (m.a[0] in ("indirect", "Instant::now", "Instant::from_time") or m.a[0].endswith("call")) for m in flat(eng, v))
            self.c.oblig(f"{self.c.cfg}:fresh", fresh, ctx.fn.path, f"a session's time is set to something else than the present: {show(v)[:200]}")
            self.c.oblig(f"{self.c.cfg}:progress", bool(st.ts.get("stored") or st.ts.get("freed")), ctx.fn.path, "a session's time is renewed although no new block was stored or released", sorted(map(str, st.ts)))


def renewers(p):
    """Functions that assign the time of a session"""
    r = {}
    for f in p.roots:
        if f.crate == "tftp_dus" and any(b and any(s[0] == "=" and s[1] and isinstance(s[1][-1], list) and s[1][-1][:2] == ["f", "last_updated"] for s in b["s"]) for b in f.blocks):
            r[f.path] = f
    return list(r.values())


def S04(c):
    c.rule = ("last_updated of a session is assigned only the present time, and only after the session's block writer accepted a block (write_block == Ok) or its block reader released at least one byte "
              "(free_block > 0) for the packet at hand.")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        tot = {}

        def go(sub, root):
            r = Progress(sub, p)
            sub.run(p, root, [r], opaque=leaves(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, renewers(p), go)
        c.floor(f"{cfg}:renew", tot.get("renew", 0), 2, "renewals of a session's time")


# ---------------------------------------------------------------------------------------------------------------- S06 S07
OPENS = ("Socket::new", "Socket::new_raw", "UdpSocket::bind")
TAKES = ("UdpSocket::recv", "UdpSocket::recv_from", "UdpSocket::peek", "UdpSocket::peek_from", "Socket::recv", "Socket::recv_from")
GIVES = ("UdpSocket::send", "UdpSocket::send_to", "Socket::send", "Socket::send_to")


def socket_callbacks(p, i, name):
    """The functions the binary gives to the server to make sockets with (argument i)"""
    r = {}
    for f in p.roots:
        for b in f.blocks:
            if b and b["t"][0] == "call" and b["t"][1][0] == "fn":
                o = b["t"][1][1]
                if o["path"].startswith("tftp_dus::server::") and o["path"].endswith("::server") and len(b["t"][2]) > i:
                    a = b["t"][2][i]
                    if a[0] == "fn" and a[1].get("inst") in p.fns:
                        r[a[1]["inst"]] = p.fns[a[1]["inst"]]
                    elif a[0] in ("m", "p"):
                        for b2 in f.blocks:
                            for s in (b2["s"] if b2 else ()):
                                if s[0] == "=" and s[1] == [a[1][0]] and s[2][0] == "agg" and s[2][1] == "closure" and s[2][4] in p.fns:
                                    r[s[2][4]] = p.fns[s[2][4]]
    return list(r.values()) or roots_named(p, name)


def handle(eng, t):
    """The system's socket a value wraps: conversions do not make another one"""
    t = peeled(eng, t)
    while True:
        u = t
        if t.op == "agg" and len(t.a[2]) == 1:
            t = t.a[2][0]
        elif fname(t) in ("from", "into", "as_ref", "deref", "as_fd", "as_raw_fd", "borrow_raw", "borrow", "try_clone") and len(callargs(t)) == 1:
            t = callargs(t)[0]
        t = peeled(eng, t)
        if t is u:
            return t


def opened(t):
    """t is what a call that makes a socket returned"""
    return t.op == "fld" and t.a[1] == "Ok.0" and callterm(t.a[0], *OPENS)


class Made(Enums):
    """What is done to a socket before it is handed out"""
    def __init__(self, c, prog, role):
        self.c, self.p, self.role = c, prog, role
        self.n = 0

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) != "Result" or names != {"Ok"}:
            return
        if not callterm(x, "UdpSocket::connect", "Socket::connect", "UdpSocket::bind", "Socket::bind", "UdpSocket::set_nonblocking", "Socket::set_nonblocking"):
            return
        a = callargs(x)
        what = fname(x)
        if what == "bind" and len(a) == 1:
            st.ts["bind"] = (mk("fld", x, "Ok.0"), peeled(eng, a[0]))
        elif len(a) == 2:
            st.ts[what] = (handle(eng, a[0]), peeled(eng, a[1]))

    def on_root_return(self, eng, st, ctx, v):
        for x in flat(eng, v):
            if x.op == "agg" and x.a[1] == "Err":
                continue
            hs = {h for y in sub_expand(eng, x) for h in [handle(eng, y)] if opened(h)}
            self.n += 1
            k = f"{self.c.cfg}:{self.role}"
            w = where(ctx, 0)
            self.c.oblig(f"{k}:one", len(hs) == 1, w, f"what is handed out is no single socket opened here: {show(x)[:200]}")
            for h in hs:
                b = st.ts.get("bind")
                par = [e for e in (b[1],) if e.op == "param"] if b and b[0] is h else []
                if self.c.pid == "S06":
                    self.c.oblig(f"{k}:bind", bool(par) and par[0].a[0] == 1, w, f"the socket handed out is not known to be bound to the address asked for: {show(x)[:160]}")
                nb = st.ts.get("set_nonblocking")
                if self.c.pid == "S07":
                    self.c.oblig(f"{k}:nonblocking", bool(nb) and nb[0] is h and nb[1] is TRUE, w, f"the socket handed out may block when it is read: {show(x)[:160]}")
                elif self.role == "session":
                    e = st.ts.get("connect")
                    self.c.oblig(f"{k}:connect", bool(e) and e[0] is h and e[1].op == "param" and e[1].a[0] == 3, w,
                                 f"the socket handed out is not known to be connected to the endpoint asked for: {show(x)[:160]}")


class Wire(Enums):
    """recv and send of the sockets the binary makes"""
    def __init__(self, c, prog, what):
        self.c, self.p, self.what = c, prog, what
        self.n = {"take": 0, "give": 0, "wait": 0}

    def own(self, eng, t):
        """A socket kept in self"""
        t = handle(eng, t)
        while t.op == "fld":
            t = unref(t.a[0])
            while t.op in ("deref", "&"):
                t = unref(t.a[0])
        return t.op == "param" and t.a[0] == 1 or t.op == "M"

    def data(self, eng, t):
        return has(unref(t), lambda y: y.op == "param" and y.a[0] == 2)

    def key(self, k):
        return f"{self.c.cfg}:{self.what}:{k}"


class S06Wire(Wire):
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name not in TAKES + GIVES or d.rustcall or d.path.startswith("tftp_dus"):
            return
        vs = [eng.view(st, a) for a in args]
        w = where(ctx, line)
        if d.name in TAKES:
            self.n["take"] += 1
            self.c.oblig(self.key("take"), self.own(eng, vs[0]) and self.data(eng, vs[1]) and not d.tail.startswith("peek"), w,
                         f"{d.name} on {show(vs[0])[:80]} into {show(vs[1])[:80]}: not a datagram of this socket into the caller's buffer")
        else:
            self.n["give"] += 1
            ok = self.own(eng, vs[0]) and self.data(eng, vs[1])
            if self.what == "session":
                ok = ok and d.tail == "send"
            else:
                ok = ok and d.tail == "send_to" and has(vs[2], lambda y: y.op == "param" and y.a[0] == 3)
            self.c.oblig(self.key("give"), ok, w, f"{d.name} on {show(vs[0])[:80]} of {show(vs[1])[:80]} to {show(vs[-1])[:80]}: not the caller's bytes to the endpoint meant")

    def on_root_return(self, eng, st, ctx, v):
        for x in flat(eng, v):
            if x.op == "agg" and x.a[1] == "Err":
                continue
            y = x.a[2][0] if x.op == "agg" and x.a[1] == "Ok" and x.a[2] else x
            z = y
            while z.op == "fld":
                z = z.a[0]
            ok = callterm(z, *TAKES, *GIVES)
            if y.op == "agg" and y.a[2]:
                ok = all(has(e, lambda q: callterm(q, *TAKES)) for e in y.a[2])
            self.c.oblig(self.key("return"), ok, where(ctx, 0), f"{ctx.fn.path} succeeds with {show(x)[:160]}, which no receive or send returned", [f"{show(t)[:160]} = {b}" for t, b in list(st.facts.items())[-6:]])


class Asked(Sessions):
    """With which endpoint the server asks for a session's socket"""
    def __init__(self, c, prog, ends):
        super().__init__(c, prog)
        self.ends = ends

    def asker(self, eng, t):
        """The address recv_from returned; where the packets of sessions go the same way, theirs may be joined with it (they are filed already)"""
        ms = {m for x in flat(eng, peeled(eng, t)) for m in ({eng.project(y, "1") for y in flat(eng, x.a[0])} if x.op == "fld" and x.a[1] == "1" else {x})}
        new = {m for m in ms if self.sender(eng, m)}
        self.n["build"] += bool(new)
        return all(self.polled(m) for m in ms - new)

    def polled(self, m):
        if has(m, lambda z: callterm(z, "Iterator::next") and has(z, lambda q: fname(q) in ("iter", "iter_mut", "keys") and "Map::" in q.a[0])):
            return True
        m = m.a[0] if m.op == "fld" and m.a[1] == "1" else m
        return m.op == "fld" and m.a[1] == "Some.0" and m.a[0].op == "ret" and site_of(m.a[0]) in self.polls

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.path not in self.ends:
            return
        vs = [eng.view(st, a) for a in args]
        for t in self.ends[d.path]:
            for y in [y for y in sub_terms(t) if y.op == "param" and y.a[0] <= len(vs)]:
                t = replace(t, y, vs[y.a[0] - 1])
            self.c.oblig(self.key("asked"), self.asker(eng, t), where(ctx, line), f"a session's socket is asked for with {show(t)[:160]}, not with the address the request came from")


class Ends(engine.Rule):
    """The endpoint given to the callback that makes a session's socket, in terms of the function's parameters"""
    def __init__(self):
        self.ends = set()

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if makes_bound(d):
            v = eng.view(st, args[1])
            e = v.a[2][2] if v.op == "agg" and len(v.a[2]) == 3 else eng.project(v, "2")
            self.ends |= flat(eng, peeled(eng, e))


def makes_bound(d):
    ts = [str(t) for t in (d.get("targs") if isinstance(d, dict) else d.targs) or ()]
    r = d.get("rustcall") if isinstance(d, dict) else d.rustcall
    return bool(r) and any(t.replace("core::net::socket_addr::", "") == "(SocketAddr, usize, SocketAddr)" for t in ts)


def S06(c):
    c.rule = ("The function the binary gives to the server to make a session's socket returns Ok only with one socket it opened, after bind to its first argument and connect to its third succeeded on it; recv and send of the "
              "binary's sockets pass the caller's buffer to and from the socket they keep (send, not send_to, for sessions; send_to the address given for the listening one) and succeed only with what that returned; the "
              "server gives that function the address recv_from returned with the request.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        for i, name, role in ((4, "create_bound_socket", "session"), (3, "create_socket", "listen")):
            n = 0
            for f in socket_callbacks(p, i, name):
                r = Made(c, p, role)
                c.run(p, f, [r])
                n += r.n
            c.floor(f"{cfg}:{role}:made", n, 1, "sockets handed out")
        for trait, role, ms in (("BoundSocket", "session", ("recv", "send")), ("Socket", "listen", ("recv_from", "send_to"))):
            n = {"take": 0, "give": 0}
            for m in ms:
                for f in methods_of(p, trait, m):
                    r = S06Wire(c, p, role)
                    c.run(p, f, [r])
                    for k in n:
                        n[k] += r.n[k]
            c.floor(f"{cfg}:{role}:take", n["take"], 1, "receives")
            c.floor(f"{cfg}:{role}:give", n["give"], 1, "sends")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        ends = {}
        for f in direct_callers(p, makes_bound):
            r = Ends()
            near = p.reaching(makes_bound)
            c.run(p, f, [r], opaque=lambda d, fn: fn.id not in near)
            ends[f.path] = r.ends
        c.floor(f"{cfg}:asks", len(ends), 1, "functions that ask for a session's socket")
        tot = 0
        for f in server_roots(p):
            r = Asked(c, p, ends)
            base = roles(p)
            near2 = p.reaching(makes_bound)
            c.run(p, f, [r], opaque=lambda d, fn: fn.path in ends or fn.id not in near2 and base(d, fn), max_steps=80000)
            tot += r.n["build"]
        c.floor(f"{cfg}:asked", tot, 1, "requests for a session's socket by the server")


class S07Rule(Wire):
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in ("Poller::modify", "Poller::add", "Poller::modify_with_mode", "Poller::add_with_mode"):
            st.ts["armed"] = self.own(eng, eng.view(st, args[1]))
        if d.name != "Poller::wait":
            return
        self.n["wait"] += 1
        v = eng.view(st, args[2])
        w = where(ctx, line)
        for x in flat(eng, v):
            self.c.oblig(self.key("bounded"), self.short(eng, st, x), w, f"a wait of {show(x)[:120]}: longer than the caller allowed, or for ever",
                         [f"{show(t)[:120]} = {b}" for t, b in list(st.facts.items())[-6:]])
        self.c.oblig(self.key("armed"), bool(st.ts.pop("armed", None)), w, "a wait without renewed interest in the socket: what arrives does not end it")

    def short(self, eng, st, x):
        x = unref(x)
        if x.op == "param":
            return st.facts.get(mk("discr", x, "core::option::Option")) == "Some"
        if x.op == "agg" and x.a[1] == "Some":
            return any(self.atmost(y) for y in flat(eng, x.a[2][0]))
        return False

    def atmost(self, d):
        d = strip_cast(unref(d))
        if d.op == "fld" and d.a[1] == "Some.0" and d.a[0].op == "param":
            return True
        if d.op in ("pure", "ret") and d.a[0].split("::")[-1] == "min" or d.op == "bin" and d.a[0].lower() == "min":
            return any(self.atmost(y) for y in (callargs(d) if d.op != "bin" else d.a[1:]))
        return d.op == "agg" and d.a[0].endswith("Duration") and not has(d, lambda y: y.op == "const" and y.a[1] != 0) or d.op == "const" and d.a[1] == 0


def S07(c):
    c.rule = ("The functions the binary gives to the server to make sockets return them only after set_nonblocking(true) succeeded on them; in recv and recv_from of the binary's sockets every Poller::wait is given Some of at "
              "most the time the caller allowed (zero when it allowed none), after the interest in that socket was renewed.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        for i, name, role in ((4, "create_bound_socket", "session"), (3, "create_socket", "listen")):
            n = 0
            for f in socket_callbacks(p, i, name):
                r = Made(c, p, role)
                c.run(p, f, [r])
                n += r.n
            c.floor(f"{cfg}:{role}:made", n, 1, "sockets handed out")
        for trait, role, m in (("BoundSocket", "session", "recv"), ("Socket", "listen", "recv_from")):
            n = 0
            for f in methods_of(p, trait, m):
                r = S07Rule(c, p, role)
                c.run(p, f, [r])
                n += r.n["wait"]
            c.floor(f"{cfg}:{role}:wait", n, 1, "waits for a datagram")
