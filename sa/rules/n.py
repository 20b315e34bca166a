"""N: negotiation of block size, window size, timeout and transfer size."""
import engine
from common import *
from sess import *
from terms import *
from rules.e import NEG_LEAVES, SENDS, Query, Typed, content, callees, ext_get, is_field, negotiation_roots, query, tail
from rules.w import flat

# option: (field of ConnectionOptions, Extension, least value, default of the field)
OPTIONS = {
    "block": ("block_size", "BlockSize", 512, 512),
    "window": ("window_size", "WindowSize", 1, 1),
    "timeout": ("retry_packet_after_timeout", "Timeout", 1, None),
    "size": ("file_size", "TransferSize", None, None),
}


def fname(t):
    return t.a[0].split("::")[-1] if t.op in ("pure", "ret") else ""


def inner(t):
    """The number in a Duration::from_secs or Some"""
    t = strip_cast(t)
    while True:
        if t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("from_secs", "as_secs", "clone"):
            t = strip_cast(unref(callargs(t)[0]))
        elif t.op == "agg" and t.a[1] == "Some":
            t = strip_cast(t.a[2][0])
        else:
            return t


class Neg(Enums):
    """Follows one option through a negotiation function."""
    server = True

    def __init__(self, c, prog, opt):
        self.c, self.p, self.opt = c, prog, opt
        self.field, self.ext, self.least, self.default = OPTIONS[opt]
        self.n = {"return": 0, "taken": 0, "echo": 0}
        self.bounds = set()
        self.options = set()

    def start(self, eng, st, ctx):
        for i in range(1, ctx.fn.argc + 1):
            if tail(ctx.fn.locals[i].split("<")[0]) == "ConnectionOptions":
                self.options |= set(st_params(eng, ctx, i))

    def key(self, k):
        return f"{self.c.cfg}:{self.opt}:{k}"

    def own(self, t):
        """The option's value before the negotiation"""
        t = inner(t)
        return is_field(t, self.field) and not has(t, lambda y: y.op in ("ret", "pure", "mut"))

    def asked(self, eng, t):
        """t is the number the peer sent (0 where that could not be read)"""
        ms = flat(eng, inner(t))
        return any(self.read(m) for m in ms) and all(self.read(m) or m.op == "const" and m.a[1] == 0 for m in ms)

    def read(self, m):
        m = strip_cast(m)
        return m.op == "fld" and str(m.a[1]).split(".")[-2:] == ["Ok", "0"] and m.a[0].op in ("pure", "ret") and m.a[0].a[0].split("::")[-1] in ("parse", "from_str") and ext_get(m, self.ext)

    def limit(self, t):
        """t is what the value may not exceed"""
        t = strip_cast(t)
        if self.opt == "timeout":
            return t.op in ("pure", "ret") and t.a[0].split("::")[-1] == "as_secs" and has(t, lambda y: is_field(y, "request_timeout"))
        if not self.server:
            return self.own(t)
        name = "max_" + self.field
        if t.op == "param":
            self.bounds.add(t)
            return True
        return is_field(t, name)

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Option":
            x = unref(x)
            if x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("get", "remove", "get_mut") and ext_get(x, self.ext):
                st.ts["req"] = names
        elif tail(adt) == "Result" and names == {"Err"} and fname(x) in ("parse", "from_str") and ext_get(x, self.ext):
            st.ts["low"] = True

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op in ("pure", "ret") and t.a[0].split("::")[-1] == "contains_key" and isinstance(v, bool) and has(t, lambda y: y.op == "agg" and y.a[1] == self.ext and tail(y.a[0]) == "Extension") and has(t, lambda y: y.op == "param"):
            st.ts["req"] = frozenset(["Some" if v else "None"])
        if not isinstance(v, bool) or t.op not in ("bin", "discr", "pure"):
            return
        if v is False and fname(t) == "contains" and "RangeInclusive" in t.a[0]:
            rg, x = [unref(z) for z in callargs(t)][:2]
            ends = callargs(rg) if rg.op == "pure" else ()
            if len(ends) > 1 and linear(ends[0]) == ({}, self.least) and self.limit(ends[1]) and self.asked(eng, x):
                st.ts["out"] = True
        for a, b, k in upper_bounds(st, [(t, v)]):
            x = next(iter(a)) if len(a) == 1 else None
            y = next(iter(b)) if len(b) == 1 else None
            if not a and y is not None and self.least is not None and k <= -self.least and self.asked(eng, y):
                st.ts["ge"] = True
            if not b and x is not None and self.least is not None and k < self.least and self.asked(eng, x):
                st.ts["low"] = True
            if x is not None and y is not None:
                if self.asked(eng, x) and self.limit(y) and k <= 0:
                    st.ts["le"] = True
                if self.asked(eng, y) and self.limit(x) and k <= 0:
                    st.ts["gt"] = True

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail in ("insert", "insert_unique", "push") and len(args) > 2:
            k = unref(eng.view(st, args[1]))
            if k.op == "agg" and tail(k.a[0]) == "Extension" and k.a[1] == self.ext:
                st.ts["ins"] = eng.view(st, args[2])

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        parts = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        opts = None
        for x in (parts, *(parts.a[2] if parts.op == "agg" else ())):
            if all(self.base(y) in self.options or y.op == "agg" and tail(y.a[0]) == "ConnectionOptions" for y in alts(eng, x)):
                opts = opts or x
        if opts is None:
            self.c.oblig(self.key("options"), False, ctx.fn.path, f"the negotiated options are not among what is returned: {show(parts)[:200]}")
            return
        self.n["return"] += 1
        for o in alts(eng, opts):
            self.accepted(eng, st, ctx, eng.project(o, self.field))

    def base(self, t):
        while t.op == "over":
            t = t.a[0]
        return t

    def accepted(self, eng, st, ctx, val):
        pass


class ServerNeg(Neg):
    only = ("honoured", "bounds", "maximum", "origin")

    def want(self, k, *a):
        if k in self.only:
            self.c.oblig(self.key(k), *a)

    def accepted(self, eng, st, ctx, val):
        ts, at = st.ts, ctx.fn.path
        valid = self.own(val)
        if valid:
            if self.opt != "size":
                over = self.opt == "timeout" and (ts.get("out") or ts.get("gt"))
                self.want("honoured", ts.get("req") == {"None"} or bool(ts.get("low") or ts.get("out") and ts.get("le") or over), at, f"a {self.ext} not known to be too small is not taken over", sorted(map(str, ts)))
            self.want("unused", "ins" not in ts, at, f"the server confirms a {self.ext} it does not use")
            return
        self.n["taken"] += 1
        if self.opt != "size":
            for m in {inner(val)} if self.asked(eng, val) else flat(eng, inner(val)):
                if self.asked(eng, m):
                    self.want("bounds", bool(ts.get("ge") and ts.get("le")), at,
                                 f"the client's {self.ext} is used though it was not found to lie between {self.least} and the configured maximum", sorted(map(str, ts)))
                elif self.limit(m):
                    self.want("maximum", bool(ts.get("gt")) and self.opt != "timeout", at, f"the configured maximum is used though the client did not ask for at least that {self.ext}")
                else:
                    self.want("origin", self.least_of(eng, m) and bool(ts.get("ge")), at, f"the {self.ext} used is neither what the client asked for nor the configured maximum: {show(m)[:200]}")
        ins = ts.get("ins")
        self.want("told", ins is not None, at, f"the server uses a {self.ext} that it does not tell the client")
        if ins is not None:
            self.n["echo"] += 1
            self.want("echo", self.spells(eng, ins, inner(val)), at, f"what the server tells the client is not the {self.ext} it uses: {show(ins)[:200]} for {show(val)[:100]}")

    def least_of(self, eng, m):
        if m.op not in ("pure", "ret") or m.a[0].split("::")[-1] != "min":
            return False
        x, y = [strip_cast(unref(z)) for z in callargs(m)][:2]
        return self.asked(eng, x) and self.limit(y) or self.asked(eng, y) and self.limit(x)

    def spells(self, eng, ins, n):
        """ins is n in decimal"""
        for x in sub_expand(eng, ins):
            if x.op in ("pure", "ret"):
                f = x.a[0].split("::")[-1]
                if f in ("new_display", "to_string") and strip_cast(unref(callargs(x)[0])) is n:
                    return True
        # the client's own spelling
        return self.asked(eng, n) and ins.op != "mut" and ext_get(ins, self.ext)


def roots_of(c, p, server):
    """The negotiation functions; in builds without encryption those of the same path"""
    paths = {f.path for f in negotiation_roots(c, c.prog("full", "lib"), server)}
    return [f for f in p.roots if f.path in paths]


def negotiation(c, cls, server, opts, cfgs=("full", "stackenc", "alloc", "stack")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = roots_of(c, p, server)
        c.floor(f"{cfg}:roots", len(roots), 1, "negotiation functions")
        for opt in opts:
            n, bounds = {}, {}

            def go(sub, root):
                r = cls(sub, p, opt)
                sub.run(p, root, [r], opaque=lambda d, fn: d.tail in NEG_LEAVES, max_steps=80000)
                for k, v in r.n.items():
                    n[k] = n.get(k, 0) + v
                if r.bounds:
                    bounds.setdefault(root.path, set()).update(r.bounds)
            climb(c, p, roots, go)
            c.floor(f"{cfg}:{opt}:return", n.get("return", 0), 1, "ways to accept")
            if server:
                c.floor(f"{cfg}:{opt}:taken", n.get("taken", 0), 1, f"ways to use the {OPTIONS[opt][1]} asked for")
                for path, ps in bounds.items():
                    passed_on(c, p, path, ps, "max_" + OPTIONS[opt][0], opt)


class PassedOn(engine.Rule):
    def __init__(self, c, callee, idx, name, key):
        self.c, self.callee, self.idx, self.name, self.key = c, callee, idx, name, key
        self.up = set()
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.path == self.callee and self.idx < len(args):
            self.n += 1
            v = strip_cast(eng.view(st, args[self.idx]))
            if v.op == "param":
                self.up.add(v)
            else:
                self.c.oblig(self.key, is_field(v, self.name), where(ctx, line), f"the maximum negotiated with is not the configured {self.name}: {show(v)[:200]}")


def passed_on(c, p, path, params, name, opt):
    """The bound the function was given as a parameter is the configured one in every call"""
    todo, done = [(path, t) for t in params], set()
    while todo:
        callee, t = todo.pop()
        if (callee, t) in done:
            continue
        done.add((callee, t))
        idx = t.a[0] - 1
        froms = direct_callers(p, lambda o: o["path"] == callee)
        c.floor(f"{c.cfg}:{opt}:callers", len(froms), 1, f"callers of {callee}")
        for f in froms:
            r = PassedOn(c, callee, idx, name, f"{c.cfg}:{opt}:configured")
            c.run(p, f, [r], opaque=lambda d, fn: True, max_steps=40000)
            todo += [(f.path, u) for u in r.up]


def st_params(eng, ctx, i):
    return [mk("param", i, ctx.fn.names.get(str(i), f"arg{i}"))]


def N01(c):
    c.rule = ("At every Ok return of the server's negotiation the block size, window size and timeout used are the defaults, or the number parsed from the client's extension, known to be at least "
              "512, 1 and 1 and at most max_block_size, max_window_size and request_timeout, or (block size, window) the configured maximum where the client asked for at least that; the maximum "
              "passed down is the configured one.")
    negotiation(c, ServerNeg, True, ("block", "window", "timeout"))


class N02Neg(ServerNeg):
    only = ("unused", "told", "echo")


class Accept(Typed):
    """The function that answers an accepted request"""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"oack": 0, "return": 0}

    def key(self, k):
        return f"{self.c.cfg}:answer:{k}"

    def mine(self, eng, t):
        return t.op == "param" and "Extension" in self.ptype(eng, t)

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if isinstance(v, bool) and has(t, lambda x: self.mine(eng, x)):
            for a, b, k in upper_bounds(st, [(t, v)]):
                if len(a) == 1 and not b and k <= 0 and next(iter(a)).op == "pure" and next(iter(a)).a[0].split("::")[-1] == "len":
                    st.ts["empty"] = True
            if t.op in ("pure", "ret") and t.a[0].split("::")[-1] == "is_empty" and v:
                st.ts["empty"] = True

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and x.op in ("ret", "pure") and x.a[0] in SENDS and names == {"Ok"}:
            for k in ("oack", "ack"):
                if st.ts.get(k) == "tried":
                    st.ts[k] = "ok"

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "to_buffer" and views:
            st.ts["pkt"] = unref(views[0])

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name not in SENDS:
            return
        for p in alts(eng, st.ts.get("pkt") or FALSE):
            k = kind(p)
            if k is None:
                self.c.oblig(self.key("known"), False, where(ctx, line), "what the request is answered with is not known")
            elif k == "OptionalAck":
                e = field(self.p, payload(p), "extensions")
                self.c.oblig(self.key("content"), any(self.mine(eng, x) for x in (e, unref(e))), where(ctx, line), f"the options confirmed are not the negotiated ones: {show(e)[:200]}")
                st.ts["oack"] = "tried"
                self.n["oack"] += 1
            elif k == "Ack":
                st.ts["ack"] = "tried"
                self.c.oblig(self.key("plain"), bool(st.ts.get("empty")), where(ctx, line), "a request is acknowledged without its options although some are in use")

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] in ("None", "Err") or v is FALSE:
            return
        self.n["return"] += 1
        self.c.oblig(self.key("sent"), st.ts.get("oack") == "ok" or bool(st.ts.get("empty")), ctx.fn.path, "a session starts though the options in use were not sent to the client")
        self.c.oblig(self.key("answered"), "tried" not in (st.ts.get("oack"), st.ts.get("ack")), ctx.fn.path, "a session starts though its answer could not be sent")


class Kept(engine.Rule):
    """What the negotiation returned is what the session gets"""
    def __init__(self, c, prog, parse):
        self.c, self.p, self.parse = c, prog, parse
        self.n = {"kept": 0}

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        last = str(path[-1]).split(".")[-1] if path else ""
        if last in ("used_extensions", "options") and base[0] == "M":
            want = {"used_extensions": "0", "options": "1"}[last]
            vs = flat(eng, v)
            ok = all(x.op == "fld" and has(x, lambda y: y.op in ("ret", "pure") and y.a[0] in self.parse) and str(x.a[1]).split(".")[-1] == want for x in vs)
            self.c.oblig(f"{self.c.cfg}:kept:{last}", ok, where(ctx, 0), f"the session's {last} are not what the negotiation returned: {show(v)[:200]}")
            self.n["kept"] += 1


def N02(c):
    c.rule = ("In the server's negotiation an option is put into the confirmed extensions exactly when it is taken over, and its text is the number used; the caller keeps the extensions and options the "
              "negotiation returned; the function that answers a request sends Packet::OptionalAck of the extensions it was given before a successful return unless these are known to be empty, and Packet::Ack only "
              "if they are.")
    negotiation(c, N02Neg, True, tuple(OPTIONS))
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        sends = p.reaching(named(*SENDS))
        ext = lambda f: any("Extension" in f.locals[i] and "Map<" in f.locals[i] for i in range(1, f.argc + 1))
        srv = [f for f in p.roots if f.crate == "tftp_dus" and f.id in sends and ext(f)]
        paths = {f.path for f in srv}
        srv = [f for f in srv if not any(g.path in paths and g.path != f.path for g in callees(p, f))]
        c.floor(f"{cfg}:answer", len(srv), 1, "functions that answer a request")
        n = {}

        def go(sub, root):
            r = Accept(sub, p)
            sub.run(p, root, [r], opaque=leaves(p, extra=("finalize",)), max_steps=40000)
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        climb(c, p, srv, go)
        c.floor(f"{cfg}:answer:oack", n.get("oack", 0), 1, "confirmations of options")
        c.floor(f"{cfg}:answer:return", n.get("return", 0), 1, "ways to start a session")
        parse = {f.path for f in roots_of(c, p, True)}
        names = {engine.short_name(x) for x in parse}
        froms = direct_callers(p, lambda o: o["path"] in parse)
        c.floor(f"{cfg}:callers", len(froms), 1, "callers of the server's negotiation")
        for f in froms:
            r = Kept(c, p, names)
            c.run(p, f, [r], opaque=lambda d, fn: fn.path in parse, max_steps=40000)
            c.floor(f"{cfg}:kept", r.n["kept"], 2, "places where the negotiated options are kept")


class ClientNeg(Neg):
    server = False

    def accepted(self, eng, st, ctx, val):
        ts, at = st.ts, ctx.fn.path
        req = ts.get("req", frozenset(("Some", "None")))
        if "Some" in req and self.opt != "size":
            ok = self.asked(eng, val)
            self.c.oblig(self.key("taken"), ok or req != {"Some"}, at, f"the server confirmed a {self.ext} that the client does not use: {show(val)[:200]}", sorted(map(str, ts)))
            if ok:
                self.n["taken"] += 1
                self.c.oblig(self.key("least"), bool(ts.get("ge")), at, f"the server's {self.ext} is used though it was not found to be at least {self.least}")
                if self.opt != "timeout":
                    self.c.oblig(self.key("most"), bool(ts.get("le")), at, f"the server's {self.ext} is used though it was not found to be at most the one asked for")
        if "None" in req:
            if self.default is not None:
                ms = flat(eng, inner(val))
                self.c.oblig(self.key("default"), all(m.op == "const" and m.a[1] == self.default for m in ms) or "Some" in req and self.asked(eng, val), at,
                             f"without a confirmed {self.ext} the client does not use {self.default}: {show(val)[:200]}")


class N03Query(Query):
    """Options without the server's confirmation; confirmation only of what was asked for"""
    def on_enum(self, eng, st, x, adt, names):
        super().on_enum(eng, st, x, adt, names)
        if tail(adt) == "Result" and names == {"Ok"} and x in dict(st.ts.get("val", ())):
            st.ts["valid"] = dict(st.ts["val"])[x]

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        vs = [unref(v) for v in views]
        if d.path in self.paths:
            ok = self.received(vs[0]) and st.ts.get("valid") is vs[0]
            self.c.oblig(f"{self.c.cfg}:query:validated", ok, where(ctx, line), "the server's options are taken over without having been compared to those asked for")
        elif d.path in self.checks:
            i = 0 if self.received(vs[0]) else 1
            self.n["check"] = self.n.get("check", 0) + 1
            mine = vs[1 - i]
            self.c.oblig(f"{self.c.cfg}:query:compared", self.received(vs[i]) and not self.received(mine) and self.sent(eng, st, mine), where(ctx, line),
                         f"the server's options are not compared to those asked for but to {show(mine)[:200]}")
            if i == self.checks[d.path]:
                st.ts["val"] = st.ts.get("val", ()) + ((res, vs[i]),)

    def received(self, t):
        return has(t, lambda x: x.op in ("pure", "ret") and x.a[0].split("::")[-1] == "from_bytes")

    def request(self, eng, st, ctx, line, ext):
        st.ts["ext"] = ext

    def sent(self, eng, st, t):
        e = st.ts.get("ext")
        return e is not None and bool(self.plain(eng, t) & self.plain(eng, e))

    def plain(self, eng, t):
        return {UNIT if fname(x) in ("new", "default") and not callargs(x) else x for y in flat(eng, t) for x in [unref(y)]}

    def accepted(self, eng, st, ctx, opts, q):
        if st.ts.get("parse"):
            return
        for f, d in (("block_size", 512), ("window_size", 1)):
            ms = {strip_cast(m) for o in alts(eng, opts) for m in flat(eng, strip_cast(eng.project(o, f)))}
            self.c.oblig(f"{self.c.cfg}:query:{f}", all(m.op == "const" and m.a[1] == d for m in ms), where(ctx, 0),
                         f"an answer without options is accepted with a {f} other than {d}: {', '.join(show(m)[:100] for m in ms)}")


PASS = {"iter", "keys", "into_iter", "copied", "cloned", "by_ref", "into_keys"}
TRIM = {"fold", "trim_end_matches", "trim_end", "trim", "as_str", "deref", "next", "count", "collect", "peekable", "peek", "to_string", "len", "join", "is_some", "is_none", "strip_suffix", "unwrap_or", "last", "first",
        "map", "for_each"}


class Subset(Enums):
    """Ok only if every key of one map was found in the other"""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"ok": 0}
        self.kinds = {}           # adapter site -> "missing" or "present"
        self.source = set()       # the parameters whose keys are walked

    def walked(self, t):
        """The parameter all of whose entries the iterator t yields"""
        t = unref(t)
        while t.op != "param":
            if fname(t) not in PASS and t.op not in ("mut", "&", "deref"):
                return None
            t = unref(t.a[3][0] if t.op == "mut" else callargs(t)[0] if t.op in ("pure", "ret") else t.a[0])
        return t

    def looked(self, t):
        """t looks up, in one parameter, a key of the other: (walked, the item)"""
        if fname(t) not in ("contains_key", "get"):
            return None
        m, k = [unref(x) for x in callargs(t)][:2]
        if m.op != "param":
            return None
        for x in sub_terms(k):
            if x.op == "ret" and x.a[0].startswith("closure-arg:"):
                src = self.walked(x.a[-1])
            elif fname(x) == "next":
                src = next((w for y in callargs(x) for w in [self.walked(y)] if w is not None), None)
            else:
                continue
            if src is not None and src is not m and not (k.op == "fld" and str(k.a[1]) == "1"):
                return src, x
        return None

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "Option" and len(names) == 1:
            some = names == {"Some"}
            if fname(x) == "get":
                self.lookup(st, x, some)
            elif fname(x) == "next" and self.walked(callargs(x)[0]) is not None:
                if some:
                    st.ts["item"] = x
                elif not st.ts.get("bad"):
                    st.ts["done"] = True
                    self.source.add(self.walked(callargs(x)[0]))
            elif not some:
                self.nothing(st, x)

    def lookup(self, st, t, found):
        k = self.looked(t)
        if k is not None:
            st.ts["found"] = found
            if found and st.ts.get("item") is k[1]:
                st.ts.pop("item")

    def nothing(self, st, t):
        """t, made of what an adapter let through, is empty"""
        x = unref(t)
        while True:
            if x.op in ("ret", "pure") and x.op == "ret" and self.kinds.get(site_of(x)):
                if self.kinds[site_of(x)][0] == "missing" and fname(x) in ("filter", "find", "position", "filter_map", "any"):
                    st.ts["done"] = True
                    self.source.add(self.kinds[site_of(x)][1])
                return
            if x.op in ("&", "deref"):
                x = x.a[0]
            elif x.op == "mut":
                x = unref(x.a[3][0])
            elif x.op in ("pure", "ret") and fname(x) in TRIM | PASS or x.op == "pure" and x.a[0] == "len":
                x = unref(callargs(x)[0]) if callargs(x) else None
            else:
                return
            if x is None:
                return

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if not isinstance(v, bool):
            return
        f = fname(t)
        if f == "contains_key":
            self.lookup(st, t, v)
        elif f == "all" and v and self.kinds.get(site_of(t), ("",))[0] == "present":
            st.ts["done"] = True
            self.source.add(self.kinds[site_of(t)][1])
        elif f == "any" and not v or f == "is_empty" and v:
            self.nothing(st, t if f == "any" else callargs(t)[0])
        for a, b, k in upper_bounds(st, [(t, v)]):
            if len(a) == 1 and not b and k <= 0:
                self.nothing(st, next(iter(a)))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail == "next" and "item" in st.ts:
            st.ts["bad"] = True

    def on_return(self, eng, st, ctx, v):
        if not hasattr(ctx, "site_") or not ctx.oargs:
            return
        src = self.walked(eng.view(st, ctx.oargs[0]))
        if src is None:
            return
        pol = None
        x, sign = v, True
        while x.op == "un" or x.op == "not" or x.op == "bin" and x.a[0] == "Eq" and FALSE in x.a[1:]:
            x, sign = (x.a[-1] if x.op != "bin" else next(y for y in x.a[1:] if y is not FALSE)), not sign
        if x.op == "const" and "found" in st.ts:
            pol = "present" if (bool(x.a[1]) == sign) == st.ts["found"] else "missing"
        else:
            if fname(x) in ("is_some", "is_none"):
                sign = sign == (fname(x) == "is_some")
                x = unref(callargs(x)[0])
            elif x.op == "bin" and x.a[0] == "Eq":
                k = next((y.a[1] for y in x.a[1:] if y.op == "const"), None)
                d = next((y.a[0] for y in x.a[1:] if y.op == "discr"), None)
                if d is not None and k in ("Some", "None"):
                    sign = sign == (k == "Some")
                    x = unref(d)
            if self.looked(x) is not None and self.looked(x)[0] is src:
                pol = "present" if sign else "missing"
        key = ctx.site_ if isinstance(ctx.site_, tuple) else (ctx.site_,)
        old = self.kinds.get(key)
        self.kinds[key] = (pol if old is None or old[0] == pol else "mixed", src)
        st.ts.pop("found", None)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["ok"] += 1
        self.c.oblig(f"{self.c.cfg}:subset", bool(st.ts.get("done")) and not st.ts.get("bad") and "item" not in st.ts, ctx.fn.path,
                     "the server's options are accepted although some may not have been asked for", str(self.kinds)[:300])


def site_of(t):
    return t.a[1][:2] if t.op == "ret" and isinstance(t.a[1], tuple) else None


def comparers(p):
    """Functions of two extension maps that return a Result"""
    return [f for f in p.roots if f.crate == "tftp_dus" and f.argc == 2 and "Result<" in f.locals[0] and all("Extension" in f.locals[i] and "Map<" in f.locals[i] for i in (1, 2))]


def N03(c):
    c.rule = ("Client: at every Ok return of the negotiation, a confirmed block size, window size or timeout is the number used, at least 512, 1 and 1 and (block size, window) at most the one asked for; without "
              "a confirmed one the block size is 512 and the window 1. The query hands the received options to the negotiation only after the comparison with those sent was Ok, which it is only if no received "
              "key was missing from those sent; without confirmation it returns 512 and 1.")
    negotiation(c, ClientNeg, False, ("block", "window", "timeout"))
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        fs = comparers(p)
        c.floor(f"{cfg}:comparers", len(fs), 1, "functions that compare the confirmed options to those asked for")
        idx = {}
        for f in fs:
            r = Subset(c, p)
            c.run(p, f, [r], opaque=lambda d, fn: False, max_steps=40000)
            c.floor(f"{cfg}:comparers:ok", r.n["ok"], 1, "ways to accept")
            idx[f.path] = min((t.a[0] - 1 for t in r.source), default=-1)

        class Q(N03Query):
            paths = {f.path for f in roots_of(c, p, False)}
            checks = idx
        n = query(c, Q, (cfg,))
        c.floor(f"{cfg}:query:compared", n.get("check", 0), 1, "comparisons of the confirmed options")


class Ask(Typed):
    """The options a client puts into its request"""
    WANT = {"BlockSize": ("block_size", 512), "WindowSize": ("window_size", 1), "TransferSize": ("file_size", None), "EncryptionLevel": ("encryption_level", "None"), "Timeout": ("retry_packet_after_timeout", None)}

    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"ask": 0, "return": 0}

    def mine(self, eng, t, f):
        return is_field(t, f) and "ConnectionOptions" in self.ptype(eng, strip_cast(t).a[0])

    def put(self, st, x):
        st.ts["put"] = st.ts.get("put", frozenset()) | {x}

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "Option" and names == {"None"} and self.mine(eng, x, "file_size"):
            self.put(st, "TransferSize")
        elif tail(adt) == "EncryptionLevel" and names == {"None"} and self.mine(eng, x, "encryption_level"):
            self.put(st, "EncryptionLevel")

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        for x, (f, d) in self.WANT.items():
            if isinstance(d, int) and not isinstance(v, bool) and v == d and self.mine(eng, t, f):
                self.put(st, x)
        if not isinstance(v, bool):
            return
        for x, (f, d) in self.WANT.items():
            if isinstance(d, int) and t.op == "bin" and t.a[0] == "Eq" and v:
                for a, b in (t.a[1:], t.a[:0:-1]):
                    if b.op == "const" and b.a[1] == d and self.mine(eng, a, f):
                        self.put(st, x)
            elif isinstance(d, int):
                for a, b, k in upper_bounds(st, [(t, v)]):
                    if not a and len(b) == 1 and k <= -d and self.mine(eng, next(iter(b)), f):
                        st.ts["lo" + x] = True
                    if not b and len(a) == 1 and k <= d and self.mine(eng, next(iter(a)), f):
                        st.ts["hi" + x] = True
                if "lo" + x in st.ts and "hi" + x in st.ts:
                    self.put(st, x)
        # a timeout of less than a second cannot be asked for; the default one needs not be
        if has(t, lambda y: y.op == "fld" and self.mine(eng, y, "retry_packet_after_timeout")):
            if t.op == "bin" and t.a[0] == "Eq" and v or t.op in ("pure", "ret") and (fname(t) == "eq" and v or fname(t) == "ne" and not v):
                self.put(st, "Timeout")
            for a, b, k in upper_bounds(st, [(t, v)]):
                if not b and k <= 0 and len(a) == 1 and fname(next(iter(a))) == "as_secs":
                    self.put(st, "Timeout")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail in ("insert", "insert_unique", "push") and len(args) > 2:
            k = unref(eng.view(st, args[1]))
            if k.op == "agg" and tail(k.a[0]) == "Extension" and k.a[1] in self.WANT:
                self.n["ask"] += 1
                val = eng.view(st, args[2])
                f = self.WANT[k.a[1]][0]
                ok = any(fname(x) in ("new_display", "to_string") and self.shown(eng, callargs(x)[0], f) for x in sub_expand(eng, val) if x.op in ("pure", "ret"))
                self.c.oblig(f"{self.c.cfg}:value:{k.a[1]}", ok, where(ctx, line), f"the {k.a[1]} asked for is not the configured {f}: {show(val)[:200]}")
                self.put(st, k.a[1])

    def shown(self, eng, t, f):
        t = strip_cast(unref(t))
        while t.op == "&":
            t = t.a[0]
        ms = flat(eng, inner(t))
        return bool(ms) and all(self.mine(eng, unsome(m), f) for m in ms)

    def on_root_return(self, eng, st, ctx, v):
        self.n["return"] += 1
        for x in self.WANT:
            if x == "EncryptionLevel" and not self.enc:
                continue
            self.c.oblig(f"{self.c.cfg}:asked:{x}", x in st.ts.get("put", ()), ctx.fn.path, f"the configured {self.WANT[x][0]} is not asked for although it is not the default one")


def unsome(t):
    t = strip_cast(t)
    return t.a[0] if t.op == "fld" and str(t.a[1]) in ("Some.0",) else t


def N04(c):
    c.rule = ("In the functions that make a request's extensions from ConnectionOptions, each inserted BlockSize, WindowSize, Timeout, TransferSize and EncryptionLevel is the decimal (or name) of the configured "
              "field, and at every return each of them was inserted unless the field was found to be the default.")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        fs = [f for f in p.roots if f.crate == "tftp_dus" and "Extension" in f.locals[0] and f.locals[0].split("<")[0].endswith("Map") and any("ConnectionOptions" in f.locals[i] for i in range(1, f.argc + 1))]
        c.floor(f"{cfg}:ask", len(fs), 1, "functions that make a request's extensions")

        def go(sub, root):
            r = Ask(sub, p)
            r.enc = cfg in ("full", "stackenc")
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in NEG_LEAVES, max_steps=40000)
            c.floor(f"{cfg}:ask:inserted", r.n["ask"], 4, "options asked for")
            c.floor(f"{cfg}:ask:return", r.n["return"], 1, "returns")
        climb(c, p, fs, go)


MAPGET = ("get", "get_mut", "get_key_value", "remove", "swap_remove")


class SizeRule(Enums):
    """What a download request is told about the size of the file"""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"opened": 0, "return": 0}

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def of_size(self, eng, t):
        """t is an operation on the entry of the transfer size"""
        t = unref(t)
        if t.op == "fld":
            return self.of_size(eng, t.a[0])
        return t.op in ("ret", "pure") and any(k.op == "agg" and tail(k.a[0]) == "Extension" and k.a[1] == "TransferSize" for k in map(unref, callargs(t)))

    def size(self, st):
        return mk("fld", mk("fld", st.ts["file"], "Ok.0"), "0") if "file" in st.ts else None

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.rustcall and any("ServerConfig" in str(t) for t in d.targs) and "Option<u64>" in result_type(ctx, bb):
            self.n["opened"] += 1
            st.ts["file"] = res
        elif not views or "file" not in st.ts:
            return
        elif d.tail in ("remove", "swap_remove", "remove_entry"):
            if self.of_size(eng, res) or self.of_size(eng, unref(views[0])):
                st.ts["now"] = "none"
        elif d.tail in ("insert", "insert_entry", "or_insert", "or_insert_with"):
            if self.of_size(eng, res) and len(views) > 2:
                self.told(eng, st, views[2])
            elif self.of_size(eng, unref(views[0])):
                self.told(eng, st, views[1])

    def told(self, eng, st, v):
        s = self.size(st)
        some = mk("fld", s, "Some.0") if s is not None else None
        st.ts["now"] = "size" if some is not None and spelled(eng, v, some) else "other"

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if base[0] == "M" and not path and "file" in st.ts:
            for x in flat(eng, base[1]):
                x = unref(x)
                while x.op == "fld" or fname(x) in ("get_mut", "into_mut") and not self.of_size(eng, x):
                    x = unref(x.a[0] if x.op == "fld" else callargs(x)[0])
                if self.of_size(eng, x):
                    self.told(eng, st, v)

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "Entry" and self.of_size(eng, x) and len(names) == 1:
            st.ts["asked"] = "Occupied" in names
        elif tail(adt) == "Option" and len(names) == 1 and x.op in ("ret", "pure") and fname(x) in MAPGET and self.of_size(eng, x):
            st.ts["asked"] = "Some" in names
        elif tail(adt) == "Option" and len(names) == 1 and self.size(st) is x:
            st.ts["known"] = "Some" in names

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if isinstance(v, bool) and fname(t) == "contains_key" and self.of_size(eng, t):
            st.ts["asked"] = v

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err" or "file" not in st.ts:
            return
        self.n["return"] += 1
        ts, at = st.ts, ctx.fn.path
        now, asked, known = ts.get("now", "client"), ts.get("asked"), ts.get("known")
        if asked is not True:
            self.c.oblig(self.key("unasked"), now in ("client", "none"), at, "the size of the file is announced though it was not asked for")
        if asked is not False:
            if known is not True:
                self.c.oblig(self.key("unknown"), now == "none", at, "the server announces a size though the size of the file is not known")
            if known is not False:
                self.c.oblig(self.key("announced"), now == "size", at, f"a request for the size of the file is not answered with that size ({now})")
        parts = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        parts = parts.a[2] if parts.op == "agg" and parts.a[0] == "tuple" else (parts,)
        con = [x for x in parts if x.op == "agg" and self.p.field_index(x.a[0], x.a[1], "options") is not None]
        for x in con:
            s = eng.project(field(self.p, x, "options"), "file_size")
            self.c.oblig(self.key("session"), s is self.size(st), at, f"the session's transfer size is not the size of the file: {show(s)[:200]}")
        self.c.oblig(self.key("connection"), bool(con), at, "the session's options are not known")
        own = [x for x in parts if self.own(x)]
        self.c.oblig(self.key("extensions"), bool(own), at, "the options confirmed are not those of the request")

    def own(self, x):
        """x is the request's extensions, as changed here"""
        while x.op in ("mut", "over"):
            if x.op == "mut":
                x = unref(callargs_of(x)[0])
            else:
                x = x.a[0]
        return is_field(x, "used_extensions")


def callargs_of(x):
    return x.a[3] if len(x.a) > 3 else x.a[-1]


def spelled(eng, ins, n):
    for x in sub_expand(eng, ins):
        if x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("new_display", "to_string") and strip_cast(unref(callargs(x)[0])) is n:
            return True
    return False


def N05(c):
    c.rule = ("In the function that opens the file of a download: at every successful return the entry TransferSize of the request's extensions is absent or was replaced by the decimal form of the size the "
              "create_reader callback reported, removed if that reported none, and left alone if it was not there; the session's file_size is what the callback reported, and these extensions are returned.")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = direct_callers(p, lambda o: bool(o.get("rustcall")) and o.get("inst") is None and any("ServerConfig" in t for t in o.get("targs") or ()))
        tot = {}

        inside = p.reaching(lambda o: bool(o.get("rustcall")) and any("ServerConfig" in t for t in o.get("targs") or ()))
        answers = p.reaching(named("Socket::send_to")) - inside

        def go(sub, root):
            r = SizeRule(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in ("from_bytes", "to_bytes", "to_buffer") or fn.id in answers, max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, roots, go)
        for k, msg in (("opened", "files opened for downloads"), ("return", "ways to start a download")):
            c.floor(f"{cfg}:{k}", tot.get(k, 0), 1, msg)
