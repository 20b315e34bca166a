"""L: the command line programs - configuration, known hosts, files still being written."""
import engine
from common import *
from sess import *
from terms import *
from rules.w import is_field, one

LOOKUP = "get_from_known_hosts"
APPEND = "append_to_known_hosts"
DECODE = "decode_verifying_key"
OPAQUE = (LOOKUP, APPEND, DECODE, "read_authorized_keys", "read_private_value_or_file", "create_buff_reader", "decode_private_key", "decode_signing_key")


def peel(t):
    """Without references, and conversions that keep a string's text"""
    while True:
        if t.op in ("&", "deref", "cast", "narrow"):
            t = t.a[-1] if t.op in ("cast", "narrow") else t.a[0]
        elif t.op == "pure" and len(t.a) == 2 and t.a[0].split("::")[-1] in ("as_str", "as_ref", "as_deref", "deref", "borrow", "clone", "to_string", "to_owned", "from", "into", "as_bytes", "cloned", "copied", "to_str",
                                                                            "into_boxed_str", "into_string"):
            t = t.a[1]
        else:
            return t


def last(o):
    return engine.strip_generics(o["path"]).split("::")[-1]


def outer(path):
    """The function a closure is written in"""
    return path.split("::{closure")[0]


def sub(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            todo += list(x.a)
    return seen


def facts(st):
    return [f"{show(t)[:160]} = {x}" for t, x in list(st.facts.items())[-8:]]


# ---------------------------------------------------------------------------------------------------------------- L01
class L01Rule(engine.Rule):
    """One read of a file that is still being written"""

    def __init__(self, c):
        self.c = c
        self.n = {"end": 0, "full": 0, "wait": 0, "behind": 0}

    def key(self, k):
        return f"{self.c.cfg}:read:{k}"

    @staticmethod
    def mine(t):
        """A field of the reader"""
        t = peel(t)
        return t.op == "fld" and t.a[0].op in ("deref", "param") and has(t.a[0], lambda x: x.op == "param" and x.a[0] == 1)

    def held(self, t):
        """The number of bytes kept"""
        return t.op == "pure" and t.a[0].split("::")[-1] == "len" and self.mine(t.a[1])

    def holds(self, st):
        """None: no bytes are kept, as far as this path knows they may be: their number"""
        r = True
        for t, v in st.facts.items():
            for x in t.a if t.op == "bin" else (t,):
                if isinstance(x, T) and self.held(x):
                    if t is x and v == 0 or t.op == "bin" and t.a[0] == "Eq" and v is True and any(y.op == "const" and y.a[-1] == 0 for y in t.a[1:]):
                        return False
        return r

    def on_call(self, eng, st, ctx, bb, d, args, line):
        v = [eng.view(st, a) for a in args]
        if d.name == "Read::read":
            if self.holds(st):
                self.n["behind"] += 1
                at = {x.a[2][0] for a in (v[1], args[1]) for x in sub(a) if x.op == "agg" and x.a[1] in ("RangeFrom", "Range")}
                self.c.oblig(self.key("behind"), any(self.held(x) for x in at), where(ctx, line), "reads although bytes kept from an earlier read are not put before the new ones", facts(st))
                st.ts["had"] = True
        if v and self.mine(v[0]) and d.tail in ("clear", "drain", "truncate", "split_off", "remove", "take", "replace"):
            st.ts["used"] = True
        if d.tail in ("extend_from_slice", "extend", "append", "write", "write_all", "push", "clone_from", "push_str") and v and any(self.kept(st, x) for x in v[1:]):
            st.ts["kept"] = True

    def on_branch(self, eng, st, ctx, bb, t, v):
        if not has(t, lambda x: x.op in ("ret", "pure") and x.a[0].split("::")[-1] in ("max_level", "next")):
            st.ts[f"at{ctx.fn.path[-20:]}{bb}"] = v

    def kept(self, st, a):
        """a slice of the buffer that ends behind the bytes read"""
        n = st.ts.get("read")
        return n is not None and has(a, lambda x: x.op == "agg" and x.a[1] in ("RangeTo", "Range") and self.total(st, x.a[2][-1]))

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if self.kept(st, v) and has(v, lambda x: x.op in ("ret", "pure") and x.a[0].split("::")[-1] in ("to_vec", "from", "into", "to_owned", "collect")) and (path or has(base, lambda x: x.op == "param")):
            st.ts["kept"] = st.ts["used"] = True

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name == "Atomic::load":
            st.ts["load"] = None if st.ts.get("read") else res
        elif d.name == "Read::read":
            st.ts["read"] = mk("fld", res, "Ok.0")

    def total(self, st, n):
        """n counts the bytes read now and those kept before"""
        l, k = linear(n)
        r = st.ts.get("read")
        return r is not None and k == 0 and l.get(r) == 1 and all(x is r or self.held(x) and l[x] == 1 for x in l) and (len(l) == 2 or not st.ts.get("had"))

    def on_root_return(self, eng, st, ctx, v):
        r = st.ts.get("read")
        for x in alts(eng, v):
            if r is None:
                continue
            if x.op == "agg" and x.a[1] == "Ok":
                n = x.a[2][0]
                done = st.ts.get("load") is not None and st.facts.get(st.ts["load"]) is True
                whole = self.whole(st, n)
                self.n["full" if whole else "end"] += 1
                self.c.oblig(self.key("end"), done or whole, ctx.fn.path, f"gives {show(n)[:80]} bytes, fewer than asked for, although the file was not known to be complete before it was read", facts(st))
                z = st.facts.get(n) == 0 or n.op == "const" and n.a[-1] == 0 and self.nothing(st, r)
                self.c.oblig(self.key("count"), z or self.total(st, n), ctx.fn.path, f"gives the count {show(n)[:100]}, which is not the number of bytes kept and read", facts(st))
                self.c.oblig(self.key("once"), not st.ts.get("had") or bool(st.ts.get("used")), ctx.fn.path, "gives the kept bytes and keeps them", facts(st))
            elif not has(x, lambda y: y.op == "fld" and y.a[1] == "Err.0" and callterm(y.a[0], "Read::read")):
                self.n["wait"] += 1
                self.c.oblig(self.key("kept"), self.nothing(st, r) or bool(st.ts.get("kept")), ctx.fn.path, "asks to be called again without keeping the bytes that were read", facts(st))

    def nothing(self, st, r):
        """No byte was read, and none was kept"""
        for t, v in st.facts.items():
            if v == 0 and v is not False and (t is r and not st.ts.get("had") or t.op == "bin" and t.a[0] == "Add" and r in t.a[1:]):
                return True
        return False

    def whole(self, st, n):
        for t, v in st.facts.items():
            if t.op == "bin" and t.a[0] == "Eq" and v is True and n in t.a[1:]:
                o = t.a[2] if t.a[1] is n else t.a[1]
                if self.asked(o):
                    return True
        return any(self.asked(x) and entails(st, x, n, 0) for t in st.facts for x in sub(t) if self.asked(x))

    def asked(self, x):
        return x.op == "pure" and x.a[0].split("::")[-1] == "len" and peel(x.a[1]).op == "param" and peel(x.a[1]).a[0] == 2


def L01(c):
    c.rule = ("In every Read of the binary that asks an AtomicBool: a count smaller than the buffer (0 included) is returned only on paths where the flag, loaded before the file was read, was true; a call that ends "
              "with an error of its own has kept the bytes it read; bytes kept earlier are in front of what is read next, and counted.")
    for cfg in ("full",):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        m = {}
        for f in methods_of(p, "Read", "read"):
            if not any(o["path"].split("::")[-1] == "load" and "atomic" in o["path"].lower() for _, o, _ in calls_in(f)) and f.id not in p.reaching(lambda o: last(o) == "load" and "atomic" in o["path"].lower()):
                continue
            r = L01Rule(c)
            c.run(p, f, [r])
            for k, v in r.n.items():
                m[k] = m.get(k, 0) + v
        for k in ("end", "full", "wait", "behind"):
            c.floor(f"{cfg}:{k}", m.get(k, 0), 1, f"returns of a read of a file being written ({k})")


# ---------------------------------------------------------------------------------------------------------------- L02
class L02Rule(engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    SPLIT = ("split_once", "split", "splitn", "split_whitespace", "split_ascii_whitespace", "rsplit_once", "split_at")

    def lines(self, eng, t):
        """The lines t is a part of"""
        r = set()
        for x in sub_expand(eng, t):
            if x.op in ("pure", "ret") and x.a[0].split("::")[-1] in self.SPLIT:
                r.add(peel(callargs(x)[0]))
        return r

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail != DECODE:
            return
        self.n += 1
        a = eng.view(st, args[0])
        mine = self.lines(eng, a)
        ok = False
        for t, v in st.facts.items():
            if t.op == "bin" and t.a[0] == "Eq" and v is True:
                for x, y in (t.a[1:], t.a[:0:-1]):
                    x, y = peel(x), peel(y)
                    if self.endpoint(x) and self.part(y) and self.lines(eng, y) & mine:
                        ok = True
        self.c.oblig(f"{self.c.cfg}:line", bool(mine) and ok, where(ctx, line), f"takes a key from {show(a)[-160:]} without having found the host on that line equal to the one asked for", facts(st))

    def part(self, y):
        """The whole part, not a part of it"""
        while y.op == "fld" or y.op == "agg" and y.a[1] == "Some":
            y = peel(y.a[0] if y.op == "fld" else y.a[2][0])
        return y.op in ("pure", "ret") and y.a[0].split("::")[-1] in self.SPLIT + ("next", "next_back", "nth")

    def endpoint(self, x):
        x = peel(x.a[2][0]) if x.op == "agg" and x.a[1] == "Some" else x
        return x.op == "param" and x.a[0] == 2


def L02(c):
    c.rule = "Every key get_from_known_hosts decodes is decoded on a path where a part of the same line was found equal (==, whole) to the endpoint given."
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        n = 0
        for f in roots_named(p, LOOKUP):
            r = L02Rule(c)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail == DECODE)
            n += r.n
        c.floor(f"{cfg}:keys", n, 1, "keys decoded from known hosts")


# ---------------------------------------------------------------------------------------------------------------- L03
class L03Rule(engine.Rule):
    """Recording a host's key"""

    def __init__(self, c):
        self.c = c
        self.n = {"append": 0}

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == LOOKUP:
            st.ts["asked"] = (res, peel(views[1]), self.opened(views[0]))
            st.ts["gave"] = st.ts["key"] = None
        elif d.tail == "create_buff_reader":
            st.ts["reader"] = res

    def on_fact(self, eng, st, t, v):
        asked = st.ts.get("asked")
        if t.op != "discr":
            return
        if asked and t.a[0] is asked[0]:
            st.ts["gave"] = v
        elif asked and t.a[0].op == "fld" and t.a[0].a[0] is asked[0]:
            st.ts["key"] = v
        elif t.a[0] is st.ts.get("reader"):
            st.ts["readable"] = v

    def opened(self, t):
        """The name of the file behind a reader"""
        for x in sub(t):
            if x.op in ("ret", "pure") and x.a[0].split("::")[-1] in ("create_buff_reader", "open"):
                a = callargs(x)
                return peel(a[-1])
        return None

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail != APPEND:
            return
        self.n["append"] += 1
        v = [eng.view(st, a) for a in args]
        asked = st.ts.get("asked")
        ok = False
        if asked is not None:
            res, ep, name = asked
            ok = (st.ts.get("gave") == "Err" or st.ts.get("key") == "None") and ep is peel(v[1])
            f = self.opened(v[0])
            ok = ok and (f is None or name is None or f is name)
        else:
            # the file cannot be read yet
            ok = st.ts.get("readable") == "Err"
        self.c.oblig(f"{self.c.cfg}:unknown", ok, where(ctx, line), "records a key for a host although the file was not found to have none for it", [str({k: str(x)[:200] for k, x in st.ts.items()})] + facts(st))
        s = show(v[0])
        self.c.oblig(f"{self.c.cfg}:append", "'append',True" in s and "'truncate',True" not in s, where(ctx, line), f"the known hosts are not opened for appending only: {s[:200]}")
        k = peel(v[2])
        self.c.oblig(f"{self.c.cfg}:key", k.op in ("fld", "param") and not has(k, lambda y: callterm(y, LOOKUP)), where(ctx, line), f"records {show(k)[:100]}")


class L03Caller(engine.Rule):
    def __init__(self, c, names):
        self.c, self.names = c, names
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail not in self.names:
            return
        self.n += 1
        v = [eng.view(st, a) for a in args]
        ok = any(is_field(peel(x), "endpoint") for x in v)
        self.c.oblig(f"{self.c.cfg}:host", ok, where(ctx, line), f"records the key under another name than the configured endpoint: {[show(x)[:60] for x in v]}")
        got = any(y.op in ("ret", "pure") and y.a[0].split("::")[-1] in ("send_file", "receive_file") for x in v for y in sub_expand(eng, x))
        self.c.oblig(f"{self.c.cfg}:used", got, where(ctx, line), "records a key that is not the one the transfer used")


def callee_names(p, f):
    return [p.fns[i].path for i in p.callgraph().get(f.id, ((), ()))[1] if i in p.fns]


def L03(c):
    c.rule = ("append_to_known_hosts is called only on paths where get_from_known_hosts, asked about the same endpoint in the same file, gave no key (or the file cannot be read); the file is opened with append and "
              "without truncate; the key and the endpoint are those of the transfer that ended.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        transfers = p.reaching(lambda o: last(o) in ("send_file", "receive_file"))
        # the functions that record keys, down from the transfers
        own = [f for f in reaches(p, lambda o: last(o) == APPEND) if f.id not in transfers]
        inner = {n.split("::")[-1] for n in {outer(f.path) for f in own}}
        called = {outer(x) for f in own for x in callee_names(p, f) if outer(x) != outer(f.path)}
        roots = [f for f in own if outer(f.path) not in called and f.path == outer(f.path)]
        n = 0
        for f in roots:
            r = L03Rule(c)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail in OPAQUE and d.tail not in inner)
            n += r.n["append"]
        c.floor(f"{cfg}:append", n, 1, "keys recorded")
        names = {f.path.split("::")[-1] for f in roots}
        m = 0
        for f in minimal(p, lambda o: last(o) in names):
            r = L03Caller(c, names)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail in OPAQUE or d.tail in names or d.tail in ("send_file", "receive_file", "try_into", "create_socket"), max_steps=80000)
            m += r.n
        c.floor(f"{cfg}:callers", m, 2, "transfers after which a key is recorded")


# ---------------------------------------------------------------------------------------------------------------- L04
SAME = ("max_window_size", "max_connections", "max_file_size", "max_block_size", "max_directory_depth", "allow_overwrite", "directory", "directory_list", "allow_server_port_change", "block_size", "window_size")
MILLIS = {"request_timeout": "request_timeout", "retry_packet_after_timeout": "retry_timeout"}
KEYS = {"private_key": ("private_key",), "authorized_keys": ("authorized_keys",), "encryption_key": ("encryption_key",), "remote_public_key": ("server_public_key", "known_hosts")}
FLAGS = {"require_full_encryption": ("require_full_encryption", "authorized_keys"), "error_to_authorized_only": ("error_to_authorized_only", "require_full_encryption", "authorized_keys"),
         "require_server_port_change": ("require_server_port_change",)}


class L04Rule(engine.Rule):
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.n = {}

    def cli(self, t):
        """The name of the command line setting t is"""
        t = peel(t)
        if t.op == "fld" and isinstance(t.a[1], str) and peel(t.a[0]).op == "param":
            return t.a[1]
        return None

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and self.cli(t.a[0]):
            st.ts["cli:" + self.cli(t.a[0])] = v

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if v.op != "agg" or v.a[0].split("::")[-1] not in ("ServerConfig", "ClientConfig", "ConnectionOptions"):
            return
        what = v.a[0].split("::")[-1]
        names = self.p.adts[v.a[0]]["variants"][0]["f"]
        self.n[what] = self.n.get(what, 0) + 1
        for name, x in zip(names, v.a[2]):
            x0 = x
            xs = alts(eng, x)
            why = None
            if name in SAME:
                # a client without a size limit does not come from the command line
                bad = [y for y in xs if self.cli(y) != name or has(y, lambda z: z.op == "narrow" and z.a[0] in ("u8", "i8"))]
                why = bad and f"is {show(bad[0])[:100]}"
            elif name in MILLIS:
                bad = [y for y in xs if not (peel(y).op == "pure" and peel(y).a[0].endswith("Duration::from_millis") and self.cli(peel(y).a[1]) == MILLIS[name])]
                why = bad and f"is {show(bad[0])[:100]}"
            elif name == "encryption_level" and self.c.cfg in ("full", "stackenc"):
                bad = [y for y in xs if not (y.op == "fld" and has(y, lambda z: self.cli(z) == name) and has(y, lambda z: z.op in ("ret", "pure") and z.a[0].split("::")[-1] in ("parse", "from_str")))]
                why = bad and f"is {show(bad[0])[:100]}"
            elif name in KEYS and self.c.cfg in ("full", "stackenc"):
                src = next((s for s in KEYS[name] if st.ts.get("cli:" + s) == "Some"), None)
                if src is None and not all(st.ts.get("cli:" + s) == "None" for s in KEYS[name]):
                    why = None if all(has(y, lambda z: self.cli(z) in KEYS[name]) for y in xs) else "does not depend on it"
                elif src is None:
                    why = next((f"is {show(y)[:100]} without being configured" for y in xs if not (y.op == "agg" and y.a[1] == "None")), None)
                else:
                    why = next((f"is {show(y)[:100]} although {src} is configured" for y in xs if not has(y, lambda z: self.cli(z) == src)), None)
                if not why and src == "known_hosts":
                    why = next(("is not looked up under the configured endpoint" for y in xs for z in sub(y) if callterm(z, LOOKUP) or z.op in ("ret", "pure") and z.a[0].endswith(LOOKUP)
                                if self.cli(callargs(z)[1]) != "endpoint"), None)
            elif name in FLAGS and what == "ServerConfig" and (self.c.cfg in ("full", "stackenc") or name == "require_server_port_change"):
                why = self.flag(st, FLAGS[name], xs)
            else:
                continue
            self.c.oblig(f"{self.c.cfg}:{what}.{name}", not why, ctx.fn.path, f"{what}.{name} {why}", facts(st))

    def flag(self, st, order, xs):
        """An optional switch: its own value, else the default the next setting gives"""
        for s in order:
            k = st.ts.get("cli:" + s)
            if s == "authorized_keys":
                for y in xs:
                    is_some = y.op == "bin" and y.a[0] == "Eq" and any(z.op == "discr" and self.cli(z.a[0]) == s for z in y.a[1:]) and any(z.op == "const" and z.a[1] == "Some" for z in y.a[1:])
                    is_some |= y.op == "pure" and y.a[0].endswith("is_some") and self.cli(y.a[1]) == s
                    if not (is_some or y is TRUE and k == "Some" or y is FALSE and k == "None"):
                        return f"is {show(y)[:100]}, not whether authorized keys are configured"
                return None
            if k == "Some":
                bad = [y for y in xs if not (y.op == "fld" and y.a[1] == "Some.0" and self.cli(y.a[0]) == s) and not (y in (TRUE, FALSE) and any(
                    t.op == "fld" and t.a[1] == "Some.0" and self.cli(t.a[0]) == s and v is (y is TRUE) for t, v in st.facts.items()))]
                return f"is {show(bad[0])[:100]}, not the configured {s}" if bad else None
            if k != "None":
                # not asked on this path
                ok = all(has(y, lambda z: self.cli(z) == s) for y in xs)
                return None if ok else f"does not depend on {s}"
        return None if all(y is FALSE for y in xs) else "is set without being configured"


def L04(c):
    c.rule = ("Where the command line programs build ServerConfig, ClientConfig and ConnectionOptions, each field is the setting of its name (numbers unchanged, durations from_millis, the level parsed); a key is "
              "present exactly if it is configured, and comes from that setting; require-full-encryption and error-to-authorized-only have the configured value or their documented default.")
    for cfg in ("full", "stackenc", "alloc", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        n = {}
        made = lambda a: a.split("::")[-1] in ("ServerConfig", "ClientConfig", "ConnectionOptions")
        for f in p.roots:
            if f.crate != p_crate(p) or not builds(f, made):
                continue
            r = L04Rule(c, p)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail in OPAQUE or d.tail in ("send_file", "receive_file", "create_socket", "server"), max_steps=80000)
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        for k, m in (("ServerConfig", 1), ("ClientConfig", 1), ("ConnectionOptions", 2)):
            c.floor(f"{cfg}:{k}", n.get(k, 0), m, f"constructions of {k}")


def p_crate(p):
    return "tftp_dus"


def builds(f, made):
    for b in f.blocks:
        if b:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][2] if len(s[2]) > 2 else None, (str, list)) and any(isinstance(y, str) and made(y.split("<")[0]) for y in flatten(s[2][:3])):
                    return True
    return False


def flatten(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from flatten(y)
        else:
            yield y


# ---------------------------------------------------------------------------------------------------------------- L05
class L05Rule(engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and is_field(t.a[0], "encryption_key"):
            st.ts["key"] = v

    @staticmethod
    def key_of(t):
        t = peel(t)
        return t.op == "fld" and t.a[1] == "Some.0" and is_field(peel(t.a[0]), "encryption_key")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail not in ("send_file", "receive_file"):
            return
        self.n += 1
        v = [eng.view(st, a) for a in args]
        wrapped = [y for x in v for y in sub(x) if y.op == "ret" and y.a[0].split("::")[-1] in ("create_encryption_reader", "create_encryption_writer") or y.op == "pure" and y.a[0].split("::")[-1] in ("create_encryption_reader", "create_encryption_writer")]
        if st.ts.get("key") == "None":
            ok = not wrapped
            why = "encrypts the file though no key is configured"
        else:
            want = "create_encryption_reader" if d.tail == "send_file" else "create_encryption_writer"
            ok = any(y.a[0].split("::")[-1] == want and any(self.key_of(z) for a in callargs(y) for z in alts(eng, peel(a))) for y in wrapped)
            why = "transfers the file without the configured key"
        self.c.oblig(f"{self.c.cfg}:{d.tail}", ok, where(ctx, line), why, facts(st))


def L05(c):
    c.rule = "Every send_file / receive_file of the command line programs on a path where encryption_key may be configured gets the reader / writer create_encryption_reader / create_encryption_writer made with that key."
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        n = 0
        for f in direct_callers(p, lambda o: last(o) in ("send_file", "receive_file")):
            r = L05Rule(c)
            c.run(p, f, [r], opaque=lambda d, fn: d.tail in OPAQUE or d.tail in ("send_file", "receive_file", "create_socket", "try_into", "create_encryption_reader", "create_encryption_writer", "handle_hosts_file"), max_steps=80000)
            n += r.n
        c.floor(f"{cfg}:transfers", n, 4, "transfers started")


# ---------------------------------------------------------------------------------------------------------------- L06
def text(t):
    """The string or path behind conversions of it"""
    while True:
        u = t
        t = peel(unref(t))
        if t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("to_string_lossy", "into_owned", "display", "to_path_buf", "as_path", "as_os_str", "into_os_string", "to_str", "into_string", "to_string", "to_owned",
                                                                  "clone", "deref", "as_ref", "into", "from", "borrow", "as_str") and len(callargs(t)) == 1:
            t = callargs(t)[0]
        if t is u:
            return t


class Watch(Enums):
    """What a change in the watched directory leads to"""
    def __init__(self, c, prog, senders):
        self.c, self.p, self.senders = c, prog, senders
        self.n = {"send": 0, "store": 0, "return": 0}

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def facts(self, st):
        return [f"{show(t)[:160]} = {x}" for t, x in list(st.facts.items())[-10:]]

    def kinds(self, st):
        return {v for t, v in st.facts.items() if t.op == "discr" and isinstance(v, str) and has(t.a[0], lambda y: y.op == "fld" and str(y.a[1]).split(".")[0] == "kind")}

    def changed(self, p):
        """p is a path of the event"""
        return has(p, lambda y: y.op == "fld" and y.a[1] == "paths")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        w = where(ctx, line)
        if d.name == "Watcher::watch":
            st.ts["dir"] = text(eng.view(st, args[1]))
        elif d.name in ("Iterator::next", "Receiver::recv", "Receiver::recv_timeout") and st.ts.get("dir") is not None and (ctx.parent if hasattr(ctx, "parent") else None) is None:
            for k in ("pend", "flags"):
                st.ts.pop(k, None)
        elif d.name == "Arc::new" and "Atomic" in show(eng.view(st, args[0])):
            st.ts["flags"] = min(st.ts.get("flags", 0) + 1, 2)
        elif d.tail == "insert" and len(args) == 3:
            vs = [eng.view(st, a) for a in args]
            st.ts["pend"] = (text(vs[1]), text(vs[2]))
        elif d.path in self.senders:
            self.n["send"] += 1
            self.sent(eng, st, ctx, [eng.view(st, a) for a in args], w)
        elif d.tail == "store" and "Atomic" in d.name:
            self.n["store"] += 1
            f = text(eng.view(st, args[0]))
            on = eng.view(st, args[1])
            p = text(callargs(f.a[0])[1]) if f.op == "fld" and f.a[1] == "Some.0" and f.a[0].op in ("ret", "pure") and f.a[0].a[0].split("::")[-1] == "remove" else None
            self.c.oblig(self.key("flag"), p is not None and self.changed(p) and on is TRUE, w, f"{show(f)[:160]} is set to {show(on)[:40]}: not the flag of the file the event is about", self.facts(st))
            self.c.oblig(self.key("closed"), {"Close", "Write"} <= self.kinds(st), w, "a file is taken to be complete before it was closed by its writer", self.facts(st))

    def sent(self, eng, st, ctx, vs, w):
        local, remote = text(vs[0]), unref(vs[1])
        remote = text(remote.a[2][0]) if remote.op == "agg" and remote.a[1] == "Some" else remote
        self.c.oblig(self.key("local"), self.changed(local), w, f"the file sent is {show(local)[:160]}, not the one that changed", self.facts(st))
        ok = remote.op == "fld" and remote.a[1] == "Ok.0" and callterm(remote.a[0], "Path::strip_prefix")
        if ok:
            a, b = map(text, callargs(remote.a[0])[:2])
            ok = a is local and b is st.ts.get("dir") and b.op == "fld" and callterm(b.a[0], "fs::canonicalize", "Path::canonicalize")
        self.c.oblig(self.key("remote"), ok, w, f"the file is sent as {show(remote)[:200]}, not under its path below the (canonical) directory that is watched", self.facts(st))
        ks = self.kinds(st)
        if {"Close", "Write"} <= ks:
            return
        self.c.oblig(self.key("when"), {"Create", "File"} <= ks, w, f"a file is sent on {sorted(ks)}: neither created nor closed by its writer", self.facts(st))
        pend = st.ts.get("pend")
        r = vs[3] if len(vs) > 3 else None
        f = {text(eng.view(st, x)) for x in r.a[2]} if r is not None and r.op == "agg" and r.a[0] == "closure" else set()
        self.c.oblig(self.key("delayed"), bool(pend) and pend[0] is local and pend[1] in f and st.ts.get("flags", 1) == 1, w,
                     f"a file still being written is read with {show(r)[:160] if r is not None else r}, which does not wait for the flag kept for it", self.facts(st))

    def on_root_return(self, eng, st, ctx, v):
        if st.ts.get("dir") is None:
            return
        if st.ts.get("on"):
            self.n["return"] += 1
            self.c.oblig(self.key("goes-on"), st.ts.get("over") is True, where(ctx, 0), "watching ends because of one event or file", self.facts(st))

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if callterm(x, "Watcher::watch") and names == {"Ok"}:
            st.ts["on"] = True
        elif callterm(x, "Iterator::next", "Receiver::recv") and st.ts.get("on"):
            st.ts["over"] = names in ({"None"}, {"Err"})


def L06(c):
    c.rule = ("In the function that watches a directory, every start of a sending names the path of the event and, remotely, strip_prefix of it with the canonical watched directory; it happens on Close(Write), or on Create(File) "
              "with a reader that holds the flag entered for that path; a flag is set only on Close(Write), for the entry removed under the event's path; the function returns only when events end.")
    for cfg in ("full",):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        senders = {f.path for f in direct_callers(p, lambda o: last(o) == "send_file")}
        roots = [f for f in p.roots if f.id in p.reaching(named("Watcher::watch")) and f.id in p.reaching(lambda o: engine.strip_generics(o["path"]) in {engine.strip_generics(x) for x in senders})]
        cg = p.callgraph()
        ids = {f.id for f in roots}
        tot = {}
        for f in roots:
            if any(j in ids for j in cg.get(f.id, ((), ()))[1] if j != f.id):
                continue
            r = Watch(c, p, senders)
            c.run(p, f, [r], opaque=lambda d, fn: d.path in senders)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        for k, m in (("send", "sendings of changed files"), ("store", "flags of completed files"), ("return", "ends of the watching")):
            c.floor(f"{cfg}:{k}", tot.get(k, 0), 1, m)
