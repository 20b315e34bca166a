"""E: encryption."""
import engine
from common import *
from sess import *
from terms import *

BYTES = ("ByteConverter::from_bytes", "Packet::from_bytes", "PacketType::from_bytes", "FromBytes::from_bytes")
SEALS = {"EncryptedPacket::encrypt": "packet", "EncryptedDataPacket::encrypt": "data", "InitialPacket::encrypt": "initial",
         "EncryptedPacket::decrypt": "packet", "EncryptedDataPacket::decrypt": "data", "InitialPacket::decrypt": "initial"}
SENDS = ("BoundSocket::send",)


def tail(adt):
    return adt.split("::")[-1]


def is_field(t, name):
    t = strip_cast(t)
    return t.op == "fld" and str(t.a[1]).split(".")[-1] == name


def content(eng, st, t):
    return unref(eng.view(st, t))


def sealed(t):
    """(kind of the last sealing or opening the buffer t went through, the call) or (None, None)"""
    t = unref(t)
    if t.op == "mut" and t.a[0] in SEALS:
        return SEALS[t.a[0]], (t.a[0], t.a[1][:2])
    return None, None


def expected(level, enc, ptype, outgoing=True, initial=False):
    if enc == "Some" and level in ("Protocol", "Full"):
        return "initial" if initial and ptype in ("Read", "Write") else "packet"
    if enc == "Some" and level == "Data" and ptype == "Data":
        return "data"
    return None


class Sealing(Enums):
    """What is known about level, keys and packet type, and which sealing succeeded."""
    ENC = ("encryptor", "connection_encryptor")

    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"send": 0, "sealed": 0, "use": 0}
        self.sites = set()
        self.ptnames = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::PacketType")))) | {"unknown"}
        self.levels = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::EncryptionLevel"))))

    def on_enum(self, eng, st, x, adt, names):
        a = tail(adt)
        x = unref(x)
        if a == "EncryptionLevel" and is_field(x, "encryption_level"):
            st.ts["lv"] = st.ts.get("lv", self.levels) & names
        elif a == "Option" and is_field(x, self.ENC[0]) or a == "Option" and is_field(x, self.ENC[1]):
            st.ts["enc"] = frozenset(names)
        elif a == "PacketType":
            st.ts["pt"] = st.ts.get("pt", frozenset(self.variants(adt))) & names
            st.ts["ptx"] = x
        elif a == "Packet":
            if has(x, lambda y: callterm(y, *BYTES)):
                if len(names) == 1:
                    st.ts.setdefault("rx", (x, next(iter(names))))
                    t = st.ts.get("pt")
                    if t is not None and next(iter(names)) not in t and has(st.ts["ptx"], lambda y: callterm(y, *BYTES)):
                        st.ts["dead"] = True   # the two readers of the opcode agree (P01)
            elif len(names) == 1:
                st.ts["pk"] = (x, next(iter(names)))
        elif a == "Result":
            if x.op in ("ret", "pure") and x.a[0] in SEALS and names == {"Ok"}:
                st.ts["sealok"] = site(x)
            elif callterm(x, *BYTES) and names == {"Err"}:
                st.ts["pt"] = frozenset(["unknown"])
                st.ts["ptx"] = x

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "to_buffer" and len(args) > 1:
            st.ts["tx"] = unref(views[0])
        elif d.tail == "prepend_data_header":
            st.ts["tx"] = "Data"
        elif d.name in BYTES:
            # how the bytes that are parsed were opened
            how, by = sealed(views[0])
            st.ts["from:%r" % (site(res),)] = (how, how is not None and st.ts.get("sealok") == by)
        elif d.name in SEALS:
            self.n["sealed"] += 1
            st.ts.pop("sealok", None)

    def ptypes(self, st):
        """Types the packet being sent may have"""
        tx = st.ts.get("tx")
        if tx == "Data":
            return {"Data"}
        if tx is not None:
            k = kind(tx)
            if k:
                return {k}
            pk = st.ts.get("pk")
            if pk and pk[0] is tx:
                return {pk[1]}
            return set(self.ptnames)
        return set(st.ts.get("pt", self.ptnames))

    def combos(self, st, ptypes):
        for lv in st.ts.get("lv", self.levels):
            for enc in st.ts.get("enc", ("Some", "None")):
                for pt in ptypes:
                    yield lv, enc, pt


def site(t):
    return (t.a[0], t.a[1][:2]) if t.op == "ret" else t


class E01Rule(Sealing):
    NAMES = SENDS
    INITIAL = False

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name not in self.NAMES:
            return
        self.n["send"] += 1
        self.sites.add((ctx.fn.path, line))
        how, call = sealed(content(eng, st, args[1]))
        done = how is not None and st.ts.get("sealok") == call
        for lv, enc, pt in sorted(self.combos(st, self.ptypes(st))):
            want = expected(lv, enc, pt, initial=self.INITIAL)
            ok = how == want and (want is None or done)
            self.c.oblig(f"{self.c.cfg}:send:{lv}:{enc}:{pt}", ok, where(ctx, line),
                         f"a {pt} packet at level {lv} with encryptor {enc} is sent {'sealed as ' + how if how else 'plain'}"
                         f"{'' if how is None or done else ' though sealing may have failed'}; it must be {'sealed as ' + want if want else 'plain'}")


def E01(c):
    c.rule = ("At every BoundSocket::send the buffer's last change is a successful EncryptedPacket::encrypt (level Protocol or Full, encryptor present), a successful "
              "EncryptedDataPacket::encrypt (level Data, encryptor present, DATA packet), or none of these otherwise, for every level, encryptor and packet type still possible on the path.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = minimal(p, named(*SENDS), lambda o: o["path"].rsplit("::", 1)[-1] in ("to_buffer", "prepend_data_header"))
        direct = direct_callers(p, named(*SENDS))
        c.floor(f"{cfg}:send", len(direct), 1, "functions that send to a session's peer")
        tot = {}
        seen = set()

        def go(sub, root):
            r = E01Rule(sub, p)
            sub.run(p, root, [r], opaque=leaves(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
            seen.update(x[0] for x in r.sites)
        climb(c, p, roots, go)
        climb(c, p, [f for f in direct if f.path not in seen and f.path + "::{closure#0}" not in seen], go)
        c.floor(f"{cfg}:sealed", tot.get("sealed", 0), 2, "encryption of packets before sending")


class E02Rule(Sealing):
    """Received packets take effect only when they were opened as the session requires."""
    EFFECTS = ("BlockWriter::write_block", "BlockReader::free_block")
    FIELDS = ("invalid", "finished", "transfer", "last_updated", "last_acknowledged")

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in self.EFFECTS:
            self.use(eng, st, ctx, line, d.tail)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and path[-1].split(".")[-1] in self.FIELDS and st.ts.get("rx"):
            self.use(eng, st, ctx, 0, path[-1].split(".")[-1])

    def use(self, eng, st, ctx, line, what):
        if st.ts.get("dead"):
            return
        rx = st.ts.get("rx")
        if rx is None:
            if line:
                self.c.oblig(f"{self.c.cfg}:{what}:unparsed", False, where(ctx, line), "a block is stored or freed without a received packet")
            return
        self.n["use"] += 1
        call = next((y for y in sub_terms(rx[0]) if callterm(y, *BYTES)), None)
        how, done = st.ts.get("from:%r" % (site(call),), (None, False)) if call is not None else (None, False)
        for lv, enc, pt in sorted(self.combos(st, {rx[1]})):
            want = expected(lv, enc, pt)
            ok = how == want and (want is None or done)
            self.c.oblig(f"{self.c.cfg}:{what}:{lv}:{enc}:{pt}", ok, where(ctx, line),
                         f"a received {pt} packet takes effect ({what}) at level {lv} with encryptor {enc} when it was {'opened as ' + how if how else 'not opened'}"
                         f"{'' if how is None or done else ' though opening may have failed'}; it must be {'opened as ' + want if want else 'used as it is'}")


def E02(c):
    c.rule = ("In the functions that act on a session's received packets: before a block is stored or freed or the session's state changes on behalf of a packet, the bytes it was parsed "
              "from went through a successful EncryptedPacket::decrypt (Protocol, Full) or EncryptedDataPacket::decrypt (Data level, DATA packet), for every level still possible on the path.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = {f.path: f for e in E02Rule.EFFECTS for f in minimal(p, named(e), lambda o: o["path"].rsplit("::", 1)[-1] == "from_bytes") if not f.path.startswith("tftp_dus::client")}
        tot = {}

        def go(sub, root):
            r = E02Rule(sub, p)
            sub.run(p, root, [r], opaque=leaves(p), max_steps=80000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, list(roots.values()), go)
        c.floor(f"{cfg}:roots", len(roots), 2, "functions acting on received packets")
        c.floor(f"{cfg}:use", tot.get("use", 0), 4, "effects of received packets")
        c.floor(f"{cfg}:sealed", tot.get("sealed", 0), 2, "decryption of received packets")


class E03Out(E01Rule):
    NAMES = ("Socket::send_to",)
    INITIAL = True


class E03In(Sealing):
    buf = None

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name == "Socket::recv_from":
            self.buf = args[1]
            self.n["recv"] = self.n.get("recv", 0) + 1
            st.ts["got"] = True

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        if not st.ts.get("got"):
            self.c.oblig(f"{self.c.cfg}:return:nothing", False, where(ctx, 0), "reports a packet that was not received")
            return
        self.n["use"] += 1
        how, by = sealed(content(eng, st, self.buf))
        done = how is not None and st.ts.get("sealok") == by
        for lv, enc, pt in sorted(self.combos(st, set(st.ts.get("pt", self.ptnames)))):
            want = expected(lv, enc, pt)
            ok = how == want and (want is None or done)
            self.c.oblig(f"{self.c.cfg}:return:{lv}:{enc}:{pt}", ok, where(ctx, 0),
                         f"a received {pt} packet is handed out at level {lv} with encryptor {enc} when it was {'opened as ' + how if how else 'not opened'}"
                         f"{'' if how is None or done else ' though opening may have failed'}; it must be {'opened as ' + want if want else 'handed out as it is'}")


def E03(c):
    c.rule = ("In every Socket implementation that encrypts: a packet is passed on to the inner socket only after a successful InitialPacket::encrypt (request at level Protocol or Full with "
              "encryptor), EncryptedPacket::encrypt (other packet at these levels), EncryptedDataPacket::encrypt (DATA packet at level Data) or unchanged otherwise; recv_from returns Ok only with "
              "the packet opened by the successful counterpart.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        for m, cls in (("send_to", E03Out), ("recv_from", E03In)):
            ids = p.reaching(named(*SEALS))
            roots = [f for f in methods_of(p, "Socket", m) if f.id in ids]
            c.floor(f"{cfg}:{m}", len(roots), 1, f"encrypting implementations of Socket::{m}")
            n = {"send": 0, "sealed": 0, "use": 0, "recv": 0}
            for f in roots:
                r = cls(c, p)
                c.run(p, f, [r], opaque=leaves(p))
                for k, v in r.n.items():
                    n[k] = n.get(k, 0) + v
            c.floor(f"{cfg}:{m}:done", n["send"] + n["use"], 1, "packets passed on")


# ------------------------------------------------------------------ the cipher
AEAD_E, AEAD_D = "encrypt_in_place_detached", "decrypt_in_place_detached"


def through(t):
    """t without conversions that keep the bytes"""
    while True:
        t = unref(strip_cast(t))
        if t.op == "deref":
            t = t.a[0]
        elif t.op == "fld" and t.a[1] in ("Ok.0", "Some.0") and t.a[0].op == "pure":
            t = t.a[0]
        elif t.op == "pure" and t.a[0].split("::")[-1] in ("try_from", "try_into", "from", "into", "as_ref", "as_slice", "deref", "borrow", "clone", "from_slice", "copied", "cloned", "to_vec") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def slice_base(t):
    t = unref(t)
    while t.op == "pure" and t.a[0].split("::")[-1] in ("as_slice", "deref", "as_ref", "as_mut_slice", "deref_mut") or t.op == "&":
        t = t.a[1] if t.op == "pure" else t.a[0]
    return t


def lin(t):
    """linear() with the lengths of known spans resolved"""
    d, c = linear(t)
    for x, n in list(d.items()):
        if x.op in ("len", "pure") and (x.op == "len" or x.a[0].split("::")[-1] == "len"):
            b = through(x.a[-1])
            if b.op == "pure" and b.a[0].endswith("::to_be_bytes") and b.a[1].op in ("cast", "narrow") and b.a[1].a[0] in ("u16", "u32", "u64", "u8"):
                c += n * int(b.a[1].a[0][1:]) // 8
                del d[x]
                continue
            s = span(x.a[-1])
            if s and s[0] is not slice_base(x.a[-1]):
                w = sub_linear(s[2], s[1])
                del d[x]
                for y, m in w[0].items():
                    d[y] = d.get(y, 0) + n * m
                    if not d[y]:
                        del d[y]
                c += n * w[1]
    return d, c


def lin_of(l):
    """the linear form l with the lengths of known spans resolved"""
    d, c = {}, l[1]
    for x, n in l[0].items():
        w = lin(x)
        c += n * w[1]
        for y, m in w[0].items():
            d[y] = d.get(y, 0) + n * m
    return {k: v for k, v in d.items() if v}, c


def span(t):
    """(base, start, end) of the slice t of a buffer, start and end linear in the length of the base"""
    t = through(t)
    if t.op == "pure" and t.a[0].split("::")[-1] in ("get", "index", "get_mut", "index_mut", "get_unchecked") and len(t.a) == 3:
        b, r = t.a[1], t.a[2]
    elif t.op == "fld" and isinstance(t.a[1], tuple) and t.a[1][0] == "sl":
        b, r = t.a[0], t.a[1][1]
    elif t.op == "fld" and t.a[1] in ("0", "1") and t.a[0].op in ("pure", "ret") and t.a[0].a[0].split("::")[-1] in ("split_at", "split_at_mut"):
        b, m = callargs(t.a[0])[:2]
        s = span(b) or whole(b)
        m = lin(m)
        mid = sub_linear((s[1][0], s[1][1]), ({k: -v for k, v in m[0].items()}, -m[1]))
        return (s[0], mid, s[2]) if t.a[1] == "1" else (s[0], s[1], mid)
    else:
        return whole(t) if t.op in ("param", "mut", "phi", "deref") else None
    if r.op != "agg":
        return None
    s = span(b)
    if s is None:
        return None
    k = r.a[0].split("::")[-1]
    add = lambda m: sub_linear(s[1], ({q: -v for q, v in m[0].items()}, -m[1]))
    if k == "Range":
        return s[0], add(lin(r.a[2][0])), add(lin(r.a[2][1]))
    if k == "RangeFrom":
        return s[0], add(lin(r.a[2][0])), s[2]
    if k == "RangeTo":
        return s[0], s[1], add(lin(r.a[2][0]))
    return s if k == "RangeFull" else None


def whole(t):
    b = slice_base(t)
    return b, ({}, 0), lenof(b)


def lenof(b):
    return {mk("pure", "len", b): 1}, 0


class E04Rule(Enums):
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"aead": 0, "return": 0}
        self.buf = None

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "generate_nonce":
            st.ts["nonce"] = site(res)
        elif d.tail in ("split_at_mut", "index_mut", "get_mut", "as_mut_slice", "deref_mut") and self.buf is None:
            self.buf = args[0]
        elif d.tail == AEAD_E:
            self.n["aead"] += 1
            st.ts["aead"] = site(res)
            st.ts["app"] = ()
            n = through(views[1])
            self.c.oblig(f"{self.c.cfg}:nonce", callterm(n, "AeadCore::generate_nonce") and site(n) == st.ts.get("nonce"), where(ctx, line),
                         f"the nonce is {show(n)[:120]}, not one generated for this packet")
            s = span(views[3])
            self.c.oblig(f"{self.c.cfg}:covers", s is None or not sub_linear(s[2], lenof(s[0]))[0] and not sub_linear(s[2], lenof(s[0]))[1], where(ctx, line),
                         f"encryption does not reach the end of the packet: {show(views[3])[:160]}")
        elif st.ts.get("aead") and d.tail in ("extend_from_slice", "extend", "push", "append"):
            t = through(views[1])
            what = "other"
            if has(t, lambda x: x.op == "ret" and x.a[0].endswith(AEAD_E)) and t.op == "fld" and t.a[1] == "Ok.0":
                what = "tag"
            elif callterm(t, "AeadCore::generate_nonce") and site(t) == st.ts.get("nonce"):
                what = "nonce"
            # where appending may fail, it counts once it is known to have succeeded
            open_ = "Result<" in result_type(ctx, bb)
            st.ts["app"] = st.ts.get("app", ()) + ((what, site(res)) if open_ else (what, None),)

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and x.op == "ret" and x.a[0].endswith(AEAD_E) and names == {"Ok"}:
            st.ts["ok"] = True
        elif tail(adt) == "Result" and names == {"Ok"} and st.ts.get("app"):
            st.ts["app"] = tuple((w, None if s == site(x) else s) for w, s in st.ts["app"])

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        self.c.oblig(f"{self.c.cfg}:return:sealed", st.ts.get("ok"), where(ctx, 0), "reports success though the cipher did not succeed")
        self.c.oblig(f"{self.c.cfg}:return:appended", st.ts.get("app") == (("tag", None), ("nonce", None)), where(ctx, 0),
                     f"what follows the ciphertext is {st.ts.get('app')}, not the tag and then the nonce")


def no_inline(p, *tails):
    def opaque(d, fn):
        return d.tail in tails or p.weight(fn.id) > 400
    return opaque


def own_rng(c):
    """The bundled programs use the operating system's random numbers."""
    p = c.prog("full", "bin")
    n = 0
    for f in p.roots:
        for i, o, b in calls_in(f):
            if not o["path"].startswith("tftp_dus::") or f.crate != "tftp_dus":
                continue
            entry = o["path"].rsplit("::", 1)[-1] in ("send_file", "receive_file", "server")
            rngs = [t for t in o.get("targs", ()) if t.split("<")[0].split("::")[-1].endswith("Rng") and "::" in t]
            ok = all(t.endswith("::OsRng") for t in rngs) and (rngs or not entry)
            if entry or rngs:
                n += entry
                c.oblig(f"full:rng:{engine.short_name(f.path)}:{engine.short_name(o['path'])}", ok, f"{f.file} in {f.path}", f"random numbers come from {rngs}, not from the operating system")
    c.floor("rng", n, 3, "transfers and servers started by the bundled programs")


def E04(c):
    c.rule = ("In every function that calls the cipher's encrypt_in_place_detached: the nonce was generated by generate_nonce in this very call, the ciphertext reaches the end of the "
              "buffer, Ok is returned only when the cipher returned Ok and the tag and then this nonce were appended. The bundled programs hand OsRng to the library.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = direct_callers(p, lambda o: o["path"].rsplit("::", 1)[-1] == AEAD_E)
        c.floor(f"{cfg}:aead", len(roots), 1, "functions that encrypt a packet")
        for f in roots:
            r = E04Rule(c, p)
            c.run(p, f, [r])
            c.floor(f"{cfg}:{f.path}:returns", r.n["return"], 1, "successful returns")
    own_rng(c)


class E05Rule(Enums):
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"aead": 0, "return": 0}

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == AEAD_D:
            self.n["aead"] += 1
            for i, what, lo, hi in ((1, "nonce", 24, 0), (4, "tag", 40, 24)):
                t = views[i]
                self.c.oblig(f"{self.c.cfg}:{what}:received", has(t, lambda x: x.op == "param"), where(ctx, line), f"the {what} {show(t)[:120]} is not taken from the packet")
                s = span(t)
                if s is None:
                    continue
                n = lenof(s[0])
                ok = s[1] == (n[0], -lo) and s[2] == (n[0], -hi)
                self.c.oblig(f"{self.c.cfg}:{what}:place", ok, where(ctx, line),
                             f"the {what} is taken from {plain(s[1])} to {plain(s[2])}; it is put at length-{lo} to length-{hi}")

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and x.op == "ret" and x.a[0].endswith(AEAD_D):
            st.ts["ok"] = names == {"Ok"}

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        if v.op == "ret" and v.a[0].endswith(AEAD_D):
            ok = True
        else:
            ok = st.ts.get("ok")
        self.n["return"] += 1
        self.c.oblig(f"{self.c.cfg}:return:authentic", ok, where(ctx, 0), "reports success though the cipher did not accept the packet")


class E05Packet(Enums):
    """What one packet format does around the cipher."""
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.pos = set()
        self.pad = set()
        self.n = 0

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name in ("Encryptor::encrypt", "Encryptor::decrypt"):
            self.n += 1
            x = strip_cast(views[2])
            self.pos.add(x.a[1] if x.op == "const" else show(x)[:80])
            st.ts["seq"] = st.ts.get("seq", ()) + ("cipher",)
        elif d.tail in ("apply_bit_padding", "remove_bit_padding"):
            st.ts["seq"] = st.ts.get("seq", ()) + ("pad",)

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and x.op in ("ret", "pure") and names == {"Ok"}:
            if x.a[0] in ("Encryptor::encrypt", "Encryptor::decrypt"):
                st.ts["cipher"] = True
            elif x.a[0].endswith("_bit_padding"):
                st.ts["padok"] = True

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        seq = st.ts.get("seq", ())
        key = f"{self.c.cfg}:{engine.short_name(ctx.fn.path)}"
        ok = st.ts.get("cipher") or v.op in ("ret",) and v.a[0].startswith("Encryptor::")
        self.c.oblig(key + ":cipher", ok, where(ctx, 0), "reports success though the packet was not sealed or opened")
        ok = "pad" not in seq or st.ts.get("padok") or v.op in ("ret",) and v.a[0].endswith("_bit_padding")
        self.c.oblig(key + ":padded", ok, where(ctx, 0), "reports success though padding failed")
        self.pad.add(seq)


def E05(c):
    c.rule = ("In every function that calls the cipher's decrypt_in_place_detached: nonce and tag are the last 24 bytes and the 16 before them, where encryption puts them, and Ok is returned only "
              "when the cipher returned Ok. For each packet format, encrypt and decrypt leave the same number of leading bytes plain and add/remove padding in opposite order, and succeed only if both steps did.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = direct_callers(p, lambda o: o["path"].rsplit("::", 1)[-1] == AEAD_D)
        c.floor(f"{cfg}:aead", len(roots), 1, "functions that decrypt a packet")
        for f in roots:
            r = E05Rule(c, p)
            c.run(p, f, [r])
            c.floor(f"{cfg}:{f.path}:returns", r.n["return"], 1, "successful returns")
        n = 0
        for f in p.roots:
            m = engine.short_name(f.path)
            if m in SEALS and m.endswith("::encrypt"):
                g = next((g for g in p.roots if engine.short_name(g.path) == m.replace("::encrypt", "::decrypt")), None)
                if g is None:
                    continue
                n += 1
                rs = []
                for x in (f, g):
                    r = E05Packet(c, p)
                    c.run(p, x, [r], opaque=lambda d, fn: d.name in ("Encryptor::encrypt", "Encryptor::decrypt") or d.tail.endswith("_bit_padding"))
                    c.floor(f"{cfg}:{engine.short_name(x.path)}", r.n, 1, "uses of the cipher")
                    rs.append(r)
                e, d = rs
                c.oblig(f"{cfg}:{m}:plain", e.pos == d.pos and len(e.pos) == 1, f.path, f"encryption starts at {sorted(map(str, e.pos))}, decryption at {sorted(map(str, d.pos))}")
                want = 4 if SEALS[m] == "data" else 0
                c.oblig(f"{cfg}:{m}:covers", e.pos <= {want}, f.path, f"{sorted(map(str, e.pos))} bytes are left in plain text, {want} expected")
                c.oblig(f"{cfg}:{m}:padding", len(e.pad) == 1 and d.pad == {tuple(reversed(next(iter(e.pad))))}, f.path, f"steps when sealing: {sorted(e.pad)}; when opening: {sorted(d.pad)}")
        c.floor(f"{cfg}:formats", n, 3, "packet formats that can be sealed and opened")


def plain(l):
    return " + ".join(f"{n}*{show(t)[:60]}" for t, n in l[0].items()) + f" + {l[1]}"


# ------------------------------------------------------------------ negotiation
NEG_LEAVES = {"decode_public_key", "decode_verifying_key", "decode_signature", "create_initial_keys", "encode_public_key", "encode_signature", "encode_verifying_key",
              "from_str", "fmt", "to_buffer", "from_bytes", "to_bytes"}


def ext_get(t, name):
    """t comes from looking up Extension::name"""
    return has(t, lambda x: x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("get", "remove", "get_key_value") and
               has(x, lambda y: y.op == "agg" and y.a[1] == name and tail(y.a[0]) == "Extension"))


def from_call(t, fn, name):
    """t is what fn made of Extension::name"""
    return has(t, lambda x: x.op in ("pure", "ret") and x.a[0].split("::")[-1] == fn and ext_get(x, name))


SAME = ("as_bytes", "to_bytes", "as_ref", "deref", "borrow", "clone", "copied", "cloned", "as_slice", "as_str", "iter")


class Whole(engine.Rule):
    """A predicate that is true only for an element equal to something, as a whole"""
    def __init__(self):
        self.ok, self.n = True, 0

    def plain(self, t):
        t = unref(t)
        while t.op in ("deref", "ref") or t.op == "fld" and isinstance(t.a[1], str) or t.op in ("pure", "ret") and t.a[0].split("::")[-1] in SAME and callargs(t):
            t = unref(callargs(t)[0] if t.op in ("pure", "ret") else t.a[0])
        return t.op == "param"

    def on_root_return(self, eng, st, ctx, v):
        if v is FALSE:
            return
        self.n += 1
        eq = [(t, w) for t, w in [(v, True), *st.facts.items()] if w is True]
        self.ok = self.ok and any(
            (t.op == "bin" and t.a[0] == "Eq" or t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("eq", "ct_eq")) and all(self.plain(x) for x in (t.a[1:] if t.op == "bin" else callargs(t))) and not len(set(t.a[1:])) == 1
            for t, _ in eq)


class Negotiation(Enums):
    """What is known when the extensions have been accepted."""
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"return": 0, "keys": 0, "verify": 0}
        self.level = next(a for a in prog.adts if a.endswith("::EncryptionLevel"))
        self.levels = frozenset(v["n"] for v in prog.variants(self.level))

    def on_enum(self, eng, st, x, adt, names):
        a = tail(adt)
        x = unref(x)
        ts = st.ts
        if a == "EncryptionLevel":
            if is_field(x, "encryption_level") and has(x, lambda y: y.op == "param") and not has(x, lambda y: y.op in ("ret", "pure")):
                ts["in"] = ts.get("in", self.levels) & names
            elif ext_get(x, "EncryptionLevel"):
                ts["asked"] = ts.get("asked", self.levels) & names
            if ts.get("outx") is x:
                ts["out"] = ts["out"] & names
        elif a == "Option":
            if is_field(x, "authorized_keys"):
                ts["allow"] = names
            elif x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("get", "remove") and ext_get(x, "AuthPublicKey"):
                ts["auth"] = names
            elif x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("get", "remove") and ext_get(x, "EncryptionLevel"):
                ts["askx"] = names
            elif x.op in ("pure", "ret") and x.a[0].split("::")[-1] in ("find", "position") and "Some" in names and len(names) == 1:
                self.member(st, x)
        elif a == "Result" and names == {"Ok"} and x.op in ("pure", "ret"):
            f = x.a[0].split("::")[-1]
            if f in ("verify", "verify_strict"):
                k, m, s = [unref(y) for y in callargs(x)][:3]
                if from_call(k, "decode_verifying_key", "AuthPublicKey") and from_call(m, "decode_public_key", "SessionPublicKey") and from_call(s, "decode_signature", "Signature"):
                    ts["ver"] = True
                    self.n["verify"] += 1
            elif f == "binary_search":
                self.member(st, x)

    def whole(self, x):
        """If x looks for an element with a predicate, this compares whole elements"""
        f = unref(callargs(x)[-1])
        if not (f.op == "agg" and f.a[0] == "closure"):
            return True
        if f.a[1][1] not in self.p.fns:
            return False
        r = Whole()
        engine.Engine(self.p, self.p.fns[f.a[1][1]], [r], opaque=lambda d, fn: True).run()
        return r.ok and r.n > 0

    def member(self, st, x):
        if not self.whole(x):
            return
        if has(x, lambda y: is_field(y, "authorized_keys")) and from_call(x, "decode_verifying_key", "AuthPublicKey"):
            st.ts["member"] = True

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if isinstance(v, bool):
            if is_field(t, "require_full_encryption"):
                st.ts["full"] = v
            elif v and t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("contains", "any", "contains_key"):
                self.member(st, t)

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and path[-1].split(".")[-1] == "encryption_level":
            st.ts["outx"] = v
            st.ts["out"] = frozenset([v.a[1]]) if v.op == "agg" else st.ts.get("asked", self.levels) if ext_get(v, "EncryptionLevel") else self.levels

    def out(self, st):
        return st.ts.get("out", st.ts.get("in", self.levels))

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        parts = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        fields = parts.a[2] if parts.op == "agg" else ()
        keys = next((x for x in fields if x.op == "agg" and tail(x.a[0]) == "Option"), None)
        self.n["keys"] += keys is None or keys.a[1] != "None"
        self.accepted(eng, st, ctx, v, keys)

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def signed(self, st, ctx, keys):
        """The key that will be used is the one that was signed"""
        none = keys is not None and keys.a[1] == "None"
        if not none:
            ok = st.ts.get("auth") == {"None"} or st.ts.get("ver")
            self.c.oblig(self.key("signature"), ok, where(ctx, 0), "session keys are accepted though the peer's authentication key did not sign its session key")
            if keys is not None:
                k = keys.a[2][0] if keys.a[2] else keys
                sess = [x for x in (k.a[2] if k.op == "agg" else ()) if ext_get(x, "SessionPublicKey")]
                self.c.oblig(self.key("session-key"), len(sess) == 1 and from_call(sess[0], "decode_public_key", "SessionPublicKey"), where(ctx, 0),
                             f"the peer's session key is not the one it sent: {show(k)[:200]}")
        return none


class E06Rule(Negotiation):
    def accepted(self, eng, st, ctx, v, keys):
        none = self.signed(st, ctx, keys)
        ok = st.ts.get("allow") == {"None"} or st.ts.get("member")
        self.c.oblig(self.key("authorized" if not none else "authorized:plain"), ok, where(ctx, 0),
                     "a request is accepted though only authorized keys are allowed and the client's key was not found among them")
        if st.ts.get("member"):
            self.c.oblig(self.key("authorized:signed"), st.ts.get("ver"), where(ctx, 0), "a client is authorized by a key that did not sign the session key")


class E07Rule(Negotiation):
    def accepted(self, eng, st, ctx, v, keys):
        out, came = self.out(st), st.ts.get("in", self.levels)
        if st.ts.get("full") is not False:
            self.c.oblig(self.key("full:request"), came == {"Full"}, where(ctx, 0), "full encryption is required, but a request that did not arrive fully encrypted is accepted")
            self.c.oblig(self.key("full:session"), out == {"Full"}, where(ctx, 0), f"full encryption is required, but the session may use {sorted(out)}")
        if st.ts.get("askx") == {"None"}:
            return
        asked = st.ts.get("asked", self.levels)
        if "Full" in out and "out" in st.ts:
            self.c.oblig(self.key("full:claimed"), came == {"Full"}, where(ctx, 0), "the session is called fully encrypted though the request was not")
        want = {"Data": "Data", "OptionalData": "Data", "Protocol": "Protocol", "OptionalProtocol": "Protocol", "Full": "Full"}
        for a in asked:
            if a in want:
                self.c.oblig(self.key(f"level:{a}"), out == {want[a]}, where(ctx, 0), f"the client asked for {a}, the session may use {sorted(out)}")


def negotiation_roots(c, p, server):
    v = lambda o: o["path"].rsplit("::", 1)[-1] in ("verify", "verify_strict") and "::Verifier" in o["path"] or o["path"].rsplit("::", 1)[-1] == "verify_strict"
    keys = lambda o: o["path"].rsplit("::", 1)[-1] == "create_initial_keys"
    pub = lambda o: o["path"].rsplit("::", 1)[-1] == "decode_public_key"
    io = {f.path for m in (*SEND, *RECV) for f in reaches(p, named(m))}
    own = {f.path for f in reaches(p, v, keys)} - io
    top = [f for f in reaches(p, v, pub) if f.path not in io and (f.path in own) == server]
    paths = {f.path for f in top}
    return [f for f in top if not any(g.path in paths and g.path != f.path for g in callees(p, f))]


def callees(p, f):
    """Local functions f (transitively) calls"""
    cg = p.callgraph()
    seen, todo = {f.id}, [f.id]
    while todo:
        for i in cg.get(todo.pop(), ((), ()))[1]:
            if i not in seen and i in p.fns:
                seen.add(i)
                todo.append(i)
    return [p.fns[i] for i in seen]


def negotiate(c, cls, server, cfgs=("full", "stackenc")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = negotiation_roots(c, p, server)
        c.floor(f"{cfg}:roots", len(roots), 1, "functions that verify the peer's session key")
        n = {}

        def go(sub, root):
            r = cls(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in NEG_LEAVES, max_steps=80000)
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        climb(c, p, roots, go)
        c.floor(f"{cfg}:return", n.get("return", 0), 2, "ways to accept")
        c.floor(f"{cfg}:keys", n.get("keys", 0), 1, "ways to accept with session keys")
        c.floor(f"{cfg}:verify", n.get("verify", 0), 1, "verified signatures")


def E06(c):
    c.rule = ("In the server's negotiation, every Ok return: authorized_keys is None or the decoded authentication key was found in it; with session keys: no authentication key was sent or "
              "verify(authentication key, session key, signature) of the decoded extensions was Ok; the session key returned is the decoded one.")
    negotiate(c, E06Rule, True)


def E07(c):
    c.rule = ("In the server's negotiation, every Ok return: require_full_encryption is false, or the request's level and the session's level are Full; the session is Full only if the request was; "
              "the session's level is the requested one (or its non-optional form).")
    negotiate(c, E07Rule, True)


class E08Rule(Negotiation):
    def accepted(self, eng, st, ctx, v, keys):
        none = self.signed(st, ctx, keys)
        out, mine = self.out(st), st.ts.get("in", self.levels)
        for a in mine:
            if a in ("Data", "Protocol"):
                self.c.oblig(self.key(f"kept:{a}"), out <= {"Data", "Protocol"} and not none, where(ctx, 0),
                             f"the client requires {a}, the session may use {sorted(out)}{' without keys' if none else ''}")
            elif a == "Full":
                self.c.oblig(self.key("kept:Full"), out <= {"Full"} and not none, where(ctx, 0), f"the client requires Full, the session may use {sorted(out)}{' without keys' if none else ''}")


class Query(Enums):
    """The client's exchange with the server until the transfer starts."""
    REQ = ("Data", "Protocol", "Full")

    def __init__(self, c, prog, parse):
        self.c = c
        self.p = prog
        self.parse = parse
        self.n = {"return": 0, "parsed": 0, "request": 0}
        self.level = next(a for a in prog.adts if a.endswith("::EncryptionLevel"))
        self.levels = frozenset(v["n"] for v in prog.variants(self.level))

    def parsed(self, t):
        return has(t, lambda x: x.op in ("ret", "pure") and x.a[0] in self.parse)

    def on_enum(self, eng, st, x, adt, names):
        a = tail(adt)
        x = unref(x)
        ts = st.ts
        if a == "EncryptionLevel" and is_field(x, "encryption_level"):
            k = "conn" if self.parsed(x) else "in" if has(x, lambda y: y.op == "param") else None
            if k:
                ts[k] = ts.get(k, self.levels) & names
        elif a == "Result" and names == {"Ok"} and x.op in ("ret", "pure") and x.a[0] in self.parse:
            ts["parse"] = True
        elif a == "Option" and is_field(x, "private_key"):
            ts["priv"] = names
        elif a == "Option" and is_field(x, "remote_public_key"):
            ts["pin"] = names

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and t.a[0] == "Eq" and v is True:
            for x, y in (t.a[1:], t.a[:0:-1]):
                if has(x, lambda z: is_field(z, "remote_public_key")) and self.parsed(y) and has(y, lambda z: is_field(z, "auth")):
                    st.ts["same"] = True

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name not in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
            return
        for t in args[1:]:
            t = unref(eng.view(st, t))
            for r in (t, *(t.a[2] if t.op == "agg" else ())):
                if r.op == "agg" and tail(r.a[0]) == "RequestPacket":
                    self.n["request"] += 1
                    self.request(eng, st, ctx, line, field(self.p, r, "extensions"))

    def request(self, eng, st, ctx, line, ext): pass

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        q = v.a[2][0] if v.op == "agg" and v.a[2] else mk("fld", v, "Ok.0")
        self.n["return"] += 1
        self.n["parsed"] += bool(st.ts.get("parse"))
        self.accepted(eng, st, ctx, field(self.p, q, "options"), q)


class E08Query(Query):
    def request(self, eng, st, ctx, line, ext):
        ok = has(ext, lambda x: x.op == "param") or not st.ts.get("in", self.levels) & set(self.REQ)
        self.c.oblig(f"{self.c.cfg}:request", ok, where(ctx, line), "a request without extensions is sent though encryption is required")

    def accepted(self, eng, st, ctx, opts, q):
        if st.ts.get("parse"):
            self.c.oblig(f"{self.c.cfg}:options:parsed", all(self.parsed(x) for x in alts(eng, opts)), where(ctx, 0), "the options of the session are not those the server's answer was accepted with")
        else:
            left = sorted(st.ts.get("in", self.levels) & set(self.REQ))
            self.c.oblig(f"{self.c.cfg}:options:plain", not left, where(ctx, 0), f"an answer without extensions is accepted though the client requires {left}")


class E09Rule(Query):
    def accepted(self, eng, st, ctx, opts, q):
        if not st.ts.get("parse"):
            return
        ts = st.ts
        ok = ts.get("conn") == {"None"} or ts.get("priv") == {"None"} or ts.get("pin") == {"None"} or ts.get("same")
        self.c.oblig(f"{self.c.cfg}:pinned", ok, where(ctx, 0), "an encrypted session is accepted though the server's key was not found equal to the configured one")
        self.n["pin"] = self.n.get("pin", 0) + bool(ts.get("same"))


OVERHEAD = {"Data": 40, "Protocol": 41, "Full": 41, "None": 0, "OptionalData": 0, "OptionalProtocol": 0}


def room(r, st, ctx, opts, lv, key):
    """block size of opts > what encryption adds at each of the levels lv"""
    size = field(r.p, opts, "block_size")
    for l in sorted(lv):
        ok = l in OVERHEAD and entails_linear(st, ({}, OVERHEAD[l] + 1), linear(strip_cast(size)))
        if not OVERHEAD.get(l) and not ok:
            continue            # no data is lost to encryption
        r.c.oblig(f"{key}:{l}", ok, where(ctx, 0), f"a session may use encryption level {l} though its block size may be no larger than the {OVERHEAD.get(l)} bytes encryption adds")


class E13Query(Query):
    def accepted(self, eng, st, ctx, opts, q):
        if st.ts.get("parse"):
            room(self, st, ctx, opts, st.ts.get("conn", self.levels), f"{self.c.cfg}:client")


def neg_names(c, p, server):
    if not negotiation_roots(c, p, server):
        # built without encryption: the functions of the same path
        paths = {f.path for f in negotiation_roots(c, c.prog("full", "lib"), server)}
        paths = {f.path for f in p.roots if f.path in paths}
        return {engine.short_name(x) for x in paths}, paths
    return {engine.short_name(f.path) for f in negotiation_roots(c, p, server)}, {f.path for f in negotiation_roots(c, p, server)}


def query(c, cls, cfgs=("full", "stackenc")):
    for cfg in cfgs:
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        names, paths = neg_names(c, p, False)
        roots = minimal(p, lambda o: o["path"] in paths, named("Socket::recv_from"))
        c.floor(f"{cfg}:query", len(roots), 1, "functions that negotiate with the server")
        n = {}
        ns = {x.rsplit("::", 1)[-1] for x in names}
        inside = p.reaching(lambda o: o["path"] in paths)

        def go(sub, root):
            r = cls(sub, p, names)
            sub.run(p, root, [r], opaque=lambda d, fn: fn.path in paths or fn.path in getattr(cls, "checks", ()) or d.tail in ("from_bytes", "to_bytes", "to_buffer") or fn.id not in inside and p.weight(fn.id) > 150, max_steps=80000)
            for k, v in r.n.items():
                n[k] = n.get(k, 0) + v
        climb(c, p, roots, go)
        c.floor(f"{cfg}:query:return", n.get("return", 0), 2, "ways to accept the server's answer")
        c.floor(f"{cfg}:query:parsed", n.get("parsed", 0), 1, "ways to accept an answer with extensions")
        c.floor(f"{cfg}:query:request", n.get("request", 0), 1, "requests sent")
    return n


def E08(c):
    c.rule = ("In the client's negotiation, every Ok return for a configured level of Data or Protocol ends at one of these and for Full at Full, with session keys; keys are accepted only if not "
              "signed for or the signature verified. In the client's query: an answer without extensions is accepted, and a request without extensions sent, only if the configured level requires no encryption.")
    negotiate(c, E08Rule, False)
    query(c, E08Query)


def E09(c):
    c.rule = ("In the client's query, every Ok return with the server's extensions: the session is unencrypted, or no private key or no server key is configured, or the configured server key was "
              "compared equal to the authentication key in the parsed answer.")
    n = query(c, E09Rule)
    c.floor("pin", n.get("pin", 0), 1, "answers accepted because the key matched")


class E10Rule(Sealing):
    ENC = ("handshake_encryption", "encryptor")

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if isinstance(v, bool) and is_field(t, "error_to_authorized_only"):
            st.ts["quiet"] = v

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name != "Socket::send_to":
            return
        self.n["send"] += 1
        self.c.oblig(f"{self.c.cfg}:quiet", st.ts.get("quiet") is False, where(ctx, line), "a refused request is answered although errors may be sent to authorized clients only")
        enc = st.ts.get("enc", frozenset(("Some", "None")))
        how, by = sealed(content(eng, st, args[1]))
        if "Some" in enc:
            ok = how == "packet" and st.ts.get("sealok") == by
            self.c.oblig(f"{self.c.cfg}:sealed", ok, where(ctx, line), "the answer to an encrypted request is sent in plain text")
            self.n["sealed"] += how == "packet"
        if "None" in enc:
            self.c.oblig(f"{self.c.cfg}:plain", how is None, where(ctx, line), "the answer to a plain request is encrypted")


def E10(c):
    c.rule = ("At every Socket::send_to in the server: error_to_authorized_only is known to be false, and the packet went through a successful EncryptedPacket::encrypt unless the request's "
              "handshake encryptor is known to be None.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = [f for f in direct_callers(p, named("Socket::send_to")) if f.path.startswith("tftp_dus::server::") or "server::" in f.path.split(" as ")[0]]
        c.floor(f"{cfg}:send", len(roots), 1, "functions of the server that answer on the listening socket")
        tot = {}

        def go(sub, root):
            r = E10Rule(sub, p)
            sub.run(p, root, [r], opaque=leaves(p, extra=("parse_extensions",)), max_steps=40000)
            for k, v in r.n.items():
                tot[k] = tot.get(k, 0) + v
        climb(c, p, roots, go)
        c.floor(f"{cfg}:sends", tot.get("send", 0), 1, "answers")


class E13Server(Enums):
    def __init__(self, c, prog, parse):
        self.c = c
        self.p = prog
        self.parse = parse
        self.n = {"return": 0}
        self.levels = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::EncryptionLevel"))))

    def opts(self, x):
        return has(x, lambda y: y.op in ("ret", "pure") and y.a[0] in self.parse)

    def on_enum(self, eng, st, x, adt, names):
        x = unref(x)
        if tail(adt) == "EncryptionLevel" and is_field(x, "encryption_level") and self.opts(x):
            st.ts["conn"] = st.ts.get("conn", self.levels) & names
        elif tail(adt) == "Result" and names == {"Ok"} and x.op in ("ret", "pure") and x.a[0] in self.parse:
            st.ts["parse"] = x.a[0]
            st.ts["got"] = x

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err" or not st.ts.get("parse"):
            return
        self.n["return"] += 1
        # any component of the accepted answer that has a block size
        got = st.ts["got"]
        best = None
        for t in st.facts:
            for x in sub_terms(t):
                if x.op == "fld" and str(x.a[1]).split(".")[-1] == "block_size" and contains(x, got):
                    best = x.a[0]
        room(self, st, ctx, best if best is not None else mk("fld", got, "Ok.0"), st.ts.get("conn", self.levels), f"{self.c.cfg}:server")


def E13(c):
    c.rule = ("After negotiation the block size of the accepted options is known to exceed the 40 (Data) or 41 (Protocol, Full) bytes encryption adds, for every level still possible: at every Ok "
              "return of the client's query and of the server function that calls the negotiation.")
    query(c, E13Query)
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        names, paths = neg_names(c, p, True)
        roots = direct_callers(p, lambda o: o["path"] in paths)
        c.floor(f"{cfg}:server", len(roots), 1, "callers of the server's negotiation")
        n = {"return": 0}

        def go(sub, root):
            r = E13Server(sub, p, names)
            sub.run(p, root, [r], opaque=lambda d, fn: fn.path in paths or d.tail in LEAVES - {"block_size_with_encryption"}, max_steps=40000)
            n["return"] += r.n["return"]
        climb(c, p, roots, go)
        c.floor(f"{cfg}:server:return", n["return"], 1, "accepted requests")


# ------------------------------------------------------------------ keys come into use
FINAL = "InitialSessionKeyPair::finalize"


def is_final(o):
    return engine.short_name(o["path"]) == FINAL


def finalized(t, own, peer):
    """t is the encryptor made of field `own` of our keys and field `peer` of the other side's"""
    t = unref(t)
    if t.op == "agg" and t.a[1] == "Some":
        t = unref(t.a[2][0])
    if not (t.op == "fld" and str(t.a[1]) == "0" and callterm(t.a[0], FINAL)):
        return False
    a = [unref(x) for x in callargs(t.a[0])]
    return is_field(a[0], "session") and (not own or has(a[0], lambda x: is_field(x, own))) and is_field(a[1], peer) and a[1] is not a[0]


class Typed(Enums):
    """Facts about parameters of the root, by their type"""
    def ptype(self, eng, x):
        x = unref(x)
        while x.op in ("deref", "&"):
            x = x.a[0]
        return eng.root.locals[x.a[0]] if x.op == "param" else ""


class E11Server(Typed):
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"return": 0, "installed": 0, "send": 0}

    def key(self, k):
        return f"{self.c.cfg}:server:{k}"

    def on_enum(self, eng, st, x, adt, names):
        a = tail(adt)
        if a == "Option" and "SessionKeys" in self.ptype(eng, x):
            st.ts["skeys"] = names
        elif a == "ConnectionType":
            st.ts["ty"] = names
        elif a == "Result" and x.op in ("ret", "pure") and x.a[0] in SENDS and names == {"Ok"}:
            st.ts["sent"] = "ok"

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and t.a[0] == "Eq" and v is True:
            for x, y in (t.a[1:], t.a[:0:-1]):
                if x.op == "pure" and x.a[0] == "len" and y.op == "const" and y.a[1] == 0 and has(x, lambda z: z.op == "param"):
                    st.ts["empty"] = True
        elif t.op == "pure" and t.a[0].split("::")[-1] == "is_empty" and v is True and has(t, lambda z: z.op == "param"):
            st.ts["empty"] = True

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in SENDS:
            self.n["send"] += 1
            st.ts["sent"] = "tried"
            self.c.oblig(self.key("order"), not st.ts.get("inst"), where(ctx, line), "the answer to the request is sent after the session keys came into use; the client cannot have them yet")

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if path and isinstance(path[-1], str) and path[-1].split(".")[-1] == "encryptor":
            ok = finalized(v, "server_keys", "remote_session_public_key")
            st.ts["inst"] = "keys" if ok else "other"
            self.n["installed"] += ok

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] in ("None", "Err") or v is FALSE:
            return
        ts = st.ts
        self.n["return"] += 1
        if ts.get("skeys") != {"None"}:
            self.c.oblig(self.key("installed"), ts.get("inst") == "keys", where(ctx, 0), "a session with negotiated keys starts without the encryptor made of them")
        else:
            self.c.oblig(self.key("kept"), not ts.get("inst"), where(ctx, 0), "a session without negotiated keys gets another encryptor")
        quiet = ts.get("empty") and ts.get("ty") == {"Read"} and ts.get("sent") is None
        self.c.oblig(self.key("answered"), ts.get("sent") == "ok" or quiet, where(ctx, 0), "a session starts though the answer to its request was not sent")


class E11Client(Typed):
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"return": 0, "installed": 0}
        self.levels = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::EncryptionLevel"))))

    def key(self, k):
        return f"{self.c.cfg}:client:{k}"

    def on_enum(self, eng, st, x, adt, names):
        a = tail(adt)
        t = self.ptype(eng, x)
        if a == "Option" and "InitialKeys" in t:
            st.ts["keys"] = names
        elif a == "Option" and "PublicKeyPair" in t:
            st.ts["pair"] = names
        elif a == "EncryptionLevel" and is_field(x, "encryption_level") and "ConnectionOptions" in self.ptype(eng, unref(x).a[0]):
            st.ts["lv"] = st.ts.get("lv", self.levels) & names

    def level(self, eng, st, v):
        if v.op == "agg":
            return st.ts.get("lv") == {v.a[1]}
        return is_field(v, "encryption_level") and "ConnectionOptions" in self.ptype(eng, unref(v).a[0])

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        f = path[-1].split(".")[-1] if path and isinstance(path[-1], str) else ""
        if f == "connection_encryptor":
            st.ts["inst"] = finalized(v, None, "session")
        elif f == "encryption_level":
            st.ts["level"] = self.level(eng, st, v)
        elif v.op == "agg" and self.p.field_index(v.a[0], v.a[1], "connection_encryptor") is not None:
            st.ts["inst"] = finalized(field(self.p, v, "connection_encryptor"), None, "session")
            st.ts["level"] = self.level(eng, st, field(self.p, v, "encryption_level"))

    def on_root_return(self, eng, st, ctx, v):
        ts = st.ts
        self.n["return"] += 1
        need = ts.get("lv", self.levels) & set(Query.REQ)
        if need and ts.get("keys") != {"None"} and ts.get("pair") != {"None"}:
            self.n["installed"] += bool(ts.get("inst"))
            for l in sorted(need):
                self.c.oblig(self.key(f"installed:{l}"), ts.get("inst") and ts.get("level"), where(ctx, 0),
                             f"an accepted session of level {l} starts without the encryptor made of the negotiated keys, or at another level")


class E11Keys(Typed):
    """The client makes session keys whenever it asks for encryption."""
    def __init__(self, c, prog):
        self.c = c
        self.p = prog
        self.n = {"return": 0}
        self.levels = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::EncryptionLevel"))))

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "EncryptionLevel" and is_field(x, "encryption_level"):
            st.ts["lv"] = st.ts.get("lv", self.levels) & names

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        t = v.a[2][0] if v.op == "agg" and v.a[2] else v
        k = t.a[2][1] if t.op == "agg" and len(t.a[2]) > 1 else mk("fld", t, "1")
        lv = st.ts.get("lv", self.levels)
        ok = lv <= {"None"} or k.op == "agg" and k.a[1] == "Some" and all(callterm(x, "encryption::create_initial_keys") for x in alts(eng, k.a[2][0]))
        self.c.oblig(f"{self.c.cfg}:client:keys", ok, where(ctx, 0), "the client asks for encryption without session keys of its own")


class E11Wire(Enums):
    def __init__(self, c, prog, paths, want):
        self.c = c
        self.p = prog
        self.paths = paths
        self.want = want
        self.n = {"call": 0}

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        g = self.p.fns.get(d.inst) if d.inst is not None else None
        if g is None or g.path not in self.paths:
            return
        self.n["call"] += 1
        for i, v in enumerate(views):
            ty = g.locals[i + 1]
            for w, pred, what in self.want:
                if w in ty:
                    self.c.oblig(f"{self.c.cfg}:{what}", all(has(x, pred) for x in alts(eng, unref(v))), where(ctx, line),
                                 f"{engine.short_name(g.path)} is not given {what}: {show(unref(v))[:120]}")


def E11(c):
    c.rule = ("Server: in the function that answers a request, a successful return has connection.encryptor = finalize(own session key, client's session key) whenever session keys exist, set after the last "
              "BoundSocket::send, and unchanged otherwise, and the answer was sent. Client: after configuration, an encrypted level with keys on both sides has connection_encryptor = finalize(own, server's) and the "
              "negotiated level; keys are made whenever encryption is asked for; both are handed the keys of this session.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        srv = minimal(p, is_final, named(*SENDS))
        c.floor(f"{cfg}:server", len(srv), 1, "functions that answer a request and install the keys")
        cli = [f for f in direct_callers(p, is_final) if f.path.startswith("tftp_dus::client")]
        c.floor(f"{cfg}:client", len(cli), 1, "functions that install the client's keys")
        gen = [f for f in direct_callers(p, lambda o: o["path"].endswith("::create_initial_keys")) if f.path.startswith("tftp_dus::client")]
        c.floor(f"{cfg}:client:keys", len(gen), 1, "functions that make the client's keys")
        tot = {}

        def runner(cls, keep=()):
            inside = p.reaching(is_final)

            def go(sub, root):
                r = cls(sub, p)
                op = leaves(p, extra=("finalize", "create_initial_keys"))
                sub.run(p, root, [r], opaque=lambda d, fn: op(d, fn) if fn.id not in inside else d.tail == "finalize", max_steps=60000)
                for k, v in r.n.items():
                    tot[cls.__name__ + k] = tot.get(cls.__name__ + k, 0) + v
            return go
        climb(c, p, srv, runner(E11Server))
        climb(c, p, cli, runner(E11Client))
        climb(c, p, gen, runner(E11Keys))
        c.floor(f"{cfg}:server:installed", tot.get("E11Serverinstalled", 0), 1, "installations of session keys in the server")
        c.floor(f"{cfg}:client:installed", tot.get("E11Clientinstalled", 0), 1, "installations of session keys in the client")
        c.floor(f"{cfg}:client:return", tot.get("E11Keysreturn", 0), 1, "ways to make the client's keys")
        fld = lambda n: lambda x: is_field(x, n)
        made = lambda fs: (lambda x: x.op in ("ret", "pure") and x.a[0] in {engine.short_name(f.path) for f in fs})
        built = lambda x: x.op in ("ret", "pure") and x.a[0].split("::")[-1] in ("build_reader", "build_writer")
        parse = neg_names(c, p, False)[1]
        q = minimal(p, lambda o: o["path"] in parse, named("Socket::recv_from"))
        for roots, want, n in ((srv, [("SessionKeys", lambda x: x.op in ("ret", "pure", "param", "phi"), "the keys the request was accepted with")], 2),
                               (cli, [("InitialKeys", made(gen), "the keys made for this session"), ("PublicKeyPair", made(q), "the server's keys of this session"), ("ConnectionOptions", made(q), "the options agreed")], 2)):
            paths = {f.path for f in roots}
            known = paths | {f.path for f in gen} | {f.path for f in q}
            users = {u.path: u for f in roots for u in callers(p, f)}
            got = {"call": 0}

            def go(sub, root):
                r = E11Wire(sub, p, paths, want)
                inside = p.reaching(lambda o: o["path"] in paths)
                sub.run(p, root, [r], opaque=lambda d, fn: fn.path in known or fn.id not in inside, max_steps=60000)
                got["call"] += r.n["call"]
            climb(c, p, list(users.values()), go)
            c.floor(f"{cfg}:{'server' if roots is srv else 'client'}:wired", got["call"], n if roots is cli else 1, "calls that hand over the keys")


# ------------------------------------------------------------------ encrypted files
class E14Cipher(Enums):
    """The last block of a stream, and only that one, is sealed as the last."""
    def __init__(self, c, prog, op):
        self.c = c
        self.p = prog
        self.op = op
        self.n = {"next": 0, "last": 0, "return": 0}

    def on_fact(self, eng, st, t, v):
        super().on_fact(eng, st, t, v)
        if t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
            for x, y in (t.a[1:], t.a[:0:-1]):
                if x.op == "pure" and x.a[0] == "len" and unref(y).op == "param":
                    st.ts["full"] = v
        elif t.op == "bin" and t.a[0] == "Lt" and isinstance(v, bool):
            x, y = t.a[1:]
            for a, b, less in ((x, y, True), (y, x, False)):
                # len < size: the last; not (len < size): full
                if less and a.op == "pure" and a.a[0] == "len" and b.op == "param":
                    st.ts["full"] = not v

    def on_call(self, eng, st, ctx, bb, d, args, line):
        for w, full in (("next", True), ("last", False)):
            if d.tail == f"{self.op}_{w}_in_place":
                self.n[w] += 1
                st.ts["did"] = w
                self.c.oblig(f"{self.c.cfg}:{self.op}:{w}", st.ts.get("full") is full, where(ctx, line),
                             f"a block is processed as {'one with more to follow' if full else 'the last one'} though it is not known to {'be full' if full else 'be short'}")

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and names == {"Ok"} and x.op == "ret" and x.a[0].endswith("_in_place"):
            st.ts["ok"] = True

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        ok = st.ts.get("ok") or v.op == "ret" and v.a[0].endswith("_in_place")
        self.c.oblig(f"{self.c.cfg}:{self.op}:return", ok, where(ctx, 0), "reports success though the cipher did not")


class E14Stream(Enums):
    def __init__(self, c, prog, cipher):
        self.c = c
        self.p = prog
        self.cipher = cipher
        self.n = {"return": 0, "head": 0, "write": 0}

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and x.op in ("ret", "pure") and names == {"Ok"} and x.a[0] in self.cipher:
            st.ts["ok"] = site(x)
        elif tail(adt) == "Option" and (is_field(x, "nonce") or is_field(x, "key")) and has(x, lambda y: y.op == "param"):
            st.ts["head"] = names == {"Some"}

    def by(self, t):
        """the cipher call the bytes in t went through last"""
        t = slice_base(t)
        while t.op == "fld" and isinstance(t.a[1], tuple):
            t = t.a[0]
        return (t.a[0], t.a[1][:2]) if t.op == "mut" and t.a[0] in self.cipher else None


class E14Reader(E14Stream):
    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail in ("copy_from_slice", "clone_from_slice"):
            at = st.ts.get("at")
            v = slice_base(views[1])
            what = "other"
            if self.by(v):
                what = "sealed" if self.by(v) == st.ts.get("ok") else "unsealed"
            elif v.op == "pure" and v.a[0].endswith("to_be_bytes") and has(v, lambda x: x.op == "pure" and x.a[0] == "len"):
                what = "size"
            elif has(v, lambda x: is_field(x, "nonce") or x.op == "fld" and is_field(x.a[0], "nonce")):
                what = "nonce"
            # where this copy ends, for the next one
            end = lin(mk("pure", "len", v))
            st.ts["end"] = (frozenset((end[0] if at != "?" else {}).items()), end[1] + at) if isinstance(at, int) else None
            st.ts["seq"] = st.ts.get("seq", ()) + ((at, what),)
        elif d.tail in ("get_mut", "index_mut") and len(views) > 1:
            r = unref(views[1])
            if r.op == "agg" and tail(r.a[0]) in ("Range", "RangeFrom"):
                l = lin(strip_cast(r.a[2][0]))
                st.ts["at"] = l[1] if not l[0] else "next" if st.ts.get("end") == (frozenset(l[0].items()), l[1]) else "?"
        elif d.name in self.cipher:
            st.ts.pop("ok", None)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        seq = st.ts.get("seq", ())
        head = st.ts.get("head")
        self.n["head"] += head is True
        want = ((0, "size"), (2, "nonce"), ("next", "sealed"))
        ok = seq == want if head is True else seq == ((0, "sealed"),) if head is False else False
        self.c.oblig(f"{self.c.cfg}:reader:{'first' if head else 'later'}", ok, where(ctx, 0), f"a block handed out holds {seq}; the first one must hold {want}, later ones only the sealed data")


class E14Writer(E14Stream):
    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.name in ("Write::write", "Write::write_all") or d.tail == "write_block":
            self.n["write"] += 1
            v = eng.view(st, args[1])
            self.c.oblig(f"{self.c.cfg}:writer:opened", self.by(v) is not None and self.by(v) == st.ts.get("ok"), where(ctx, line), "writes data that was not successfully decrypted")

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "from_aead":
            s = self.sub(views[1])
            self.c.oblig(f"{self.c.cfg}:writer:nonce", s == (2, 21), where(ctx, line), f"the nonce is taken from bytes {s} of the first block, it is put at (2, 21)")
        elif d.tail in ("copy_from_slice", "clone_from_slice"):
            s = self.sub(views[1])
            head = st.ts.get("head")
            self.c.oblig(f"{self.c.cfg}:writer:data:{'first' if head else 'later'}", head is not None and s == ((21, None) if head else (0, None)), where(ctx, line), f"the sealed data is taken from {s}")
        elif d.name in self.cipher:
            st.ts.pop("ok", None)

    def sub(self, t):
        """(start, end) of a slice of the parameter with constant bounds"""
        s = span(t)
        if s is None or unref(s[0]).op != "param":
            return None
        a, b = lin_of(s[1]), lin_of(s[2])
        return (a[1] if not a[0] else "?", b[1] if not b[0] else None)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        self.n["head"] += st.ts.get("head") is True


class E14Setup(engine.Rule):
    """The nonce of a file is random and is the one written into it."""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = 0

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "from_aead":
            self.n += 1
            t = through(views[1])
            st.ts["nonce"] = t
            self.c.oblig("full:setup:random", t.op == "mut" and t.a[0].endswith(("fill_bytes", "try_fill_bytes")) or callterm(t, "RngCore::gen", "Rng::gen", "rand::random"), where(ctx, line),
                         f"the nonce of an encrypted file is {show(t)[:100]}, not random")

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[0] == "closure":
            n = st.ts.get("nonce")
            if n is None and v.a[1][1] in self.p.fns:
                # the cipher is made where the file is opened
                r = E14Inner(self.c)
                e = engine.Engine(self.p, self.p.fns[v.a[1][1]], [r], init=lambda g, s2, i, nm, ty: v if i == 1 and not ty.startswith("&") else None)
                e.max_steps = 40000
                e.run()
                self.n += r.n
                return
            self.c.oblig("full:setup:same", n is not None and any(x is n for x in v.a[2]), where(ctx, 0), "the nonce written into the file is not the one it is encrypted with")


class E14Inner(E14Setup):
    def __init__(self, c):
        super().__init__(c, None)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        n = st.ts.get("nonce")
        own = [x for x in sub_expand(eng, v) if x.op == "agg" and any(through(y) is n for y in x.a[2])] if n is not None else []
        self.c.oblig("full:setup:same", bool(own), where(ctx, 0), "the nonce written into the file is not the one it is encrypted with")


def E14(c):
    c.rule = ("Encrypted files: a block is processed as the last one exactly when it is shorter than the block size, success only if the cipher succeeded; the first block handed out is block size, nonce, sealed data "
              "and later ones sealed data only; the nonce is random and the one encrypted with; what is written to disk went through a successful decryption with the nonce taken from the same place.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        for op, tr, m, cls in (("encrypt", "Read", "read", E14Reader), ("decrypt", "Write", "write", E14Writer)):
            roots = direct_callers(p, lambda o: o["path"].rsplit("::", 1)[-1] == f"{op}_last_in_place")
            c.floor(f"{cfg}:{op}", len(roots), 1, "functions that use the stream cipher")
            n = {}
            for f in roots:
                r = E14Cipher(c, p, op)
                c.run(p, f, [r])
                for k, v in r.n.items():
                    n[k] = n.get(k, 0) + v
            for k in ("next", "last", "return"):
                c.floor(f"{cfg}:{op}:{k}", n.get(k, 0), 1, f"{k} blocks")
            cipher = {engine.short_name(f.path) for f in roots}
            ids = p.reaching(lambda o: engine.short_name(o["path"]) in cipher)
            users = [f for f in methods_of(p, tr, m) if f.id in ids]
            c.floor(f"{cfg}:{op}:stream", len(users), 1, f"encrypting implementations of {tr}")
            for f in users:
                r = cls(c, p, cipher)
                c.run(p, f, [r], opaque=lambda d, fn: d.name in cipher or d.tail in ("read_block", "write_block", "resize_data_block_07", "new_data_block_07"))
                c.floor(f"{cfg}:{op}:{m}", min(r.n["return"], r.n["head"]), 1, "successful returns for the first block")
                if cls is E14Writer:
                    c.floor(f"{cfg}:{op}:written", r.n["write"], 1, "writes of decrypted data")
    p = c.prog("full", "bin")
    c.cfg = "full"
    roots = minimal(p, lambda o: o["path"].rsplit("::", 1)[-1] in ("fill_bytes", "try_fill_bytes", "random", "gen"), lambda o: o["path"].rsplit("::", 1)[-1] == "from_aead")
    c.floor("setup", len(roots), 1, "functions that set up file encryption")
    for f in roots:
        r = E14Setup(c, p)
        c.run(p, f, [r])
        c.floor(f"setup:{f.path}", r.n, 1, "stream ciphers made")
    n = 0
    for f in p.roots:
        for i, o, b in calls_in(f):
            if any(o["path"] == r.path for r in roots):
                n += 1
                rngs = [t for t in o.get("targs", ()) if t.split("<")[0].split("::")[-1].endswith("Rng")]
                c.oblig(f"full:setup:rng:{engine.short_name(f.path)}", rngs and all(t.endswith("::OsRng") for t in rngs), f"{f.file} in {f.path}", f"the nonce comes from {rngs}")
    c.floor("setup:rng", n, 1, "uses of file encryption")


# ------------------------------------------------------------------ what the keys are made of
PAIRS = ("InitialSessionKeyPair", "AuthKeyPair")
MADE = ("Encryptor",) + PAIRS


def makers(p):
    """functions in which an encryptor or a key pair is put together"""
    r = []
    for f in p.roots:
        if any(b and s[0] == "=" and s[2][0] == "agg" and tail(str(s[2][1])) in MADE
               for b in f.blocks for s in (b["s"] if b else ())):
            r.append(f)
    return r


def made_of(t):
    """t without conversions between representations of a key"""
    while True:
        t = through(t)
        if t.op in ("ret", "pure") and t.a[0].split("::")[-1] in ("to_bytes", "as_bytes", "to_scalar_bytes", "to_owned", "to_montgomery", "diffie") and len(callargs(t)) == 1:
            t = callargs(t)[0]
        else:
            return t


class E15Rule(Typed):
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {t: 0 for t in MADE}

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if v.op != "agg" or tail(v.a[0]) not in MADE:
            return
        ty, at = tail(v.a[0]), ctx.fn.path
        self.n[ty] += 1
        if ty == "Encryptor":
            k = through(field(self.p, v, "cipher"))
            if is_field(k, "cipher"):
                return
            new = k.op in ("ret", "pure") and k.a[0].split("::")[-1] in ("new", "new_from_slice")
            m = made_of(callargs(k)[0]) if new else k
            ok = new and m.op in ("ret", "pure") and m.a[0].split("::")[-1] == "diffie_hellman"
            self.c.oblig(self.key(f"{ctx.fn.path}:agreed"), ok, at, f"the key of an encryptor is not, unaltered, what both sides agree on: {show(m)[:160]}")
            if not ok:
                return
            own, peer = map(made_of, callargs(m)[:2])
            mine = is_field(own, "private_key") or self.random(own)
            self.c.oblig(self.key(f"{ctx.fn.path}:own"), mine, at, f"the key is not agreed on with our own private key: {show(own)[:120]}")
            other = peer.op == "param" and ("PublicKey" in self.ptype(eng, peer) or "VerifyingKey" in self.ptype(eng, peer) or "EdwardsPoint" in self.ptype(eng, peer))
            self.c.oblig(self.key(f"{ctx.fn.path}:peer"), other, at, f"the key is not agreed on with the other side's public key: {show(peer)[:120]}")
            st.ts["own"] = own
        else:
            priv, pub = field(self.p, v, "private_key"), field(self.p, v, "public_key")
            self.c.oblig(self.key(f"{ctx.fn.path}:pair"), self.belongs(pub, through(priv)), at, f"the public key of a pair does not belong to its private key: {show(pub)[:120]}")
            if ty == "InitialSessionKeyPair":
                self.c.oblig(self.key(f"{ctx.fn.path}:random"), self.random(through(priv)), at, f"a session key is not random: {show(priv)[:120]}")
            else:
                b = through(priv)
                while b.op == "fld":
                    b = through(b.a[0])
                self.c.oblig(self.key(f"{ctx.fn.path}:given"), b.op == "param", at, f"an authentication key is not the one configured: {show(priv)[:120]}")

    def random(self, t):
        return t.op in ("ret", "pure") and t.a[0].split("::")[-1] in ("random_from_rng", "random", "generate") and all(has(x, lambda y: y.op == "param") for x in callargs(t))

    def belongs(self, pub, priv):
        """pub is the public key of priv"""
        pub = unref(pub)
        if pub.op in ("ret", "pure") and pub.a[0].split("::")[-1] in ("from", "into", "verifying_key") and len(callargs(pub)) == 1:
            if made_of(callargs(pub)[0]) is priv:
                return True
        # the pair's own, converted if its private key was
        x, y = made_of(pub), priv
        if is_field(x, "public_key") and is_field(y, "private_key") and x.a[0] is y.a[0]:
            return True
        return False

    def on_root_return(self, eng, st, ctx, v):
        own = st.ts.get("own")
        if own is None or v.op != "agg" or v.a[0] != "tuple":
            return
        for x in v.a[2]:
            if not (x.op == "agg" and tail(x.a[0]) in MADE):
                self.c.oblig(self.key(f"{ctx.fn.path}:told"), self.belongs(x, own), ctx.fn.path, f"the public key handed out is not that of the key used: {show(x)[:120]}")
                if has(x, lambda y: is_field(y, "public_key")):
                    conv = "Verifying" in self.fieldtype(eng, x)
                    self.c.oblig(self.key(f"{ctx.fn.path}:form"), not conv or has(x, lambda y: y.op in ("ret", "pure") and y.a[0].split("::")[-1] == "to_montgomery"), ctx.fn.path,
                                 "a signing key is handed out as if it were a key for agreement")

    def fieldtype(self, eng, x):
        x = made_of(x)
        adt = self.ptype(eng, x.a[0])
        return "Verifying" if "AuthKeyPair" in adt else ""


def E15(c):
    c.rule = ("In every function that puts an Encryptor or a key pair together: the cipher's key is, through conversions only, diffie_hellman(own private key, the public key given); the public key returned "
              "with it is that of the private key used; a pair's public key is made of its private key; a session's private key is fresh from the random source given, an authentication key the one given.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = makers(p)
        c.floor(f"{cfg}:makers", len(roots), 3, "functions that make keys")
        tot = {}
        paths = {f.path for f in roots}
        users = {u.path: u for f in roots for u in callers(p, f) if u.path.startswith(f.path.rsplit("::", 1)[0] + "::")}
        inside = p.reaching(lambda o: o["path"] in paths)

        def go(sub, root):
            r = E15Rule(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: fn.id not in inside and fn.path not in paths, max_steps=40000)
            for k, n in r.n.items():
                tot[k] = tot.get(k, 0) + n
        climb(c, p, roots + [u for u in users.values() if u.path not in paths], go)
        for k in MADE:
            c.floor(f"{cfg}:{k}", tot.get(k, 0), 1, f"places where {k} is made")


# ------------------------------------------------------------------ a request and the key it was sealed with
class E16Open(Enums):
    """A request that opens under the server's key, and one that does not"""
    CALL = "InitialPacket::decrypt"

    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"opened": 0, "plain": 0}

    def key(self, k):
        return f"{self.c.cfg}:{k}"

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.name != self.CALL:
            return
        st.ts["call"] = res
        enc = through(views[1])
        st.ts["enc"] = enc
        own = peer = None
        if is_field(enc, "0") and enc.a[0].op in ("ret", "pure") and enc.a[0].a[0].split("::")[-1] == "finalize":
            own, peer = [unref(x) for x in callargs(enc.a[0])[:2]]
        self.c.oblig(self.key("server-key"), own is not None and has(own, lambda x: is_field(x, "private_key") and has(x, lambda y: y.op == "param")), where(ctx, line),
                     "a request is not opened with the server's configured key")
        self.c.oblig(self.key("client-key"), peer is not None and is_field(peer, "session_public_key") and contains(unref(views[0]), through(peer.a[0])), where(ctx, line),
                     "a request is not opened with the public key it carries")

    known = False

    def builder(self, x):
        while x.op == "over":
            x = x.a[0]
        return x.op == "agg" and self.p.field_index(x.a[0], x.a[1], "handshake_encryption") is not None

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Result" and unref(x) is st.ts.get("call") and len(names) == 1:
            st.ts["open"] = "Ok" in names

    def on_root_return(self, eng, st, ctx, v):
        ts, at = st.ts, ctx.fn.path
        if v.op == "agg" and v.a[1] == "Err":
            return
        b = [x for x in alts(eng, v) if self.builder(x)]
        self.known = bool(b)
        self.c.oblig(self.key("known"), bool(b), at, "cannot tell what is known about the request's encryption")
        opened = ts.get("open") is True
        self.n["opened" if opened else "plain"] += 1
        data = mk("fld", ts["call"], "Ok.0") if opened else None
        for x in b:
            h = unref(eng.project(x, "handshake_encryption"))
            lv = eng.project(eng.project(x, "options"), "encryption_level")
            if opened:
                self.c.oblig(self.key("kept"), h.op == "agg" and h.a[1] == "Some" and through(h.a[2][0]) is ts["enc"], at, "the key a request was opened with is not kept for its answers")
                self.c.oblig(self.key("level"), lv.op == "agg" and lv.a[1] == "Full", at, f"a request that arrived encrypted is not handled as fully encrypted ({show(lv)[:60]})")
            else:
                self.c.oblig(self.key("none"), h.op == "agg" and h.a[1] == "None", at, "a request that was not opened gets a key")
                self.c.oblig(self.key("plain"), lv.op == "agg" and lv.a[1] != "Full", at, f"a request that was not opened counts as fully encrypted ({show(lv)[:60]})")
        for i in range(1, eng.root.argc + 1):
            ty = eng.root.locals[i]
            if ty.startswith("&mut") and ("Vec<u8" in ty):
                now = through(eng.read(st, ("M", mk("param", i, eng.root.names.get(str(i), f"arg{i}"))), ()))
                if opened:
                    self.c.oblig(self.key("data"), now is data or now is through(data), at, "the request handled is not what was opened")
                else:
                    self.c.oblig(self.key("as-sent"), now is not None and not has(now, lambda y: y.op == "mut" or y is ts.get("call")), at, "a request that was not opened is changed")


class E16Session(engine.Rule):
    """The key of a new session"""
    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"session": 0}

    def on_assign(self, eng, st, ctx, bb, base, path, v, rv):
        if v.op != "agg" or any(self.p.field_index(v.a[0], v.a[1], n) is None for n in ("encryptor", "endpoint", "options")):
            return
        self.n["session"] += 1
        e = through(field(self.p, v, "encryptor"))
        if e.op in ("pure", "ret") and e.a[0].split("::")[-1] in ("take", "replace"):
            e = through(callargs(e)[0])
        ok = is_field(e, "handshake_encryption") and through(e.a[0]).op == "param"
        self.c.oblig(f"{self.c.cfg}:{ctx.fn.path}:session", ok, ctx.fn.path, f"a session does not start under the key its request was sealed with: {show(e)[:120]}")


class E16Client(Enums):
    """The socket the client sends its request with"""
    known = False
    MAKE = "create_encryptor_with_auth_keys"

    def __init__(self, c, prog):
        self.c, self.p = c, prog
        self.n = {"sealed": 0, "return": 0}
        self.levels = frozenset(v["n"] for v in prog.variants(next(a for a in prog.adts if a.endswith("::EncryptionLevel"))))

    def key(self, k):
        return f"{self.c.cfg}:client:{k}"

    def on_enum(self, eng, st, x, adt, names):
        if tail(adt) == "Option" and is_field(x, "remote_public_key"):
            st.ts["pin"] = names
        elif tail(adt) == "EncryptionLevel" and is_field(x, "encryption_level"):
            st.ts["lv"] = st.ts.get("lv", self.levels) & names

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        self.n["return"] += 1
        ts, at = st.ts, ctx.fn.path
        s = [x for y in alts(eng, v) for x in sub_expand(eng, y) if x.op == "agg" and self.p.field_index(x.a[0], x.a[1], "connection_encryptor") is not None]
        self.known = self.known or bool(s) and "pin" in ts
        self.c.oblig(self.key("known"), bool(s), at, "cannot tell which socket the client uses")
        if ts.get("pin") == {"None"} or ts.get("lv", self.levels) <= {"None"}:
            return
        self.n["sealed"] += 1
        for x in s:
            e, k = (unref(field(self.p, x, n)) for n in ("connection_encryptor", "public_key"))
            e, k = (through(y.a[2][0]) if y.op == "agg" and y.a[1] == "Some" else None for y in (e, k))
            made = is_field(e, "0") and e.a[0].op in ("ret", "pure") and e.a[0].a[0].split("::")[-1] == self.MAKE if e is not None else False
            self.c.oblig(self.key("key"), made and any(has(a, lambda z: is_field(z, "remote_public_key")) for a in callargs(e.a[0])), at,
                         "the request is not sealed with a key agreed on with the configured server key")
            self.c.oblig(self.key("told"), made and k is not None and is_field(k, "1") and k.a[0] is e.a[0], at, "the request does not carry the public key of the key it is sealed with")


def E16(c):
    c.rule = ("Where InitialPacket::decrypt is called: with finalize(configured private key, the packet's key); at every return, opened: the key kept is the one used, the level Full, the buffer the opened data; "
              "otherwise no key, not Full, the buffer untouched. Every Connection's encryptor is the builder's. The client with a configured server key: encryptor and public key of one "
              "create_encryptor_with_auth_keys(server key) call.")
    for cfg in ("full", "stackenc"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = minimal(p, named("InitialPacket::decrypt"))
        c.floor(f"{cfg}:open", len(roots), 1, "functions that open a request")
        tot = {}
        keep = {"finalize", "create_auth_keys", "from_bytes", "decrypt"}

        def add(r):
            for k, n in r.n.items():
                tot[k] = tot.get(k, 0) + n

        def go(sub, root):
            r = E16Open(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in keep)
            add(r)
            know[root.path] = r.known
        know = {}
        climb(c, p, roots, go, lambda root: not know.get(root.path))
        c.floor(f"{cfg}:opened", tot.get("opened", 0), 1, "ways to open a request")
        c.floor(f"{cfg}:plain", tot.get("plain", 0), 1, "ways to take a request as it came")
        cons = [f for f in p.roots if any(b and s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], str) and p.field_index(s[2][1], s[2][2], "encryptor") is not None and
                                          p.field_index(s[2][1], s[2][2], "endpoint") is not None for b in f.blocks for s in (b["s"] if b else ()))]
        c.floor(f"{cfg}:connections", len(cons), 1, "functions that make a session")
        inside = {f.path for f in cons}

        def con(sub, root):
            r = E16Session(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: fn.path not in inside)
            add(r)
        climb(c, p, cons, con)
        c.floor(f"{cfg}:sessions", tot.get("session", 0), 2, "sessions made")
        cl = minimal(p, lambda o: o["path"].endswith("::" + E16Client.MAKE))
        c.floor(f"{cfg}:client", len(cl), 1, "functions that make the client's first socket")

        def clt(sub, root):
            r = E16Client(sub, p)
            sub.run(p, root, [r], opaque=lambda d, fn: d.tail in (E16Client.MAKE, "create_initial_keys", "encode_verifying_key"))
            add(r)
            know[root.path] = r.known
        climb(c, p, cl, clt, lambda root: not know.get(root.path))
        c.floor(f"{cfg}:client:sealed", tot.get("sealed", 0), 1, "sockets with a configured server key")
