"""Vocabulary of the transfer rules: what is sent, received, stored."""
import engine
from common import *
from terms import *

SEND = ("BoundSocket::send", "Socket::send", "Socket::send_to")
RECV = ("BoundSocket::recv", "Socket::recv", "Socket::recv_from")


def reaches(prog, *preds):
    """Local roots (closures included) from which a call satisfying each of preds can be reached."""
    sets = [prog.reaching(p) for p in preds]
    ids = set.intersection(*sets)
    return [f for f in prog.roots if f.id in ids and f.crate == "tftp_dus"]


def minimal(prog, *preds):
    """Those of them that do not merely (transitively) call another one of them."""
    fs = reaches(prog, *preds)
    paths = {f.path for f in fs}
    cg = prog.callgraph()
    r = []
    for f in fs:
        seen, todo = {f.id}, [f.id]
        while todo:
            for i in cg.get(todo.pop(), ((), ()))[1]:
                if i not in seen and i in prog.fns:
                    seen.add(i)
                    todo.append(i)
        if not any(prog.fns[i].path in paths and prog.fns[i].path != f.path for i in seen):
            r.append(f)
    return r


def named(*names):
    s = set(names)
    return lambda o: engine.short_name(o["path"]) in s


def packets(eng, t):
    """The packets whose serialisation the bytes in t are made of: [packet value]"""
    r = []
    for x in sub_expand(eng, t):
        if x.op == "mut" and x.a[0].endswith("::to_buffer") or callterm(x, "ByteConverter::to_buffer", "Packet::to_buffer", "InitialPacket::to_buffer"):
            for vs in ([x.a[3]] + list(eng.views_of(x)) if x.op == "mut" else [callargs(x)]):
                if vs:
                    r.append(unref(vs[0]))
    return r


def kind(p):
    """'Ack' for Packet::Ack(..)"""
    return p.a[1] if p.op == "agg" and p.a[1] else None


def field(prog, v, name):
    """Field of a constructed struct value."""
    if v.op == "agg":
        i = prog.field_index(v.a[0], v.a[1], name)
        if i is not None and i < len(v.a[2]):
            return v.a[2][i]
    return mk("fld", v, name)


def payload(v):
    """Packet::Ack(x) -> x"""
    return v.a[2][0] if v.op == "agg" and v.a[2] else v


def strip_cast(t):
    while t.op == "cast" or (t.op == "pure" and t.a[0] in ("Into::into", "From::from") and len(t.a) == 2):
        t = t.a[-1] if t.op == "pure" else t.a[1]
    return t


LEAVES = {"to_buffer", "from_bytes", "encrypt", "decrypt", "block_size_with_encryption", "prepend_data_header", "encrypt_in_place", "decrypt_in_place"}


def leaves(prog, extra=(), small=600):
    """Everything local is analysed in place except serialisation, encryption and large functions that do nothing of interest."""
    ex = LEAVES | set(extra)
    inside = prog.reaching(named("BoundSocket::send", "BoundSocket::recv", "Socket::send_to", "Socket::recv_from", "BlockWriter::write_block", "BlockReader::next"))

    def opaque(d, fn):
        if d.tail in ex:
            return True
        if fn.id in inside:
            return False
        if fn.crate != "tftp_dus":
            return prog.weight(fn.id) > 200
        return prog.weight(fn.id) > small
    return opaque



class Enums(engine.Rule):
    """Turns facts about enum values into on_enum(eng, st, x, adt, names): x is one of names."""
    def variants(self, adt):
        return frozenset(v["n"] for v in self.p.variants(adt) or ())

    def name_of(self, adt, c):
        vs = self.p.variants(adt) or []
        if isinstance(c, str):
            return c
        for v in vs:
            if str(v["d"]) == str(int(c)):
                return v["n"]
        return None

    def on_fact(self, eng, st, t, v):
        if t.op == "discr" and t.a[1] and isinstance(v, str):
            self.on_enum(eng, st, t.a[0], t.a[1], frozenset([v]))
        elif t.op == "bin" and t.a[0] == "Eq" and isinstance(v, bool):
            for a, b in (t.a[1:], t.a[:0:-1]):
                if a.op == "discr" and a.a[1] and b.op == "const":
                    n = self.name_of(a.a[1], b.a[1])
                    if n is not None:
                        self.on_enum(eng, st, a.a[0], a.a[1], frozenset([n]) if v else self.variants(a.a[1]) - {n})
        elif t.op == "pure" and isinstance(v, bool) and t.a[0] in ("Option::is_some", "Option::is_none"):
            self.on_enum(eng, st, unref(t.a[1]), "core::option::Option", frozenset(["Some" if v == t.a[0].endswith("some") else "None"]))
        elif t.op == "pure" and isinstance(v, bool) and t.a[0] in ("Result::is_ok", "Result::is_err"):
            self.on_enum(eng, st, unref(t.a[1]), "core::result::Result", frozenset(["Ok" if v == t.a[0].endswith("ok") else "Err"]))

    def on_branch(self, eng, st, ctx, bb, t, v):
        if isinstance(v, tuple) and v and v[0] == "not" and t.op == "discr" and t.a[1]:
            self.on_enum(eng, st, t.a[0], t.a[1], self.variants(t.a[1]) - set(v[1:]))

    def on_enum(self, eng, st, x, adt, names): pass
