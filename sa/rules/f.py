"""F: the file system seen by the server."""
import engine
from common import *
from terms import *


def fname(t):
    return t.a[0].split("::")[-1] if t.op in ("pure", "ret") else ""

STAT = {"canonicalize", "metadata", "symlink_metadata", "exists", "try_exists", "is_dir", "is_file", "is_symlink", "read_link"}
CONV = {"Path::to_str", "str::parse", "FromStr::from_str", "Path::to_path_buf", "Into::into", "From::from", "Path::new", "PathBuf::from",
        "ToString::to_string", "ToOwned::to_owned", "Path::as_os_str", "PathBuf::into_os_string", "OsStr::to_str", "Path::to_string_lossy",
        "Cow::into_owned", "String::from", "OsStr::to_string_lossy", "Cow::as_ref", "TryFrom::try_from", "TryInto::try_into", "fs::canonicalize",
        "Path::canonicalize", "default"}
CANON = ("fs::canonicalize", "Path::canonicalize")


def server_callbacks(p):
    """The reader and writer callbacks the binary gives to the server."""
    res = {"reader": [], "writer": []}
    for f in p.roots:
        for b in f.blocks:
            if b and b["t"][0] == "call" and b["t"][1][0] == "fn":
                o = b["t"][1][1]
                if o["path"].startswith("tftp_dus::server::") and o["path"].endswith("::server"):
                    for i, role in ((1, "reader"), (2, "writer")):
                        a = b["t"][2][i]
                        if a[0] == "fn" and a[1].get("inst") in p.fns:
                            res[role].append(p.fns[a[1]["inst"]])
                        elif a[0] in ("m", "p"):
                            for b2 in f.blocks:
                                for s in (b2["s"] if b2 else ()):
                                    if s[0] == "=" and s[1] == [a[1][0]] and s[2][0] == "agg" and s[2][1] == "closure" and s[2][4] in p.fns:
                                        res[role].append(p.fns[s[2][4]])
    for role, n in (("reader", "create_server_reader"), ("writer", "create_server_writer")):
        if not res[role]:
            res[role] = roots_named(p, n)
    return res


def fs_events(d, args):
    """(kind, index of the path argument) of a file system call."""
    p, t = d.path, d.tail
    if p.startswith("std::fs::File::"):
        if t in ("open", "create", "create_new"):
            return t if t != "open" else "open-read", 0
        return None
    if p.startswith("std::fs::OpenOptions::"):
        return ("open-options", 1) if t == "open" else None
    if p.startswith("std::fs::") and "::" not in p[len("std::fs::"):]:
        if t in STAT:
            return None
        return t, 0
    if p.startswith("std::path::Path::") and t == "read_dir":
        return "read_dir", 0
    if "std::os::unix::fs" in p or p.startswith("std::process::Command"):
        return t, 0
    return None


MUTATES = {"create", "create_new", "open-options", "create_dir", "create_dir_all", "remove_file", "remove_dir", "remove_dir_all", "rename",
           "copy", "write", "hard_link", "set_permissions", "soft_link", "symlink", "set_len"}


def flags(t):
    """Flags set on an OpenOptions value."""
    r = {}
    while isinstance(t, T) and callterm(t, "OpenOptions.set"):
        r.setdefault(t.a[2].a[1], t.a[3])
        t = t.a[1]
    if isinstance(t, T) and callterm(t, "OpenOptions::new", "File::options"):
        return r
    return None


def is_canon(t):
    """canonicalize(x).Ok.0 -> x"""
    t = unref(t)
    if t.op == "fld" and t.a[1] == "Ok.0" and callterm(t.a[0], *CANON):
        return callargs(t.a[0])[0]
    return None


class Contain(engine.Rule):
    """Which canonical paths are known to lie below the canonical root."""

    def __init__(self, req=1, cfg=2):
        self.req, self.cfg = req, cfg
        self.events = 0
        self.bad = 0

    def is_req(self, t):
        return t.op == "param" and t.a[0] == self.req

    def of_config(self, t):
        return has(t, lambda x: x.op == "fld" and x.a[1] == "directory") and not has(t, self.is_req)

    def contained(self, st):
        """[(canonical path, what was canonicalised)]"""
        r = []
        for t, v in st.facts.items():
            if t.op == "pure" and t.a[0] == "Path::starts_with" and v is True:
                a, b = t.a[1], t.a[2]
            elif t.op == "discr" and v == "Ok" and callterm(t.a[0], "Path::strip_prefix"):
                a, b = callargs(t.a[0])[:2]
            else:
                continue
            x, y = is_canon(a), is_canon(b)
            if x is not None and y is not None and self.of_config(y) and not joins(y):
                r.append((unref(a), x))
        return r

    def path_ok(self, st, path):
        """the path argument is a canonical path known to be contained (or conversions of it), or the root itself"""
        if self.of_config(path) and not joins(path):
            return True
        for p, _ in self.contained(st):
            if contains(path, p):
                rest = replace(path, p, mk("atom", "real"))
                if not has(rest, self.is_req) and not joins(rest):
                    return True
        return False


def joins(t):
    return has(t, lambda x: x.op in ("ret", "pure", "mut") and x.a[0] not in CONV) or has(t, lambda x: x.op == "phi")


def base_paths(eng, t, seen=None):
    return t


class F01Rule(Contain):
    def __init__(self, c):
        super().__init__()
        self.c = c
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        e = fs_events(d, args)
        if not e:
            return
        kind, i = e
        path = unref(eng.view(st, args[i]))
        self.n += 1
        if kind not in ("open-read", "read_dir", "open-options", "read", "read_to_string"):
            self.c.oblig(f"{self.c.cfg}:reader:{kind}", False, where(ctx, line), f"a read request reaches {d.name}, which is not a read")
            return
        if kind == "open-options":
            fl = flags(eng.val(st, args[0]))
            bad = [k for k, v in (fl or {"unknown": TRUE}).items() if k != "read" and v is not FALSE]
            self.c.oblig(f"{self.c.cfg}:reader:flags", not bad, where(ctx, line), f"a read request opens with {bad}")
        self.c.oblig(f"{self.c.cfg}:reader:{kind}@{fn_tail(ctx)}", self.path_ok(st, path), where(ctx, line),
                     f"{d.name} on {show(path)[:200]}: not a canonical path checked with Path::starts_with against the canonical served directory on every path",
                     [f"{show(t)[:160]} = {v}" for t, v in list(st.facts.items())[-8:]])


def F01(c):
    c.rule = ("Every file or directory opened on behalf of a read request is (a conversion of) canonicalize(..) of the request and, on every path to the "
              "open, Path::starts_with(it, canonicalize(config.directory)) is true; nothing that changes the file system is reachable.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        roots = server_callbacks(p)["reader"]
        c.floor(f"{cfg}:reader-callback", len(roots), 1, "reader callback of the server")
        n = 0
        for f in roots:
            r = F01Rule(c)
            c.run(p, f, [r])
            n += r.n
        c.floor(f"{cfg}:opens", n, 2, "opens reachable from the reader callback")


class Options:
    """Files opened in different ways are told apart"""
    def set_flag(self, st, d, args):
        if d.path.startswith("std::fs::OpenOptions::") and len(args) == 2 and d.tail != "open":
            st.ts["of:" + d.tail] = args[1].a[1] if args[1].op == "const" else "?"


EXISTS = ("Path::exists", "Path::is_dir", "Path::is_file", "Path::try_exists")


class F02Rule(Options, Contain):
    def __init__(self, c):
        super().__init__()
        self.c = c
        self.n = 0
        self.judged = {}

    def on_fact(self, eng, st, t, v):
        near = None
        for u in self.versions(eng, t) if v is True else [t]:
            s = st.copy()
            s.facts = {u: v}
            b = set()
            for _, src in self.contained(s):
                # not what happens to be above it, but the closest there is
                b |= self.nearest(eng, st, src, set()) or set()
            near = b if near is None else near & b
        if near:
            st.ts["near"] = st.ts.get("near", frozenset()) | near
        if isinstance(v, bool) and callterm(t, *EXISTS) and has(t, lambda z: z.op == "phi" or callterm(z, "Path::parent", "Iterator::next")):
            # the last one looked at, in a search by hand
            if v:
                st.ts.pop("gone", None)
            else:
                st.ts["gone"] = True
        # the last component is not a link, or a link that leads inside
        if callterm(t, "Path::is_symlink") and v is False or callterm(t, "Path::exists", "Path::is_file") and v is True or t.op == "fld" and callterm(t.a[0], "Path::try_exists") and v is True:
            x = unref(callargs(t.a[0] if t.op == "fld" else t)[0])
            if not has(x, lambda z: z.op == "phi"):
                st.ts["nolink"] = st.ts.get("nolink", frozenset()) | {x}

    def versions(self, eng, t):
        """t for everything that what it asks about can be"""
        r = []
        for u in alts(eng, t) if t.op == "phi" else [t]:
            x = unref(callargs(u)[0]) if callterm(u, "Path::starts_with") else u
            r += [replace(u, x, y) for y in self.spread(eng, x, ())] if x is not u else [u]
        return r or [t]

    def spread(self, eng, x, seen):
        if x.op == "phi" and x not in seen:
            return {z for y in alts(eng, x) for z in self.spread(eng, y, seen + (x,))}
        if x.op == "fld" and x.a[0].op in ("phi", "fld"):
            return {eng.project(y, x.a[1]) for y in self.spread(eng, x.a[0], seen)}
        return {x}

    def ancestor_ok(self, eng, st, path):
        """the closest existing ancestor is known to be inside"""
        if self.path_ok(st, path):
            return True
        return any(self.same(path, x) for x in st.ts.get("near", ()))

    def missing(self, st, is_it):
        """something is_it accepts is known not to exist"""
        for t, v in st.facts.items():
            if v is False and callterm(t, *EXISTS) and is_it(unref(callargs(t)[0])):
                return True
            if v is False and t.op == "fld" and callterm(t.a[0], "Path::try_exists") and is_it(unref(callargs(t.a[0])[0])):
                return True
            if t.op == "discr" and v == "Err" and callterm(t.a[0], "fs::canonicalize", "fs::metadata", "Path::canonicalize", "Path::metadata", "Path::symlink_metadata", "fs::symlink_metadata") and is_it(unref(callargs(t.a[0])[0])):
                return True
        return False

    def on_return(self, eng, st, ctx, v):
        if not hasattr(ctx, "oargs") or getattr(ctx, "d", None) is None:
            return
        # what a search over the ancestors passes by must not exist
        passed = ctx.d.tail in ("skip_while",)
        for x in alts(eng, v):
            s = st.copy()
            if x.op == "const" and x is not (TRUE if passed else FALSE) or not eng.assume(s, x, passed):
                continue
            ok = self.missing(s, lambda y: has(y, lambda z: z.op == "ret" and z.a[0].startswith("closure-arg:")))
            self.judged[ctx.site_] = self.judged.get(ctx.site_, True) and ok

    def hop(self, eng, st, x):
        """One step further up by hand: from the path itself, or from what does not exist"""
        x = unref(x)
        if not callterm(x, "Path::parent", "Iterator::next") and x.op != "phi" and not has(x, lambda z: z.op == "phi" or callterm(z, "Path::parent", "Iterator::next")):
            return
        if not st.ts.pop("gone", False) and not self.missing(st, lambda y: y is x):
            st.ts["hop"] = False

    def same(self, path, t):
        """path is t, or the directory t is in"""
        path = unref(path)
        while path is not t and path.op == "fld" and path.a[1] == "Some.0" and callterm(path.a[0], "Path::parent"):
            path = unref(callargs(path.a[0])[0])
        return contains(path, t) and not joins(replace(path, t, mk("atom", "it")))

    def on_result(self, eng, st, ctx, bb, d, args, views, res, line):
        if d.tail == "next" and "Ancestors" in d.path:
            st.ts["above"] = mk("fld", res, "Some.0")

    def nearest(self, eng, st, t, seen):
        """What t is the closest existing directory above of (or itself); nothing if that is not known"""
        t = unref(t)
        while t.op == "deref":
            t = unref(t.a[0])
        if t in seen:
            return set()
        seen = seen | {t}
        while t.op == "fld" and t.a[1] in ("Some.0", "Ok.0") or t.op == "deref" or t.op in ("pure", "ret") and t.a[0].split("::")[-1] in ("ok_or", "ok_or_else", "branch", "unwrap_or", "to_path_buf", "to_owned", "into", "from", "clone", "as_path", "as_ref", "deref", "copied", "cloned") and callargs(t):
            t = unref(t.a[0] if t.op in ("fld", "deref") else callargs(t)[0])
        if t.op == "phi":
            r = set()
            for x in alts(eng, t):
                s = self.nearest(eng, st, x, seen)
                if s is None:
                    return None
                r |= s
            return r if len(r) <= 1 else None
        if callterm(t, "Path::parent"):
            return self.nearest(eng, st, callargs(t)[0], seen) if st.ts.get("hop", True) else None
        f = t.a[0].split("::")[-1] if t.op in ("pure", "ret") else ""
        if f in ("find", "next"):
            if f == "find" and self.judged.get(t.a[1] if t.op == "ret" else None) is not True:
                return None
            x, skip = unref(callargs(t)[0]), 0
            lazily = f == "find"
            while not callterm(x, "Path::ancestors"):
                g = x.a[0].split("::")[-1] if x.op in ("pure", "ret", "mut") else ""
                a = callargs(x) if x.op in ("pure", "ret") else ()
                if x.op == "mut":
                    x = unref(x.a[-1][0]) if isinstance(x.a[-1], tuple) and x.a[-1] else mk("atom", "unknown")
                elif g == "skip" and len(a) == 2 and a[1].op == "const":
                    skip += a[1].a[1]
                    x = unref(a[0])
                elif g in ("filter", "skip_while") and self.judged.get(x.a[1] if x.op == "ret" else None) is True:
                    lazily = True
                    x = unref(a[0])
                elif g in ("by_ref", "into_iter", "inspect", "fuse", "peekable") and a:
                    x = unref(a[0])
                elif x.op == "phi" and alts(eng, x):
                    x = unref(min(alts(eng, x), key=lambda y: y.id))
                else:
                    return None
            return {unref(callargs(x)[0])} if skip <= 1 and (lazily or st.ts.get("hop", True)) else None
        return {t} if f or t.op in ("param", "fld") else None

    def on_call(self, eng, st, ctx, bb, d, args, line):
        self.set_flag(st, d, args)
        if d.name == "Path::parent" and args:
            self.hop(eng, st, eng.view(st, args[0]))
        elif d.tail == "next" and "Ancestors" in d.path:
            z = st.ts.get("above")
            if z is not None:
                self.hop(eng, st, z)
        e = fs_events(d, args)
        if not e:
            return
        kind, i = e
        cfg = self.c.cfg
        path = unref(eng.view(st, args[i]))
        self.n += 1
        facts = [f"{show(t)[:160]} = {v}" for t, v in list(st.facts.items())[-8:]]
        k = f"{cfg}:writer:{kind}@{fn_tail(ctx)}"
        if kind == "open-options":
            fl = flags(eng.val(st, args[0]))
            if fl is None:
                self.c.oblig(k + ":flags", False, where(ctx, line), "cannot tell how the file is opened")
                return
            if fl.get("truncate", FALSE) is not FALSE and fl.get("create_new", FALSE) is not TRUE:
                self.c.oblig(k + ":truncate", self.path_ok(st, path), where(ctx, line),
                             f"truncates {show(path)[:160]}, which is not a canonical path known to be inside the served directory", facts)
            elif fl.get("create_new", FALSE) is TRUE:
                self.c.oblig(k + ":create_new", self.ancestor_ok(eng, st, path), where(ctx, line),
                             f"creates {show(path)[:160]} although its closest existing directory is not known to be inside the served directory", facts)
            elif fl.get("create", FALSE) is not FALSE:
                ok = self.path_ok(st, path) or self.ancestor_ok(eng, st, path) and path in st.ts.get("nolink", ())
                self.c.oblig(k + ":create", ok, where(ctx, line),
                             f"may create {show(path)[:160]} although it is not known to be inside the served directory (directory and final link)", facts)
            else:
                # neither creates nor truncates: harmless until it is returned
                self.c.oblig(k + ":open", True, where(ctx, line))
        elif kind in ("create_dir", "create_dir_all"):
            self.c.oblig(k, self.ancestor_ok(eng, st, path), where(ctx, line),
                         f"creates directories below {show(path)[:160]} although its closest existing directory is not known to be inside the served directory", facts)
        elif kind in ("open-read", "read_dir", "read", "read_to_string"):
            self.c.oblig(k, self.path_ok(st, path), where(ctx, line), "reads outside of the served directory", facts)
        else:
            self.c.oblig(k, self.path_ok(st, path), where(ctx, line), f"{d.name} on a path not known to be inside the served directory", facts)

    def on_root_return(self, eng, st, ctx, v):
        if v.op == "agg" and v.a[1] == "Err":
            return
        # the file handed to the transfer was checked
        ok = False
        pl = v.a[2][0] if v.op == "agg" and v.a[1] == "Ok" else v
        opened = [x for x in sub_expand(eng, pl) if callterm(x, "OpenOptions::open", "File::create", "File::create_new", "File::open")]
        for x in opened:
            self.c.oblig(f"{self.c.cfg}:writer:returns", bool(self.contained_target(eng, st, x)), ctx.fn.path,
                         f"hands out {show(x)[:160]} for writing without having checked that its canonical path is inside the served directory",
                         [f"{show(t)[:160]} = {v}" for t, v in list(st.facts.items())[-8:]])

    def contained_target(self, eng, st, x):
        a = callargs(x)
        path = unref(a[-1])
        if self.path_ok(st, path):
            return True
        for p, src in self.contained(st):
            if unref(src) is path:
                return True
        return False


def F02(c):
    c.rule = ("In the writer callback of the server, create_dir_all / a creating open happen only after starts_with(canonicalize(closest existing ancestor "
              "of the target), canonicalize(config.directory)) is true (and, when the open follows links, the target is no dangling link); a truncating open and "
              "the file handed to the transfer are on a path whose canonical form is known to be inside.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        roots = server_callbacks(p)["writer"]
        c.floor(f"{cfg}:writer-callback", len(roots), 1, "writer callback of the server")
        n = 0
        for f in roots:
            r = F02Rule(c)
            c.run(p, f, [r])
            n += r.n
        c.floor(f"{cfg}:opens", n, 1, "opens reachable from the writer callback")
        c.floor(f"{cfg}:returns", c.count(f"{cfg}:writer:returns"), 1, "files handed out by the writer callback")


class F03Rule(Options, engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def on_call(self, eng, st, ctx, bb, d, args, line):
        self.set_flag(st, d, args)
        e = fs_events(d, args)
        if not e or e[0] not in MUTATES or e[0] in ("create_dir", "create_dir_all"):
            return
        kind, i = e
        self.n += 1
        k = f"{self.c.cfg}:writer:{kind}@{fn_tail(ctx)}"
        allow = None
        for t, v in st.facts.items():
            if t.op == "fld" and t.a[1] == "allow_overwrite":
                allow = v
        if kind == "open-options":
            fl = flags(eng.val(st, args[0]))
            if fl is None:
                self.c.oblig(k + ":flags", False, where(ctx, line), "cannot tell how the file is opened")
                return

            def known_off(t):
                """false whenever overwriting is not allowed"""
                return t is FALSE or t.op == "fld" and t.a[1] == "allow_overwrite" or allow is True

            def known_on(t):
                """true whenever overwriting is not allowed"""
                return t is TRUE or t.op == "not" and t.a[0].op == "fld" and t.a[0].a[1] == "allow_overwrite" or allow is True
            if fl.get("write", FALSE) is FALSE and fl.get("append", FALSE) is FALSE:
                return
            ok = known_on(fl.get("create_new", FALSE))
            self.c.oblig(k, ok, where(ctx, line),
                         f"opens for writing with { {a: show(b) for a, b in fl.items()} } although config.allow_overwrite is not known to be true and create_new is not set")
        elif kind == "create_new":
            self.c.oblig(k, True)
        else:
            self.c.oblig(k, allow is True, where(ctx, line), f"{d.name} can replace an existing file although config.allow_overwrite is not known to be true")


def F03(c):
    c.rule = ("Every open for writing reachable from the writer callback sets create_new whenever config.allow_overwrite is not known to be true on "
              "the path; no other call that replaces or removes a file is reachable without it.")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        roots = server_callbacks(p)["writer"]
        c.floor(f"{cfg}:writer-callback", len(roots), 1, "writer callback of the server")
        n = 0
        for f in roots:
            r = F03Rule(c)
            c.run(p, f, [r])
            n += r.n
        c.floor(f"{cfg}:opens", n, 1, "opens for writing reachable from the writer callback")


class F04Rule(engine.Rule):
    def __init__(self, c):
        self.c = c
        self.n = 0

    def counts(self, eng, t):
        """t counts the components of the request"""
        s = sub_expand(eng, t)
        if any(callterm(x, "Iterator::count", "Iterator::fold", "Iterator::sum") for x in s) and any(
                x.op == "param" and x.a[0] == 1 for x in s):
            return True
        # a counting loop: starts at 0 (or 1) and only ever adds 1
        if t.op == "phi":
            ms = eng.phimem.get(t, ())
            return any(m.op == "const" for m in ms) and any(m.op != "const" for m in ms)
        return False

    def on_call(self, eng, st, ctx, bb, d, args, line):
        e = fs_events(d, args)
        if not e:
            return
        self.n += 1
        best = None
        for a, b, k in upper_bounds(st):
            if len(a) == 1 and len(b) == 1:
                (ta, na), = a.items()
                (tb, nb), = b.items()
                if na == nb == 1 and has(tb, lambda x: x.op == "fld" and x.a[1] == "max_directory_depth") and self.counts(eng, ta):
                    best = k if best is None else min(best, k)
        # the last component is the file: components - 1 <= max_directory_depth
        self.c.oblig(f"{self.c.cfg}:{e[0]}@{fn_tail(ctx)}", best is not None and best <= 1, where(ctx, line),
                     f"{d.name} is reached without components(request) - 1 <= config.max_directory_depth" + ("" if best is None else f" (only components - {best} <= max)"),
                     [f"{show(t)[:160]} = {v}" for t, v in list(st.facts.items())[:6]])


def F04(c):
    c.rule = "On every path from the server's file callbacks to a file system call, components(request) - 1 <= config.max_directory_depth is known."
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "bin")
        cb = server_callbacks(p)
        for role in ("reader", "writer"):
            c.floor(f"{cfg}:{role}-callback", len(cb[role]), 1, f"{role} callback of the server")
            n = 0
            for f in cb[role]:
                r = F04Rule(c)
                c.run(p, f, [r])
                n += r.n
            c.floor(f"{cfg}:{role}-opens", n, 1, f"file system calls reachable from the {role} callback")


def is_file_callback(o):
    return o.get("rustcall") and o.get("inst") is None and len(o.get("targs", ())) > 1 and "ServerConfig" in o["targs"][1]


DOTS = ("..", ".", "")


TRIMS = ("str::trim", "str::trim_ascii")


def trimmed(x):
    """(what x is a trimmed copy of, whether it was trimmed on both ends)"""
    x, full = peel(x), False
    while callterm(x, "str::trim_start", "str::trim_end", *TRIMS):
        full = full or callterm(x, *TRIMS)
        x = peel(callargs(x)[0])
    return x, full


def peel(x):
    x = unref(x)
    while x.op in ("deref", "&", "ref"):
        x = unref(x.a[0])
    return x


def excluded(st, eng, c, full=False):
    """component strings c is known to differ from (full: also once it is trimmed)"""
    r = set()
    for t, v in list(st.facts.items()):
        if t.op == "bin" and t.a[0] == "Eq" and v is False:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == "const" and isinstance(y.a[1], str):
                    b, f = trimmed(x)
                    if b is c and (f or not full):
                        r.add(y.a[1])
                elif y.op == "const" and y.a[1] == 0 and x.op == "pure" and x.a[0].split("::")[-1] == "len":
                    b, f = trimmed(callargs(x)[0])
                    if b is c and (f or not full):
                        r.add("")
        elif t.op == "pure" and t.a[0].split("::")[-1] == "is_empty" and v is False:
            b, f = trimmed(callargs(t)[0])
            if b is c and (f or not full):
                r.add("")
    return r


class PieceRule(engine.Rule):
    """What a closure over the components lets through (filter), makes of them (map, filter_map) or appends (fold, for_each)"""

    def __init__(self, kind):
        self.kind, self.out, self.same = kind, [], True

    def start(self, eng, st, ctx):
        self.last = ctx.fn.argc

    def note(self, eng, st, v):
        v = peel(v)
        b, full = trimmed(v)
        self.same = self.same and b.op == "param" and b.a[0] == self.last
        self.out.append((excluded(st, eng, b), excluded(st, eng, b, True), b is not v))

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if self.kind == "fold" and d.tail in ("push_str", "push", "extend", "extend_from_slice", "write_str") and len(args) == 2:
            x = unref(eng.view(st, args[1]))
            if not (x.op == "const" and "." not in str(x.a[1])):
                self.note(eng, st, x)

    def on_root_return(self, eng, st, ctx, v):
        if self.kind == "filter":
            if v is FALSE:
                return
            s2 = st.copy()
            if eng.assume(s2, v, True):
                own = {y for t in s2.facts for y in sub_expand(eng, t) if y.op == "param" and y.a[0] == self.last}
                for x in own or {FALSE}:
                    self.note(eng, s2, x)
        elif self.kind == "map":
            self.note(eng, st, v)
        elif self.kind == "filter_map":
            if v.op == "agg" and v.a[1] == "None":
                return
            self.note(eng, st, v.a[2][0] if v.op == "agg" and v.a[1] == "Some" else v)


def piece(p, kind, f, cache={}):
    """(components excluded, components excluded even when trimmed, only what it is given passes, it trims) for a closure"""
    f = unref(f)
    if not (f.op == "agg" and f.a[0] == "closure" and f.a[1][1] in p.fns):
        return set(), set(), False, True
    k = (id(p), kind, f.a[1][1])
    if k not in cache:
        r = PieceRule(kind)
        engine.Engine(p, p.fns[f.a[1][1]], [r]).run()
        every = set(DOTS)
        cache[k] = (set.intersection(every, *(o[0] for o in r.out)), set.intersection(every, *(o[1] for o in r.out)), r.same, any(o[2] for o in r.out))
    return cache[k]


KEEP = ("rev", "skip", "take", "skip_while", "take_while", "peekable", "by_ref", "inspect", "fuse", "cloned", "copied", "step_by", "into_iter")


def yields(eng, p, it, depth=0):
    """(components none of what the iterator yields is, the same once trimmed), or None if it does not come from splitting at '/'"""
    it = unref(it)
    if it.op == "phi":
        rs = [yields(eng, p, m, depth + 1) for m in eng.phimem.get(it, ()) if m is not it] if depth < 8 else []
        return None if not rs or None in rs else tuple(set.intersection(*x) for x in zip(*rs))
    if it.op not in ("pure", "ret", "mut") or depth > 20:
        return None
    n = fname(it) if it.op != "mut" else None
    args = callargs(it) if it.op != "mut" else ()
    if n in ("split", "rsplit", "split_terminator") and len(args) == 2 and unref(args[1]).op == "const" and unref(args[1]).a[1] in ("/", ord("/")):
        return set(), set()
    if n in KEEP and args:
        return yields(eng, p, args[0], depth + 1)
    if n == "chain":
        rs = [yields(eng, p, x, depth + 1) for x in args]
        return None if None in rs else tuple(set.intersection(*x) for x in zip(*rs))
    if n == "filter":
        r = yields(eng, p, args[0], depth + 1)
        ex, full, _, _ = piece(p, n, args[1])
        return r and (r[0] | ex, r[1] | full)
    if n in ("map", "filter_map"):
        r = yields(eng, p, args[0], depth + 1)
        ex, full, same, trim = piece(p, n, args[1])
        if r is None:
            return None
        if same:
            return (r[1] if trim else r[0]) | (full if trim else ex), r[1] | full
        return ex, full
    return None


class F05Rule(engine.Rule):
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.n = 0
        self.pushed = {}

    def on_call(self, eng, st, ctx, bb, d, args, line):
        if d.tail in ("push_str", "push", "extend", "extend_from_slice", "write_str") and len(args) == 2:
            # what is appended to a path being put together
            c = unref(eng.view(st, args[1]))
            ex = excluded(st, eng, c)
            self.pushed.setdefault((ctx.id, bb), (d.name, c, ex, line, ctx))
            o = self.pushed[(ctx.id, bb)]
            self.pushed[(ctx.id, bb)] = (d.name, c, o[2] & ex, line, ctx)
        if not (d.rustcall and d.inst is None and len(d.targs) > 1 and "ServerConfig" in d.targs[1]):
            return
        self.n += 1
        tup = eng.view(st, args[1])
        path = unref(tup.a[2][0]) if tup.op == "agg" else unref(tup)
        ok, why = self.clean(eng, path)
        self.c.oblig(f"{self.c.cfg}:{'.'.join(d.targs[:1])}@{fn_tail(ctx)}", ok, where(ctx, line),
                     f"{why}; path handed to the callback: {show(path)[:300]}")

    def clean(self, eng, path):
        """Whatever the path may be on the ways that lead here"""
        some = False
        for x in alts(eng, path):
            x = unref(x)
            if not has(x, lambda y: y.op in ("param", "phi", "mut") or y.op in ("ret", "pure") and callargs(y)):
                # nothing of the request in it: a text not yet begun
                continue
            some = True
            ok, why = self.clean_one(eng, x)
            if not ok:
                return ok, why
        return some, "" if some else "the requested name is not rebuilt from filtered components"

    def clean_one(self, eng, path):
        s = sub_expand(eng, path)
        # the pieces the name is made of
        found = False
        for x in s:
            if callterm(x, "Iterator::fold", "Iterator::collect", "Iterator::for_each", "FromIterator::from_iter", "slice::join", "Join::join"):
                src = callargs(x)[0]
                got = yields(eng, self.p, src)
                if got is None:
                    if any(callterm(y, "str::split", "str::rsplit", "str::split_terminator") for y in sub_expand(eng, src)):
                        return False, f"it is not known what becomes of the path components: {show(src)[:200]}"
                    continue
                found = True
                ex = got[0]
                if fname(x) in ("fold", "for_each"):
                    more, full, same, trim = piece(self.p, "fold", callargs(x)[-1])
                    ex = (got[1] | full if trim else got[0] | more) if same else more
                miss = [q for q in DOTS if q not in ex]
                if miss:
                    return False, f"path components equal to {miss} are not removed"
        if found:
            return True, ""
        # written as a loop: what is pushed must be a component known to be ordinary
        for x in s:
            if x.op in ("mut",) and x.a[0].split("::")[-1] in ("push_str", "push"):
                o = self.pushed.get(x.a[1])
                if o is None:
                    continue
                _, c, ex, line, cx = o
                if c.op == "const":
                    continue
                found = True
                miss = [q for q in DOTS if q not in ex]
                if miss:
                    return False, f"{fn_tail(cx)} appends a path component that may be {miss}"
        if found:
            return True, ""
        return False, "the requested name is not rebuilt from filtered components"


def F05(c):
    c.rule = ("The path handed to the server's create_reader / create_writer callbacks is rebuilt from the '/'-separated components of the request from which "
              "'..', '.' and empty components were filtered out (the filter's predicate is analysed).")
    for cfg in ("full", "stack"):
        c.cfg = cfg
        p = c.prog(cfg, "lib")
        roots = direct_callers(p, is_file_callback)
        c.floor(f"{cfg}:callbacks", len(roots), 1, "functions that call the file callbacks")
        op = opaque_unless(p, lambda o: is_file_callback(o) or o["path"].rsplit("::", 1)[-1] in ("fold", "filter", "split"))
        n = [0]

        def analyse(sub, root):
            r = F05Rule(sub, p)
            sub.run(p, root, [r], opaque=op, max_steps=80000)
            n[0] += r.n
        climb(c, p, roots, analyse)
        c.floor(f"{cfg}:calls", n[0], 2, "calls of the file callbacks")
