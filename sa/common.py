"""What every check shares: programs, obligations, evidence, verdict."""
import json
import os
import sys
import time

import build
import engine
import facts
from terms import *

VERIF = build.VERIF
EVID = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.progs = {}
        self.facts_paths = {}
        self.obl = {}        # key -> [ok, where, msg, trace]
        self.fns = set()
        self.roots = []
        self.calls = set()
        self.blocks = 0
        self.states = 0
        self.notes = []
        self.exceptions = []
        self.rule = ""
        self.configs = []
        self.cfg = "full"

    # -------------------------------------------------------------- programs
    def load(self, cfgs):
        need = [c for c in cfgs if c not in self.facts_paths]
        if need:
            self.facts_paths.update(build.extract(need))
        for c in cfgs:
            if c not in self.configs:
                self.configs.append(c)

    def prog(self, cfg, pkg):
        k = (cfg, pkg)
        if cfg not in self.configs:
            self.configs.append(cfg)
        if k not in self.progs:
            self.load([cfg])
            self.progs[k] = facts.Program(self.facts_paths[cfg][pkg], pkg)
        return self.progs[k]

    # ------------------------------------------------------------ obligations
    def oblig(self, key, ok, where="", msg="", trace=None):
        """One obligation: must hold on every path on which it arises."""
        o = self.obl.get(key)
        if o is None:
            self.obl[key] = [bool(ok), where, msg, trace]
        elif o[0] and not ok:
            self.obl[key] = [False, where, msg, trace]
        return ok

    def floor(self, key, n, least, msg):
        """Fails closed when an anchor the rule needs has disappeared."""
        self.oblig(f"anchor:{key}", n >= least, key, f"{msg}: found {n}, need {least}")

    def count(self, prefix):
        return sum(1 for k in self.obl if k.startswith(prefix))

    # --------------------------------------------------------------- analysis
    def run(self, prog, root, rules, **kw):
        max_steps = kw.pop("max_steps", 400000)
        e = engine.Engine(prog, root, rules, **kw)
        e.max_steps = max_steps
        e.run()
        for r in rules:
            if hasattr(r, "on_end"):
                r.on_end(e)
        self.roots.append(f"{self.cfg}/{prog.pkg}:{root.path}")
        self.fns |= {f"{prog.pkg}:{f}" for f in e.fns_seen}
        self.calls |= {(prog.pkg,) + c for c in e.calls_seen}
        self.blocks += len(e.nodes)
        self.states += sum(len(m) for m in e.nodes.values())
        if e.overflow:
            self.oblig(f"analysis:{root.path}", False, root.path, "the analysis did not reach a fixed point within its step limit")
        return e

    # ---------------------------------------------------------------- verdict
    def finish(self):
        known, fixed = load_known()
        bad = [(k, o) for k, o in sorted(self.obl.items()) if not o[0]]
        new, old = [], []
        for k, o in bad:
            (old if (self.pid, k) in known else new).append((k, o))
        os.makedirs(EVID, exist_ok=True)
        samples = [{"obligation": k, "ok": o[0], "where": o[1], **({"detail": o[2]} if o[2] and not o[0] else {})} for k, o in sorted(self.obl.items())]
        bad_samples = [x for x in samples if not x["ok"]]
        ev = {
            "property": self.pid,
            "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER", "quick") in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Path-sensitive static data-flow analysis of the compiler's MIR of /repo's working tree; nothing is executed.",
                "rule": self.rule,
                "configurations": {c: build.CONFIGS[c] for c in self.configs},
                "entry_points": sorted(set(self.roots)),
                "functions_analysed": len(self.fns),
                "call_sites_analysed": len(self.calls),
                "cfg_nodes": self.blocks,
                "abstract_states": self.states,
                "obligations": len(self.obl),
                "discharged": sum(1 for o in self.obl.values() if o[0]),
                "known_findings_reported": len(old),
                "samples": (bad_samples + [x for x in samples if x["ok"]])[:40],
                "functions": sorted(self.fns)[:400],
            },
            "assumptions": self.exceptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        path = os.path.join(EVID, f"{self.pid}.json")
        tmp = path + f".{os.getpid()}"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, path)
        for k, o in old:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {o[2]} ({o[1]})")
        rp = os.path.join(EVID, f"{self.pid}.violation.txt")
        if os.path.exists(rp):
            os.remove(rp)
        if new:
            rp = os.path.join(EVID, f"{self.pid}.violation.txt")
            with open(rp, "w") as f:
                for k, o in new:
                    f.write(f"{k}\n  where: {o[1]}\n  rule: {self.rule}\n  why: {o[2]}\n")
                    if o[3]:
                        f.write(f"  facts: {o[3]}\n")
            for k, o in new:
                print(f"{o[1]}: {k}: {o[2]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"ok {self.pid}: {len(self.obl)} obligations, {len(self.fns)} functions, {len(self.calls)} call sites, {ev['wall_s']} s")
        return 0


def load_known():
    known, fixed = set(), []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            o = json.load(f)
        for x in o.get("known", []):
            known.add((x["property"], x["key"]))
        fixed = o.get("fixed", [])
    return known, fixed


# ------------------------------------------------------------------ program queries
def roots_named(prog, suffix):
    """Local functions by path suffix on a `::` boundary."""
    return [f for f in prog.roots if f.path == suffix or f.path.endswith("::" + suffix)]


def methods_of(prog, trait, method, selfty=None):
    """Implementations of trait methods (`trait` is the last path segment)."""
    r = []
    for f in prog.roots:
        if engine.short_name(f.path) == f"{trait}::{method}" and f.path.startswith("<"):
            if selfty is None or selfty in f.path.split(" as ")[0]:
                r.append(f)
        elif f.impl_trait and engine.strip_generics(f.impl_trait).split("::")[-1] == trait and f.path.endswith("::" + method):
            if selfty is None or selfty in (f.impl_self or ""):
                r.append(f)
    return r


def where(ctx, line):
    f = ctx.fn
    return f"{f.file}:{line} in {f.path}"


def fn_tail(ctx):
    return "::".join(ctx.fn.path.split("::")[-2:])


def opaque_unless(prog, pred, small=60, keep=()):
    """Inline what can reach a call satisfying pred, and small local helpers; the rest is opaque."""
    ids = prog.reaching(pred)

    def opaque(d, fn):
        if fn.id in ids:
            return False
        if fn.crate != "tftp_dus":
            return prog.weight(fn.id) > 200
        return prog.weight(fn.id) > small
    return opaque


def callee(names=(), tails=(), paths=()):
    names, tails, paths = set(names), set(tails), set(paths)

    def pred(o):
        p = o["path"]
        return (p.rsplit("::", 1)[-1] in tails) or (engine.short_name(p) in names) or p in paths
    return pred


# ------------------------------------------------------------------ term queries
def has(t, pred):
    return any(pred(x) for x in sub_terms(t))


def contains(t, x):
    return t is x or x in sub_terms(t)


def replace(t, old, new):
    if t is old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) for x in t)
    if not isinstance(t, T):
        return t
    a = tuple(replace(x, old, new) for x in t.a)
    if all(x is y for x, y in zip(a, t.a)):
        return t
    return mk(t.op, *a)


def callterm(t, *names):
    """t is the result of a call to one of names (short names)."""
    return isinstance(t, T) and t.op in ("ret", "pure") and t.a[0] in names


def callargs(t):
    """Argument views of a call result."""
    if t.op == "pure":
        return t.a[1:]
    if t.op == "ret":
        return t.a[2] if isinstance(t.a[2], tuple) else t.a[2:]
    return ()


def sub_expand(eng, t):
    """Subterms, following joins and the arguments of every visit of a call."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        todo.extend(x.a)
        if x.op == "phi":
            todo.extend(eng.phimem.get(x, ()))
        elif x.op in ("ret", "mut"):
            todo.extend(eng.views_of(x))
    return seen


def alts(eng, t, seen=None):
    """The values a join stands for."""
    seen = set() if seen is None else seen
    while t.op == "cast":
        t = t.a[1]
    if t.op != "phi":
        return {t}
    if t in seen:
        return set()
    seen.add(t)
    r = set()
    for m in eng.phimem.get(t, ()):
        r |= alts(eng, m, seen)
    return r


# ------------------------------------------------------------------ roots by role
def direct_callers(prog, pred):
    """Local root functions (closures: the function they are written in) whose body has a call satisfying pred(json, argty)."""
    r = {}
    for f in prog.roots:
        if f.crate != "tftp_dus":
            continue
        for b in f.blocks:
            if b and b["t"][0] == "call" and b["t"][1][0] == "fn" and pred(b["t"][1][1]):
                r[f.path] = f
                break
    return list(r.values())


def calls_in(fn):
    for i, b in enumerate(fn.blocks):
        if b and b["t"][0] == "call" and b["t"][1][0] == "fn":
            yield i, b["t"][1][1], b


def callers(prog, fn):
    """Local roots that call fn, mention it as a value, or create it as a closure."""
    m = getattr(prog, "_callers", None)
    if m is None:
        m = prog._callers = {}
        cg = prog.callgraph()
        for f in prog.roots:
            for i in cg[f.id][1]:
                if i in prog.fns:
                    m.setdefault(prog.fns[i].path, {})[f.path] = f
    return [f for q, f in m.get(fn.path, {}).items() if q != fn.path]


def climb(c, prog, roots, analyse, further=lambda root: True):
    """analyse(sub, root) discharges the obligations met below root into the Check `sub`.  A function in which an obligation
    cannot be discharged on its own is analysed again inside each of its callers, up to the entry points: what holds in
    every calling context holds, and an extracted helper is judged in the context of the code it was extracted from.
    further(root): whether the callers can know more than root."""
    done = set()
    todo = [(r, None) for r in roots]
    while todo:
        root, blame = todo.pop(0)
        if root.path in done:
            continue
        done.add(root.path)
        sub = Check(c.pid)
        sub.cfg = c.cfg
        sub.progs = c.progs
        analyse(sub, root)
        c.fns |= sub.fns
        c.calls |= sub.calls
        c.roots += sub.roots
        c.blocks += sub.blocks
        c.states += sub.states
        failed = {k: o for k, o in sub.obl.items() if not o[0]}
        up = callers(prog, root)
        if failed and up and further(root) and not os.environ.get("VP_NOCLIMB"):
            todo += [(u, blame or failed) for u in up]
            continue
        if failed and blame:
            # report what went wrong closest to the construct
            failed = dict(blame)
        for k, o in sub.obl.items():
            if o[0]:
                c.oblig(k, *o)
        for k, o in failed.items():
            c.oblig(k, *o)


# ------------------------------------------------------------------ arithmetic facts
def linear(t):
    """t as (terms with coefficients, constant); saturating_sub of a count is exact where it matters (1 <= 0 + limit)."""
    if t.op == "const" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return {}, t.a[1]
    if t.op == "cast":
        return linear(t.a[1])
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, ca = linear(t.a[1])
        b, cb = linear(t.a[2])
        s = 1 if t.a[0] == "Add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t.op == "pure" and t.a[0].split("::")[-1] in ("saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add", "unchecked_sub", "unchecked_add"):
        return linear(mk("bin", "Sub" if t.a[0].endswith("sub") else "Add", t.a[1], t.a[2]))
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "bin":
        return linear(t.a[0])
    if t.op == "fld" and t.a[1] == "Some.0" and t.a[0].op == "pure" and t.a[0].a[0].endswith(("checked_sub", "checked_add")):
        x = t.a[0]
        return linear(mk("bin", "Sub" if x.a[0].endswith("sub") else "Add", x.a[1], x.a[2]))
    return {t: 1}, 0


def upper_bounds(st, facts=None):
    """Known a - b <= k with a, b terms, from the comparisons on this path: [(a, b, k)]"""
    r = []
    for t, v in list(facts or st.facts.items()):
        if t.op == "bin" and t.a[0] in ("Lt", "Eq") and isinstance(v, bool):
            la, ca = linear(t.a[1])
            lb, cb = linear(t.a[2])
            if t.a[0] == "Eq":
                if v:
                    r.append((la, lb, cb - ca))
                    r.append((lb, la, ca - cb))
                # an unsigned value that is not 0 is at least 1
                elif not la and ca == 0:
                    r.append(({}, lb, cb - 1))
                elif not lb and cb == 0:
                    r.append(({}, la, ca - 1))
            elif v:      # a < b  ->  a - b <= -1
                r.append((la, lb, cb - ca - 1))
            else:        # b <= a
                r.append((lb, la, ca - cb))
        elif t.op == "discr" and v in ("Less", "Equal", "Greater") and t.a[0].op in ("pure", "ret") and t.a[0].a[0].endswith("::cmp"):
            x, y = [linear(unref(z)) for z in callargs(t.a[0])]
            if v != "Greater":
                r.append((x[0], y[0], y[1] - x[1] - (v == "Less")))
            if v != "Less":
                r.append((y[0], x[0], x[1] - y[1] - (v == "Greater")))
        elif v is True and t.op == "pure" and t.a[0].split("::")[-1] == "contains" and "Range" in t.a[0]:
            rg, x = [unref(z) for z in callargs(t)][:2]
            ends = callargs(rg) if rg.op == "pure" else rg.a[2] if rg.op == "agg" else ()
            kind = t.a[0].split("::")[-2]
            x = linear(x)
            lo = ends[0] if ends and kind in ("RangeInclusive", "Range", "RangeFrom") else None
            hi = ends[-1] if kind in ("RangeTo", "RangeToInclusive") and ends else ends[1] if kind in ("RangeInclusive", "Range") and len(ends) > 1 else None
            if lo is not None:
                l = linear(lo)
                r.append((l[0], x[0], x[1] - l[1]))
            if hi is not None:
                l = linear(hi)
                r.append((x[0], l[0], l[1] - x[1] - (kind in ("Range", "RangeTo"))))
    return r


def sub_linear(x, y):
    """x - y of two (terms, constant) forms, as (terms, constant)"""
    d = dict(x[0])
    for t, n in y[0].items():
        d[t] = d.get(t, 0) - n
        if not d[t]:
            del d[t]
    return d, x[1] - y[1]


def entails(st, x, y, k=0):
    """x <= y + k is known, for terms x, y"""
    return entails_linear(st, linear(x), linear(y), k)


def entails_linear(st, x, y, k=0):
    d, c = sub_linear(x, y)
    if not d:
        return c <= k
    for a, b, k2 in upper_bounds(st):
        e, _ = sub_linear((a, 0), (b, 0))
        if e == d and k2 <= k - c:
            return True
    return False


def result_type(ctx, bb):
    """The type the call ending block bb of ctx's function returns, if it goes into a local"""
    t = ctx.fn.blocks[bb]["t"]
    return ctx.fn.locals[t[3][0]] if t[0] == "call" and t[3] is not None and len(t[3]) == 1 else ""
