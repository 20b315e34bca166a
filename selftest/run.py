#!/usr/bin/env python3
"""Runs the checks against edited scratch copies of /repo's sources.

selftest/mutants.py lists (name, expect, edits): `expect` names the checks that must report the edit; an empty list marks an
edit that keeps the behaviour, on which every check named in `quiet` (default: all) must stay silent.

  selftest/run.py [-k substring] [-c CHECK[,CHECK]]
"""
import argparse
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    for f in sorted(os.listdir(HERE)):
        if f.startswith("mutants") and f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(HERE, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            out += m.MUTANTS
    return out


def run(m, only):
    name, expect, edits = m[:3]
    d = tempfile.mkdtemp(prefix="vpm-")
    repo = os.path.join(d, "repo")
    try:
        os.makedirs(repo)
        for x in ("src", "std-binary", "Cargo.toml", "Cargo.lock", "README.md", "benches", "examples", "tests", "fuzz"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(repo, x), ignore=shutil.ignore_patterns("target"))
            elif os.path.exists(s):
                shutil.copy(s, repo)
        for e in edits:
            f, old, new = e[:3]
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) < 1:
                return name, "EDIT-DOES-NOT-APPLY " + f, []
            t = t.replace(old, new) if len(e) > 3 else t.replace(old, new, 1)
            open(p, "w").write(t)
        res = []
        checks = only or ([] if os.environ.get("VP_CROSS") else expect) or json.loads(os.environ.get("VP_ALL", "[]"))
        env = dict(os.environ, VP_REPO=repo, VP_EVIDENCE=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py")] + checks, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = ""
        done = {}
        for x in r.stdout.splitlines():
            w = x.split()
            if x.startswith("VIOLATION property="):
                done[w[1][9:]] = (1, last)
                last = ""
            elif x.startswith("ok ") and len(w) > 1:
                done[w[1].rstrip(":")] = (0, "")
            elif x.startswith("ERROR ") and len(w) == 2:
                done[w[1]] = (3, last)
            elif not x.startswith("KNOWN") and not last:
                last = x
        for c in checks:
            rc, first = done.get(c, (9, " ".join(x for x in r.stdout.splitlines() if x.startswith("error"))[:300]))
            res.append((c, rc, first[:260]))
        return name, "", res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("-k", default="")
    a.add_argument("-c", default="")
    a.add_argument("-j", type=int, default=4)
    o = a.parse_args()
    only = [x for x in o.c.split(",") if x]
    man = json.load(open(os.path.join(VERIF, "MANIFEST.json"))) if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else {"checks": []}
    os.environ["VP_ALL"] = json.dumps([x["property"] for x in man["checks"]])
    ms = [m for m in load() if any(k in m[0] or k in ",".join(m[1]) for k in o.k.split(","))]
    bad = 0
    with ThreadPoolExecutor(o.j) as ex:
        for (name, err, res), m in zip(ex.map(lambda m: run(m, only), ms), ms):
            if err:
                print("??", name, err)
                bad += 1
                continue
            if m[1]:
                want = [c for c in m[1] if not only or c in only]
                for c, rc, first in res:
                    good = rc == 1 if c in want else rc in (0, 1)
                    bad += not good
                    if not good or c in want or rc > 1:
                        print("caught" if rc == 1 else f"MISSED rc={rc}" if c in want or rc > 1 else "quiet", name, c, first if c in want or rc else "")
            else:
                al = [x for x in res if x[1] != 0]
                bad += len(al)
                print("quiet" if not al else "ALARM", name, al)
            sys.stdout.flush()
    print("unexpected:", bad)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
