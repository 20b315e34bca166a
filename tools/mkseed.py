#!/usr/bin/env python3
"""Writes seeded/<ID>/ from a specification on stdin: Python that sets ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS and DEMO (demo.py)
or RUST (tests/demo.rs of a scratch crate that depends on the library; FEATURES optional)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(sys.stdin.read(), g)
d = os.path.join(V, "seeded", g["ID"])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
for f, old, new in g["EDITS"]:
    p = os.path.join(w, "r", f)
    t = open(p).read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, "w").write(t.replace(old, new))
# lines the patch removes must be the original repository's
diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
base = subprocess.check_output(["git", "-C", w + "/r", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
for f in {e[0] for e in g["EDITS"]}:
    orig = subprocess.check_output(["git", "-C", w + "/r", "show", f"{base}:{f}"], text=True).splitlines()
    for l in subprocess.check_output(["git", "-C", w + "/r", "diff", "--", f], text=True).splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            print("NOT ORIGINAL:", f, l)
open(os.path.join(d, "patch.diff"), "w").write(diff)
shutil.rmtree(w)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if "DEMO" in g:
    shutil.copy(os.path.join(V, "tools/demo/tlib.py"), d)
    open(os.path.join(d, "demo.py"), "w").write(g["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$here/demo.py"\n')
else:
    open(os.path.join(d, "demo.rs"), "w").write(g["RUST"].lstrip())
    feat = g.get("FEATURES")
    dep = 'default-features = false, features = ["%s"]' % '","'.join(feat) if feat else "default-features = true"
    extra = g.get("DEPS", "")
    open(os.path.join(d, "demo.sh"), "w").write(f'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$w/target"
mkdir -p "$w/tests" "$w/src" && : > "$w/src/lib.rs" && cp "$here/demo.rs" "$w/tests/demo.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
tftp-dus = {{ path = "$repo", {dep} }}
{extra}
[workspace]
X
cd "$w" && timeout 280 cargo test --offline --test demo -- --test-threads 1
''')
print("wrote", d)
