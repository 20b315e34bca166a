"""Builds the rustc driver and extracts the facts of /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

CONFIGS = {
    # what the `tftp` binary is built from, less `metrics` (whose crate needs an older compiler)
    "full": "alloc,std,encryption,seek,multi_thread,sync",
    # tftp-stack-encryption
    "stackenc": "encryption,seek",
    # tftp-alloc
    "alloc": "alloc,seek",
    # tftp-stack
    "stack": "seek",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "std-binary", "Cargo.toml", "Cargo.lock", "README.md"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x not in ("target", ".git")]
                files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(VERIF, "driver", "main.rs"))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def lock():
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + tag)
    if os.path.exists(out):
        return out
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    tmp = out + ".tmp"
    r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "--crate-name", "vp_driver", "-C",
            f"link-args=-Wl,-rpath,{sysroot}/lib", src, "-o", tmp], cwd=CACHE, env=env())
    if r.returncode != 0:
        raise SystemExit("driver does not build:\n" + r.stdout[-4000:])
    os.rename(tmp, out)
    return out


def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    p = os.path.expanduser("~/.cargo/bin")
    if os.path.isdir(p):
        e["PATH"] = p + ":" + e.get("PATH", "")
    return e


def extract(configs):
    """{config: {"lib": path, "bin": path}} for the current tree."""
    lk = lock()
    try:
        drv = build_driver()
        th = tree_hash()
        base = os.path.join(CACHE, "facts")
        os.makedirs(base, exist_ok=True)
        # keep the cache small
        olds = sorted((d for d in os.listdir(base) if d != th), key=lambda d: os.path.getmtime(os.path.join(base, d)))
        for d in olds[:-24]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        procs = []
        res = {}
        for c in configs:
            out = os.path.join(base, th, c)
            res[c] = {k: os.path.join(out, k, "tftp_dus.jsonl") for k in ("lib", "bin")}
            if all(os.path.exists(p) for p in res[c].values()):
                continue
            shutil.rmtree(out, ignore_errors=True)
            tgt = os.path.join(CACHE, "target-" + c)
            # cargo's freshness cache would skip the driver: forget the packages of the workspace
            for sub in (".fingerprint", "build"):
                fp = os.path.join(tgt, "debug", sub)
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith("tftp-"):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            e = env()
            e["VP_FACTS_OUT"] = out
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["CARGO_TARGET_DIR"] = tgt
            e["RUSTFLAGS"] = "--cap-lints warn"
            cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "-p", "tftp-std-binary", "--no-default-features",
                   "--features", CONFIGS[c]]
            procs.append((c, subprocess.Popen(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for c, p in procs:
            o, _ = p.communicate()
            if p.returncode != 0 or not all(os.path.exists(x) for x in res[c].values()):
                sys.stderr.write(o[-6000:])
                raise SystemExit(f"fact extraction failed for configuration {c}")
        return res
    finally:
        lk.close()


if __name__ == "__main__":
    t = time.time()
    r = extract(sys.argv[1:] or list(CONFIGS))
    print(r, round(time.time() - t, 1))
