"""Exports the type-checked program (MIR, types, impls) of /repo's current working tree through the rustc driver."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIRX_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
DRIVER = os.path.join(TARGET, "driver", "release", "mirx")
CACHE = os.path.join(VERIF, ".cache")
FEATURES = {"stats": "openblas-system,stats", "base": "openblas-system"}


class ExtractError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    src = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    for root, ds, fs in os.walk(src):
        ds.sort()
        for f in sorted(fs):
            h.update(open(os.path.join(root, f), "rb").read())
    stamp = os.path.join(TARGET, "driver", "stamp")
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return h.hexdigest()
    rc, out = run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(TARGET, "driver")], src)
    if rc:
        raise ExtractError("driver build failed:\n" + out[-3000:])
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return h.hexdigest()


def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ("target", ".git"))
        for f in sorted(fs):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            h.update(hashlib.sha256(open(p, "rb").read()).digest())
    return h.hexdigest()[:24]


def export(feat="stats"):
    """the exported program of the current tree (re-extracted whenever any file of the tree differs)"""
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dh = build_driver()
        key = tree_hash(dh + FEATURES[feat])
        out = os.path.join(CACHE, f"{feat}-{key}.json")
        if not os.path.exists(out):
            _extract(feat, out)
            old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith(feat + "-")), key=os.path.getmtime)
            for f in old[:-4]:
                os.remove(f)
        with open(out) as f:
            m = json.load(f)
    return m


def _extract(feat, out):
    rc, root = run(["rustc", "+nightly", "--print", "sysroot"], VERIF)
    if rc:
        raise ExtractError("nightly toolchain not found: " + root)
    tgt = os.path.join(TARGET, "x-" + feat)
    # forget every earlier build of the crate itself (not of its dependencies), whatever cargo's directory layout
    for root_, ds, fs in os.walk(tgt):
        for x in list(ds) + fs:
            if x in ("ndarray-glm", "ndarray_glm") or x.startswith(("ndarray-glm-", "ndarray_glm-", "libndarray_glm-")):
                p = os.path.join(root_, x)
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
                if x in ds:
                    ds.remove(x)
    tmp = out + ".tmp"
    if os.path.exists(tmp):
        os.remove(tmp)
    env = {"LD_LIBRARY_PATH": os.path.join(root.strip(), "lib"), "RUSTC_WORKSPACE_WRAPPER": DRIVER, "MIRX_OUT": tmp, "CARGO_INCREMENTAL": "0"}
    lock = os.path.join(REPO, "Cargo.lock")
    had = os.path.exists(lock)
    cmd = ["cargo", "+nightly", "check", "--lib", "--offline"] + (["--locked"] if had else []) + ["--features", FEATURES[feat], "--target-dir", tgt]
    if not had:
        saved = os.path.join(VERIF, "driver", "repo.lock")
        if os.path.exists(saved):
            shutil.copy(saved, lock)
    try:
        rc, o = run(cmd, REPO, env)
    finally:
        if not had and os.path.exists(lock):
            os.remove(lock)
    if rc or not os.path.exists(tmp):
        raise ExtractError("extraction failed:\n" + o[-3000:])
    os.rename(tmp, out)


if __name__ == "__main__":
    for f in FEATURES:
        m = export(f)
        print(f, len(m["bodies"]), "bodies")
