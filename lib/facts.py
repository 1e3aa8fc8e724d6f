"""Obtain the facts of /repo's current working tree: run `cargo +nightly check`
on it with the mkfacts driver as workspace wrapper and load its JSON."""
import glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MK_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CRATE = "meerkat"


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    return e


def sysroot(env):
    return subprocess.run(["rustc", "--print", "sysroot"], env=env, check=True,
                          capture_output=True, text=True).stdout.strip()


def build_driver(env):
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(CACHE, "mkfacts")
    stamp = out + ".stamp"
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(CACHE, exist_ok=True)
    r = subprocess.run(["rustc", "--edition", "2021", "-O", "-o", out, src],
                       env=env, capture_output=True, text=True)
    if r.returncode:
        raise FactsError("driver does not build: " + r.stderr[-2000:])
    open(stamp, "w").write(h)
    return out


def _tracked_generated():
    """Files the build may rewrite: everything under src (small)."""
    res = {}
    for root, _d, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            p = os.path.join(root, f)
            res[p] = (open(p, "rb").read(), os.stat(p))
    return res


def collect():
    env = _env()
    drv = build_driver(env)
    sr = sysroot(env)
    out = os.path.join(CACHE, "facts-%d.json" % os.getpid())
    target = os.path.join(CACHE, "target")
    env["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["CARGO_TARGET_DIR"] = target
    env["MKFACTS_CRATE"] = CRATE
    env["MKFACTS_OUT"] = out
    env["CARGO_INCREMENTAL"] = "0"
    for d in glob.glob(os.path.join(target, "debug", ".fingerprint", CRATE + "-*")):
        if glob.glob(os.path.join(d, "bin-*")) or glob.glob(os.path.join(d, "lib-*")) or glob.glob(os.path.join(d, "*output-bin*")):
            shutil.rmtree(d, ignore_errors=True)
    snap = _tracked_generated()
    try:
        r = subprocess.run(["cargo", "check", "--offline", "--locked", "--bin", CRATE],
                           cwd=REPO, env=env, capture_output=True, text=True)
    finally:
        for p, (data, st) in snap.items():
            try:
                if open(p, "rb").read() != data:
                    open(p, "wb").write(data)
                    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            except FileNotFoundError:
                open(p, "wb").write(data)
    if r.returncode or not os.path.exists(out):
        raise FactsError("cargo check failed (rc=%d): %s" % (r.returncode, r.stderr[-3000:]))
    try:
        return json.load(open(out))
    finally:
        os.unlink(out)


if __name__ == "__main__":
    t = time.time()
    f = collect()
    if len(sys.argv) > 1:
        json.dump(f, open(sys.argv[1], "w"))
    print("bodies %d types %d adts %d (%.1fs)" % (len(f["bodies"]), len(f["types"]), len(f["adts"]), time.time() - t))
