"""Make and verify planted bugs.

mk(...) writes /verif/seeded/<id>/ from textual edits of /repo's HEAD; verify(id) confirms in a scratch copy that the
patch applies, builds, passes the stable tests, that the demonstration passes without and fails with it, and says what
the property's check makes of it."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = "/verif"
DEMO = r'''#!/bin/bash
# Appends a test module to a copy of the sources, runs it there, and removes the copy.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/mkdemo.XXXXXX) || exit 3
trap 'rm -rf -- "$S"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
mkdir -p "$S/target/debug" && cp -a ./*.toml ./*.lock ./*.rs ./src "$S"/ || exit 3
for d in .cargo rust-toolchain; do [ -e "$d" ] && cp -a "$d" "$S"/; done
for d in deps build .fingerprint; do [ -e "target/debug/$d" ] && cp -a "target/debug/$d" "$S/target/debug/"; done
cat "$D/demo.rs" >> "$S/@TARGET@"
cd "$S" && timeout -k 5 270 cargo test --offline --locked vp_demo -- --test-threads 1 > "$S/log" 2>&1
rc=$?
tail -n 40 "$S/log"
[ $rc -eq 0 ] && grep -q 'test result: ok. [1-9]' "$S/log"
'''

def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode(errors="replace")

def mk(id, prop, edits, target, demo, needs, breaks):
    d = "%s/seeded/%s" % (VERIF, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="/tmp/mkseed.")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (t, t))
        for f, a, b in edits:
            p = os.path.join(t, f); s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        rc, out = sh("git diff --no-color", cwd=t)
        open(d + "/patch.diff", "w").write(out)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(DEMO.replace("@TARGET@", target)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

def verify(id, check=True, demo=True):
    d = "%s/seeded/%s" % (VERIF, id)
    meta = json.load(open(d + "/meta.json"))
    t = tempfile.mkdtemp(prefix="/tmp/mkver.")
    res = {"id": id, "prop": meta["property"]}
    try:
        sh("cp -a /repo %s/repo" % t)
        r = t + "/repo"
        if demo:
            rc, out = sh("bash %s/demo.sh" % d, cwd=r); res["demo_clean"] = rc
            if rc: res["out"] = out[-1500:]
        rc, out = sh("git apply %s/patch.diff" % d, cwd=r); res["apply"] = rc
        if demo:
            env = dict(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
            rc, out = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", cwd=r, env=env)
            res["tests"] = rc
            if rc: res["out"] = out[-1500:]
            rc, out = sh("bash %s/demo.sh" % d, cwd=r); res["demo_bug"] = rc
            if "could not compile" in out: res["demo_bug"] = "COMPILE " + out[-800:]
        if check:
            rc, out = sh("bash check.sh %s quick" % meta["property"], cwd=VERIF, env={"MK_REPO": r})
            res["check"] = rc; res["check_out"] = out[-900:]
    finally:
        shutil.rmtree(t)
    return res

if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(VERIF + "/seeded"))
    for i in ids:
        r = verify(i)
        good = r.get("demo_clean") == 0 and r.get("apply") == 0 and r.get("tests") == 0 and r.get("demo_bug") not in (0, None) and not str(r.get("demo_bug")).startswith("COMP")
        print("%-28s %s counts=%s caught=%s" % (i, r["prop"], good, r.get("check") == 1), flush=True)
        if not good or r.get("check") != 1:
            print("   ", {k: v for k, v in r.items() if k not in ("check_out",)}); print("   ", r.get("check_out"))
