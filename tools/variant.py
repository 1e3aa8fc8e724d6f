"""Run checks on an edited copy of /repo: variant(name, edits, checks).  Used for behaviour-preserving rewrites (the
checks must stay quiet) and for quick trials of planted bugs."""
import os, re, shutil, subprocess, tempfile


def variant(name, edits, checks, test=True):
    t = tempfile.mkdtemp(prefix="/tmp/mkvar.")
    r = t + "/repo"
    try:
        os.mkdir(r)
        subprocess.run("cd /repo && cp -a ./*.toml ./*.lock ./*.rs ./src .git %s/; mkdir -p %s/target; cp -a target/debug %s/target/ 2>/dev/null" % (r, r, r), shell=True)
        for f, a, b in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(a) < 1:
                print(name, "EDIT DOES NOT APPLY", f, repr(a[:60]))
                return
            open(p, "w").write(s.replace(a, b))
        e = dict(os.environ, MK_REPO=r, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
        if test:
            p = subprocess.run("cargo test --offline --locked 2>&1 | grep -E '^error|test result|FAILED' | head -8", shell=True, cwd=r, env=e, stdout=subprocess.PIPE)
            o = p.stdout.decode()
            if "test result: ok" not in o:
                print(name, "DOES NOT BUILD OR PASS:", o)
                return
        for c in checks:
            p = subprocess.run(["bash", "/verif/check.sh", c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.stdout.decode().strip().splitlines()
            print("%-34s %s rc=%d %s" % (name, c, p.returncode, o[-1][:160] if o else ""), flush=True)
            if p.returncode:
                for l in o[:6]:
                    print("     ", l[:400], flush=True)
            elif " 0 inconclusive" not in (o[-1] if o else ""):
                import json
                for i in json.load(open("/verif/evidence/%s.json" % c))["coverage"]["inconclusive"][:4]:
                    print("      inconclusive:", str(i)[:300], flush=True)
    finally:
        shutil.rmtree(t)
