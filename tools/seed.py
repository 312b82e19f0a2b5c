#!/usr/bin/env python3
"""Confirms a planted change and says which checks notice it.

  seed.py make SPECDIR...    from SPECDIR/{spec.py,demo.rs}: write /verif/seeded/ID/, confirm it
  seed.py check ID [PROP...] apply to /repo, run the quick check(s), undo

spec.py defines ID, PROPERTY, NEEDS, BREAKS and EDITS = [(file, old, new), ...].
Nothing under /verif/seeded is read by any check; this tool is for whoever plants changes.
"""
import json, os, re, subprocess, sys, shutil

V = "/verif"
W = "/tmp/sw"
DEMO = r'''#!/bin/bash
# Run in the repository's root after a build: exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'find "$T" -depth -delete' EXIT
mkdir -p "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rusty-rtree = { path = "$R" }
noisy_float = "0.2.0"
END
cd "$T" || exit 2
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS
timeout 240 cargo run --offline --quiet > "$T/log" 2>&1
rc=$?
tail -n 15 "$T/log"
exit $rc
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def worktree():
    if not os.path.isdir(W):
        sh(f"git -C /repo worktree prune; cp -a /repo {W}")
        # own target directory, so that /repo's is not touched
    sh(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD")

def tests():
    env = open("/opt/vp/env.sh").read().replace("/repo/target", f"{W}/target")
    open("/tmp/seedwork/env.sh", "w").write(env)
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/env.sh", "/tmp/seedwork/env.sh").replace("cd /repo", f"cd {W}")
    open("/tmp/seedwork/test.sh", "w").write(t)
    b = open("/opt/vp/build.sh").read().replace("/opt/vp/env.sh", "/tmp/seedwork/env.sh").replace("cd /repo", f"cd {W}")
    open("/tmp/seedwork/build.sh", "w").write(b)
    r = sh("bash /tmp/seedwork/build.sh")
    if r.returncode:
        return "BUILD FAILED\n" + "\n".join(l for l in r.stdout.splitlines() if "error" in l or "-->" in l)[:1500] + r.stdout[-1500:]
    r = sh("timeout 600 bash /tmp/seedwork/test.sh /tmp/seedwork/out.json")
    got = json.load(open("/tmp/seedwork/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    flat = got.get("tests", got)
    res = {}
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, str): res[k] = v
                elif isinstance(v, list):
                    for i in v:
                        if isinstance(i, str): res[i] = k
                        else: walk(i)
                else: walk(v)
    walk(got)
    names = base if isinstance(base, list) else list(base)
    bad = [n for n in names if not res.get(n, "").lower().startswith("pass")]
    return "" if not bad else "TESTS FAIL: " + ", ".join(bad[:8])

def make(d):
    ns = {}
    exec(open(f"{d}/spec.py").read(), ns)
    i = ns["ID"]
    worktree()
    for f, old, new in ns["EDITS"]:
        p = f"{W}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "EDIT MATCHES", s.count(old), "TIMES in", f, ":", old[:80]); return
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {W} diff").stdout
    o = f"{V}/seeded/{i}"
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(diff)
    open(f"{o}/demo.sh", "w").write(DEMO)
    os.chmod(f"{o}/demo.sh", 0o755)
    shutil.copy(f"{d}/demo.rs", f"{o}/demo.rs")
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(f"{o}/meta.json", "w"), indent=1)
    t = tests()
    if t:
        print(i, t); bad(i, o); return
    r = sh(f"cd {W} && bash {o}/demo.sh")
    sh(f"git -C {W} checkout -q -- .")
    c = sh(f"cd {W} && bash {o}/demo.sh")
    ok = r.returncode != 0 and c.returncode == 0
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED", "patched rc", r.returncode, "clean rc", c.returncode)
    if "error" in (r.stdout if not ok else "") or not ok:
        print(r.stdout[-1500:], c.stdout[-1500:])
        bad(i, o)
    else:
        print("   ", [l for l in r.stdout.splitlines() if l.strip()][-1:] )

def bad(i, o):
    shutil.rmtree(f"/tmp/seedwork/bad-{i}", ignore_errors=True)
    shutil.move(o, f"/tmp/seedwork/bad-{i}")

def check(i, props):
    o = f"{V}/seeded/{i}"
    props = props or [json.load(open(f"{o}/meta.json"))["property"]]
    assert not sh("git -C /repo status --porcelain").stdout
    a = sh(f"git -C /repo apply {o}/patch.diff")
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); return
    try:
        for p in props:
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            import time; t0 = time.time()
            r = sh(f"cd {V} && ./check.sh {p} quick", env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            w = [l for l in r.stdout.splitlines() if l.strip()]
            print(i, p, "rc", r.returncode, f"{time.time()-t0:.0f}s", v[:1] or w[-3:], flush=True)
            for l in w:
                if "expected" in l or "what" in l: print("     ", l[:220]); break
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    if sys.argv[1] == "make":
        for d in sys.argv[2:]: make(d); sys.stdout.flush()
    else:
        check(sys.argv[2], sys.argv[3:])
