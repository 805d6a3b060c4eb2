#!/usr/bin/env python3
"""seed.py [ID..]: write /verif/seeded/ID from tools/seeds/*.py, and confirm each one in a scratch copy:
the patch applies, the crate builds, the stable tests pass, the demonstration fails with it and passes without."""
import os, sys, json, subprocess, glob, shutil
V = "/verif"; S = "/tmp/seedcopy"
seeds = {}
class Seed:
    def __init__(self, id, prop, edits, demo, needs, breaks, feats="", custom=None):
        self.__dict__.update(locals()); seeds[id] = self
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
DEMO = '''#!/bin/bash
# exit 0 if the guarantee holds in the crate in the current directory
set -u
here="$(cd "$(dirname "$0")" && pwd)"
w=/tmp/cam-geom-demo-%(id)s
mkdir -p $w/src
cp "$here/demo.rs" $w/src/main.rs
cat > $w/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cam-geom = { path = "$PWD"%(feats)s }
nalgebra = { version = "0.33", default-features = false, features = ["libm"] }
%(deps)s
[profile.dev]
debug = 0
EOF
cd $w && %(cmd)s
r=$?
rm -rf /tmp/cam-geom-demo-%(id)s
exit $r
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def write(s):
    d = f"{V}/seeded/{s.id}"; os.makedirs(d, exist_ok=True)
    for f, old, new in s.edits:
        p = f"{S}/{f}"; t = open(p).read()
        assert t.count(old) >= 1, (s.id, f, old, t.count(old))
        if t.count(old) > 1 and not old.startswith("@"):
            raise SystemExit(f"{s.id}: ambiguous edit in {f}: {old!r}")
        open(p, "w").write(t.replace(old, new, 1))
    open(d + "/patch.diff", "w").write(sh(f"git -C {S} diff").stdout)
    feats = {"": "", "serde": ', features = ["serde-serialize"]', "none": ', default-features = false'}[s.feats]
    deps = 'serde_json = "1.0"\nserde = { version = "1.0", default-features = false }' if s.feats == "serde" else ""
    cmd = s.custom or "cargo run -q --offline"
    open(d + "/demo.sh", "w").write(DEMO % dict(id=s.id, feats=feats, deps=deps, cmd=cmd))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(s.demo)
    json.dump({"property": s.prop, "needs": s.needs, "what_it_breaks": s.breaks}, open(d + "/meta.json", "w"), indent=1)
def confirm(s):
    d = f"{V}/seeded/{s.id}"
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", CARGO_NET_OFFLINE="true")
    sh(f"git -C {S} checkout -q -- .")
    a = sh(f"bash {d}/demo.sh", cwd=S, env=env)
    assert sh(f"git -C {S} apply {d}/patch.diff").returncode == 0, "apply"
    b0 = sh("cargo build --offline --no-default-features && cargo build --offline --no-default-features --features alloc", cwd=S, env=env)
    b = sh("cargo test --offline --features serde-serialize 2>&1 | grep -E '^test |error|warning: unused' ", cwd=S, env=env)
    bad = [l for l in b.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    n = len([l for l in b.stdout.splitlines() if l.endswith("... ok")])
    c = sh(f"bash {d}/demo.sh", cwd=S, env=env)
    sh(f"git -C {S} checkout -q -- .")
    ok = a.returncode == 0 and b0.returncode == 0 and not bad and n >= 20 and c.returncode != 0
    print(s.id, "OK" if ok else "NOT CONFIRMED", "unchanged", a.returncode, "patched", c.returncode, "tests", n, bad[:3], flush=True)
    if a.returncode != 0: print(a.stdout[-800:], a.stderr[-1500:])
    if not ok and c.returncode == 0: print("   patched demo passes", c.stdout[-300:])
    if ok: print("   ", (c.stderr.strip().splitlines() or c.stdout.strip().splitlines() or [""])[0:3])
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(seeds)
    if not os.path.isdir(S):
        sh(f"mkdir -p {S} && cd /repo && git archive HEAD | tar x -C {S} && cd {S} && git init -q && git add -A && git commit -qm x")
        if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", S)
    for i in ids:
        sh(f"git -C {S} checkout -q -- .")
        write(seeds[i]); confirm(seeds[i])
