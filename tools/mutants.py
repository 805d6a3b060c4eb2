#!/usr/bin/env python3
"""mutants.py [SITE..]: a survey of rare-condition bugs. One scratch copy of the crate carries several hundred of
them, each "at this place, if this value is in this range, the result is off", selected by an environment
variable. The harness is built once on that copy and every bug is run against the quick checks of the
properties it breaks. Prints the ones no check reports (some cannot be: their condition cannot occur)."""
import os, sys, subprocess, json, concurrent.futures as cf
W = "/tmp/mut"
def num(v):
    c = "nalgebra::convert"
    return [
        (f"{v} > 750", f"({v}) > {c}(750.0)"),
        (f"{v} < -750", f"({v}) < {c}(-750.0)"),
        (f"{v} > 3e4", f"({v}) > {c}(3e4)"),
        (f"0<|{v}|<2e-3", f"({v}).abs() < {c}(2e-3) && ({v}) != {c}(0.0)"),
        (f"0<|{v}|<1e-6", f"({v}).abs() < {c}(1e-6) && ({v}) != {c}(0.0)"),
        (f"{v} in 0.41..0.43", f"({v}) > {c}(0.41) && ({v}) < {c}(0.43)"),
        (f"{v} in -7.9..-7.6", f"({v}) > {c}(-7.9) && ({v}) < {c}(-7.6)"),
        (f"{v} == 0", f"({v}) == {c}(0.0)"),
        (f"{v} == 1", f"({v}) == {c}(1.0)"),
        (f"{v} < 0", f"({v}) < {c}(0.0)"),
    ]
def cnt(i, n):
    return [(f"{i} == 3", f"{i} == 3"), (f"{i} == 11", f"{i} == 11"), (f"{i} > 60", f"{i} > 60"), (f"{n} > 500", f"{n} > 500"),
            (f"last of several", f"{n} > 1 && {i} == {n} - 1"), (f"{n} == 1", f"{n} == 1"), (f"{n} % 16 == 0", f"{n} % 16 == 0"), (f"{i} even, {n} odd > 4", f"{i} % 2 == 0 && {n} % 2 == 1 && {n} > 4")]
def rel(a, b):
    return [(f"{a} == {b}", f"({a}) == ({b})"), (f"{a} > 300 {b}, both > 0", f"({a}) > ({b}) * nalgebra::convert(300.0) && ({b}) > nalgebra::convert(0.0)"), (f"{a} == -{b} != 0", f"({a}) == -({b}) && ({a}) != nalgebra::convert(0.0)")]
SITES = []
def site(name, props, file, old, new, nums=(), cnts=(), rels=(), extra=()):
    p = list(extra)
    for v in nums: p += num(v)
    for c in cnts: p += cnt(*c)
    for r in rels: p += rel(*r)
    SITES.append((name, props, file, old, new, p))
OFF = "nalgebra::convert::<f64, R>(1.01)"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutant_sites.py")).read())
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def main():
    want = sys.argv[1:]
    sh(f"find {W} -depth -delete; mkdir -p {W} && git clone -q /repo {W}/repo; cp /repo/Cargo.lock {W}/repo/; mkdir {W}/verif && cp -a /verif/mc /verif/run.sh {W}/verif/; mkdir {W}/verif/target; cp -a /verif/target/release {W}/verif/target/")
    lib = f"{W}/repo/src/lib.rs"
    t = open(lib).read()
    t += '''
#[doc(hidden)]
#[allow(missing_docs)]
pub fn mutant(id: usize) -> bool {
    #[cfg(feature = "std")]
    {
        static M: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        *M.get_or_init(|| std::env::var("MUT").ok().and_then(|s| s.parse().ok()).unwrap_or(0)) == id
    }
    #[cfg(not(feature = "std"))]
    {
        let _ = id;
        false
    }
}
'''
    open(lib, "w").write(t)
    ids, k = [], 0
    for name, props, file, old, new, preds in SITES:
        if want and name not in want: continue
        chain = []
        for d, p in preds:
            k += 1
            ids.append((k, name, d, props)); chain.append(f"(crate::mutant({k}) && {p})")
        f = f"{W}/repo/src/{file}"; t = open(f).read()
        n = 1
        if old.startswith("#2"): old, n = old[2:], 2
        if t.count(old) < n: raise SystemExit(f"{name}: not found: {old}")
        parts = t.split(old)
        t = old.join(parts[:n]) + new.replace("@M", "(" + " || ".join(chain) + ")") + old.join(parts[n:])
        open(f, "w").write(t)
    r = sh(f"unshare -m bash -c 'mount --bind {W}/repo /repo && mount --bind {W}/verif /verif && cd /verif/mc && CARGO_TARGET_DIR=/verif/target cargo build --release --offline'")
    if r.returncode: print(r.stderr[-4000:]); sys.exit(1)
    print(len(ids), "mutants", flush=True)
    # without any, everything must be quiet
    def run(x):
        i, name, d, props = x
        c = []
        for p in props:
            o = sh(f"mkdir -p {W}/o{i}; MUT={i} VERIF_DIR={W}/o{i} timeout 600 {W}/verif/target/release/mc check {p} quick; r=$?; find {W}/o{i} -depth -delete; exit $r")
            c.append((p, o.returncode))
        return x, c
    miss = 0
    res = {}
    with cf.ThreadPoolExecutor(3) as ex:
        for x, c in ex.map(run, [(0, "none", "", sorted({p for s in SITES for p in s[1]}))] + ids):
            i, name, d, props = x
            bad = [p for p, r in c if r != 1]
            if i == 0:
                print("unchanged:", [(p, r) for p, r in c if r != 0]); continue
            res[i] = (name, d, c)
            if bad:
                miss += 1
                print(f"  {i} {name}: {d}: not reported by {bad} ({c})", flush=True)
    print("reported", len(res) - miss, "of", len(res))
main()
