#!/usr/bin/env python3
"""Makes and confirms planted bugs.  usage: plant.py make FILE.py | confirm ID... | detect ID...
make: FILE.py defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], demo, cpus)] and
writes seeded/<id>/; confirm: builds, runs the stable tests and the demonstration in a scratch copy, with and without
the change; detect: applies the change to /repo, runs the check of its property (or those named ID:C01,C02), undoes it."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = f"{HERE}/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
DEMO = '''#!/bin/bash
# adds demo.rs to a copy of the crate as a test module, and runs it
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
t=$(mktemp -d /tmp/planted.XXXXXX) || exit 2
trap 'find "$t" -delete' EXIT
cp -a Cargo.toml src "$t"/ || exit 2
if [ -f Cargo.lock ]; then cp Cargo.lock "$t"/; fi
%scd "$t" || exit 2
unset CARGO_TARGET_DIR RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
cargo test -q --release --lib --offline --no-run > build.log 2>&1 || { grep -A8 "^error" build.log | head -40; exit 2; }
timeout 200 %scargo test -q --release --lib --offline planted_demo 2>&1 | grep -v '^warning' | tail -15
exit ${PIPESTATUS[0]}
'''
LIB = """cp "$here/demo.rs" "$t/src/planted_demo.rs"
printf '\\n#[cfg(test)] mod planted_demo;\\n' >> "$t/src/lib.rs"
"""
INTO = """{ printf '\\n#[cfg(test)] mod planted_demo {\\n'; cat "$here/demo.rs"; printf '}\\n'; } >> "$t/%s"
"""
def sh(cmd, cwd=None, env=ENV, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"
def make(path):
    ns = {}; exec(open(path).read(), ns)
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp"); r = d + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for b in ns["BUGS"]:
        sh(["git", "checkout", "-q", "--", "."], r)
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read()
            n = s.count(old)
            if n != 1: print(b["id"], "edit matches", n, "times:", f, repr(old[:80])); ok = False; break
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        if not ok: continue
        # the changed lines have to be lines of the original repository
        diff = sh(["git", "diff"], r).stdout
        for f, old, new in b["edits"]:
            pass
        o = f"{SEED}/{b['id']}"; os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.rs", "w").write(b["demo"].lstrip())
        ts = f"taskset -c 0-{b['cpus']-1} " if b.get("cpus") else ""
        open(o + "/demo.sh", "w").write(DEMO % (INTO % b["into"] if "into" in b else LIB, ts)); os.chmod(o + "/demo.sh", 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(o + "/meta.json", "w"), indent=1)
        print("made", b["id"])
    shutil.rmtree(d)
def confirm(ids):
    d, r = copy()
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        o = f"{SEED}/{i}"
        sh(["git", "checkout", "-q", "--", "."], r)
        a = sh(["bash", o + "/demo.sh"], r, timeout=400)
        p = sh(["git", "apply", o + "/patch.diff"], r)
        if p.returncode: print(i, "does not apply", p.stdout); continue
        b = sh(["bash", o + "/demo.sh"], r, timeout=400)
        print(f"{i}: demo unchanged={a.returncode} patched={b.returncode}", flush=True)
        if a.returncode or not b.returncode: print(a.stdout[-1500:], "----", b.stdout[-1500:])
        if b.returncode == 2: print(b.stdout[-1500:])
        if os.environ.get("NOTESTS"): continue
        flt = " | ".join(f"test(={s.split('::',1)[1]})" for s in sorted(stable))
        if os.environ.get("LIGHT"): flt = f"({flt}) & !(test(/vdf::/) | test(=fft::test_fft_prunning) | test(=polynomials::test_various_ldes))"
        t = sh(["cargo", "nextest", "run", "--release", "--lib", "--offline", "--tool-config-file", "vp:/opt/vp/nextest.toml", "--profile", "vp", "--test-threads", "8", "--no-fail-fast", "-E", flt], r, timeout=1500)
        bad = [l for l in t.stdout.splitlines() if "FAIL" in l or "ABORT" in l or "SIG" in l]
        print(f"{i}: {'light ' if os.environ.get("LIGHT") else ''}stable tests {'pass' if t.returncode == 0 else 'FAIL'}", *set(bad), flush=True)
        if t.returncode and not bad: print(t.stdout[-800:])
    shutil.rmtree(d)
def detect(ids):
    for i in ids:
        i, _, props = i.partition(":")
        o = f"{SEED}/{i}"
        meta = json.load(open(o + "/meta.json"))
        props = props.split(",") if props else [meta["property"]]
        if props == ["all"]: props = [f"C{k:02}" for k in range(1, 29)]
        if sh(["git", "apply", o + "/patch.diff"], "/repo").returncode: print(i, "does not apply"); continue
        try:
            for p in props:
                c = sh(["bash", f"{HERE}/check.sh", p], HERE, timeout=1200)
                v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
                print(f"{i} by {p}: exit {c.returncode}", v[:1], flush=True)
                if c.returncode not in (0, 1): print(c.stdout[-1500:])
        finally:
            sh(["git", "checkout", "-q", "--", "."], "/repo")
{"make": lambda: make(sys.argv[2]), "confirm": lambda: confirm(sys.argv[2:]), "detect": lambda: detect(sys.argv[2:])}[sys.argv[1]]()
