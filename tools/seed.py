#!/usr/bin/env python3
"""Try the planted changes of /verif/seeded in a scratch copy of /repo.

  tools/seed.py test ID...     patch applies, builds, passes the stable tests, demo tells them apart, the property's check reports it
  tools/seed.py check ID...    only the property's check against the patched copy
  tools/seed.py all            check for every planted change
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
parsel = { path = "$repo/parsel" }
[workspace]
EOF
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline --quiet
timeout 100 "$tmp/target/debug/demo"
'''


def sh(cmd, cwd, env=None, quiet=True):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", dst])


def make(ident, prop, needs, breaks, edits, demo_rs, demo_sh=None):
    """edits: [(file, old, new)]"""
    d = os.path.join(S, ident)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (ident, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=w + "/r", text=True)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(demo_rs)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(ident, tree):
    m = json.load(open(os.path.join(S, ident, "meta.json")))
    rc, out = sh("bash check.sh %s" % m["property"], V, {"VREPO": tree})
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % m["property"])]
    return rc == 1 and bool(v), out


def test(ident):
    base = json.load(open("/opt/vp/BASELINE.json"))
    d = os.path.join(S, ident)
    t = "/tmp/seedwork"
    ok = True
    copy(t)
    rc, out = sh("bash %s/demo.sh" % d, t)
    print(ident, "demo clean rc", rc)
    if rc != 0:
        print(out[-1500:]); ok = False
    rc, out = sh("git apply %s/patch.diff" % d, t)
    assert rc == 0, out
    rc, out = sh("CARGO_TARGET_DIR=%s/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8" % t, t)
    fails = [l for l in out.splitlines() if l.endswith("FAILED") or l.startswith("error")]
    print(ident, "tests rc", rc, fails[:6])
    ok = ok and rc == 0
    rc, out = sh("bash %s/demo.sh" % d, t)
    print(ident, "demo patched rc", rc, out.strip().splitlines()[-3:])
    nocompile = "could not compile" in out and "compile" not in json.load(open(d + "/meta.json"))["needs"]
    ok = ok and rc != 0 and not nocompile
    c, out = check(ident, t)
    print(ident, "CAUGHT" if c else "MISSED", out.strip().splitlines()[:3])
    shutil.rmtree(t)
    return ok, c


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "test":
        for i in a[1:]:
            print("=> %s valid=%s caught=%s" % ((i,) + test(i)))
    else:
        ids = sorted(os.listdir(S)) if a[0] == "all" else a[1:]
        for i in ids:
            t = "/tmp/seedwork"
            shutil.rmtree(t, ignore_errors=True)
            subprocess.check_call(["git", "clone", "-q", "/repo", t])
            sh("git apply %s/patch.diff" % os.path.join(S, i), t)
            c, out = check(i, t)
            print(i, "CAUGHT" if c else "MISSED", "" if c else out[-400:])
            shutil.rmtree(t)
