"""Builds: the driver, the dependencies (once), and on every run parsel_derive + parsel + a witness
crate from the current working tree of /repo, with the real compiler."""
import glob
import hashlib
import json
import os
import shlex
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EDITION = "2021"


class BuildError(Exception):
    pass


def _run(cmd, cwd=None, env=None, check=True, input=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, input=input)
    if check and p.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd[:6]), p.stderr[-4000:]))
    return p


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return _sysroot


def base_env():
    e = dict(os.environ)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTC_BOOTSTRAP", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _stamp(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(sysroot().encode())
    h.update(b"v4")
    return h.hexdigest()


def ensure_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "vdriver")
    st = os.path.join(BUILD, "vdriver.stamp")
    want = _stamp(src)
    if os.path.exists(out) and os.path.exists(st) and open(st).read() == want:
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="drv", dir=BUILD)
    try:
        _run(["rustc", "+nightly", "-O", "--edition", "2021", "-A", "warnings", "-o", os.path.join(tmp, "vdriver"), src], env=base_env())
        os.replace(os.path.join(tmp, "vdriver"), out)
        with open(st, "w") as f:
            f.write(want)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def ensure_deps(which):
    """which: rt | mac.  Returns {crate name: rlib path} and the list of -L directories."""
    src = os.path.join(VERIF, "deps", which)
    meta = os.path.join(BUILD, "deps_%s.json" % which)
    want = _stamp(os.path.join(src, "Cargo.toml"), os.path.join(src, "Cargo.lock"))
    if os.path.exists(meta):
        m = json.load(open(meta))
        if m.get("stamp") == want and all(os.path.exists(p) for p in m["externs"].values()):
            return m
    os.makedirs(BUILD, exist_ok=True)
    env = base_env()
    env["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-opt-level=0"
    td = os.path.join(BUILD, "deps_%s" % which)
    work = tempfile.mkdtemp(prefix="deps", dir=BUILD)
    try:
        proj = os.path.join(work, "p")
        shutil.copytree(src, proj)
        p = _run(["cargo", "+nightly", "build", "--offline", "-v", "--target-dir", td], cwd=proj, env=env)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    externs, dirs = {}, []
    for line in p.stderr.splitlines():
        if "--crate-name deps_%s " % which in line:
            toks = shlex.split(line.strip().replace("Running `", "").rstrip("`"))
            for i, x in enumerate(toks):
                if x == "--extern":
                    k, v = toks[i + 1].split(":")[-1].split("=", 1)
                    externs[k] = v.rsplit(".", 1)[0] + ".rlib"
                if x == "-L":
                    dirs.append(toks[i + 1].split("=", 1)[1])
    if not externs:
        raise BuildError("dependency build: no extern crates reported\n" + p.stderr[-2000:])
    m = {"stamp": want, "externs": externs, "dirs": dirs}
    with open(meta + ".tmp", "w") as f:
        json.dump(m, f)
    os.replace(meta + ".tmp", meta)
    return m


def setup():
    ensure_driver()
    ensure_deps("rt")
    ensure_deps("mac")


LINT = ["--cap-lints", "allow"]


def _externs(m, names):
    a = []
    for n in names:
        a += ["--extern", "%s=%s" % (n, m["externs"][n]), "--extern", "%s=%s" % (n, m["externs"][n][:-5] + ".rmeta")]
    for d in m["dirs"] + sorted({os.path.dirname(p) for p in m["externs"].values()}):
        a += ["-L", "dependency=" + d]
    return a


def derive_args(m, src, opt=True):
    return (["--crate-name", "parsel_derive", "--edition", EDITION, "--crate-type", "proc-macro"]
            + LINT + ["-C", "prefer-dynamic", "--extern", "proc_macro"] + _externs(m, ["proc_macro2", "syn", "quote", "deluxe"]) + [src])


def derive_env(repo):
    e = base_env()
    e["CARGO_MANIFEST_DIR"] = os.path.join(repo, "parsel_derive")
    e["CARGO_PKG_NAME"] = "parsel_derive"
    e["CARGO_CRATE_NAME"] = "parsel_derive"
    return e


class Tree:
    """One build of the tree under test, in a scratch directory."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        setup()
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="work", dir=BUILD)
        self.rt = ensure_deps("rt")
        self.mac = ensure_deps("mac")
        self.derive = None
        self.parsel = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def build_derive(self):
        src = os.path.join(self.repo, "parsel_derive", "src", "lib.rs")
        _run(["rustc", "+nightly"] + derive_args(self.mac, src) + ["--emit", "link", "--out-dir", self.dir], env=derive_env(self.repo))
        self.derive = os.path.join(self.dir, "libparsel_derive.so")

    def parsel_env(self):
        e = base_env()
        e["CARGO_MANIFEST_DIR"] = os.path.join(self.repo, "parsel")
        e["CARGO_PKG_NAME"] = "parsel"
        e["CARGO_CRATE_NAME"] = "parsel"
        return e

    def build_parsel(self):
        if self.derive is None:
            self.build_derive()
        src = os.path.join(self.repo, "parsel", "src", "lib.rs")
        a = (["--crate-name", "parsel", "--edition", EDITION, "--crate-type", "lib"] + LINT
             + ["--extern", "parsel_derive=" + self.derive] + _externs(self.rt, ["proc_macro2", "syn", "quote", "ordered_float"])
             + ["-Zalways-encode-mir", "-Zmir-opt-level=0", "--emit", "metadata,link", "--out-dir", self.dir, src])
        _run(["rustc", "+nightly"] + a, env=self.parsel_env())
        self.parsel = os.path.join(self.dir, "libparsel.rlib")

    def witness_args(self, src, name="witness", extra=()):
        if self.parsel is None:
            self.build_parsel()
        return (["--crate-name", name, "--edition", EDITION, "--crate-type", "lib"] + LINT
                + ["--extern", "parsel=" + self.parsel, "--extern", "parsel_derive=" + self.derive, "-L", "dependency=" + self.dir]
                + _externs(self.rt, ["proc_macro2", "syn", "quote", "ordered_float"])
                + ["-Zalways-encode-mir", "-Zmir-opt-level=0"] + list(extra) + [src])

    def compile(self, src, name="witness", extra=(), emit="metadata"):
        """Type-check a crate; returns (ok, json diagnostics)."""
        p = _run(["rustc", "+nightly"] + self.witness_args(src, name, extra) + ["--error-format=json", "--emit", emit, "--out-dir", self.dir],
                 env=base_env(), check=False)
        ds = []
        for line in p.stderr.splitlines():
            try:
                ds.append(json.loads(line))
            except ValueError:
                ds.append({"level": "error", "message": line, "code": None, "spans": []})
        return p.returncode == 0, ds

    def serve(self, src, name="witness", extra=()):
        return Server(["%s/vdriver" % BUILD, "--sysroot", sysroot()] + self.witness_args(src, name, extra) + ["--emit", "metadata", "--out-dir", self.dir], base_env())

    def serve_parsel(self):
        """the library itself as the crate being compiled"""
        if self.derive is None:
            self.build_derive()
        src = os.path.join(self.repo, "parsel", "src", "lib.rs")
        a = (["--crate-name", "parsel", "--edition", EDITION, "--crate-type", "lib"] + LINT
             + ["--extern", "parsel_derive=" + self.derive] + _externs(self.rt, ["proc_macro2", "syn", "quote", "ordered_float"])
             + ["-Zalways-encode-mir", "-Zmir-opt-level=0", "--emit", "metadata", "--out-dir", os.path.join(self.dir), src])
        return Server(["%s/vdriver" % BUILD, "--sysroot", sysroot()] + a, self.parsel_env())

    def serve_derive(self):
        src = os.path.join(self.repo, "parsel_derive", "src", "lib.rs")
        return Server(["%s/vdriver" % BUILD, "--sysroot", sysroot()] + derive_args(self.mac, src) + ["-Zalways-encode-mir", "-Zmir-opt-level=0", "--emit", "metadata", "--out-dir", self.dir], derive_env(self.repo))


class Server:
    def __init__(self, args, env):
        env = dict(env)
        env["VDRIVER_SERVE"] = "1"
        self.err = tempfile.TemporaryFile(mode="w+")
        self.p = subprocess.Popen(args, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True)
        l = self.p.stdout.readline()
        if l.strip() != '"READY"':
            self.p.wait()
            self.err.seek(0)
            raise BuildError("analysis front end failed:\n" + self.err.read()[-6000:])
        self.bodies = {}
        self.tys = {}

    def ask(self, q):
        self.p.stdin.write(q + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            self.err.seek(0)
            raise BuildError("server died on %r: %s" % (q, self.err.read()[-3000:]))
        return json.loads(l)

    def body(self, i):
        b = self.bodies.get(i)
        if b is None:
            b = self.bodies[i] = self.ask("body %d" % i)
        return b

    def ty(self, t, root):
        b = self.tys.get(t)
        if b is None:
            b = self.tys[t] = self.ask("ty %d %d" % (t, root))
            b["id"] = t
        return b

    def fns(self, c):
        return self.ask("fns " + c)

    def impls(self, c):
        return self.ask("impls " + c)

    def close(self):
        try:
            self.p.stdin.write("quit\n")
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()
            self.p.wait()
